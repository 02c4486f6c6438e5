mod alloc;
mod dot;
mod driver;
mod expr;
mod file;
mod logs;
mod macros;
mod model;
mod plans;
mod probe;
mod rng;
mod shapes;
mod sim;
mod smooth;
mod split;
mod tone;
mod stream;
mod times;
mod trace;
mod ugens;
mod world;
mod worldgen;
use trace::{Outcome, Trace, Violation};

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // Formatting must work whatever is logged
        use std::fmt::Write;
        struct N;
        impl Write for N {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = write!(N, "{}", r.args());
        if std::env::var("KNSIM_LOG").is_ok() {
            alloc::pause(|| eprintln!("log: {}", r.args()));
        }
    }
    fn flush(&self) {}
}
static mut PANIC: Option<String> = None;

pub fn panic_message() -> String {
    alloc::reset_flags();
    unsafe { (*std::ptr::addr_of_mut!(PANIC)).take().unwrap_or_default() }
}
fn run_world<F: knaster_core::Float>(t: &Trace) -> Outcome {
    sim::start();
    alloc::quarantine_start();
    let r = std::panic::catch_unwind(|| {
        let mut w = world::World::<F>::new(t);
        for op in &t.steps {
            w.step(op);
            if std::env::var("KNSIM_TRACE").is_ok() {
                eprintln!("after {} : {} blocks", op.text(), w.out.blocks);
            }
            if w.stop {
                break;
            }
        }
        if !w.stop {
            w.finish(t.get("end", 0) as u64);
        }
        let mut out = std::mem::take(&mut w.out);
        if w.stop {
            w.forget();
        }
        let g = sim::g();
        out.hash = g.hash;
        out.inter = g.inter;
        out.points = g.points;
        out.switches = g.switches;
        out.sim_ns = (out.frames as u128 * 1_000_000_000 / t.get("sr", 48000) as u128) as u64;
        out
    });
    let mut out = match r {
        Ok(o) => o,
        Err(_) => {
            let msg = panic_message();
            let mut o = Outcome::default();
            o.violation = Some(Violation { class: "panic", detail: msg });
            return o;
        }
    };
    let ok = out.violation.is_none() && out.other == 0;
    if ok {
        sim::stop();
        let c = alloc::quarantine_end();
        if c.0 + c.1 > 0 {
            out.violation = Some(Violation { class: "corrupt", detail: format!("{} writes beyond an allocation, {} writes to freed memory", c.0, c.1) });
        }
    }
    out
}
pub fn generate(prop: &str, seed: u64) -> Trace {
    match prop {
        "C13" if seed % 3 != 0 => logs::generate(prop, seed),
        "C20" => file::generate(prop, seed),
        "C23" => expr::generate(prop, seed),
        "C21" => stream::generate(prop, seed),
        "C18" => smooth::generate(prop, seed),
        "C19" => split::generate(prop, seed),
        "C24" => tone::generate(prop, seed),
        "C25" => times::generate(prop, seed),
        "C26" => macros::generate(prop, seed),
        _ => worldgen::generate(prop, seed),
    }
}
/// May minimisation make this argument smaller?
pub fn shrinkable(op: &str, i: usize) -> bool {
    matches!((op, i), ("blocks", 0) | ("yields", 0) | ("poll", _))
}
pub fn run(t: &Trace) -> Outcome {
    match t.engine.as_str() {
        "smooth" => return smooth::run(t),
        "split" => return split::run(t),
        "tone" => return tone::run(t),
        "times" => return times::run(t),
        "macros" => return macros::run_trace(t),
        "stream" => return stream::run(t),
        "file" => return file::run(t),
        "expr" => return expr::run(t),
        "log" => return logs::run(t),
        _ => (),
    }
    if t.get("f64", 0) != 0 { run_world::<f64>(t) } else { run_world::<f32>(t) }
}
static SINK: Sink = Sink;
fn main() {
    log::set_logger(&SINK).unwrap();
    log::set_max_level(log::LevelFilter::Error);
    knaster_graph::sim::set_hook(sim::point);
    std::panic::set_hook(Box::new(|i| {
        alloc::pause(|| {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if std::env::var("KNSIM_BT").is_ok() {
                eprintln!("{m} {l}\n{}", std::backtrace::Backtrace::force_capture());
            }
            unsafe { PANIC = Some(format!("panic at {l}: {m}")) };
        })
    }));
    alloc::TRACE.store(std::env::var_os("KNSIM_ALLOC_BT").is_some(), std::sync::atomic::Ordering::Relaxed);
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "gen" => print!("{}", generate(&a[2], a[3].parse().unwrap()).text()),
        "run" => {
            let t = Trace::parse(&std::fs::read_to_string(&a[2]).unwrap());
            let o = run(&t);
            println!("{:?}", o);
        }
        "run1" => {
            let t = Trace::parse(&std::fs::read_to_string(&a[2]).unwrap());
            let o = run(&t);
            println!("{}", driver::line(t.seed, &o));
            std::process::exit(0);
        }
        "worker" => driver::worker(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()),
        "survey" => driver::survey(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        "min" => {
            let t = if a[2].contains('/') { Trace::parse(&std::fs::read_to_string(&a[2]).unwrap()) } else { generate(&a[2], a[3].parse().unwrap()) };
            let f = format!("/tmp/knsim-min-{}", std::process::id());
            std::fs::write(&f, t.text()).unwrap();
            let r = driver::run_file(&f, std::time::Duration::from_secs(20));
            let m = driver::minimise(&t, &r.0, std::time::Duration::from_secs(30)).0;
            std::fs::write(&f, m.text()).unwrap();
            let r = driver::run_file(&f, std::time::Duration::from_secs(20));
            let _ = std::fs::remove_file(&f);
            println!("{}{}: {}", m.text(), r.0, r.1);
        }
        "replay" => std::process::exit(driver::replay(&a[2])),
        "check" => {
            let root = std::env::var("KNSIM_ROOT").unwrap_or("/verif".into());
            let (plan, info) = plans::plan(&a[2], &a[3]);
            std::process::exit(driver::check(&a[2], &a[3], &root, &plan, &info));
        }
        _ => (),
    }
}
