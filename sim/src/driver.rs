//! Runs the search: worker processes over ranges of seeds, watchdog, minimisation in fresh
//! processes, replay files and the evidence of a check.
use crate::trace::{Op, Outcome, Trace};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const RUN_LIMIT: Duration = Duration::from_secs(60);

/// How often and in how many processes
pub struct Plan {
    pub runs: u64,
    pub wall: Duration,
    pub workers: u64,
}

pub fn line(seed: u64, o: &Outcome) -> String {
    let status = match &o.violation {
        Some(v) => v.class,
        None if o.other > 0 => "other",
        None => "ok",
    };
    let f: Vec<String> = o.faults.iter().map(|(k, v)| format!("{k}={v}")).collect();
    let d = match &o.violation {
        Some(v) => v.detail.replace(['\n', '\t'], " "),
        None => String::new(),
    };
    format!(
        "E {seed} {status} {} {} {} {} {} {} {} {} {} {}\t{d}",
        o.hash,
        o.inter,
        o.blocks,
        o.frames,
        o.sim_ns,
        o.points,
        o.switches,
        o.mid_block,
        o.evals,
        if f.is_empty() { "-".into() } else { f.join(",") }
    )
}
pub struct Res {
    pub seed: u64,
    pub status: String,
    pub hash: u64,
    pub inter: u64,
    pub n: [u64; 7],
    pub faults: Vec<(String, u64)>,
    pub detail: String,
}
fn parse(l: &str) -> Option<Res> {
    let (a, d) = l.split_once('\t')?;
    let w: Vec<&str> = a.split(' ').collect();
    if w.len() != 13 || w[0] != "E" {
        return None;
    }
    let mut n = [0; 7];
    for i in 0..7 {
        n[i] = w[5 + i].parse().ok()?;
    }
    Some(Res {
        seed: w[1].parse().ok()?,
        status: w[2].into(),
        hash: w[3].parse().ok()?,
        inter: w[4].parse().ok()?,
        n,
        faults: w[12].split(',').filter_map(|x| x.split_once('=')).filter_map(|(k, v)| Some((k.to_string(), v.parse().ok()?))).collect(),
        detail: d.into(),
    })
}
fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}
/// Worker process: runs `lo`, `lo + step`, ... below `hi` until something other than "ok" happens
pub fn worker(prop: &str, lo: u64, hi: u64, step: u64) {
    let mut s = lo;
    let out = std::io::stdout();
    let mut n = 0;
    while s < hi {
        {
            let mut o = out.lock();
            writeln!(o, "B {s}").unwrap();
            o.flush().unwrap();
        }
        let t = crate::generate(prop, s);
        let o = crate::run(&t);
        {
            let mut w = out.lock();
            writeln!(w, "{}", line(s, &o)).unwrap();
            w.flush().unwrap();
        }
        n += 1;
        if o.violation.is_some() || o.other > 0 || o.abandoned || n >= 3000 {
            break;
        }
        s += step;
    }
    std::process::exit(0);
}
fn spawn_worker(prop: &str, lo: u64, hi: u64, step: u64) -> Child {
    Command::new(exe())
        .args(["worker", prop, &lo.to_string(), &hi.to_string(), &step.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .stdin(Stdio::null())
        .spawn()
        .unwrap()
}
fn end_class(st: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match st.signal() {
        Some(s) => format!("crash-signal-{s}"),
        None => format!("exit-{}", st.code().unwrap_or(-1)),
    }
}
/// One run in a process of its own: (status, detail, hash)
pub fn run_file(path: &str, limit: Duration) -> (String, String, u64) {
    let mut c = Command::new(exe()).args(["run1", path]).stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null()).spawn().unwrap();
    let so = c.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut v = vec![];
        for l in BufReader::new(so).lines().map_while(Result::ok) {
            v.push(l);
        }
        v
    });
    let start = Instant::now();
    let mut nap = 200;
    let st = loop {
        match c.try_wait().unwrap() {
            Some(s) => break Some(s),
            None => {
                if start.elapsed() > limit {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 2).min(5000);
            }
        }
    };
    let lines = h.join().unwrap();
    if let Some(r) = lines.iter().find_map(|l| parse(l)) {
        return (r.status, r.detail, r.hash);
    }
    match st {
        None => ("hang".into(), "no end after the time limit".into(), 0),
        Some(s) => (end_class(&s), "the process ended before the run did".into(), 0),
    }
}
pub struct Found {
    pub seed: u64,
    pub class: String,
    pub detail: String,
}
#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub other: u64,
    pub n: [u64; 7],
    pub faults: BTreeMap<String, u64>,
    pub inter: HashSet<u64>,
    pub hashes: HashSet<u64>,
    pub first: Vec<(u64, u64)>,
}
/// Search. `all`: don't stop at the first violation (for surveys).
pub fn search(prop: &str, lo: u64, plan: &Plan, all: bool) -> (Stats, Vec<Found>) {
    let hi = lo + plan.runs;
    let stats = Arc::new(Mutex::new(Stats::default()));
    let found = Arc::new(Mutex::new(Vec::<Found>::new()));
    let stop = Arc::new(AtomicBool::new(false));
    let start = Instant::now();
    let mut hs = vec![];
    for w in 0..plan.workers {
        let (stats, found, stop, prop) = (stats.clone(), found.clone(), stop.clone(), prop.to_string());
        let (wall, step) = (plan.wall, plan.workers);
        hs.push(std::thread::spawn(move || {
            let mut next = lo + w;
            while next < hi && !stop.load(Relaxed) && start.elapsed() < wall {
                let mut c = spawn_worker(&prop, next, hi, step);
                let so = c.stdout.take().unwrap();
                let c = Arc::new(Mutex::new(c));
                // watchdog
                let last = Arc::new(AtomicU64::new(start.elapsed().as_millis() as u64));
                let over = Arc::new(AtomicBool::new(false));
                let killed = Arc::new(AtomicBool::new(false));
                let wd = {
                    let (c, last, over, killed, stop) = (c.clone(), last.clone(), over.clone(), killed.clone(), stop.clone());
                    std::thread::spawn(move || {
                        while !over.load(Relaxed) {
                            std::thread::sleep(Duration::from_millis(20));
                            let idle = start.elapsed().as_millis() as u64 - last.load(Relaxed).min(start.elapsed().as_millis() as u64);
                            let hung = idle > RUN_LIMIT.as_millis() as u64;
                            if hung || stop.load(Relaxed) || start.elapsed() > wall {
                                if hung {
                                    killed.store(true, Relaxed);
                                }
                                // Ends the stream the other thread reads
                                if !over.load(Relaxed) {
                                    let _ = c.lock().unwrap().kill();
                                }
                                return hung;
                            }
                        }
                        false
                    })
                };
                let mut cur: Option<u64> = None;
                for l in BufReader::new(so).lines().map_while(Result::ok) {
                    last.store(start.elapsed().as_millis() as u64, Relaxed);
                    if let Some(s) = l.strip_prefix("B ") {
                        cur = s.parse().ok();
                    } else if let Some(r) = parse(&l) {
                        cur = None;
                        next = r.seed + step;
                        let mut st = stats.lock().unwrap();
                        st.runs += 1;
                        for i in 0..7 {
                            st.n[i] += r.n[i];
                        }
                        for (k, v) in &r.faults {
                            *st.faults.entry(k.clone()).or_insert(0) += v;
                        }
                        st.inter.insert(r.inter);
                        st.hashes.insert(r.hash);
                        match r.status.as_str() {
                            "ok" => {
                                if st.first.len() < 48 {
                                    st.first.push((r.seed, r.hash));
                                }
                            }
                            "other" => st.other += 1,
                            _ => {
                                drop(st);
                                found.lock().unwrap().push(Found { seed: r.seed, class: r.status, detail: r.detail });
                                if !all {
                                    stop.store(true, Relaxed);
                                }
                            }
                        }
                    }
                }
                over.store(true, Relaxed);
                let st = c.lock().unwrap().wait().unwrap();
                let _ = wd.join();
                if let Some(s) = cur {
                    if killed.load(Relaxed) {
                        found.lock().unwrap().push(Found { seed: s, class: "hang".into(), detail: "no end after the time limit".into() });
                        if !all {
                            stop.store(true, Relaxed);
                        }
                    } else if stop.load(Relaxed) || start.elapsed() >= wall {
                        break;
                    } else {
                        found.lock().unwrap().push(Found { seed: s, class: end_class(&st), detail: "the process ended before the run did".into() });
                        if !all {
                            stop.store(true, Relaxed);
                        }
                    }
                    next = s + step;
                }
            }
        }));
    }
    for h in hs {
        h.join().unwrap();
    }
    let mut f = std::mem::take(&mut *found.lock().unwrap());
    f.sort_by_key(|f| f.seed);
    let s = std::mem::take(&mut *stats.lock().unwrap());
    (s, f)
}

pub struct Tester {
    dir: String,
    class: String,
    pub tries: u64,
    until: Instant,
    limit: Duration,
}
impl Tester {
    fn new(class: &str, budget: Duration) -> Self {
        let dir = format!("{}/knsim-{}", std::env::temp_dir().display(), std::process::id());
        std::fs::create_dir_all(&dir).unwrap();
        let limit = if class == "hang" { Duration::from_secs(10) } else { RUN_LIMIT };
        Self { dir, class: class.into(), tries: 0, until: Instant::now() + budget, limit }
    }
    fn out_of_time(&self) -> bool {
        Instant::now() > self.until
    }
    /// Which of the candidates fails first in the same way? Tried several at a time.
    fn first(&mut self, cands: &[Trace]) -> Option<usize> {
        for (c, chunk) in cands.chunks(8).enumerate() {
            if self.out_of_time() {
                return None;
            }
            let rs: Vec<bool> = std::thread::scope(|s| {
                let hs: Vec<_> = chunk
                    .iter()
                    .enumerate()
                    .map(|(i, t)| {
                        let p = format!("{}/{i}", self.dir);
                        let (class, limit) = (&self.class, self.limit);
                        s.spawn(move || {
                            std::fs::write(&p, t.text()).unwrap();
                            run_file(&p, limit).0 == *class
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            self.tries += chunk.len() as u64;
            if let Some(i) = rs.iter().position(|b| *b) {
                return Some(c * 8 + i);
            }
        }
        None
    }
}
impl Drop for Tester {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
fn reduce<T: Clone>(t: &mut Trace, te: &mut Tester, get: &dyn Fn(&Trace) -> Vec<T>, set: &dyn Fn(&mut Trace, Vec<T>)) -> bool {
    let mut any = false;
    let mut size = (get(t).len() / 2).max(1);
    loop {
        let v = get(t);
        if v.is_empty() || te.out_of_time() {
            return any;
        }
        let size_now = size.min(v.len());
        let mut cands = vec![];
        let mut at = vec![];
        // From the end first
        let mut i = v.len();
        while i > 0 {
            let a = i.saturating_sub(size_now);
            let mut w = v.clone();
            w.drain(a..i);
            let mut c = t.clone();
            set(&mut c, w);
            cands.push(c);
            at.push(a);
            i = a;
        }
        match te.first(&cands) {
            Some(i) => {
                *t = cands[i].clone();
                any = true;
            }
            None => {
                if size_now == 1 {
                    return any;
                }
                size = size_now / 2;
            }
        }
    }
}
/// Smallest trace found which fails in the same way
pub fn minimise(t: &Trace, class: &str, budget: Duration) -> (Trace, u64) {
    let mut te = Tester::new(class, budget);
    let mut t = t.clone();
    // Everything after the failing step first: cheap halving from the end happens in reduce
    loop {
        let before = (t.size(), t.steps.iter().map(|o| o.sched.len()).sum::<usize>());
        reduce(&mut t, &mut te, &|t| t.steps.clone(), &|t, v| t.steps = v);
        for i in 0..t.steps.len() {
            if !t.steps[i].sub.is_empty() {
                reduce(&mut t, &mut te, &|t| t.steps[i].sub.clone(), &|t, v| t.steps[i].sub = v);
            }
            if !t.steps[i].sched.is_empty() {
                let mut c = t.clone();
                c.steps[i].sched.clear();
                if te.first(std::slice::from_ref(&c)).is_some() {
                    t = c;
                } else {
                    reduce(&mut t, &mut te, &|t| t.steps[i].sched.clone(), &|t, v| t.steps[i].sched = v);
                }
            }
        }
        // smaller arguments
        for i in 0..t.steps.len() {
            let n = t.steps[i].args.len();
            for a in 0..n {
                let x = t.steps[i].args[a];
                let name: &str = &t.steps[i].name.clone();
                if x > 1 && crate::shrinkable(name, a) {
                    let mut cands = vec![];
                    for y in [0, 1, x / 2, x - 1] {
                        if y < x {
                            let mut c = t.clone();
                            c.steps[i].args[a] = y;
                            cands.push(c);
                        }
                    }
                    if let Some(k) = te.first(&cands) {
                        t = cands[k].clone();
                    }
                }
            }
        }
        if te.out_of_time() || (t.size(), t.steps.iter().map(|o| o.sched.len()).sum::<usize>()) >= before {
            break;
        }
    }
    (t, te.tries)
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).unwrap();
    let want = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("# {k}: "))).map(|s| s.to_string());
    let t = Trace::parse(&text);
    let limit = if want("class").as_deref() == Some("hang") { Duration::from_secs(10) } else { RUN_LIMIT };
    let (class, detail, hash) = run_file(path, limit);
    println!("replay of {path}: {class} {detail} (hash {hash:x})");
    if class == "ok" || class == "other" {
        println!("no violation of {} now", t.prop);
        return 0;
    }
    let same = want("class").as_deref() == Some(&class) && want("hash").as_deref() == Some(&format!("{hash:x}"));
    println!("{}", if same { "exactly the recorded violation" } else { "a violation, but not exactly the recorded one (the code has changed)" });
    println!("VIOLATION property={} replay={path}", t.prop);
    1
}
pub struct CheckInfo {
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub real: Vec<&'static str>,
    pub stub: Vec<&'static str>,
    /// What counts as a distinct interleaving
    pub measure: &'static str,
}
pub fn check(prop: &str, tier: &str, root: &str, plan: &Plan, info: &CheckInfo) -> i32 {
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    println!("check {prop} {tier}: VERIF_SEED={vseed}");
    // for the files of the worker processes
    let scratch = std::env::temp_dir().join(format!("knsim-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    // No other thread is running yet
    unsafe { std::env::set_var("KNSIM_SCRATCH", &scratch) };
    let r = check_in(prop, tier, root, plan, info, vseed);
    let _ = std::fs::remove_dir_all(&scratch);
    r
}
fn check_in(prop: &str, tier: &str, root: &str, plan: &Plan, info: &CheckInfo, vseed: u64) -> i32 {
    for l in std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default().lines() {
        if l.starts_with("KNOWN-FINDING:") && l.split_whitespace().any(|w| w == format!("property={prop}")) {
            println!("{l}");
        }
    }
    let start = Instant::now();
    let lo = vseed.wrapping_mul(1_000_000_007) & 0x0fff_ffff_ffff;
    let (mut stats, mut viols) = (Stats::default(), vec![]);
    let mut unreproduced = vec![];
    let mut from = lo;
    let mut report = None;
    let end = lo + plan.runs;
    while from < end && start.elapsed() < plan.wall {
        let p = Plan { runs: end - from, wall: plan.wall.saturating_sub(start.elapsed()), workers: plan.workers };
        let (s, f) = search(prop, from, &p, false);
        merge(&mut stats, s);
        viols = f;
        let Some(v) = viols.first() else { break };
        // In a fresh process
        let t = crate::generate(prop, v.seed);
        let dir = format!("{root}/replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = format!("{dir}/{prop}-{}.trace", v.seed);
        std::fs::write(&path, t.text()).unwrap();
        let limit = if v.class == "hang" { Duration::from_secs(20) } else { RUN_LIMIT };
        let (class, detail, _) = run_file(&path, limit);
        if class == "ok" || class == "other" {
            println!("seed {} failed ({} {}) but not in a fresh process; ignored", v.seed, v.class, v.detail);
            let _ = std::fs::remove_file(&path);
            unreproduced.push(v.seed);
            from = v.seed + 1;
            continue;
        }
        println!("seed {} violates {prop}: {class} {detail}", v.seed);
        println!("minimising ({} operations)", t.size());
        let (m, tries) = minimise(&t, &class, Duration::from_secs(if tier == "quick" { 60 } else { 300 }));
        let text = m.text();
        std::fs::write(&path, &text).unwrap();
        let (class, detail, hash) = run_file(&path, limit);
        std::fs::write(&path, format!("# class: {class}\n# detail: {detail}\n# hash: {hash:x}\n{text}")).unwrap();
        let again = run_file(&path, limit);
        println!("minimised to {} operations in {tries} runs; replayed: {}", m.size(), if again == (class.clone(), detail.clone(), hash) { "identical" } else { "NOT identical" });
        println!("{text}");
        println!("{class}: {detail}");
        report = Some((v.seed, class, detail, path));
        break;
    }
    let wall_search = start.elapsed();
    // Determinism: the same seeds again, in other processes and another order of seeds
    let mut same = 0;
    let mut differ = 0;
    if report.is_none() && stats.first.len() > 4 {
        let lo2 = stats.first.iter().map(|f| f.0).min().unwrap();
        let hi2 = stats.first.iter().map(|f| f.0).max().unwrap() + 1;
        let mut c = spawn_worker(prop, lo2, hi2.min(lo2 + 60), 1);
        let m: BTreeMap<u64, u64> = stats.first.iter().copied().collect();
        for l in BufReader::new(c.stdout.take().unwrap()).lines().map_while(Result::ok) {
            if let Some(r) = parse(&l) {
                match m.get(&r.seed) {
                    Some(h) if *h == r.hash => same += 1,
                    Some(_) => differ += 1,
                    None => (),
                }
            }
        }
        let _ = c.wait();
    }
    // Evidence
    let secs = wall_search.as_secs_f64().max(0.001);
    let names = ["blocks_rendered", "frames_rendered", "simulated_ns", "scheduling_points", "switches", "switches_within_a_block", "oracle_evaluations"];
    let mut samples = vec![];
    for (s, h) in stats.first.iter().take(3) {
        let t = crate::generate(prop, *s);
        let mut text = t.text();
        text.truncate(4000);
        samples.push(format!("{{\"seed\":{s},\"result_hash\":\"{h:x}\",\"trace\":{}}}", js(&text)));
    }
    if samples.is_empty() {
        samples.push(js(&format!("seed {lo}")));
    }
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {vseed},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"first_seed\": {lo},\n  \"runs_per_hour\": {},\n  \"simulated_seconds\": {:.3},\n  {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": {},\n  \"faults_and_situations\": {{{}}},\n  \"runs_cut_short_by_violations_of_other_properties\": {},\n  \"unreproducible\": {:?},\n  \"determinism_sample\": {{\"replayed_identically\": {same}, \"differently\": {differ}}},\n  \"real_components\": [{}],\n  \"stubbed_components\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": [{}]\n}}\n",
        js(prop),
        js(tier),
        js(info.level),
        stats.runs,
        stats.hashes.len(),
        js(&info.rule),
        samples.join(","),
        (stats.runs as f64 / secs * 3600.0) as u64,
        stats.n[2] as f64 / 1e9,
        names.iter().zip(stats.n).filter(|(n, _)| **n != "simulated_ns").map(|(n, v)| format!("\"{n}\": {v}")).collect::<Vec<_>>().join(",\n  "),
        stats.inter.len(),
        js(info.measure),
        stats.faults.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "),
        stats.other,
        unreproduced,
        info.real.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        info.stub.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        info.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        start.elapsed().as_secs_f64(),
        report.iter().map(|(s, c, d, p)| format!("{{\"seed\":{s},\"class\":{},\"detail\":{},\"replay\":{}}}", js(c), js(d), js(p))).collect::<Vec<_>>().join(", "),
    );
    std::fs::create_dir_all(format!("{root}/evidence")).unwrap();
    std::fs::write(format!("{root}/evidence/{prop}.json"), ev).unwrap();
    println!(
        "{} runs ({:.0}/h), {} blocks, {} distinct interleavings, {} distinct results, {:.1} simulated s, {} cut short by other properties, determinism {same}/{}",
        stats.runs,
        stats.runs as f64 / secs * 3600.0,
        stats.n[0],
        stats.inter.len(),
        stats.hashes.len(),
        stats.n[2] as f64 / 1e9,
        stats.other,
        same + differ
    );
    let _ = &viols;
    match report {
        Some((_, _, _, p)) => {
            println!("VIOLATION property={prop} replay={p}");
            1
        }
        None => {
            if stats.runs == 0 {
                println!("nothing was run");
                return 2;
            }
            0
        }
    }
}
fn merge(a: &mut Stats, b: Stats) {
    a.runs += b.runs;
    a.other += b.other;
    for i in 0..7 {
        a.n[i] += b.n[i];
    }
    for (k, v) in b.faults {
        *a.faults.entry(k).or_insert(0) += v;
    }
    a.inter.extend(b.inter);
    a.hashes.extend(b.hashes);
    if a.first.is_empty() {
        a.first = b.first;
    }
}
/// For development: what fails, how often
pub fn survey(prop: &str, lo: u64, n: u64) {
    let (s, f) = search(prop, lo, &Plan { runs: n, wall: Duration::from_secs(600), workers: 8 }, true);
    let mut m: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    for x in &f {
        let key = if x.class == "panic" || x.class == "model" { format!("panic {}", x.detail.chars().take(if x.class == "model" { 14 } else { 110 }).collect::<String>()) } else { x.class.clone() };
        let e = m.entry(key).or_insert((0, x.seed, x.detail.clone()));
        e.0 += 1;
    }
    for (k, (n, seed, d)) in m {
        println!("{n:6} {k}  e.g. {seed}: {}", d.chars().take(300).collect::<String>());
    }
    println!("{} runs, {} other, {} blocks, faults {:?}", s.runs, s.other, s.n[0], s.faults);
}
#[allow(unused)]
fn _unused(_: Op) {}
