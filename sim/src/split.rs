//! C19: the same stretch of time, cut into blocks in different ways, for every built-in unit
//! generator and wrapper. One run simulates one unit generator on several time lines which only
//! differ in how time is cut: frame by frame, in blocks of different sizes, with additional cuts, and
//! with the changes delayed within blocks by the sample accurate timing wrapper.
use crate::alloc::{self, pause, sut_audio};
use crate::rng::{Rng, hash};
use crate::trace::{Op, Outcome, Trace, Violation};
use crate::ugens::{self, Dyn, K, PRECISE_CAP, UGENS, WR_AR, WR_MATH, WR_PRECISE, WR_SMOOTH};
use knaster_core::{AudioCtx, Block, Float, PInteger, ParameterSmoothing, ParameterValue, Rate, UGenFlags, VecBlock, log::ArLogSender};

pub fn val(kind: i64, v: i64) -> ParameterValue {
    match kind {
        0 => ParameterValue::Float(v as f64 * 1e-6),
        1 => ParameterValue::Trigger,
        2 => ParameterValue::Integer(PInteger(v as usize)),
        3 => ParameterValue::Bool(v != 0),
        4 => ParameterValue::Smoothing(ParameterSmoothing::None, Rate::AudioRate),
        _ => ParameterValue::Smoothing(ParameterSmoothing::Linear(v as f32 * 1e-6), Rate::AudioRate),
    }
}
pub fn generate(prop: &str, seed: u64) -> Trace {
    let mut r = Rng::new(hash(&[seed, 0x5711]));
    let mut t = Trace { prop: prop.into(), engine: "split".into(), seed, ..Default::default() };
    let id = (seed % (UGENS.len() as u64 + 6)) as usize;
    let (id, math) = if id >= UGENS.len() { (UGENS.len() - 1, WR_MATH) } else { (id, 0) };
    let (name, params, np) = UGENS[id];
    t.set("ugen", id as i64);
    let wrap = if params.is_empty() { [0, WR_PRECISE][r.below(2) as usize] } else { r.below(8) as i64 } | math;
    t.set("wrap", wrap);
    let sr = [8000, 44100, 48000, 96000][r.below(4) as usize];
    t.set("sr", sr);
    t.set("f64", r.chance(1, 3) as i64);
    let long = if r.chance(1, 8) { 3000 } else { 500 };
    let frames = if name == "galactic" && r.chance(1, 2) { 6000 + r.below(12000) } else { 40 + r.below(long) } as i64;
    t.set("frames", frames);
    t.set("input", r.below(8) as i64);
    let u = |r: &mut Rng, a: f64, b: f64| ((a + (b - a) * r.unit()) * 1e6) as i64;
    let args: Vec<i64> = if math != 0 {
        vec![r.below(9) as i64 * 1_000_000, u(&mut r, -3.0, 3.0)]
    } else {
        match name {
            "buffer1" | "buffer2" => vec![
                (1 + r.below(600) as i64) * 1_000_000,
                [sr, 8000, 44100, 22050][r.below(4) as usize] * 1_000_000,
                if r.chance(1, 3) { 1_000_000 } else { u(&mut r, 0.1, 3.0) },
                r.chance(1, 3) as i64 * 1_000_000,
                if r.chance(1, 2) { 0 } else { u(&mut r, 0.0, 0.01) },
            ],
            "static_delay" | "static_hand" => vec![(1 + r.below(80) as i64) * 1_000_000],
            "sample_delay" | "allpass_delay" | "allpass_feedback_delay" | "allpass_hand" | "allpass_feedback_hand" => vec![u(&mut r, 0.0005, 0.02)],
            "envelope" => vec![
                u(&mut r, -1.0, 1.0),
                (1 + r.below(5) as i64) * 1_000_000,
                u(&mut r, 0.00002, 0.004),
                u(&mut r, 0.2, 3.0),
                r.chance(1, 3) as i64 * 1_000_000,
            ],
            "polyblep" | "polyblep_hand" => vec![u(&mut r, 1.0, 12000.0), r.below(14) as i64 * 1_000_000],
            "svf" => vec![u(&mut r, 20.0, sr as f64 * 0.45), u(&mut r, 0.1, 10.0), u(&mut r, -12.0, 12.0), r.below(9) as i64 * 1_000_000],
            _ => (0..np)
                .map(|i| match params.get(i) {
                    Some(K::F(a, b)) => u(&mut r, *a, *b),
                    _ => 0,
                })
                .collect(),
        }
    };
    for (i, a) in args.iter().enumerate() {
        t.set(&format!("arg{i}"), *a);
    }
    if wrap & WR_AR != 0 {
        // parameters which are driven by a signal
        for (i, k) in params.iter().enumerate() {
            if matches!(k, K::F(..)) && r.chance(1, 2) {
                t.set(&format!("ar{i}"), 1);
            }
        }
    }
    let mut evs = vec![];
    if !params.is_empty() {
        let n = r.below(14);
        let mut f = if r.chance(1, 2) { 0 } else { r.below(frames as u64) };
        for _ in 0..n {
            let p = r.below(params.len() as u64) as usize;
            let mut o = match params[p] {
                K::F(..) if wrap & WR_SMOOTH != 0 && r.chance(1, 4) => {
                    if r.chance(1, 4) {
                        Op::new("ev", &[f as i64, p as i64, 4, 0])
                    } else {
                        Op::new("ev", &[f as i64, p as i64, 5, u(&mut r, 0.0, 0.004)])
                    }
                }
                K::F(a, b) => Op::new("ev", &[f as i64, p as i64, 0, u(&mut r, a, b)]),
                K::T => Op::new("ev", &[f as i64, p as i64, 1, 0]),
                K::I(m) => Op::new("ev", &[f as i64, p as i64, 2, r.below(m as u64 + 1) as i64]),
                K::B => Op::new("ev", &[f as i64, p as i64, 3, r.below(2) as i64]),
            };
            o.args[0] = o.args[0].min(frames - 1);
            evs.push(o);
            f += [0, 1, 2, r.below(16), r.below(16), r.below(100)][r.below(6) as usize];
        }
    }
    t.steps = evs;
    // how time is cut: block size, kind of cuts
    for _ in 0..2 + r.below(3) {
        let bs = [1, 2, 3, 4, 7, 8, 16, 16, 32, 64, 64, 100, 128, 1 + r.below(256) as i64][r.below(14) as usize];
        let kind = if wrap & WR_PRECISE != 0 && r.chance(2, 3) { 3 } else { r.below(3) as i64 };
        t.steps.push(Op::new("cut", &[bs, kind, r.below(1 << 20) as i64]));
    }
    t
}
pub struct Line {
    pub outs: Vec<Vec<f64>>,
    /// Per processed block: (first frame, end, done, remove graph)
    pub marks: Vec<(usize, usize, Option<usize>, Option<usize>)>,
    pub bad: Option<(&'static str, String)>,
    pub blocks: u64,
}
pub fn input<F: Float>(kind: i64, ch: usize, frame: usize) -> F {
    let h = hash(&[0x1177, ch as u64, frame as u64]);
    let noise = (h & 0xffff) as f64 / 32768.0 - 1.0;
    F::new(match kind {
        0 => (frame == 0) as u8 as f64,
        1 => (frame % 50 == ch * 3) as u8 as f64 * 0.5,
        2 => ((frame as f64) * 0.05 * (ch + 1) as f64).sin(),
        3 => noise * 100.0,
        4 => 0.0,
        5 => noise.abs() + 0.1,
        8 => match h >> 20 & 15 {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => f64::NEG_INFINITY,
            3 => 0.0,
            4 => -0.0,
            5 => noise * 1e30,
            6 => noise * 1e-38,
            7 => (noise * 8.0).round(),
            8 => 1.0,
            9 => -1.0,
            _ => noise * 3.0,
        },
        9 => 1.0,
        10 => frame as f64 * 0.01,
        _ => noise,
    })
}
/// The signal which drives a parameter
pub fn driven(p: usize, a: f64, b: f64, frame: usize) -> f64 {
    let x = (frame as f64 * 0.013 * (p + 1) as f64).sin() * 0.5 + 0.5;
    // rounded to single precision, so that both kinds of samples agree
    (a + (b - a) * x) as f32 as f64
}
const SENT: f64 = 98765.0;
pub struct Cut {
    pub bs: usize,
    pub kind: i64,
    pub seed: u64,
}
pub fn line<F: Float>(t: &Trace, cut: &Cut, evs: &[&Op]) -> Line {
    let frames = t.get("frames", 1).max(1) as usize;
    let sr = t.get("sr", 48000) as u32;
    let wrap = t.get("wrap", 0);
    let args: Vec<f64> = (0..6).map(|i| t.get(&format!("arg{i}"), 0) as f64 * 1e-6).collect();
    let id = t.get("ugen", 0) as usize % UGENS.len();
    let params = UGENS[id].1;
    let mut u: Box<dyn Dyn<F>> = ugens::make(id, &args, wrap);
    let (ni, no) = (u.ins(), u.outs());
    let bs = cut.bs;
    let mut ctx = AudioCtx::new(sr, bs, ArLogSender::non_rt());
    u.init(sr, bs);
    let mut out = Line { outs: vec![vec![]; no], marks: vec![], bad: None, blocks: 0 };
    let mut inb = VecBlock::<F>::new(ni, bs);
    let mut outb = VecBlock::<F>::new(no, bs);
    let ars: Vec<usize> = (0..params.len()).filter(|i| wrap & WR_AR != 0 && t.get(&format!("ar{i}"), 0) != 0).collect();
    let mut arb: Vec<Vec<F>> = ars.iter().map(|_| vec![F::ZERO; bs]).collect();
    for (k, p) in ars.iter().enumerate() {
        u.ar(&mut ctx, *p, arb[k].as_mut_ptr());
    }
    let mut ei = 0;
    let mut start = 0;
    let mut r = Rng::new(cut.seed);
    while start < frames {
        let mut flags = UGenFlags::new();
        let meta = {
            let mut m = knaster_core::BlockMetadata::new(bs);
            m.set_frame_clock(start as u64);
            m
        };
        ctx.block = meta;
        out.blocks += 1;
        for c in 0..ni {
            for (i, s) in inb.channel_as_slice_mut(c).iter_mut().enumerate() {
                *s = input(t.get("input", 0), c, start + i);
            }
        }
        for c in 0..no {
            outb.channel_as_slice_mut(c).fill(F::new(SENT));
        }
        for (k, p) in ars.iter().enumerate() {
            let K::F(a, b) = params[*p] else { continue };
            for i in 0..bs {
                arb[k][i] = F::new(driven(*p, a, b, start + i));
            }
        }
        let end = start + bs;
        let mut at = 0;
        if cut.kind == 3 {
            let mut n = 0;
            while ei < evs.len() && (evs[ei].a(0) as usize) < end {
                let e = evs[ei];
                let d = (e.a(0) as usize).max(start) - start;
                if d > 0 {
                    n += 1;
                    if n > PRECISE_CAP {
                        // more than the wrapper was made for
                        out.bad = Some(("skip", String::new()));
                        return out;
                    }
                }
                sut_audio(|| {
                    u.delay(&mut ctx, e.a(1) as usize, d as u16);
                    u.apply(&mut ctx, e.a(1) as usize, val(e.a(2), e.a(3)));
                });
                ei += 1;
            }
            sut_audio(|| u.block(&mut ctx, &mut flags, &inb, &mut outb));
            at = bs;
        }
        while at < bs {
            while ei < evs.len() && evs[ei].a(0) as usize <= start + at {
                let e = evs[ei];
                sut_audio(|| u.apply(&mut ctx, e.a(1) as usize, val(e.a(2), e.a(3))));
                ei += 1;
            }
            let mut len = bs - at;
            if ei < evs.len() && (evs[ei].a(0) as usize) < start + bs {
                len = evs[ei].a(0) as usize - start - at;
            }
            if cut.kind == 1 {
                len = 1;
            } else if cut.kind == 2 && len > 1 && r.chance(2, 3) {
                len = 1 + r.below(len as u64) as usize;
            }
            ctx.block = if len == bs { meta } else { meta.make_partial(at, len) };
            if cut.kind == 1 {
                let i: Vec<F> = (0..ni).map(|c| inb.read(c, at)).collect();
                let o = u.frame(&mut ctx, &mut flags, &i);
                for (c, v) in o.into_iter().enumerate() {
                    outb.write(v, c, at);
                }
            } else if len == bs {
                sut_audio(|| u.block(&mut ctx, &mut flags, &inb, &mut outb));
            } else {
                // nothing outside of the part may be read or written
                let mut poisoned = VecBlock::<F>::new(ni, bs);
                for c in 0..ni {
                    let s = poisoned.channel_as_slice_mut(c);
                    s.fill(F::new(f64::NAN));
                    s[at..at + len].copy_from_slice(&inb.channel_as_slice(c)[at..at + len]);
                }
                let before: Vec<Vec<F>> = (0..no).map(|c| outb.channel_as_slice(c).to_vec()).collect();
                sut_audio(|| u.partial(&mut ctx, &mut flags, &poisoned, &mut outb, at, len));
                for (c, b) in before.iter().enumerate() {
                    for (i, x) in b.iter().enumerate() {
                        if (i < at || i >= at + len) && Float::to_f64(outb.read(c, i)).to_bits() != Float::to_f64(*x).to_bits() {
                            out.bad = Some(("outside", format!("frame {} changed while the frames {}..{} were processed", start + i, start + at, start + at + len)));
                            return out;
                        }
                    }
                }
            }
            at += len;
        }
        for c in 0..no {
            out.outs[c].extend(outb.channel_as_slice(c).iter().map(|x| Float::to_f64(*x)));
        }
        let d = flags.done().map(|f| start + f as usize);
        let g = flags.remove_graph().map(|f| start + f as usize);
        out.marks.push((start, end, d, g));
        start = end;
    }
    out
}
pub fn run(t: &Trace) -> Outcome {
    if t.get("f64", 0) != 0 { run_f::<f64>(t) } else { run_f::<f32>(t) }
}
fn close(a: f64, b: f64, eps: f64) -> bool {
    a.to_bits() == b.to_bits() || a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= eps * (1.0 + a.abs().max(b.abs()))
}
fn run_f<F: Float>(t: &Trace) -> Outcome {
    let mut o = Outcome::default();
    alloc::quarantine_start();
    let r = std::panic::catch_unwind(|| pause(|| run_lines::<F>(t, &mut Outcome::default())));
    let c = alloc::quarantine_end();
    match r {
        Ok(x) => o = x,
        Err(_) => {
            let msg = crate::panic_message();
            o.violation = Some(Violation { class: "panic", detail: format!("{}: {msg}", UGENS[t.get("ugen", 0) as usize % UGENS.len()].0) });
        }
    }
    if o.violation.is_none() && c.0 + c.1 > 0 {
        o.violation = Some(Violation { class: "corrupt", detail: format!("{} writes beyond an allocation, {} writes to freed memory", c.0, c.1) });
    }
    o
}
fn run_lines<F: Float>(t: &Trace, _: &mut Outcome) -> Outcome {
    let mut o = Outcome::default();
    let frames = t.get("frames", 1).max(1) as usize;
    let name = UGENS[t.get("ugen", 0) as usize % UGENS.len()].0;
    let mut evs: Vec<&Op> = t.steps.iter().filter(|s| s.name == "ev").collect();
    evs.sort_by_key(|e| e.a(0));
    let eps = if t.get("f64", 0) != 0 { 1e-9 } else { 1e-5 };
    // Frame by frame
    let one = line::<F>(t, &Cut { bs: 1, kind: 1, seed: 0 }, &evs);
    let mut lines = vec![];
    for c in t.steps.iter().filter(|s| s.name == "cut") {
        let cut = Cut { bs: c.a(0).clamp(1, 4096) as usize, kind: c.a(1), seed: c.a(2) as u64 };
        o.fault(match cut.kind {
            0 => "whole_blocks",
            1 => "single_frames",
            2 => "random_cuts",
            _ => "delayed_changes",
        });
        lines.push((c.text(), line::<F>(t, &cut, &evs)));
    }
    o.faultn("parameter_change", evs.len() as u64);
    for e in &evs {
        if e.a(2) >= 4 {
            o.fault("smoothing_change");
        }
    }
    let fail = |o: &mut Outcome, class: &'static str, d: String| {
        if o.violation.is_none() {
            o.violation = Some(Violation { class, detail: format!("{name} (wrappers {}): {d}", t.get("wrap", 0)) });
        }
    };
    for (cut, l) in &lines {
        o.inter = hash(&[o.inter, crate::sim::str_hash(cut), evs.len() as u64]);
        o.blocks += l.blocks;
        match &l.bad {
            Some(("skip", _)) => continue,
            Some((c, d)) => {
                fail(&mut o, c, format!("{cut}: {d}"));
                continue;
            }
            None => (),
        }
        'ch: for (c, s) in l.outs.iter().enumerate() {
            for f in 0..frames {
                o.evals += 1;
                let (a, b) = (one.outs[c][f], s[f]);
                if !close(a, b, eps) {
                    fail(&mut o, "split", format!("frame {f} of output {c} is {b} with `{cut}`, but {a} frame by frame"));
                    break 'ch;
                }
            }
        }
        for &(s, e, d, g) in &l.marks {
            if e > frames {
                continue;
            }
            let dd = one.marks[s..e].iter().filter_map(|m| m.2).min();
            let gg = one.marks[s..e].iter().filter_map(|m| m.3).min();
            if d.is_some() {
                o.fault("done");
            }
            if d != dd || g != gg {
                fail(&mut o, "done", format!("in the frames {s}..{e} with `{cut}` it is done at {d:?} (removes its graph at {g:?}), but frame by frame at {dd:?} ({gg:?})"));
            }
        }
    }
    for c in &one.outs {
        for x in c {
            o.hash = hash(&[o.hash, x.to_bits()]);
        }
    }
    o.blocks += one.blocks;
    o.frames = frames as u64 * (1 + lines.len() as u64);
    o.points = evs.len() as u64;
    o.sim_ns = o.frames * 1_000_000_000 / t.get("sr", 48000) as u64;
    o
}
