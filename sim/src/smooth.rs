//! C18: smoothed parameters against a model of the ramps, under changes of values and smoothing
//! settings at any frame and any way to cut time into blocks.
use crate::alloc;
use crate::rng::{Rng, hash};
use crate::trace::{Op, Outcome, Trace, Violation};
use crate::ugens::{Dyn, PRECISE_CAP, WR_PRECISE, WR_SMOOTH, wrap};
use knaster_core::{AudioCtx, Block, BlockMetadata, Float, Frame, PInteger, ParameterHint, ParameterSmoothing, ParameterValue, Rate, UGen, UGenFlags, VecBlock, log::ArLogSender, numeric_array::NumericArray, typenum::*};

/// What the wrapped unit generator saw in every frame
#[derive(Default)]
struct Seen {
    frames: Vec<(u64, [f64; 3], usize, f64)>,
    passed: Vec<(usize, i64, i64, usize)>,
    inits: Vec<(u32, usize)>,
}
static mut SEEN: Option<Seen> = None;
#[allow(static_mut_refs)]
fn seen() -> &'static mut Seen {
    unsafe { SEEN.get_or_insert_with(Default::default) }
}
struct Rec<F> {
    v: [f64; 3],
    m: std::marker::PhantomData<F>,
}
impl<F: Float> UGen for Rec<F> {
    type Sample = F;
    type Inputs = U1;
    type Outputs = U1;
    type Parameters = U3;
    fn init(&mut self, sr: u32, bs: usize) {
        seen().inits.push((sr, bs));
    }
    fn process(&mut self, c: &mut AudioCtx, _f: &mut UGenFlags, i: Frame<F, U1>) -> Frame<F, U1> {
        seen().frames.push((c.frame_clock(), self.v, c.block_start_offset(), Float::to_f64(i[0])));
        [i[0] + F::ONE].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U3> {
        [ParameterHint::infinite_float(), ParameterHint::infinite_float(), ParameterHint::infinite_float()].into()
    }
    fn param_apply(&mut self, _c: &mut AudioCtx, i: usize, v: ParameterValue) {
        let s = seen();
        match v {
            ParameterValue::Float(f) => self.v[i] = f,
            ParameterValue::Trigger => s.passed.push((i, 1, 0, s.frames.len())),
            ParameterValue::Integer(k) => s.passed.push((i, 2, k.0 as i64, s.frames.len())),
            ParameterValue::Bool(b) => s.passed.push((i, 3, b as i64, s.frames.len())),
            ParameterValue::Smoothing(..) => s.passed.push((i, 9, 0, s.frames.len())),
        }
    }
}
/// Duration of `v` frames, a quarter of a frame away from the next whole number
fn duration(v: i64, sr: u32) -> f32 {
    if v < 0 { 0.0 } else { ((v as f64 + 0.25) / sr as f64) as f32 }
}
fn val(kind: i64, v: i64, sr: u32) -> ParameterValue {
    match kind {
        0 => ParameterValue::Float(v as f64 / 64.0),
        1 => ParameterValue::Trigger,
        2 => ParameterValue::Integer(PInteger(v as usize)),
        3 => ParameterValue::Bool(v != 0),
        4 => ParameterValue::Smoothing(ParameterSmoothing::None, Rate::AudioRate),
        5 => ParameterValue::Smoothing(ParameterSmoothing::Linear(duration(v, sr)), Rate::AudioRate),
        6 => ParameterValue::Smoothing(ParameterSmoothing::None, Rate::BlockRate),
        _ => ParameterValue::Smoothing(ParameterSmoothing::Linear(duration(v, sr)), Rate::BlockRate),
    }
}
pub fn generate(prop: &str, seed: u64) -> Trace {
    let mut r = Rng::new(hash(&[seed, 0x5300]));
    let mut t = Trace { prop: prop.into(), engine: "smooth".into(), seed, ..Default::default() };
    t.set("sr", [8000, 44100, 48000, 96000][r.below(4) as usize]);
    t.set("f64", r.chance(1, 2) as i64);
    t.set("wrap", WR_SMOOTH | if r.chance(1, 2) { WR_PRECISE } else { 0 } | if r.chance(1, 4) { crate::ugens::WR_AR } else { 0 });
    let frames = 30 + r.below(if seed % 9 == 0 { 4000 } else { 600 }) as i64;
    t.set("frames", frames);
    let np = 1 + r.below(3);
    // a parameter's value is known to the wrapper once it has been set
    for p in 0..np {
        t.steps.push(Op::new("ev", &[0, p as i64, 0, r.range(-64, 64)]));
    }
    let mut f = 0i64;
    let n = 1 + r.below(16);
    for k in 0..n {
        let p = r.below(np) as i64;
        let len = |r: &mut Rng| match r.below(10) {
            0 => -1,
            1 => 0,
            2 => 1,
            3 => 1_000_000 + r.below(1_000_000) as i64,
            4 | 5 => r.below(8) as i64,
            6 | 7 => r.below(64) as i64,
            _ => r.below(frames as u64) as i64,
        };
        let kind = if k < 2 && r.chance(2, 3) { 5 + 2 * r.below(2) as i64 } else { r.weighted(&[10, 1, 1, 1, 2, 5, 2, 5]) as i64 };
        let v = match kind {
            0 => {
                if r.chance(1, 10) {
                    r.range(-1 << 30, 1 << 30)
                } else {
                    r.range(-640, 640)
                }
            }
            2 | 3 => r.below(2) as i64,
            5 | 7 => len(&mut r),
            _ => 0,
        };
        t.steps.push(Op::new("ev", &[f.min(frames - 1), p, kind, v]));
        f += [0, 0, 1, 2, r.below(10), r.below(40), r.below(200)][r.below(7) as usize] as i64;
    }
    let prec = t.get("wrap", 0) & WR_PRECISE != 0;
    for _ in 0..1 + r.below(3) {
        let bs = [1, 2, 3, 5, 8, 16, 16, 32, 64, 64, 100, 1 + r.below(200) as i64][r.below(12) as usize];
        let kind = if prec && r.chance(2, 3) { 3 } else { r.below(3) as i64 };
        t.steps.push(Op::new("cut", &[bs, kind, r.below(1 << 20) as i64]));
    }
    t
}
/// What a smoothed parameter should do
#[derive(Clone, Copy)]
struct Ramp {
    smooth: Option<(u64, bool)>,
    from: f64,
    to: f64,
    /// frames since the ramp started (whole steps at block rate)
    k: u64,
    /// length of the ramp under way
    len: u64,
    running: bool,
}
impl Ramp {
    fn now(&self) -> f64 {
        if !self.running || self.k >= self.len { self.to } else { self.from + (self.to - self.from) * (self.k as f64 / self.len as f64) }
    }
    fn set(&mut self, v: f64) {
        match self.smooth {
            None => {
                self.to = v;
                self.running = false;
            }
            Some((len, _)) => {
                self.from = self.now();
                self.to = v;
                self.k = 0;
                self.len = len;
                self.running = true;
            }
        }
    }
    fn smoothing(&mut self, s: Option<(u64, bool)>) {
        self.smooth = s;
        if self.running {
            match s {
                None => self.running = false,
                Some((len, _)) => {
                    self.from = self.now();
                    self.k = 0;
                    self.len = len;
                }
            }
        }
    }
}
pub fn run(t: &Trace) -> Outcome {
    alloc::quarantine_start();
    let r = std::panic::catch_unwind(|| if t.get("f64", 0) != 0 { run_f::<f64>(t) } else { run_f::<f32>(t) });
    let c = alloc::quarantine_end();
    let mut o = match r {
        Ok(o) => o,
        Err(_) => Outcome { violation: Some(Violation { class: "panic", detail: crate::panic_message() }), ..Default::default() },
    };
    if o.violation.is_none() && c.0 + c.1 > 0 {
        o.violation = Some(Violation { class: "corrupt", detail: format!("{} writes beyond an allocation, {} writes to freed memory", c.0, c.1) });
    }
    o
}
fn run_f<F: Float>(t: &Trace) -> Outcome {
    let mut o = Outcome::default();
    let mut evs: Vec<&Op> = t.steps.iter().filter(|s| s.name == "ev").collect();
    evs.sort_by_key(|e| e.a(0));
    for e in &evs {
        o.fault(match e.a(2) {
            0 => "value",
            1..=3 => "not_smoothed_value",
            4 | 6 => "smoothing_off",
            5 => "smoothing_audio_rate",
            _ => "smoothing_block_rate",
        });
    }
    for c in t.steps.iter().filter(|s| s.name == "cut") {
        if let Err(v) = one::<F>(t, &evs, c, &mut o) {
            o.violation = Some(Violation { class: v.0, detail: format!("`{}`: {}", c.text(), v.1) });
            break;
        }
    }
    o.points = evs.len() as u64;
    o.sim_ns = o.frames * 1_000_000_000 / t.get("sr", 48000) as u64;
    o
}
fn one<F: Float>(t: &Trace, evs: &[&Op], c: &Op, o: &mut Outcome) -> Result<(), (&'static str, String)> {
    let sr = t.get("sr", 48000) as u32;
    let frames = t.get("frames", 1).max(1) as usize;
    let bs = c.a(0).clamp(1, 4096) as usize;
    let kind = c.a(1);
    let mut r = Rng::new(c.a(2) as u64);
    *seen() = Seen::default();
    let mut u: Box<dyn Dyn<F>> = wrap(Rec::<F> { v: [0.0; 3], m: Default::default() }, t.get("wrap", 1));
    let mut ctx = AudioCtx::new(sr, bs, ArLogSender::non_rt());
    u.init(sr, bs);
    if seen().inits != [(sr, bs)] {
        return Err(("init", format!("initialised with {:?}", seen().inits)));
    }
    let mut inb = VecBlock::<F>::new(1, bs);
    let mut outb = VecBlock::<F>::new(1, bs);
    let mut m = [Ramp { smooth: None, from: 0.0, to: 0.0, k: 0, len: 0, running: false }; 3];
    let mut want: Vec<[Ramp; 3]> = vec![];
    let mut passed = vec![];
    let mut start = 0usize;
    let mut ei = 0;
    let mut change = |m: &mut [Ramp; 3], e: &Op, at: usize| {
        let p = e.a(1).rem_euclid(3) as usize;
        let len = (duration(e.a(3), sr) as f64 * sr as f64) as u64;
        match e.a(2) {
            0 => m[p].set(e.a(3) as f64 / 64.0),
            1 => passed.push((p, 1, 0, at)),
            2 => passed.push((p, 2, e.a(3) as usize as i64, at)),
            3 => passed.push((p, 3, (e.a(3) != 0) as i64, at)),
            4 | 6 => m[p].smoothing(None),
            5 => m[p].smoothing(Some((len, false))),
            _ => m[p].smoothing(Some((len, true))),
        }
    };
    // one call of the wrapper, or `single` frames
    fn advance(m: &mut [Ramp; 3], want: &mut Vec<[Ramp; 3]>, len: usize, single: bool) {
        let n = if single { 1 } else { len };
        let mut held: [Option<Ramp>; 3] = [None; 3];
        for f in 0..n {
            let mut row = *m;
            for p in 0..3 {
                let block = matches!(m[p].smooth, Some((_, true)));
                if block {
                    // a step at the start of the call
                    if f == 0 {
                        held[p] = Some(m[p]);
                        if m[p].running {
                            if m[p].k >= m[p].len {
                                m[p].running = false;
                            }
                            m[p].k = (m[p].k + n as u64).min(m[p].len);
                        }
                    }
                    row[p] = held[p].unwrap();
                } else if m[p].running {
                    if m[p].k >= m[p].len {
                        m[p].running = false;
                    }
                    m[p].k += 1;
                }
            }
            want.push(row);
        }
    }
    while start < frames {
        let mut flags = UGenFlags::new();
        let mut meta = BlockMetadata::new(bs);
        meta.set_frame_clock(start as u64);
        ctx.block = meta;
        for (i, s) in inb.channel_as_slice_mut(0).iter_mut().enumerate() {
            *s = F::new((start + i) as f64);
        }
        let mut delayed = 0;
        if kind == 3 {
            for e in evs.iter().filter(|e| (e.a(0) as usize) < start + bs && e.a(0) as usize >= start) {
                let d = e.a(0) as usize - start;
                delayed += (d > 0) as usize;
                if delayed > PRECISE_CAP {
                    return Ok(());
                }
                alloc::sut(|| {
                    u.delay(&mut ctx, e.a(1) as usize, d as u16);
                    u.apply(&mut ctx, e.a(1) as usize, val(e.a(2), e.a(3), sr));
                });
            }
            alloc::sut(|| u.block(&mut ctx, &mut flags, &inb, &mut outb));
        }
        let mut at = 0;
        while at < bs {
            while ei < evs.len() && evs[ei].a(0) as usize <= start + at {
                let e = evs[ei];
                change(&mut m, e, start + at);
                if kind != 3 {
                    alloc::sut(|| u.apply(&mut ctx, e.a(1) as usize, val(e.a(2), e.a(3), sr)));
                }
                ei += 1;
            }
            let mut len = bs - at;
            if ei < evs.len() && (evs[ei].a(0) as usize) < start + bs {
                len = evs[ei].a(0) as usize - start - at;
            }
            if kind == 1 {
                len = 1;
            } else if kind == 2 && len > 1 && r.chance(2, 3) {
                len = 1 + r.below(len as u64) as usize;
            }
            advance(&mut m, &mut want, len, kind == 1);
            if kind != 3 {
                ctx.block = if len == bs { meta } else { meta.make_partial(at, len) };
                if kind == 1 {
                    let x = u.frame(&mut ctx, &mut flags, &[inb.read(0, at)]);
                    outb.write(x[0], 0, at);
                } else if len == bs {
                    alloc::sut(|| u.block(&mut ctx, &mut flags, &inb, &mut outb));
                } else {
                    alloc::sut(|| u.partial(&mut ctx, &mut flags, &inb, &mut outb, at, len));
                }
            }
            at += len;
        }
        for i in 0..bs {
            if Float::to_f64(outb.read(0, i)) != (start + i) as f64 + 1.0 {
                return Err(("ramp", format!("frame {} of the output is not the one of the wrapped unit generator", start + i)));
            }
        }
        o.blocks += 1;
        start += bs;
    }
    let s = seen();
    o.frames += s.frames.len() as u64;
    if s.frames.len() != want.len() {
        return Err(("ramp", format!("{} frames processed instead of {}", s.frames.len(), want.len())));
    }
    for (f, (clock, v, off, _)) in s.frames.iter().enumerate() {
        if *clock != f as u64 || *off != f % bs {
            return Err(("clock", format!("frame {f} was processed with clock {clock} and offset {off}")));
        }
        for p in 0..3 {
            o.evals += 1;
            let w = &want[f][p];
            let x = w.now();
            let exact = !w.running || w.k >= w.len || w.from == w.to;
            let scale = w.from.abs().max(w.to.abs());
            let ok = if exact { v[p] == x } else { (v[p] - x).abs() <= 1e-12 * scale && v[p] >= w.from.min(w.to) - 1e-15 * scale && v[p] <= w.from.max(w.to) + 1e-15 * scale };
            o.hash = hash(&[o.hash, v[p].to_bits()]);
            if !ok {
                return Err(("ramp", format!("parameter {p} is {} in frame {f} instead of {x} (frame {} of a ramp of {} frames from {} to {})", v[p], w.k, w.len, w.from, w.to)));
            }
        }
    }
    if s.passed != passed {
        return Err(("passed_on", format!("values which are not smoothed arrived as (parameter, kind, value, frame) {:?} instead of {:?}", s.passed, passed)));
    }
    o.inter = hash(&[o.inter, o.hash]);
    Ok(())
}
