//! C24: built-in unit generators against models of what they document, over histories of parameter
//! changes, triggers and inputs, cut into blocks in any way. The time line is run as in `split`; here
//! a model per unit generator, computed in double precision, follows it frame by frame. Where rounding
//! decides in which frame something happens, the model follows both possibilities until the output
//! tells them apart.
use crate::alloc::{self, pause};
use crate::rng::{Rng, hash};
use crate::split::{self, Cut, driven};
use crate::trace::{Op, Outcome, Trace, Violation};
use crate::ugens::{K, UGENS, WR_AR, WR_MATH, WR_PRECISE};
use knaster_core::Float;
use std::f64::consts::{FRAC_PI_2, PI, TAU};

const NOT_HERE: &[&str] = &["buffer1", "buffer2", "closure", "log_probe", "linear"];

pub fn generate(prop: &str, seed: u64) -> Trace {
    let mut r = Rng::new(hash(&[seed, 0x70e]));
    let mut t = Trace { prop: prop.into(), engine: "tone".into(), seed, ..Default::default() };
    let ids: Vec<usize> = (0..UGENS.len()).filter(|i| !NOT_HERE.contains(&UGENS[*i].0)).collect();
    let k = (seed % (ids.len() as u64 + 9)) as usize;
    let find = |n: &str| UGENS.iter().position(|u| u.0 == n).unwrap();
    // some have more to them than others
    let extra = ["polyblep", "svf", "envelope", "asr", "allpass_delay", "polyblep", "svf"];
    let (id, math) = if k < ids.len() {
        (ids[k], 0)
    } else if k < ids.len() + extra.len() {
        (find(extra[k - ids.len()]), 0)
    } else {
        (find("linear"), WR_MATH)
    };
    let (name, params, np) = UGENS[id];
    t.set("ugen", id as i64);
    let sr = [8000, 44100, 48000, 96000][r.below(4) as usize];
    t.set("sr", sr);
    t.set("f64", r.chance(1, 2) as i64);
    let long = if r.chance(1, 10) { 6000 } else { 800 };
    let frames = if name == "galactic" && r.chance(1, 3) { 6000 } else { 60 + r.below(long) } as i64;
    t.set("frames", frames);
    let input = match name {
        "limiter" => [8, 8, 3, 6][r.below(4) as usize],
        "galactic" => [0, 1, 2, 4, 6][r.below(5) as usize],
        n if n.starts_with("math_") || n == "exp" || n == "sqrt" || n == "fract" || n == "trunc" || n == "ceil" || n == "floor" => {
            [8, 3, 6, 6, 2, 5][r.below(6) as usize]
        }
        _ => [0, 1, 2, 4, 5, 6, 6, 9, 10][r.below(9) as usize],
    };
    t.set("input", input);
    let nyq = sr as f64 * 0.45;
    let u = |r: &mut Rng, a: f64, b: f64| ((a + (b - a) * r.unit()) * 1e6) as i64;
    let lg = |r: &mut Rng, a: f64, b: f64| (((a.ln() + (b.ln() - a.ln()) * r.unit()).exp()) * 1e6) as i64;
    let freq = |r: &mut Rng| {
        let nice = [0, 1, 100, 440, 441, 1000, sr / 4, sr / 8, sr / 100][r.below(9) as usize];
        if r.chance(1, 4) { nice * 1_000_000 } else { lg(r, 1.0, nyq) }
    };
    // a whole number of frames, or any time
    let secs = |r: &mut Rng, max: f64| {
        if r.chance(1, 6) { 0 } else if r.chance(1, 4) { lg(r, 0.00001, 0.1) } else { u(r, 0.0, max) }
    };
    // parameter values: what a parameter may be set to
    let value = |r: &mut Rng, p: usize| -> i64 {
        match (name, p) {
            ("sin_wt" | "sin_numeric" | "phasor" | "polyblep" | "random_lin" | "lpf" | "hpf", 0) => freq(r),
            ("svf", 0) => lg(r, 10.0, nyq),
            ("svf", 1) => lg(r, 0.1, 12.0),
            ("svf", 2) => u(r, -24.0, 24.0),
            ("asr" | "ar", 0 | 1) => secs(r, 0.01),
            ("allpass_delay" | "allpass_feedback_delay" | "sample_delay", 0) => {
                if r.chance(1, 3) {
                    let n = r.below(40) as i64;
                    // just above a whole number of frames
                    (n * 1_000_000 + sr - 1) / sr + (n > 0) as i64
                } else {
                    u(r, 0.0, 0.01)
                }
            }
            ("galactic", 1) if r.chance(2, 3) => [0, u(r, 0.0, 0.03)][r.below(2) as usize],
            ("galactic", _) => [0, 1_000_000, u(r, 0.0, 1.0)][r.below(3) as usize],
            ("allpass_hand", 0 | 2) | ("allpass_feedback_hand", 0) => {
                let d = if r.chance(1, 3) { r.below(40) as i64 * 1_000_000 } else { u(r, 0.0, 50.0) };
                if name == "allpass_hand" { d.max(1_500_000) } else { d }
            }
            ("onepole_hand", 0) => freq(r).max(1_000_000),
            ("polyblep_hand", 1) => [u(r, -2.0, 2.0), 250_000 * (r.below(17) as i64 - 8), 0][r.below(3) as usize],
            ("pan", _) => [-1_000_000, 0, 1_000_000, u(r, -1.0, 1.0)][r.below(4) as usize],
            (_, p) => match params[p] {
                K::F(a, b) => [(a * 1e6) as i64, (b * 1e6) as i64, u(r, a, b), u(r, a, b)][r.below(4) as usize],
                _ => 0,
            },
        }
    };
    let args: Vec<i64> = if math != 0 {
        let op = r.below(9) as i64;
        vec![op * 1_000_000, u(&mut r, -3.0, 3.0)]
    } else {
        match name {
            "static_delay" | "static_hand" => vec![(1 + r.below(80) as i64) * 1_000_000],
            "sample_delay" | "allpass_delay" | "allpass_feedback_delay" | "allpass_hand" | "allpass_feedback_hand" => vec![u(&mut r, 0.0008, 0.012)],
            "envelope" => vec![
                u(&mut r, -1.0, 1.0),
                r.below(6) as i64 * 1_000_000,
                if r.chance(1, 5) { 0 } else { u(&mut r, 0.00002, 0.004) },
                u(&mut r, 0.2, 3.0),
                r.chance(1, 3) as i64 * 1_000_000,
            ],
            "polyblep" | "polyblep_hand" => vec![freq(&mut r), r.below(14) as i64 * 1_000_000],
            "svf" => vec![value(&mut r, 0), value(&mut r, 1), value(&mut r, 2), r.below(9) as i64 * 1_000_000],
            _ => (0..np).map(|i| value(&mut r, i)).collect(),
        }
    };
    for (i, a) in args.iter().enumerate() {
        t.set(&format!("arg{i}"), *a);
    }
    let can_drive = math == 0
        && match name {
            "allpass_delay" | "allpass_feedback_delay" => false,
            n if n.ends_with("_hand") => false,
            "svf" | "polyblep" | "sin_wt" | "sin_numeric" | "phasor" => sr >= 44100,
            _ => !params.is_empty(),
        };
    let mut wrap = if r.chance(1, 3) && (!params.is_empty() || math == 0) { WR_PRECISE } else { 0 };
    if can_drive && r.chance(1, 6) {
        wrap |= WR_AR;
        for (i, k) in params.iter().enumerate() {
            if matches!(k, K::F(..)) && r.chance(1, 2) {
                t.set(&format!("ar{i}"), 1);
            }
        }
    }
    t.set("wrap", wrap | math);
    let mut evs = vec![];
    if name == "allpass_feedback_delay" || name == "allpass_delay" || name.starts_with("allpass_") || name == "sample_delay" && r.chance(3, 4) {
        let v = value(&mut r, 0);
        evs.push(Op::new("ev", &[0, 0, 0, v]));
    }
    if name == "asr" || name == "ar" || name == "envelope" {
        if r.chance(9, 10) {
            let p = if name == "asr" { 3 } else { 2 };
            evs.push(Op::new("ev", &[r.below(10) as i64, p, 1, 0]));
        }
    }
    if !params.is_empty() {
        let n = if r.chance(1, 4) { 0 } else { r.below(14) };
        let mut f = if r.chance(1, 2) { 0 } else { r.below(frames as u64) };
        for _ in 0..n {
            let p = r.below(params.len() as u64) as usize;
            let o = match params[p] {
                K::F(..) => Op::new("ev", &[f as i64, p as i64, 0, value(&mut r, p)]),
                K::T => Op::new("ev", &[f as i64, p as i64, 1, 0]),
                K::I(m) => Op::new("ev", &[f as i64, p as i64, 2, r.below(m as u64 + 1) as i64]),
                K::B => Op::new("ev", &[f as i64, p as i64, 3, r.below(2) as i64]),
            };
            evs.push(o);
            f += [0, 1, 2, r.below(16), r.below(60), r.below(200)][r.below(6) as usize];
        }
    }
    for e in &mut evs {
        e.args[0] = e.args[0].min(frames - 1);
    }
    t.steps = evs;
    let bs = [1, 2, 3, 4, 7, 8, 16, 16, 32, 64, 64, 100, 128, 1 + r.below(256) as i64][r.below(14) as usize];
    let kind = if wrap & WR_PRECISE != 0 && r.chance(2, 3) { 3 } else { r.below(3) as i64 };
    t.steps.push(Op::new("cut", &[bs, kind, r.below(1 << 20) as i64]));
    t
}

/// What a model is told
struct Cx {
    sr: f64,
    f64: bool,
    /// frames since the start
    n: usize,
}
impl Cx {
    /// relative rounding of one operation
    fn e(&self) -> f64 {
        if self.f64 { 2.3e-16 } else { 1.2e-7 }
    }
    fn tol(&self) -> f64 {
        if self.f64 { 1e-9 } else { 1e-5 }
    }
    /// As the sample type stores it
    fn q(&self, x: f64) -> f64 {
        if self.f64 { x } else { x as f32 as f64 }
    }
}
type R = Result<(), String>;
trait Model {
    fn param(&mut self, _c: &Cx, _i: usize, _kind: i64, _x: f64, _n: i64) {}
    fn frame(&mut self, c: &Cx, input: &[f64], seen: &[f64], done: Option<bool>) -> R;
    fn end(&mut self, _c: &Cx) -> R {
        Ok(())
    }
}
fn near(what: &str, want: f64, got: f64, tol: f64) -> R {
    if want == got || want.is_nan() && got.is_nan() || (want - got).abs() <= tol {
        Ok(())
    } else {
        Err(format!("{what} is {got}, expected {want}"))
    }
}
fn never_done(done: Option<bool>) -> R {
    if done == Some(true) { Err("it is marked as done".into()) } else { Ok(()) }
}
/// Stateless: what each output has to be, and how exact
struct Fun<G>(G);
impl<G: FnMut(&Cx, &[f64]) -> Vec<(f64, f64)>> Model for Fun<G> {
    fn frame(&mut self, c: &Cx, input: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        for (k, (w, tol)) in (self.0)(c, input).into_iter().enumerate() {
            let w = c.q(w);
            near(&format!("output {k} for {input:?}"), w, seen[k], tol * (1.0 + w.abs()))?;
        }
        Ok(())
    }
}

// Oscillators

enum Wave {
    Sin,
    Numeric,
    Phasor,
    Blep,
}
struct Osc {
    wave: Wave,
    freq: f64,
    phase: f64,
    offset: f64,
    /// how far the phase may be from the exact one
    slack: f64,
    form: i64,
    width: f64,
}
fn blep(t: f64, dt: f64) -> f64 {
    if t < dt {
        -(t / dt - 1.0).powi(2)
    } else if t > 1.0 - dt {
        ((t - 1.0) / dt + 1.0).powi(2)
    } else {
        0.0
    }
}
fn blamp(t: f64, dt: f64) -> f64 {
    if t < dt {
        -(t / dt - 1.0).powi(3) / 3.0
    } else if t > 1.0 - dt {
        ((t - 1.0) / dt + 1.0).powi(3) / 3.0
    } else {
        0.0
    }
}
/// Band limited waveforms (the PolyBLEP generator these are ported from)
fn polyblep(form: i64, t: f64, dt: f64, w: f64) -> f64 {
    let fr = |x: f64| x - x.floor();
    let tri = |t: f64| {
        let y = 4.0 * t;
        if y >= 3.0 {
            y - 4.0
        } else if y > 1.0 {
            2.0 - y
        } else {
            y
        }
    };
    let at = |x: f64| blamp(fr(t + x), dt);
    let ble = |x: f64| blep(fr(t + x), dt);
    match form {
        0 => 2.0 * fr(t + 0.5) - 1.0 - ble(0.5),
        1 => (TAU * t).sin(),
        2 => (TAU * t).cos(),
        3 => tri(t) + 4.0 * dt * (at(0.25) - at(0.75)),
        4 => (if t < 0.5 { 1.0 } else { -1.0 }) + ble(0.0) - ble(0.5),
        5 => -2.0 * w + (if t < w { 2.0 } else { 0.0 }) + ble(0.0) - ble(1.0 - w),
        6 => 1.0 - 2.0 * t + ble(0.0),
        7 => {
            let w = w.clamp(0.0001, 0.9999);
            let y = 2.0 * t;
            let y = if y >= 2.0 - w {
                (y - 2.0) / w
            } else if y >= w {
                1.0 - (y - w) / (1.0 - w)
            } else {
                y / w
            };
            y + dt / (w - w * w) * (at(0.5 * w) - at(1.0 - 0.5 * w))
        }
        8 => {
            let (a, b) = (0.875 + 0.25 * (w - 0.5), 0.375 + 0.25 * (w - 0.5));
            let d = 0.5 * (1.0 - w);
            let sq = |x: f64| if fr(t + x) < 0.5 { 1.0 } else { -1.0 };
            0.5 * (sq(a) + ble(a) - ble(b) + sq(a + d) + ble(a + d) - ble(b + d))
        }
        9 => (if t < 0.5 { 2.0 * (TAU * t).sin() } else { 0.0 }) - 2.0 / PI + TAU * dt * (at(0.0) + at(0.5)),
        10 => 2.0 * (PI * fr(t + 0.25)).sin() - 4.0 / PI + TAU * dt * at(0.25),
        11 => {
            let t1 = fr(t + 0.75 + 0.5 * w);
            let y = if t1 >= w {
                -w
            } else if 4.0 * t1 >= 2.0 * w {
                4.0 - 4.0 * t1 / w - w
            } else {
                4.0 * t1 / w - w
            };
            if w > 0.0 {
                let b = |x: f64| blamp(fr(t1 + x), dt);
                y + 2.0 * dt / w * (b(0.0) - 2.0 * b(1.0 - 0.5 * w) + b(1.0 - w))
            } else {
                y
            }
        }
        12 => {
            (2.0 * tri(t)).clamp(-1.0, 1.0) + 4.0 * dt * (at(0.125) - at(0.625) + at(0.375) - at(0.875))
        }
        _ => {
            let w = w.min(0.9999);
            let s = 1.0 / (1.0 - w);
            let (a, b) = (0.25 - 0.25 * w, 0.25 + 0.25 * w);
            (s * tri(t)).clamp(-1.0, 1.0) + 2.0 * s * dt * (at(a) - at(a + 0.5) + at(b) - at(b + 0.5))
        }
    }
}
impl Model for Osc {
    fn param(&mut self, c: &Cx, i: usize, kind: i64, x: f64, n: i64) {
        match (&self.wave, i) {
            (Wave::Phasor, _) => self.freq = x,
            (_, 0) => self.freq = c.q(x),
            (Wave::Blep, 1) => self.width = c.q(x),
            (Wave::Blep, 2) => self.form = n,
            (_, 1) => self.offset = c.q(x),
            (_, 2) if kind == 1 => {
                self.phase = 0.0;
                self.slack = 0.0;
            }
            _ => (),
        }
    }
    fn frame(&mut self, c: &Cx, _i: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        let p = (self.phase + self.offset).rem_euclid(1.0);
        let got = seen[0];
        let dt = self.freq / c.sr;
        let s = self.slack;
        match self.wave {
            // a table of 2^14 samples
            Wave::Sin => near("the sine", (TAU * p).sin(), got, TAU * (s + 1.01 / 16384.0) + 1e-6)?,
            Wave::Numeric => near("the sine", (TAU * p).sin(), got, TAU * (s + 4.0 * c.e()) + c.e() * 8.0)?,
            Wave::Phasor => {
                let d = (got - p).abs();
                if !(0.0..=1.0).contains(&got) || d.min(1.0 - d) > s + c.e() * 2.0 {
                    return Err(format!("the ramp is at {got}, expected {p}"));
                }
            }
            Wave::Blep => {
                let form = if dt >= 0.25 { 1 } else { self.form };
                let near_quarter = (dt - 0.25).abs() < 1e-6;
                // within what the phase may be by now
                let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
                let s = s + c.e() * 4.0;
                for k in -8..=8 {
                    let x = (p + s * k as f64 / 8.0).rem_euclid(1.0);
                    for f in [form, 1] {
                        if f == form || near_quarter {
                            let y = if dt == 0.0 && form != 1 && form != 2 { polyblep(f, x, 1e-300, self.width) } else { polyblep(f, x, dt, self.width) };
                            lo = lo.min(y);
                            hi = hi.max(y);
                        }
                    }
                }
                // narrow pulses have steep sides
                let steep = match form {
                    7 => 1.0 / (self.width.clamp(0.0001, 0.9999) * (1.0 - self.width.clamp(0.0001, 0.9999))),
                    11 => 1.0 / self.width.max(1e-4),
                    13 => 1.0 / (1.0 - self.width.min(0.9999)),
                    _ => 1.0,
                };
                // exactly at an edge, rounding decides on which side the pulse and its correction are
                let edges: &[f64] = match form {
                    4 => &[0.0, 0.5],
                    5 => &[0.0, 1.0 - self.width],
                    8 => {
                        let (a, d) = (0.875 + 0.25 * (self.width - 0.5), 0.5 * (1.0 - self.width));
                        &[a, a + 0.5, a + d, a + d + 0.5]
                    }
                    _ => &[],
                };
                let edge = edges.iter().fold(1.0, |a: f64, x| {
                    let y = (p + x).rem_euclid(1.0);
                    a.min(y.min(1.0 - y))
                });
                let on_edge = edge <= s + c.e() * 4.0;
                let tol = (if c.f64 { 1e-9 } else { 3e-5 }) * (1.0 + steep) + (hi - lo) * 0.3 + on_edge as u8 as f64 * 2.0 + if edge <= dt + s + c.e() * 4.0 { (8.0 * c.e() / dt).min(2.0) } else { 0.0 };
                if got.is_nan() || got < lo - tol || got > hi + tol {
                    return Err(format!("waveform {form} at phase {p} is {got}, expected {}", polyblep(form, p, dt, self.width)));
                }
            }
        }
        self.phase = (self.phase + dt).rem_euclid(1.0);
        self.slack += match self.wave {
            Wave::Sin => 1.0 / (1u64 << 30) as f64 + 1e-7 * dt,
            // accumulated in the sample type
            Wave::Numeric | Wave::Blep => c.e() * (1.0 + dt),
            Wave::Phasor => 3e-16,
        };
        Ok(())
    }
}

// Envelopes

#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
    Stopped,
    Attack,
    Sustain,
    Release,
}
#[derive(Clone, Debug)]
struct AsrState {
    s: A,
    t: f64,
    scale: f64,
}
struct Asr {
    sustain: bool,
    attack: f64,
    release: f64,
    may: Vec<AsrState>,
    k: f64,
}
impl Asr {
    fn rate(c: &Cx, secs: f64) -> f64 {
        if secs == 0.0 { 1.0 } else { 1.0 / (secs * c.sr) }
    }
}
impl Model for Asr {
    fn param(&mut self, c: &Cx, i: usize, _kind: i64, x: f64, _n: i64) {
        let i = if !self.sustain && i == 2 { 3 } else { i };
        match i {
            0 => self.attack = c.q(x),
            1 => self.release = c.q(x),
            2 => {
                for m in &mut self.may {
                    if m.s == A::Attack || m.s == A::Sustain {
                        m.scale = if m.s == A::Attack { m.t } else { 1.0 };
                        m.s = A::Release;
                        m.t = 1.0;
                    }
                }
            }
            _ => {
                for m in &mut self.may {
                    // from the value it is at
                    m.t = match m.s {
                        A::Stopped => 0.0,
                        A::Attack => m.t,
                        A::Sustain => 1.0,
                        A::Release => m.t.powi(3) * m.scale,
                    };
                    m.s = A::Attack;
                }
            }
        }
    }
    fn frame(&mut self, c: &Cx, _i: &[f64], seen: &[f64], done: Option<bool>) -> R {
        self.k += 1.0;
        let e = 1e-12 + c.e() * (4.0 + self.k);
        let tol = 4.0 * e;
        let mut next: Vec<AsrState> = vec![];
        let mut want = vec![];
        for m in &self.may {
            let mut add = |out: f64, d: bool, n: AsrState| {
                want.push((out, d));
                if (out - seen[0]).abs() <= tol && done.is_none_or(|x| x == d) && next.len() < 64 {
                    next.push(n);
                }
            };
            match m.s {
                A::Stopped => add(0.0, false, m.clone()),
                A::Sustain => add(1.0, false, m.clone()),
                A::Attack => {
                    let out = m.t.min(1.0);
                    let t = m.t + Self::rate(c, self.attack);
                    if t >= 1.0 - e {
                        add(out, false, AsrState { s: if self.sustain { A::Sustain } else { A::Release }, t: 1.0, scale: 1.0 });
                    }
                    if t < 1.0 + e {
                        add(out, false, AsrState { t, ..m.clone() });
                    }
                }
                A::Release => {
                    let out = m.t.max(0.0).powi(3) * m.scale;
                    let t = m.t - Self::rate(c, self.release);
                    if t <= e {
                        add(out, true, AsrState { s: A::Stopped, t: 0.0, scale: 1.0 });
                    }
                    if t > -e {
                        add(out, false, AsrState { t, ..m.clone() });
                    }
                }
            }
        }
        if next.is_empty() {
            return Err(format!("the envelope is {} (done: {done:?}), expected one of {want:?} (value, done)", seen[0]));
        }
        self.may = next;
        Ok(())
    }
}
#[derive(Clone, Debug)]
struct EnvState {
    at: Option<(usize, f64)>,
    from: f64,
}
struct Env {
    start: f64,
    segs: Vec<(f64, f64)>,
    scale: f64,
    looping: bool,
    may: Vec<EnvState>,
}
impl Env {
    fn value(&self, m: &EnvState) -> f64 {
        match m.at {
            None => m.from,
            Some((s, t)) => {
                let (d, v) = self.segs[s];
                if t >= d { v } else { m.from + t / d * (v - m.from) }
            }
        }
    }
}
impl Model for Env {
    fn param(&mut self, c: &Cx, i: usize, _kind: i64, x: f64, n: i64) {
        match i {
            0 => self.scale = c.q(x),
            1 if !self.segs.is_empty() => {
                let s = (n as usize).min(self.segs.len() - 1);
                let mut all = vec![];
                for m in &self.may {
                    // from the value it is at, from where the segment it was in started, or from
                    // the end of the segment before the new one
                    let before = if s == 0 { self.start } else { self.segs[s - 1].1 };
                    for from in [self.value(m), m.from, before] {
                        all.push(EnvState { at: Some((s, 0.0)), from });
                    }
                }
                all.truncate(256);
                self.may = all;
            }
            2 if self.segs.is_empty() => self.may = vec![EnvState { at: None, from: self.start }],
            2 => self.may = vec![EnvState { at: Some((0, 0.0)), from: self.start }],
            3 => {
                for i in 0..self.may.len() {
                    let from = self.value(&self.may[i]);
                    self.may[i] = EnvState { at: None, from };
                }
            }
            _ => (),
        }
    }
    fn frame(&mut self, c: &Cx, _i: &[f64], seen: &[f64], done: Option<bool>) -> R {
        let tol = if c.f64 { 1e-9 } else { 1e-6 };
        let step = self.scale / c.sr;
        let e = 1e-11;
        let mut next: Vec<EnvState> = vec![];
        let mut want = vec![];
        for m in &self.may {
            let mut add = |out: f64, d: bool, n: EnvState| {
                want.push((out, d));
                if (out - seen[0]).abs() <= tol && done.is_none_or(|x| x == d) && next.len() < 256 {
                    next.push(n);
                }
            };
            let Some((s, t)) = m.at else {
                add(m.from, false, m.clone());
                continue;
            };
            let (d, v) = self.segs[s];
            if t < d + e && d > 0.0 {
                add(m.from + (t / d).min(1.0) * (v - m.from), false, EnvState { at: Some((s, t + step)), from: m.from });
            }
            if t >= d - e {
                if s + 1 < self.segs.len() {
                    add(v, false, EnvState { at: Some((s + 1, t - d + step)), from: v });
                } else if self.looping {
                    add(v, false, EnvState { at: Some((0, 0.0)), from: v });
                } else {
                    add(v, true, EnvState { at: None, from: v });
                }
            }
        }
        if next.is_empty() {
            want.truncate(4);
            return Err(format!("the envelope is {} (done: {done:?}), expected one of {want:?} (value, done)", seen[0]));
        }
        self.may = next;
        Ok(())
    }
}

// Delays and filters

struct SampleDel {
    past: Vec<f64>,
    secs: f64,
    max: f64,
}
impl Model for SampleDel {
    fn param(&mut self, _c: &Cx, _i: usize, _kind: i64, x: f64, _n: i64) {
        self.secs = x;
    }
    fn frame(&mut self, c: &Cx, input: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        self.past.push(input[0]);
        // times are rounded to nanoseconds and more
        let frames = |s: f64| [(s * c.sr - 1e-4).max(0.0) as usize, (s * c.sr + 1e-4) as usize];
        let mut want = vec![];
        for a in frames(self.secs) {
            for m in frames(self.max) {
                let d = a.min(m);
                want.push(if d < self.past.len() { self.past[self.past.len() - 1 - d] } else { 0.0 });
            }
        }
        if want.iter().any(|w| *w == seen[0]) {
            Ok(())
        } else {
            Err(format!("the delayed signal is {}, expected {} (a delay of {} frames)", seen[0], want[0], self.secs * c.sr))
        }
    }
}
struct Allpass {
    /// what was written
    past: Vec<f64>,
    len: usize,
    short: bool,
    feedback: Option<f64>,
    n: usize,
    coeff: f64,
    x1: f64,
    y1: f64,
    set: bool,
    unsure: bool,
    peak: f64,
    /// set in frames and cleared by hand
    hand: bool,
    /// what was in the interpolator when the delay was set up anew: whether it goes on is not said
    was: Option<[f64; 2]>,
    /// frames which are still being cleared
    clearing: usize,
    cleared: Option<usize>,
}
impl Model for Allpass {
    fn param(&mut self, c: &Cx, i: usize, _kind: i64, x: f64, _n: i64) {
        if self.hand && i == 1 {
            // like a delay nothing was put into yet
            self.past.fill(0.0);
            (self.x1, self.y1, self.was) = (0.0, 0.0, None);
            self.clearing = self.n;
            self.cleared = Some(self.past.len());
            return;
        }
        if self.hand && i == 2 && self.feedback.is_none() {
            self.past.fill(0.0);
            self.was = self.was.or(Some([self.x1, self.y1]));
            (self.x1, self.y1) = (0.0, 0.0);
            // an unfinished clearing may swallow what is put in next
            self.unsure |= self.clearing > 0;
        } else if i > 0 {
            self.feedback = Some(c.q(x));
            return;
        }
        let d = if self.hand { c.q(x) } else { c.q(x * c.sr) };
        // only what is read until then is cleared
        self.unsure |= self.clearing > 0;
        let d = if self.feedback.is_some() { d.max(1.5) } else { d };
        // the buffer may be a frame shorter, as times are rounded
        if (d - self.len as f64).abs() < 1e-3 || self.short && (d as usize + 1 == self.len) {
            self.unsure = true;
        }
        if d as usize >= self.len {
            // too long: stays as it was, and nothing says what it is if it was never set
            self.unsure |= !self.set;
            return;
        }
        self.set = true;
        // either part may be interpolated then
        if d != 1.5 && (d - d.floor() - 0.5).abs() < 1e-4 {
            self.unsure = true;
        }
        let (mut n, mut delta) = (d.floor(), d - d.floor());
        // the interpolated part is between half a frame and one and a half
        if d > 0.5 && delta < 0.5 {
            n -= 1.0;
            delta += 1.0;
        }
        // what was there before may be heard again if the delay gets longer than before
        if i == 0 && self.cleared.is_some_and(|l| self.past.len() < l + n as usize + 1) {
            self.unsure = true;
        }
        if i == 2 {
            self.cleared = None;
        }
        self.n = n as usize;
        self.coeff = (1.0 - delta) / (1.0 + delta);
    }
    fn frame(&mut self, c: &Cx, input: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        if self.unsure || !self.set {
            self.unsure = true;
            return Ok(());
        }
        let first = self.feedback.is_none() && !self.hand;
        if first {
            self.past.push(input[0]);
        }
        self.clearing = self.clearing.saturating_sub(1);
        // the newest sample written is `back` frames old
        let back = if first { 0 } else { 1 };
        let k = self.n.wrapping_sub(back);
        let x = if k < self.past.len() { self.past[self.past.len() - 1 - k] } else { 0.0 };
        let y = self.coeff * (x - self.y1) + self.x1;
        if let Some([x1, y1]) = self.was {
            let v = self.coeff * (x - y1) + x1;
            self.was = Some([x, v]);
            let tol = (if c.f64 { 1e-8 } else { 2e-3 }) * (self.peak + 1e-6);
            if near("", v, seen[0], tol).is_ok() && (y - seen[0]).abs() > tol {
                (self.x1, self.y1, self.was) = (x, v, None);
                return {
                    self.past.push(input[0]);
                    Ok(())
                };
            }
            if (y - v).abs() > tol {
                self.was = None;
            }
        }
        self.x1 = x;
        self.y1 = y;
        let want = match self.feedback {
            None => {
                if self.hand {
                    self.past.push(input[0]);
                }
                y
            }
            Some(g) => {
                let w = y * g + input[0];
                self.past.push(w);
                self.peak = self.peak.max(w.abs());
                y - g * w
            }
        };
        self.peak = self.peak.max(y.abs()).max(input[0].abs());
        near("the delayed signal", want, seen[0], (if c.f64 { 1e-8 } else { 2e-3 }) * (self.peak + 1e-6))
    }
}
/// A ring of `len` of `size` samples
struct StaticHand {
    size: usize,
    len: usize,
    ring: Vec<f64>,
    pos: usize,
    at: usize,
    fuzzy: Vec<f64>,
}
impl Model for StaticHand {
    fn param(&mut self, c: &Cx, i: usize, _kind: i64, x: f64, n: i64) {
        match i {
            0 => self.len = (n as usize).clamp(1, self.size),
            1 => {
                let l = self.size as f64 * c.q(x);
                if (l - l.round()).abs() < 1e-4 && l != l.round() {
                    // rounded down or not
                    self.fuzzy.clear();
                }
                self.len = (l as usize).clamp(1, self.size);
            }
            _ => self.at = n as usize % self.size,
        }
        self.pos %= self.len;
    }
    fn frame(&mut self, c: &Cx, input: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        if self.fuzzy.is_empty() {
            return Ok(());
        }
        let (a, b) = (self.ring[self.at], self.ring[(self.at + 1) % self.size]);
        near("the place which is read and written", self.pos as f64, seen[3], 0.0)?;
        near("the delayed signal", self.ring[self.pos], seen[0], 0.0)?;
        near("the signal at a place", a, seen[1], 0.0)?;
        near("the signal between two places", a + (b - a) * 0.25, seen[2], c.e() * 8.0 * (a.abs() + b.abs()))?;
        self.ring[self.pos] = input[0];
        self.pos = (self.pos + 1) % self.len;
        Ok(())
    }
}
struct OnePoleHand {
    b: f64,
    y: f64,
    peak: f64,
}
impl Model for OnePoleHand {
    fn param(&mut self, c: &Cx, i: usize, _kind: i64, x: f64, _n: i64) {
        if i == 0 {
            self.b = (-TAU * x / c.sr).exp();
        } else {
            self.y = 0.0;
        }
    }
    fn frame(&mut self, c: &Cx, input: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        let x = input[0];
        self.peak = self.peak.max(x.abs());
        self.y = x * (1.0 - self.b) + self.y * self.b;
        let tol = (if c.f64 { 1e-9 } else { 5e-4 }) * (self.peak + 1e-9);
        near("the low part", self.y, seen[0], tol)?;
        near("the high part", x - self.y, seen[1], tol)?;
        let comp = -2.0 * (1.0 - self.b).ln();
        near("the compensation", comp, seen[2], c.e() * 16.0 * (1.0 + comp.abs()) + c.e() * 16.0 / (1.0 - self.b))
    }
}
struct PolyHand {
    osc: Osc,
    sr: f64,
    dt: f64,
}
impl Model for PolyHand {
    fn param(&mut self, c: &Cx, i: usize, _kind: i64, x: f64, n: i64) {
        match i {
            0 => self.dt = c.q(x),
            1 => {
                self.osc.phase = c.q(x).rem_euclid(1.0);
                self.osc.slack = c.e();
            }
            // the frequency stays
            2 => {
                self.dt *= self.sr / c.q(x);
                self.sr = c.q(x);
                self.osc.slack += c.e() * 4.0;
            }
            _ => self.osc.form = n,
        }
    }
    fn frame(&mut self, c: &Cx, input: &[f64], seen: &[f64], done: Option<bool>) -> R {
        let hz = self.dt * self.sr;
        near("the frequency", hz, seen[1], c.e() * 64.0 * hz)?;
        near("the sample it is at", seen[2], seen[0], 0.0)?;
        self.osc.freq = hz;
        // changes of the rate are rounded
        self.osc.slack += c.e() * 64.0 * self.dt;
        self.osc.frame(&Cx { sr: self.sr, ..*c }, input, seen, done)
    }
}
struct OnePole {
    high: bool,
    b: f64,
    y: f64,
    peak: f64,
}
impl Model for OnePole {
    fn param(&mut self, c: &Cx, _i: usize, _kind: i64, x: f64, _n: i64) {
        self.b = (-TAU * x / c.sr).exp();
    }
    fn frame(&mut self, c: &Cx, input: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        let x = input[0];
        self.peak = self.peak.max(x.abs());
        self.y = x * (1.0 - self.b) + self.y * self.b;
        let want = if self.high { x - self.y } else { self.y };
        near("the filtered signal", want, seen[0], (if c.f64 { 1e-9 } else { 5e-4 }) * (self.peak + 1e-9))
    }
}
struct Svf {
    p: [f64; 3],
    ty: i64,
    a: [f64; 3],
    m: [f64; 3],
    s: [f64; 2],
    peak: f64,
}
impl Svf {
    /// Andrew Simper: Solving the continuous SVF equations using trapezoidal integration
    fn calc(&mut self, sr: f64) {
        let [f, q, db] = self.p;
        let a = 10f64.powf(db / 40.0);
        let mut g = (PI * f / sr).tan();
        let mut k = 1.0 / q;
        self.m = match self.ty {
            0 => [0.0, 0.0, 1.0],
            1 => [1.0, -k, -1.0],
            2 => [0.0, 1.0, 0.0],
            3 => [1.0, -k, 0.0],
            4 => [1.0, -k, -2.0],
            5 => [1.0, -2.0 * k, 0.0],
            6 => {
                k = 1.0 / (q * a);
                [1.0, k * (a * a - 1.0), 0.0]
            }
            7 => {
                g /= a.sqrt();
                [1.0, k * (a - 1.0), a * a - 1.0]
            }
            _ => {
                g *= a.sqrt();
                [a * a, k * (1.0 - a) * a, 1.0 - a * a]
            }
        };
        let a1 = 1.0 / (1.0 + g * (g + k));
        self.a = [a1, g * a1, g * g * a1];
    }
}
impl Model for Svf {
    fn param(&mut self, c: &Cx, i: usize, _kind: i64, x: f64, n: i64) {
        match i {
            0..=2 => self.p[i] = c.q(x),
            3 => self.ty = n,
            _ => (),
        }
        self.calc(c.sr);
    }
    fn frame(&mut self, c: &Cx, input: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        let v0 = input[0];
        let v3 = v0 - self.s[1];
        let v1 = self.a[0] * self.s[0] + self.a[1] * v3;
        let v2 = self.s[1] + self.a[1] * self.s[0] + self.a[2] * v3;
        self.s = [2.0 * v1 - self.s[0], 2.0 * v2 - self.s[1]];
        let want = self.m[0] * v0 + self.m[1] * v1 + self.m[2] * v2;
        let parts = (self.m[0] * v0).abs() + (self.m[1] * v1).abs() + (self.m[2] * v2).abs();
        self.peak = self.peak.max(parts).max(v0.abs());
        near("the filtered signal", want, seen[0], (if c.f64 { 1e-7 } else { 5e-3 }) * (self.peak + 1e-9))
    }
}

// Noise

#[derive(Clone, Copy, PartialEq)]
enum N {
    White,
    Pink,
    Brown,
}
struct Noise {
    kind: N,
    seen: Vec<f64>,
}
impl Model for Noise {
    fn frame(&mut self, _c: &Cx, _i: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        let x = seen[0];
        if x.is_nan() || x.abs() > 1.0 + 1e-6 {
            return Err(format!("noise of {x}"));
        }
        if let (N::Brown, Some(l)) = (self.kind, self.seen.last()) {
            if (x - l).abs() > 0.1001 {
                return Err(format!("brown noise leaps from {l} to {x}"));
            }
        }
        self.seen.push(x);
        Ok(())
    }
    fn end(&mut self, _c: &Cx) -> R {
        let v = &self.seen;
        let n = v.len();
        if n < 200 {
            return Ok(());
        }
        let same = v.windows(2).filter(|w| w[0] == w[1]).count();
        if same > n / 10 + 3 && self.kind != N::Brown {
            return Err(format!("{same} of {n} frames are the same as the frame before"));
        }
        for d in 1..n / 3 {
            if (0..n - d).all(|i| v[i] == v[i + d]) {
                return Err(format!("the noise repeats every {d} frames"));
            }
        }
        let mean = v.iter().sum::<f64>() / n as f64;
        let var = v.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / n as f64;
        // neighbouring frames
        let cor = v.windows(2).map(|w| (w[0] - mean) * (w[1] - mean)).sum::<f64>() / n as f64 / var.max(1e-12);
        let bad = match self.kind {
            N::White => mean.abs() > 5.0 / (3.0 * n as f64).sqrt() || (var - 1.0 / 3.0).abs() > 2.0 / (n as f64).sqrt() || cor.abs() > 6.0 / (n as f64).sqrt(),
            N::Pink => var < 0.003 || var > 0.2 || cor < 0.05,
            N::Brown => var < 1e-4 || cor < 0.5,
        };
        // Steps from frame to frame, of brown noise those which can't be limited
        let d: Vec<f64> = v.windows(2).filter(|w| self.kind != N::Brown || w[0].abs() < 0.89).map(|w| w[1] - w[0]).collect();
        let m = d.len() as f64;
        if m > 400.0 {
            let step = d.iter().sum::<f64>() / m;
            let size = d.iter().map(|x| x * x).sum::<f64>() / m;
            let bad = match self.kind {
                N::White => false,
                // two of the ten sources change in every frame
                N::Pink => !(0.6..1.6).contains(&(size / (4.0 / 300.0))),
                N::Brown => !(0.6..1.6).contains(&(size / (0.01 / 3.0))) || step.abs() > 6.0 * (0.01 / 3.0 / m).sqrt(),
            };
            if bad {
                return Err(format!("{m} steps from frame to frame have a mean of {step} and a mean square of {size}"));
            }
        }
        if bad { Err(format!("{n} frames have a mean of {mean}, a variance of {var} and a correlation of neighbours of {cor}")) } else { Ok(()) }
    }
}
struct RandLin {
    freq: f64,
    phase: f64,
    slack: f64,
    /// values and steps of the frames which are certainly on the same line
    line: Vec<(f64, f64)>,
    last: Option<(f64, f64)>,
    slopes: Vec<f64>,
}
impl Model for RandLin {
    fn param(&mut self, c: &Cx, _i: usize, _kind: i64, x: f64, _n: i64) {
        self.freq = c.q(x);
    }
    fn frame(&mut self, c: &Cx, _i: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        let x = seen[0];
        let e = if c.f64 { 1e-9 } else { 2e-6 };
        if x.is_nan() || x < -e || x > 1.0 + e {
            return Err(format!("the value is {x}"));
        }
        let step = self.freq / c.sr;
        if let Some((l, s)) = self.last {
            if (x - l).abs() > s + e {
                return Err(format!("the value leaps from {l} to {x} within {s} of a line"));
            }
        }
        // two values and the phases between them give the line
        if let [a, .., b] = &self.line[..] {
            if b.1 - a.1 > 1e-4 && self.phase > b.1 {
                let slope = (b.0 - a.0) / (b.1 - a.1);
                let want = b.0 + slope * (self.phase - b.1);
                let tol = e * 8.0 * (1.0 + (self.phase - b.1) / (b.1 - a.1)) + self.slack * 4.0;
                near("the value on a line", want, x, tol)?;
            }
        }
        self.line.push((x, self.phase));
        self.last = Some((x, step));
        self.phase += step;
        self.slack += c.e() * 2.0;
        let e2 = self.slack + 1e-9;
        if self.phase >= 1.0 - e2 {
            if let [a, .., b] = &self.line[..] {
                if b.1 - a.1 > 0.2 {
                    self.slopes.push((b.0 - a.0) / (b.1 - a.1));
                }
            }
            if self.phase < 1.0 + e2 {
                // now or in the next frame: which one doesn't matter to what is checked, but where
                // the line starts does
                self.phase = f64::NAN;
            } else {
                self.phase = 0.0;
                self.slack = 0.0;
            }
            self.line.clear();
        }
        if self.phase.is_nan() {
            self.line.clear();
        }
        Ok(())
    }
    fn end(&mut self, _c: &Cx) -> R {
        let s = &self.slopes;
        if s.len() >= 6 && s.windows(2).all(|w| (w[0] - w[1]).abs() < 1e-6) {
            return Err(format!("{} lines with the slope {}", s.len(), s[0]));
        }
        Ok(())
    }
}

// Others

struct PanM(f64);
impl Model for PanM {
    fn param(&mut self, _c: &Cx, _i: usize, _kind: i64, x: f64, _n: i64) {
        self.0 = x;
    }
    fn frame(&mut self, _c: &Cx, input: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        let a = (self.0 * 0.5 + 0.5) * FRAC_PI_2;
        let tol = 3e-4 * input[0].abs() + 1e-9;
        near("the left channel", input[0] * a.cos(), seen[0], tol)?;
        near("the right channel", input[0] * a.sin(), seen[1], tol)
    }
}
struct DoneTrig(bool);
impl Model for DoneTrig {
    fn param(&mut self, _c: &Cx, _i: usize, _kind: i64, _x: f64, _n: i64) {
        self.0 = true;
    }
    fn frame(&mut self, _c: &Cx, _i: &[f64], _s: &[f64], done: Option<bool>) -> R {
        if done.is_some_and(|d| d != self.0) { Err(format!("done is {done:?}, triggered: {}", self.0)) } else { Ok(()) }
    }
}
struct ConstM(f64);
impl Model for ConstM {
    fn param(&mut self, c: &Cx, _i: usize, _kind: i64, x: f64, _n: i64) {
        self.0 = c.q(x);
    }
    fn frame(&mut self, c: &Cx, _i: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        near("the constant", c.q(self.0), seen[0], 0.0)
    }
}
/// A delay line of a set length within a buffer
struct Line {
    buf: Vec<f64>,
    at: usize,
    len: usize,
}
impl Line {
    fn new(n: usize) -> Self {
        Self { buf: vec![0.0; n], at: 0, len: n }
    }
    fn put(&mut self, x: f64) -> f64 {
        self.buf[self.at] = x;
        self.at = (self.at + 1) % self.len;
        self.buf[self.at]
    }
}
/// The published equations of Galactic at sample rates where it runs once per frame. The depth of the
/// vibrato drifts at random after its first period, the equations are only followed up to there.
struct GalacticM {
    par: [f64; 5],
    lines: [[Line; 12]; 2],
    vib_lines: [Line; 2],
    vib: f64,
    feedback: [[f64; 4]; 2],
    pre: [f64; 2],
    post: [f64; 2],
    lost: bool,
    peak: f64,
}
impl GalacticM {
    fn new(c: &Cx, par: [f64; 5]) -> Self {
        let times = [6480, 3660, 1720, 680, 9700, 6000, 2320, 940, 15220, 8460, 4540, 3200];
        let line = |i: usize| Line::new((times[i] as f64 / 44100.0 * c.sr) as usize);
        Self {
            par: par.map(|x| c.q(x)),
            lines: [std::array::from_fn(line), std::array::from_fn(line)],
            vib_lines: [Line::new(256), Line::new(256)],
            vib: 3.0,
            feedback: [[0.0; 4]; 2],
            pre: [0.0; 2],
            post: [0.0; 2],
            lost: false,
            peak: 0.0,
        }
    }
    fn step(&mut self, c: &Cx, input: &[f64]) -> [f64; 2] {
        let [replace, detune, bright, big, wet] = self.par;
        let regen = 0.0625 + (1.0 - replace) * 0.0625;
        let attenuate = (1.0 - regen / 0.125) * 1.333;
        let low = ((0.00001 + bright).powi(2) / (c.sr / 44100.0).sqrt()).min(1.0);
        let size = c.q(c.q(big * c.q(0.9)) + c.q(0.1));
        let wet = 1.0 - (1.0 - wet).powi(3);
        self.vib += 429496.7295 * detune.powi(3) * 0.001;
        self.lost |= self.vib > std::f64::consts::TAU - 0.01;
        let mix = |x: [f64; 4]| -> [f64; 4] { std::array::from_fn(|i| 2.0 * x[i] - x.iter().sum::<f64>()) };
        let mut out = [0.0; 2];
        let mut next = [[0.0; 4]; 2];
        for s in 0..2 {
            let l = &mut self.vib_lines[s];
            l.put(input[s] * attenuate);
            let at = l.at as f64 + ((self.vib + s as f64 * std::f64::consts::FRAC_PI_2).sin() + 1.0) * 127.0;
            let at = c.q(at);
            let (a, b) = (l.buf[at.floor() as usize % 256], l.buf[at.ceil() as usize % 256]);
            self.pre[s] += (a + (b - a) * at.fract() - self.pre[s]) * low;
            let mut x: [f64; 4] = std::array::from_fn(|i| self.feedback[1 - s][i] * regen + self.pre[s]);
            for stage in 0..3 {
                let y = std::array::from_fn(|i| {
                    let l = &mut self.lines[s][stage * 4 + i];
                    l.len = (c.q(l.buf.len() as f64 * size) as usize).clamp(1, l.buf.len());
                    l.at %= l.len;
                    l.put(x[i])
                });
                x = if stage < 2 { mix(y) } else { y };
            }
            next[s] = mix(x);
            self.post[s] += (x.iter().sum::<f64>() / 8.0 - self.post[s]) * low;
            out[s] = self.post[s] * wet + input[s] * (1.0 - wet);
        }
        self.feedback = next;
        out
    }
}
impl Model for GalacticM {
    fn param(&mut self, c: &Cx, i: usize, _kind: i64, x: f64, _n: i64) {
        self.par[i] = c.q(x);
    }
    fn frame(&mut self, c: &Cx, input: &[f64], seen: &[f64], done: Option<bool>) -> R {
        never_done(done)?;
        for (x, y) in input.iter().zip(seen) {
            if !y.is_finite() || y.abs() > 1e4 {
                return Err(format!("the output is {y}"));
            }
            if self.par[4] == 0.0 {
                near("the dry signal", *x, *y, 1e-5 + x.abs() * 1e-5)?;
            }
        }
        if !self.lost {
            let w = self.step(c, input);
            self.peak = w.iter().chain(input).fold(self.peak, |a, b| a.max(b.abs()));
            for s in 0..2 {
                if !self.lost {
                    near(&format!("output {s} in frame {}", c.n), w[s], seen[s], 2e-5 + self.peak * if c.f64 { 1e-6 } else { 3e-3 })?;
                }
            }
        }
        Ok(())
    }
}
/// Arithmetic on the outputs of `Linear`
struct Arith {
    op: i64,
    v: f64,
    a: f64,
    b: f64,
    n: u64,
}
impl Model for Arith {
    fn param(&mut self, c: &Cx, i: usize, _kind: i64, x: f64, _n: i64) {
        match i {
            0 => self.a = c.q(x),
            1 => self.b = c.q(x),
            _ => self.n = 0,
        }
    }
    fn frame(&mut self, c: &Cx, i: &[f64], seen: &[f64], done: Option<bool>) -> R {
        self.n += 1;
        if done.is_some_and(|d| d != (self.n % 97 == 0)) {
            return Err(format!("done is {done:?} in frame {} since the last reset", self.n));
        }
        let v = self.v;
        for (k, x) in [i[0] * self.b + self.a, i[1] + (self.n % 7) as f64].into_iter().enumerate() {
            let x = c.q(x);
            let want = match self.op {
                0 => x * v,
                1 => x + v,
                2 => x - v,
                3 => v - x,
                4 => x / v,
                5 => v / x,
                6 => x.powf(v),
                7 => x.powi((v as i64 % 4) as i32),
                _ => x * x - 0.25,
            };
            // how much rounding of x matters
            let around = |d: f64| match self.op {
                5 => v / (x + d),
                6 => (x + d).powf(v),
                7 => (x + d).powi((v as i64 % 4) as i32),
                _ => want,
            };
            let dx = (i[0] * self.b).abs().max(self.a.abs()).max(x.abs()) * c.e() * 4.0 + 1e-12;
            let spread = (around(dx) - around(-dx)).abs();
            if !(spread < 1e3) {
                continue;
            }
            near(&format!("output {k}"), want, seen[k], c.tol() * (1.0 + want.abs() + x.abs()) + spread * 2.0)?;
        }
        Ok(())
    }
}

fn model(name: &str, c: &Cx, p: &[f64], math: bool) -> Box<dyn Model> {
    let n = |i: usize| p.get(i).copied().unwrap_or(0.0);
    let osc = |wave, freq| Osc { wave, freq, phase: 0.0, offset: 0.0, slack: 0.0, form: 0, width: 0.5 };
    fn two(f: fn(f64, f64) -> f64, tol: f64) -> Box<dyn Model> {
        Box::new(Fun(move |c: &Cx, i: &[f64]| {
            let h = i.len() / 2;
            (0..h).map(|k| (f(i[k], i[k + h]), if c.f64 { tol * 1e-9 } else { tol })).collect()
        }))
    }
    fn one(f: fn(f64) -> f64, tol: f64) -> Box<dyn Model> {
        Box::new(Fun(move |c: &Cx, i: &[f64]| i.iter().map(|x| (f(*x), if c.f64 { tol * 1e-9 } else { tol })).collect()))
    }
    if math {
        return Box::new(Arith { op: n(0) as i64, v: c.q(n(1)), a: 0.0, b: 1.0, n: 0 });
    }
    match name {
        "sample_delay" => Box::new(SampleDel { past: vec![], secs: 0.0, max: n(0) }),
        "allpass_delay" | "allpass_feedback_delay" | "allpass_hand" | "allpass_feedback_hand" => Box::new(Allpass {
            past: vec![],
            len: (n(0) * c.sr + 1e-3) as usize,
            short: {
                let f = n(0) * c.sr;
                (1e-9..1e-3).contains(&(f - f.round()).abs())
            },
            feedback: name.starts_with("allpass_feedback").then_some(0.0),
            n: 0,
            coeff: 1.0,
            x1: 0.0,
            y1: 0.0,
            set: false,
            unsure: false,
            peak: 0.0,
            hand: name.ends_with("hand"),
            was: None,
            clearing: 0,
            cleared: None,
        }),
        "static_hand" => Box::new(StaticHand { size: n(0) as usize, len: n(0) as usize, ring: vec![0.0; n(0) as usize], pos: 0, at: 0, fuzzy: vec![0.0] }),
        "onepole_hand" => Box::new(OnePoleHand { b: 0.0, y: 0.0, peak: 0.0 }),
        "polyblep_hand" => Box::new(PolyHand { osc: Osc { form: n(1) as i64, ..osc(Wave::Blep, c.q(n(0))) }, sr: c.sr, dt: c.q(n(0)) / c.sr }),
        "static_delay" => {
            let d = n(0) as usize;
            let mut past = vec![];
            Box::new(Fun(move |_c: &Cx, i: &[f64]| {
                past.push(i[0]);
                vec![(if past.len() > d { past[past.len() - 1 - d] } else { 0.0 }, 0.0)]
            }))
        }
        "limiter" => one(|x| if x.is_nan() { 0.0 } else { x.clamp(-1.0, 1.0) }, 0.0),
        "asr" | "ar" => Box::new(Asr {
            sustain: name == "asr",
            attack: c.q(n(0)),
            release: c.q(n(1)),
            may: vec![AsrState { s: A::Stopped, t: 0.0, scale: 1.0 }],
            k: 0.0,
        }),
        "envelope" => Box::new(Env {
            start: n(0),
            segs: (0..n(1) as usize).map(|i| (n(2) * (1.0 + i as f64 * 0.37), ((i + 1) as f64 * 0.7).sin())).collect(),
            scale: n(3),
            looping: n(4) > 0.5,
            may: vec![EnvState { at: None, from: n(0) }],
        }),
        "math_add" => two(|a, b| a + b, 1e-6),
        "math_sub" => two(|a, b| a - b, 1e-6),
        "math_mul" => two(|a, b| a * b, 1e-6),
        "math_div" => two(|a, b| a / b, 1e-6),
        "math_pow" => two(|a, b| a.powf(b), 1e-3),
        "ceil" => one(f64::ceil, 0.0),
        "sqrt" => one(f64::sqrt, 1e-6),
        "floor" => one(f64::floor, 0.0),
        "trunc" => one(f64::trunc, 0.0),
        "fract" => one(f64::fract, 1e-6),
        "exp" => one(f64::exp, 1e-4),
        "white" => Box::new(Noise { kind: N::White, seen: vec![] }),
        "pink" => Box::new(Noise { kind: N::Pink, seen: vec![] }),
        "brown" => Box::new(Noise { kind: N::Brown, seen: vec![] }),
        "random_lin" => Box::new(RandLin { freq: c.q(n(0)), phase: 0.0, slack: 0.0, line: vec![], last: None, slopes: vec![] }),
        "lpf" => Box::new(OnePole { high: false, b: (-TAU * n(0) / c.sr).exp(), y: 0.0, peak: 0.0 }),
        "hpf" => Box::new(OnePole { high: true, b: 1.0, y: 0.0, peak: 0.0 }),
        "sin_wt" => Box::new(osc(Wave::Sin, c.q(n(0)))),
        "phasor" => Box::new(osc(Wave::Phasor, n(0))),
        "sin_numeric" => Box::new(osc(Wave::Numeric, c.q(n(0)))),
        "polyblep" => Box::new(Osc { form: n(1) as i64, ..osc(Wave::Blep, c.q(n(0))) }),
        "pan" => Box::new(PanM(n(0))),
        "svf" => {
            let mut s = Svf { p: [c.q(n(0)), c.q(n(1)), c.q(n(2))], ty: n(3) as i64, a: [0.0; 3], m: [0.0; 3], s: [0.0; 2], peak: 0.0 };
            s.calc(c.sr);
            Box::new(s)
        }
        "done_on_trig" => Box::new(DoneTrig(false)),
        "constant" => Box::new(ConstM(n(0))),
        "galactic" => Box::new(GalacticM::new(&c, std::array::from_fn(|i| n(i)))),
        _ => panic!("harness: no model of {name}"),
    }
}

pub fn run(t: &Trace) -> Outcome {
    if t.get("f64", 0) != 0 { run_f::<f64>(t) } else { run_f::<f32>(t) }
}
fn run_f<F: Float>(t: &Trace) -> Outcome {
    let mut o = Outcome::default();
    let name = UGENS[t.get("ugen", 0) as usize % UGENS.len()].0;
    alloc::quarantine_start();
    let r = std::panic::catch_unwind(|| pause(|| follow::<F>(t)));
    let c = alloc::quarantine_end();
    match r {
        Ok(x) => o = x,
        Err(_) => o.violation = Some(Violation { class: "panic", detail: format!("{name}: {}", crate::panic_message()) }),
    }
    if o.violation.is_none() && c.0 + c.1 > 0 {
        o.violation = Some(Violation { class: "corrupt", detail: format!("{} writes beyond an allocation, {} writes to freed memory", c.0, c.1) });
    }
    o
}
fn follow<F: Float>(t: &Trace) -> Outcome {
    let mut o = Outcome::default();
    let id = t.get("ugen", 0) as usize % UGENS.len();
    let (name, params, _) = UGENS[id];
    let frames = t.get("frames", 1).max(1) as usize;
    let wrap = t.get("wrap", 0);
    let mut evs: Vec<&Op> = t.steps.iter().filter(|s| s.name == "ev").collect();
    evs.sort_by_key(|e| e.a(0));
    let cut = t.steps.iter().find(|s| s.name == "cut").cloned().unwrap_or_else(|| Op::new("cut", &[1, 1, 0]));
    let cut = Cut { bs: cut.a(0).clamp(1, 4096) as usize, kind: cut.a(1), seed: cut.a(2) as u64 };
    let l = split::line::<F>(t, &cut, &evs);
    o.blocks = l.blocks;
    match &l.bad {
        Some(("skip", _)) => return o,
        Some((c, d)) => {
            o.violation = Some(Violation { class: c, detail: format!("{name}: {d}") });
            return o;
        }
        None => (),
    }
    o.faultn("parameter_change", evs.iter().filter(|e| e.a(2) != 1).count() as u64);
    o.faultn("trigger", evs.iter().filter(|e| e.a(2) == 1).count() as u64);
    o.fault(match cut.kind {
        0 => "whole_blocks",
        1 => "single_frames",
        2 => "random_cuts",
        _ => "delayed_changes",
    });
    if t.get("input", 0) == 8 {
        o.fault("input_not_finite");
    }
    let args: Vec<f64> = (0..6).map(|i| t.get(&format!("arg{i}"), 0) as f64 * 1e-6).collect();
    let mut cx = Cx { sr: t.get("sr", 48000) as f64, f64: t.get("f64", 0) != 0, n: 0 };
    let mut m = model(name, &cx, &args, wrap & WR_MATH != 0);
    let ni = {
        let u = crate::ugens::make::<F>(id, &args, wrap);
        u.ins()
    };
    let driven_by: Vec<(usize, f64, f64)> = (0..params.len())
        .filter(|i| wrap & WR_AR != 0 && t.get(&format!("ar{i}"), 0) != 0)
        .filter_map(|i| match params[i] {
            K::F(a, b) => Some((i, a, b)),
            _ => None,
        })
        .collect();
    if !driven_by.is_empty() {
        o.fault("driven_parameter");
    }
    let mut marks = vec![None; l.outs.first().map_or(frames, |c| c.len()).max(frames) + 8192];
    for (s, e, d, _) in &l.marks {
        for f in *s..*e {
            marks[f] = match d {
                None => Some(false),
                Some(d) if f < *d => Some(false),
                Some(d) if f == *d => Some(true),
                Some(_) => None,
            };
        }
    }
    let mut ei = 0;
    let mut err = None;
    for f in 0..frames {
        cx.n = f;
        while ei < evs.len() && evs[ei].a(0) as usize <= f {
            let e = evs[ei];
            ei += 1;
            let p = e.a(1) as usize;
            if e.a(2) >= 4 || p >= params.len() || driven_by.iter().any(|d| d.0 == p) {
                continue;
            }
            m.param(&cx, p, e.a(2), e.a(3) as f64 * 1e-6, e.a(3));
        }
        for (p, a, b) in &driven_by {
            m.param(&cx, *p, 0, driven(*p, *a, *b, f), 0);
        }
        let i: Vec<f64> = (0..ni).map(|c| Float::to_f64(split::input::<F>(t.get("input", 0), c, f))).collect();
        let s: Vec<f64> = l.outs.iter().map(|c| c[f]).collect();
        o.evals += 1;
        if let Err(e) = m.frame(&cx, &i, &s, marks[f]) {
            err = Some(format!("in frame {f} {e}"));
            break;
        }
    }
    if err.is_none() {
        err = m.end(&cx).err();
    }
    if let Some(e) = err {
        o.violation = Some(Violation { class: "model", detail: format!("{name} (wrappers {wrap}): {e}") });
    }
    for c in &l.outs {
        for x in c {
            o.hash = hash(&[o.hash, x.to_bits()]);
        }
    }
    o.inter = hash(&[id as u64, cut.bs as u64, cut.kind as u64, cut.seed, evs.len() as u64, evs.iter().fold(0, |a, e| hash(&[a, e.a(0) as u64, e.a(1) as u64]))]);
    o.frames = frames as u64;
    o.points = evs.len() as u64;
    o.sim_ns = (o.frames as f64 * 1e9 / cx.sr) as u64;
    o
}
