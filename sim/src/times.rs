//! Times and beats: a sequencer keeps times in registers, computes with them, converts them from and
//! to frames of several clocks and schedules changes at them, while the audio clock goes on in
//! blocks, stalls and jumps. All values are compared with integers of unlimited precision.
use crate::rng::{hash, Rng};
use crate::trace::{Op, Outcome, Trace, Violation};
use knaster_core::log::ArLogSender;
use knaster_core::{Beats, Seconds};
use knaster_graph::Time;
use std::time::Duration;

/// Parts of a second and of a beat
const T: i128 = 282_240_000;
const B: i128 = 1_476_034_560;
const RATES: [u64; 16] = [44100, 48000, 88200, 96000, 176400, 192000, 8000, 11025, 16000, 22050, 24000, 32000, 352800, 384000, 50000, 47999];

pub fn generate(prop: &str, seed: u64) -> Trace {
    let mut r = Rng::new(hash(&[seed, 0x7100]));
    let mut t = Trace { prop: prop.into(), engine: "times".into(), seed, ..Default::default() };
    let rate = |r: &mut Rng| {
        let n = if r.chance(1, 8) { 16 } else { 14 };
        r.below(n) as i64
    };
    t.set("rate", rate(&mut r));
    t.set("bs", *r.pick(&[1i64, 3, 16, 16, 32, 64, 64, 100, 128, 256, 512, 1024]));
    t.set("start", [0, 0, r.below(1 << 20) as i64, r.below(1 << 36) as i64][r.below(4) as usize]);
    let n = 3 + r.below(40);
    // a magnitude of numbers, so that all of them occur
    let size = |r: &mut Rng, max: u64| {
        let bits = r.below(max + 1);
        (r.u64() & ((1u64 << bits) - 1).max(1)) as i64
    };
    for _ in 0..n {
        let (d, a, b) = (r.below(6) as i64, r.below(6) as i64, r.below(6) as i64);
        let op = match r.below(36) {
            0 => Op::new("secs", &[d, size(&mut r, 31), [size(&mut r, 28) % T as i64, T as i64 - 1 - size(&mut r, 4)][r.below(2) as usize]]),
            // decimal fractions: tenths, hundredths, thousandths
            1 | 2 => Op::new("secs_dec", &[d, size(&mut r, 34), *r.pick(&[1i64, 2, 4, 5, 10, 100, 1000, 60, 3, 7])]),
            3 | 4 => Op::new("secs_frame", &[d, size(&mut r, 36), rate(&mut r)]),
            5 => Op::new("secs_bits", &[d, size(&mut r, 62)]),
            6 => Op::new("secs_dur", &[d, size(&mut r, 31), [size(&mut r, 30) % 1_000_000_000, 999_999_999 - size(&mut r, 4)][r.below(2) as usize]]),
            7 => Op::new("secs_samples", &[d, size(&mut r, 42), rate(&mut r)]),
            8 => Op::new("secs_tes", &[d, size(&mut r, 59)]),
            9..=11 => Op::new("add", &[d, a, b, r.below(2) as i64]),
            12 | 13 => Op::new("sub", &[d, a, b, r.below(2) as i64]),
            14 => Op::new("mul", &[d, a, b, r.below(2) as i64]),
            15 | 16 => Op::new("scale", &[d, a, *r.pick(&[1i64, 2, 3, 4, 7, 12, 60, 100, 1000]) * size(&mut r, 4), *r.pick(&[1i64, 1, 2, 3, 4, 7, 10, 1000]), r.below(6) as i64]),
            17 => Op::new("look", &[a, b, rate(&mut r)]),
            18 | 19 => Op::new("at", &[a]),
            20 | 21 => Op::new("after", &[a]),
            22 => Op::new("soon", &[r.below(2) as i64, size(&mut r, 14), r.below(17) as i64]),
            23 | 24 => Op::new("blocks", &[1 + size(&mut r, 7)]),
            25 => Op::new("stall", &[1 + size(&mut r, 10)]),
            26 => Op::new("beats", &[d, size(&mut r, 31), size(&mut r, 30) % B as i64]),
            27 => Op::new("beats_frac", &[d, size(&mut r, 31), r.below(10) as i64, size(&mut r, 10)]),
            28 => Op::new("beats_dec", &[d, size(&mut r, 34), *r.pick(&[1i64, 2, 3, 5, 7, 9, 10, 100, 1000]), r.below(4) as i64]),
            29 | 30 => Op::new("b_add", &[d, a, b, r.below(3) as i64]),
            31 => Op::new("b_sub", &[d, a, b, r.below(2) as i64]),
            32 => Op::new("b_mul", &[d, a, b, r.below(2) as i64]),
            33 | 34 => Op::new("b_scale", &[d, a, *r.pick(&[1i64, 2, 3, 4, 7, 12, 60, 100]) * size(&mut r, 4), *r.pick(&[1i64, 1, 2, 3, 4, 7, 10]), r.below(9) as i64]),
            _ => Op::new("b_look", &[a, b]),
        };
        t.steps.push(op);
    }
    t
}
/// x times n, rounded down, and whether something was cut off. x must not be negative.
fn product(x: f64, n: i128) -> (i128, bool) {
    let bits = x.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = if e == 0 { (bits & ((1 << 52) - 1)) << 1 } else { (bits & ((1 << 52) - 1)) | 1 << 52 } as i128;
    let shift = e - 1075;
    let p = m * n;
    if shift >= 0 {
        (p << shift, false)
    } else if shift <= -127 {
        (0, p != 0)
    } else {
        (p >> -shift, p & ((1i128 << -shift) - 1) != 0)
    }
}
type R = Result<(), (&'static str, String)>;
fn close(what: &str, got: i128, want: (i128, bool), tol: f64) -> R {
    // the wanted value is want.0 or a bit more
    let d = (got - want.0) as f64 - if want.1 { 0.5 } else { 0.0 };
    let tol = tol + if want.1 { 0.5 } else { 0.0 };
    if d.abs() <= tol {
        Ok(())
    } else {
        Err(("model", format!("{what}: {got} instead of {} (off by more than {tol})", want.0)))
    }
}
fn same(what: &str, got: i128, want: i128) -> R {
    if got == want {
        Ok(())
    } else {
        Err(("model", format!("{what}: {got} instead of {want}")))
    }
}
struct Due {
    time: Time,
    /// frame at which it should happen
    frame: u64,
    /// the number of times it was asked, for relative times
    asked: u64,
    relative: Option<i128>,
}
struct World {
    sr: u64,
    bs: u64,
    clock: u64,
    s: [Seconds; 6],
    b: [Beats; 6],
    due: Vec<Due>,
    log: ArLogSender,
    o: Outcome,
}
fn tes(s: Seconds) -> i128 {
    // as stored, not normalised
    s.to_subsample_tesimals_u64() as i128
}
fn btes(b: Beats) -> i128 {
    // beats have no accessors, but they print what they are made of
    let s = format!("{b:?}");
    let mut n = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse::<i128>().unwrap());
    let (beats, part) = (n.next().unwrap(), n.next().unwrap());
    beats * B + part
}
impl World {
    fn put(&mut self, d: i64, s: Seconds) -> R {
        let t = tes(s);
        self.o.hash = hash(&[self.o.hash, t as u64]);
        self.o.evals += 1;
        // the same time always is the same value
        if s != Seconds::from_subsample_tesimals_u64(t as u64) || s != Seconds::new((t / T) as u32, (t % T) as u32) {
            return Err(("model", format!("{s:?} has more parts than a second")));
        }
        self.s[d as usize % 6] = s;
        Ok(())
    }
    fn put_b(&mut self, d: i64, b: Beats) -> R {
        let t = btes(b);
        self.o.hash = hash(&[self.o.hash, t as u64]);
        self.o.evals += 1;
        if b != Beats::new((t / B) as u32, (t % B) as u32) {
            return Err(("model", format!("{b:?} has more parts than a beat")));
        }
        self.b[d as usize % 6] = b;
        Ok(())
    }
    fn fits(t: i128) -> bool {
        t >= 0 && t / T < (1 << 32) - 2
    }
    fn fits_b(t: i128) -> bool {
        t >= 0 && t / B < (1 << 32) - 2
    }
    /// Tolerance of a product computed in double precision
    fn tol(t: i128) -> f64 {
        1.0 + t as f64 / (1u64 << 50) as f64
    }
    fn ask(&mut self) -> R {
        let mut i = 0;
        while i < self.due.len() {
            let d = &mut self.due[i];
            if d.asked == 0 {
                if let Some(rel) = d.relative {
                    d.frame = self.clock + (rel * self.sr as i128 / T) as u64;
                }
            }
            let got = d.time.to_samples_until_due(self.bs, self.sr, self.clock, &mut self.log);
            let want = d.frame.saturating_sub(self.clock);
            d.asked += 1;
            // where a block isn't a whole number of parts of a second, relative times may be rounded
            // once in every block
            let tol = if d.relative.is_some() && T % self.sr as i128 != 0 { (d.asked * self.sr) as f64 / T as f64 + 1.0 } else { 0.0 };
            self.o.evals += 1;
            if (got as f64 - want as f64).abs() > tol {
                return Err(("due", format!("{got} instead of {want} frames until {:?} ({} at frame {})", d.time, if d.relative.is_some() { "relative" } else { "absolute" }, self.clock)));
            }
            if got < self.bs {
                self.due.swap_remove(i);
            } else {
                i += 1;
            }
        }
        Ok(())
    }
    fn step(&mut self, op: &Op) -> R {
        let rate = |i: i64| RATES[i.rem_euclid(16) as usize];
        let (d, s, b) = (op.a(0), |i: i64| self.s[i.rem_euclid(6) as usize], |i: i64| self.b[i.rem_euclid(6) as usize]);
        match op.name.as_str() {
            "secs" => {
                let (x, y) = (op.a(1).max(0) as u32, op.a(2).clamp(0, T as i64 - 1) as u32);
                let v = Seconds::new(x, y);
                same("Seconds::new", tes(v), x as i128 * T + y as i128)?;
                self.put(d, v)
            }
            "secs_tes" => {
                let x = (op.a(1).max(0) as u64).min(T as u64 * u32::MAX as u64);
                let v = Seconds::from_subsample_tesimals_u64(x);
                same("from_subsample_tesimals_u64", tes(v), x as i128)?;
                self.put(d, v)
            }
            "secs_dec" | "secs_frame" | "secs_bits" => {
                let x = match op.name.as_str() {
                    "secs_dec" => op.a(1).max(0) as f64 / op.a(2).max(1) as f64,
                    "secs_frame" => op.a(1).max(0) as f64 / rate(op.a(2)) as f64,
                    _ => f64::from_bits(op.a(1).max(0) as u64),
                };
                if !x.is_finite() || x >= u32::MAX as f64 {
                    return Ok(());
                }
                let v = Seconds::from_secs_f64(x);
                let mut w = product(x, T);
                if w.1 && x > 1e-30 {
                    // in halves, to tell which one is nearer
                    let h = product(x, 2 * T).0;
                    w = ((h + 1) / 2, true);
                    close(&format!("from_secs_f64({x:?})"), tes(v) * 2, (h, true), 1.0001)?;
                } else {
                    close(&format!("from_secs_f64({x:?})"), tes(v), w, 0.0001)?;
                }
                let (again, lost) = Seconds::from_secs_f64_return_precision_loss(x);
                if again != v || (lost - (x - v.to_secs_f64())).abs() > 1e-300 {
                    return Err(("model", format!("from_secs_f64_return_precision_loss({x:?}) is {again:?}, {lost:?}")));
                }
                if op.name == "secs_frame" && x < (1 << 20) as f64 && T % rate(op.a(2)) as i128 == 0 {
                    same(&format!("frames of from_secs_f64({x:?})"), v.to_samples(rate(op.a(2))) as i128, op.a(1).max(0) as i128)?;
                }
                self.put(d, v)
            }
            "secs_dur" => {
                let x = Duration::new(op.a(1).max(0) as u64, op.a(2).clamp(0, 999_999_999) as u32);
                let v = Seconds::from(x);
                let n = x.as_nanos() as i128 * T;
                close(&format!("Seconds::from({x:?})"), tes(v) * 2, (2 * n / 1_000_000_000, 2 * n % 1_000_000_000 != 0), 1.0001)?;
                self.put(d, v)
            }
            "secs_samples" => {
                let sr = rate(op.a(2));
                let n = (op.a(1).max(0) as u64).min(sr * (u32::MAX as u64 - 1));
                let v = Seconds::from_samples(n, sr);
                let w = n as i128 * T;
                if w % sr as i128 == 0 {
                    same(&format!("from_samples({n}, {sr})"), tes(v), w / sr as i128)?;
                    same(&format!("from_samples({n}, {sr}).to_samples"), v.to_samples(sr) as i128, n as i128)?;
                } else {
                    close(&format!("from_samples({n}, {sr})"), tes(v), (w / sr as i128, true), 0.5)?;
                }
                self.put(d, v)
            }
            "add" => {
                let (x, y) = (s(op.a(1)), s(op.a(2)));
                let w = tes(x) + tes(y);
                if !Self::fits(w) {
                    return Ok(());
                }
                let v = if op.a(3) == 0 {
                    x + y
                } else {
                    let mut v = x;
                    v += y;
                    v
                };
                same(&format!("{x:?} + {y:?}"), tes(v), w)?;
                self.put(d, v)
            }
            "sub" => {
                let (x, y) = (s(op.a(1)), s(op.a(2)));
                let w = tes(x) - tes(y);
                let v = if op.a(3) == 0 {
                    let v = x.checked_sub(y);
                    if v.is_none() != (w < 0) {
                        return Err(("model", format!("{x:?}.checked_sub({y:?}) is {v:?}")));
                    }
                    v.unwrap_or(Seconds::ZERO)
                } else {
                    x.saturating_sub(y)
                };
                same(&format!("{x:?} - {y:?}"), tes(v), w.max(0))?;
                self.put(d, v)
            }
            "mul" => {
                let (x, y) = (s(op.a(1)), s(op.a(2)));
                let w = tes(x) * tes(y) / T;
                if !Self::fits(w) {
                    return Ok(());
                }
                let v = if op.a(3) == 0 {
                    x * y
                } else {
                    let mut v = x;
                    v *= y;
                    v
                };
                close(&format!("{x:?} * {y:?}"), tes(v), (w, true), Self::tol(w))?;
                self.put(d, v)
            }
            "scale" => {
                let x = s(op.a(1));
                let single = op.a(4) % 2 == 1;
                let f = op.a(2).max(0) as f64 / op.a(3).max(1) as f64;
                let f = if single { f as f32 as f64 } else { f };
                let w = product(f, tes(x)).0;
                if !Self::fits(w) {
                    return Ok(());
                }
                let v = match op.a(4).rem_euclid(6) {
                    0 => x * f,
                    1 => x * f as f32,
                    2 => f * x,
                    3 => f as f32 * x,
                    4 => {
                        let mut v = x;
                        v *= f;
                        v
                    }
                    _ => {
                        let mut v = x;
                        v *= f as f32;
                        v
                    }
                };
                close(&format!("{x:?} * {f:?}"), tes(v), (w, true), Self::tol(w))?;
                self.put(d, v)
            }
            "look" => {
                let (x, y) = (s(op.a(0)), s(op.a(1)));
                let c = tes(x).cmp(&tes(y));
                if x.cmp(&y) != c || x.partial_cmp(&y) != Some(c) || (x == y) != (c == std::cmp::Ordering::Equal) || (x < y) != (tes(x) < tes(y)) {
                    return Err(("model", format!("{x:?} compared with {y:?}")));
                }
                let sr = rate(op.a(2));
                same(&format!("{x:?}.to_samples({sr})"), x.to_samples(sr) as i128, tes(x) * sr as i128 / T)?;
                let (f, g) = (x.to_samples_f64(sr as f64), x.to_secs_f64());
                let (wf, wg) = (tes(x) as f64 * sr as f64 / T as f64, tes(x) as f64 / T as f64);
                if (f - wf).abs() > wf * 1e-14 || (g - wg).abs() > wg * 1e-14 {
                    return Err(("model", format!("{x:?} is {f:?} frames and {g:?} seconds")));
                }
                self.o.evals += 3;
                Ok(())
            }
            "at" | "after" | "soon" => {
                let relative = op.name == "after" || op.name == "soon" && op.a(0) == 1;
                let x = if op.name == "soon" {
                    // a number of frames from now and some sixteenths of a frame
                    let f = op.a(1).max(0) as i128 + if relative { 0 } else { self.clock as i128 };
                    let t = (f * 16 + op.a(2).clamp(0, 15) as i128) * T;
                    let t = (t + self.sr as i128 * 16 - 1) / (self.sr as i128 * 16);
                    Seconds::from_subsample_tesimals_u64(t as u64)
                } else {
                    s(op.a(0))
                };
                if tes(x) / T >= u32::MAX as i128 {
                    return Ok(());
                }
                let time = match (relative, tes(x) % 3) {
                    (true, 0) => Time::after(x),
                    (true, _) => Time::at(x).to_relative(),
                    (false, 0) => Time::at(x),
                    (false, _) => Time::after(x).to_absolute(),
                };
                let frame = (tes(x) * self.sr as i128 / T) as u64;
                if self.due.len() < 20 {
                    self.due.push(Due { time, frame, asked: 0, relative: relative.then_some(tes(x)) });
                }
                Ok(())
            }
            "blocks" => {
                for _ in 0..op.a(0).clamp(0, 5000) {
                    self.ask()?;
                    self.clock += self.bs;
                    self.o.blocks += 1;
                }
                Ok(())
            }
            // The audio side went on before it received anything
            "stall" => {
                *self.o.faults.entry("clock_jump").or_default() += 1;
                self.due.retain(|d| d.relative.is_none() || d.asked == 0);
                self.clock += op.a(0).max(0) as u64 * self.bs;
                Ok(())
            }
            "beats" => {
                let (x, y) = (op.a(1).max(0) as u32, op.a(2).clamp(0, B as i64 - 1) as u32);
                same("Beats::from_beats", btes(Beats::from_beats(x)), x as i128 * B)?;
                self.put_b(d, Beats::new(x, y))
            }
            "beats_frac" => {
                let n = op.a(1).max(0) as u32;
                let f = op.a(3).max(0) as u32;
                let (v, w) = match op.a(2).rem_euclid(10) {
                    0 => (Beats::from_fractional_beats::<2>(n, f % 2), (f % 2) as i128 * B / 2),
                    1 => (Beats::from_fractional_beats::<3>(n, f % 3), (f % 3) as i128 * B / 3),
                    2 => (Beats::from_fractional_beats::<5>(n, f % 5), (f % 5) as i128 * B / 5),
                    3 => (Beats::from_fractional_beats::<7>(n, f % 7), (f % 7) as i128 * B / 7),
                    4 => (Beats::from_fractional_beats::<9>(n, f % 9), (f % 9) as i128 * B / 9),
                    5 => (Beats::from_fractional_beats::<16>(n, f % 16), (f % 16) as i128 * B / 16),
                    6 => (Beats::from_fractional_beats::<24>(n, f % 24), (f % 24) as i128 * B / 24),
                    7 => (Beats::from_fractional_beats::<512>(n, f % 512), (f % 512) as i128 * B / 512),
                    8 => (Beats::from_fractional_beats::<1920>(n, f % 1920), (f % 1920) as i128 * B / 1920),
                    _ => (Beats::from_fractional_beats::<1>(n, 0), 0),
                };
                same("from_fractional_beats", btes(v), n as i128 * B + w)?;
                self.put_b(d, v)
            }
            "beats_dec" => {
                let x = op.a(1).max(0) as f64 / op.a(2).max(1) as f64;
                let single = op.a(3) % 2 == 1;
                let x = if single { x as f32 as f64 } else { x };
                if x >= u32::MAX as f64 - 300.0 {
                    return Ok(());
                }
                let v = match op.a(3).rem_euclid(4) {
                    0 => Beats::from_beats_f64(x),
                    1 => Beats::from_beats_f32(x as f32),
                    2 => Beats::from(x),
                    _ => Beats::from(x as f32),
                };
                if single {
                    // computed in single precision
                    close(&format!("beats from {x:?}f32"), btes(v), product(x, B), 90.0)?;
                } else {
                    let h = product(x, 2 * B);
                    close(&format!("beats from {x:?}"), btes(v) * 2, h, 1.0001)?;
                }
                self.put_b(d, v)
            }
            "b_add" => {
                let (x, y) = (b(op.a(1)), b(op.a(2)));
                let w = btes(x) + btes(y);
                if !Self::fits_b(w) {
                    return Ok(());
                }
                let v = match op.a(3) {
                    0 => x + y,
                    1 => [x, y].into_iter().sum(),
                    _ => {
                        let mut v = x;
                        v += y;
                        v
                    }
                };
                same(&format!("{x:?} + {y:?}"), btes(v), w)?;
                self.put_b(d, v)
            }
            "b_sub" => {
                let (x, y) = (b(op.a(1)), b(op.a(2)));
                let w = btes(x) - btes(y);
                let v = if op.a(3) == 0 {
                    let v = x.checked_sub(y);
                    if v.is_none() != (w < 0) {
                        return Err(("model", format!("{x:?}.checked_sub({y:?}) is {v:?}")));
                    }
                    v.unwrap_or(Beats::ZERO)
                } else {
                    x.saturating_sub(y)
                };
                same(&format!("{x:?} - {y:?}"), btes(v), w.max(0))?;
                self.put_b(d, v)
            }
            "b_mul" => {
                let (x, y) = (b(op.a(1)), b(op.a(2)));
                let w = btes(x) * btes(y) / B;
                if !Self::fits_b(w) {
                    return Ok(());
                }
                let v = if op.a(3) == 0 {
                    x * y
                } else {
                    let mut v = x;
                    v *= y;
                    v
                };
                close(&format!("{x:?} * {y:?}"), btes(v), (w, true), Self::tol(w))?;
                self.put_b(d, v)
            }
            "b_scale" => {
                let x = b(op.a(1));
                let k = op.a(4).rem_euclid(9);
                let n = op.a(2).max(0);
                let f = if k < 4 { n as f64 / op.a(3).max(1) as f64 } else if k == 7 { (n % 256) as f64 } else if k == 6 { (n % 65536) as f64 } else { n as f64 };
                let f = if k == 1 || k == 3 { f as f32 as f64 } else { f };
                let w = product(f, btes(x)).0;
                if !Self::fits_b(w) {
                    return Ok(());
                }
                let v = match k {
                    0 => x * f,
                    1 => x * f as f32,
                    2 => {
                        let mut v = x;
                        v *= f;
                        v
                    }
                    3 => {
                        let mut v = x;
                        v *= f as f32;
                        v
                    }
                    4 => x * n as u64,
                    5 => x * n as u32,
                    6 => x * (n % 65536) as u16,
                    7 => x * (n % 256) as u8,
                    _ => x * n as u32,
                };
                close(&format!("{x:?} * {f:?} ({k})"), btes(v), (w, true), Self::tol(w))?;
                self.put_b(d, v)
            }
            "b_look" => {
                let (x, y) = (b(op.a(0)), b(op.a(1)));
                let c = btes(x).cmp(&btes(y));
                if x.cmp(&y) != c || x.partial_cmp(&y) != Some(c) || (x == y) != (c == std::cmp::Ordering::Equal) || (x < y) != (btes(x) < btes(y)) {
                    return Err(("model", format!("{x:?} compared with {y:?}")));
                }
                let (f, g) = (x.as_beats_f64(), x.as_beats_f32() as f64);
                let w = btes(x) as f64 / B as f64;
                if (f - w).abs() > w * 1e-14 || (g - w).abs() > w * 2.5e-7 {
                    return Err(("model", format!("{x:?} is {f:?} or {g:?} beats")));
                }
                self.o.evals += 3;
                Ok(())
            }
            _ => Ok(()),
        }
    }
}
pub fn run(t: &Trace) -> Outcome {
    let r = std::panic::catch_unwind(|| {
        let sr = RATES[t.get("rate", 1).rem_euclid(16) as usize];
        let mut w = World {
            sr,
            bs: t.get("bs", 64).clamp(1, 4096) as u64,
            clock: t.get("start", 0).max(0) as u64,
            s: [Seconds::ZERO; 6],
            b: [Beats::ZERO; 6],
            due: vec![],
            log: ArLogSender::non_rt(),
            o: Outcome::default(),
        };
        w.clock -= w.clock % w.bs;
        for op in &t.steps {
            w.o.inter = hash(&[w.o.inter, op.name.len() as u64, op.name.as_bytes()[op.name.len() - 1] as u64]);
            if let Err((class, detail)) = w.step(op) {
                w.o.violation = Some(Violation { class, detail: format!("`{}`: {detail}", op.text()) });
                break;
            }
        }
        w.o.points = t.steps.len() as u64;
        w.o.frames = w.o.blocks * w.bs;
        w.o.sim_ns = (w.o.frames as u128 * 1_000_000_000 / sr as u128) as u64;
        w.o
    });
    match r {
        Ok(o) => o,
        Err(_) => Outcome { violation: Some(Violation { class: "panic", detail: crate::panic_message() }), ..Default::default() },
    }
}
