//! The built-in unit generators and wrappers behind one object interface, for the engines which work
//! on single unit generators.
use knaster_airwindows::galactic::Galactic;
use knaster_core::{AudioCtx, Block, Float, Frame, PInteger, ParameterHint, ParameterValue, PartialBlock, Seconds, Size, UGen, UGenFlags, VecBlock, numeric_array::NumericArray, typenum::*};
use knaster_core_dsp::{
    buffer::BufferReader,
    closure::UGenClosure,
    delay::*,
    dsp::buffer::Buffer,
    dynamics::SafetyLimiter,
    envelopes::*,
    math::*,
    noise::*,
    onepole::*,
    osc::*,
    pan::Pan2,
    polyblep::{PolyBlep, Waveform},
    svf::{SvfFilter, SvfFilterType},
    util::*,
    wrappers_core::UGenWrapperCoreExt,
};

pub trait Dyn<F: Float> {
    fn ins(&self) -> usize;
    fn outs(&self) -> usize;
    fn init(&mut self, sr: u32, bs: usize);
    fn apply(&mut self, c: &mut AudioCtx, i: usize, v: ParameterValue);
    fn delay(&mut self, c: &mut AudioCtx, i: usize, d: u16);
    fn ar(&mut self, c: &mut AudioCtx, i: usize, p: *const F);
    fn frame(&mut self, c: &mut AudioCtx, f: &mut UGenFlags, i: &[F]) -> Vec<F>;
    fn block(&mut self, c: &mut AudioCtx, f: &mut UGenFlags, i: &VecBlock<F>, o: &mut VecBlock<F>);
    fn partial(&mut self, c: &mut AudioCtx, f: &mut UGenFlags, i: &VecBlock<F>, o: &mut VecBlock<F>, at: usize, len: usize);
}
impl<F: Float, U: UGen<Sample = F>> Dyn<F> for U {
    fn ins(&self) -> usize {
        U::Inputs::USIZE
    }
    fn outs(&self) -> usize {
        U::Outputs::USIZE
    }
    fn init(&mut self, sr: u32, bs: usize) {
        UGen::init(self, sr, bs)
    }
    fn apply(&mut self, c: &mut AudioCtx, i: usize, v: ParameterValue) {
        // [`UGen::param`] refuses values of another kind, the graph passes them on
        if i < U::Parameters::USIZE && U::param_types()[i] != v.ty() {
            UGen::param_apply(self, c, i, v)
        } else {
            let _ = UGen::param(self, c, i, v);
        }
    }
    fn delay(&mut self, c: &mut AudioCtx, i: usize, d: u16) {
        self.set_delay_within_block_for_param(c, i, d)
    }
    fn ar(&mut self, c: &mut AudioCtx, i: usize, p: *const F) {
        unsafe { self.set_ar_param_buffer(c, i, p) }
    }
    fn frame(&mut self, c: &mut AudioCtx, f: &mut UGenFlags, i: &[F]) -> Vec<F> {
        let mut x: Frame<F, U::Inputs> = NumericArray::default();
        for (a, b) in x.iter_mut().zip(i) {
            *a = *b;
        }
        UGen::process(self, c, f, x).iter().copied().collect()
    }
    fn block(&mut self, c: &mut AudioCtx, f: &mut UGenFlags, i: &VecBlock<F>, o: &mut VecBlock<F>) {
        UGen::process_block(self, c, f, i, o)
    }
    fn partial(&mut self, c: &mut AudioCtx, f: &mut UGenFlags, i: &VecBlock<F>, o: &mut VecBlock<F>, at: usize, len: usize) {
        let i = PartialBlock::from_block(i, at, len);
        let mut o = o.partial_mut(at, len);
        UGen::process_block(self, c, f, &i, &mut o)
    }
}
/// What a parameter accepts
#[derive(Clone, Copy, Debug)]
pub enum K {
    F(f64, f64),
    T,
    I(i64),
    B,
}
pub const WR_SMOOTH: i64 = 1;
pub const WR_AR: i64 = 2;
pub const WR_PRECISE: i64 = 4;
pub const WR_MATH: i64 = 8;
pub const PRECISE_CAP: usize = 10;
use K::*;
const UNIT: K = F(0.0, 1.0);
/// Name, parameters and the number of numbers its constructor takes
pub const UGENS: &[(&str, &[K], usize)] = &[
    ("buffer1", &[F(0.1, 3.0), B, F(0.0, 0.02), F(0.0, 0.02), F(0.0, 0.03), T], 5),
    ("buffer2", &[F(0.1, 3.0), B, F(0.0, 0.02), F(0.0, 0.02), F(0.0, 0.03), T], 5),
    ("closure", &[], 0),
    ("sample_delay", &[F(0.0, 0.02)], 1),
    ("allpass_delay", &[F(0.0, 0.02)], 1),
    ("allpass_feedback_delay", &[F(0.0, 0.02), F(-0.99, 0.99)], 1),
    ("static_delay", &[], 1),
    ("limiter", &[], 0),
    ("asr", &[F(0.0, 0.01), F(0.0, 0.01), T, T], 2),
    ("ar", &[F(0.0, 0.01), F(0.0, 0.01), T], 2),
    ("envelope", &[F(0.2, 4.0), I(4), T, T], 6),
    ("math_add", &[], 0),
    ("math_sub", &[], 0),
    ("math_mul", &[], 0),
    ("math_div", &[], 0),
    ("math_pow", &[], 0),
    ("ceil", &[], 0),
    ("sqrt", &[], 0),
    ("floor", &[], 0),
    ("trunc", &[], 0),
    ("fract", &[], 0),
    ("exp", &[], 0),
    ("white", &[], 0),
    ("pink", &[], 0),
    ("brown", &[], 0),
    ("random_lin", &[F(0.0, 20000.0)], 1),
    ("lpf", &[F(1.0, 20000.0)], 1),
    ("hpf", &[F(1.0, 20000.0)], 0),
    ("sin_wt", &[F(0.0, 20000.0), UNIT, T], 1),
    ("phasor", &[F(0.0, 20000.0)], 1),
    ("sin_numeric", &[F(0.0, 20000.0), UNIT, T], 1),
    ("pan", &[F(-1.0, 1.0)], 1),
    ("polyblep", &[F(1.0, 10000.0), UNIT, I(13)], 2),
    ("svf", &[F(20.0, 15000.0), F(0.1, 10.0), F(-12.0, 12.0), I(8), T], 4),
    ("done_on_trig", &[T], 0),
    ("constant", &[F(-10.0, 10.0)], 1),
    ("log_probe", &[], 0),
    ("galactic", &[UNIT, UNIT, UNIT, UNIT, UNIT], 5),
    ("static_hand", &[I(90), UNIT, I(89)], 1),
    ("allpass_hand", &[F(1.5, 60.0), T, F(1.5, 60.0)], 1),
    ("allpass_feedback_hand", &[F(0.0, 60.0), T, F(-0.99, 0.99)], 1),
    ("onepole_hand", &[F(1.0, 20000.0), T], 0),
    ("polyblep_hand", &[F(0.0, 0.3), F(-2.0, 2.0), F(8000.0, 96000.0), I(13)], 2),
    ("linear", &[F(-10.0, 10.0), F(-1.0, 1.0), T], 0),
];
/// A plain unit generator with a per-block path of its own, used below the wrappers
pub struct Linear<F> {
    a: F,
    b: F,
    n: u64,
}
impl<F: Float> UGen for Linear<F> {
    type Sample = F;
    type Inputs = U2;
    type Outputs = U2;
    type Parameters = U3;
    fn process(&mut self, c: &mut AudioCtx, f: &mut UGenFlags, i: Frame<F, U2>) -> Frame<F, U2> {
        self.n += 1;
        if self.n % 97 == 0 {
            f.mark_done(c.block_start_offset() as u32);
        }
        [i[0] * self.b + self.a, i[1] + F::new((self.n % 7) as f64)].into()
    }
    fn process_block<I, O>(&mut self, c: &mut AudioCtx, f: &mut UGenFlags, input: &I, output: &mut O)
    where
        I: knaster_core::BlockRead<Sample = F> + ?Sized,
        O: Block<Sample = F> + ?Sized,
    {
        for k in 0..c.frames_to_process() {
            self.n += 1;
            if self.n % 97 == 0 {
                f.mark_done((c.block_start_offset() + k) as u32);
            }
            output.write(input.channel_as_slice(0)[k] * self.b + self.a, 0, k);
            output.write(input.read(1, k) + F::new((self.n % 7) as f64), 1, k);
        }
    }
    fn param_hints() -> NumericArray<ParameterHint, U3> {
        [ParameterHint::infinite_float(), ParameterHint::infinite_float(), ParameterHint::Trigger].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U3> {
        ["a", "b", "reset"].into()
    }
    fn param_apply(&mut self, _c: &mut AudioCtx, i: usize, v: ParameterValue) {
        match (i, v) {
            (0, ParameterValue::Float(v)) => self.a = F::new(v),
            (1, ParameterValue::Float(v)) => self.b = F::new(v),
            (2, ParameterValue::Trigger) => self.n = 0,
            _ => (),
        }
    }
}
/// The delay line other unit generators are built with, read and written frame by frame or in blocks
struct StaticDelay<F>(StaticSampleDelay<F>, Vec<F>);
impl<F: Float> UGen for StaticDelay<F> {
    type Sample = F;
    type Inputs = U1;
    type Outputs = U1;
    type Parameters = U0;
    fn process(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, i: Frame<F, U1>) -> Frame<F, U1> {
        let o = self.0.read();
        self.0.write_and_advance(i[0]);
        [o].into()
    }
    fn process_block<I, O>(&mut self, c: &mut AudioCtx, _f: &mut UGenFlags, input: &I, output: &mut O)
    where
        I: knaster_core::BlockRead<Sample = F> + ?Sized,
        O: Block<Sample = F> + ?Sized,
    {
        let n = c.frames_to_process();
        self.0.process(input.channel_as_slice(0), output.channel_as_slice_mut(0), n);
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _c: &mut AudioCtx, _i: usize, _v: ParameterValue) {}
}
/// What the library has to build unit generators with, put together by hand: what is not a parameter
/// of a built-in unit generator is a parameter here.
trait Hand<F: Float> {
    type P: Size;
    const KINDS: &'static [K];
    fn init(&mut self, _sr: u32, _bs: usize) {}
    fn run(&mut self, c: &mut AudioCtx, f: &mut UGenFlags, i: F) -> [F; 4];
    fn set(&mut self, sr: F, i: usize, x: F, n: usize);
}
struct ByHand<F, H>(H, F);
impl<F: Float, H: Hand<F>> UGen for ByHand<F, H> {
    type Sample = F;
    type Inputs = U1;
    type Outputs = U4;
    type Parameters = H::P;
    fn init(&mut self, sr: u32, bs: usize) {
        self.1 = F::new(sr as f64);
        self.0.init(sr, bs);
    }
    fn process(&mut self, c: &mut AudioCtx, f: &mut UGenFlags, i: Frame<F, U1>) -> Frame<F, U4> {
        self.0.run(c, f, i[0]).into()
    }
    fn param_hints() -> NumericArray<ParameterHint, H::P> {
        H::KINDS
            .iter()
            .map(|k| match k {
                K::F(a, b) => ParameterHint::new_float(|h| h.minmax(*a, *b)),
                K::T => ParameterHint::Trigger,
                K::I(n) => ParameterHint::new_integer((PInteger(0), PInteger(*n as usize)), |h| h),
                K::B => ParameterHint::Bool,
            })
            .collect()
    }
    fn param_descriptions() -> NumericArray<&'static str, H::P> {
        ["p0", "p1", "p2", "p3"].into_iter().take(H::KINDS.len()).collect()
    }
    fn param_apply(&mut self, _c: &mut AudioCtx, i: usize, v: ParameterValue) {
        match (H::KINDS[i], v) {
            (K::F(..), ParameterValue::Float(x)) => self.0.set(self.1, i, F::new(x), 0),
            (K::T, ParameterValue::Trigger) => self.0.set(self.1, i, F::ZERO, 0),
            (K::I(_), ParameterValue::Integer(n)) => self.0.set(self.1, i, F::ZERO, n.0),
            _ => (),
        }
    }
}
/// A delay line, the place at which it is read in addition, and its size
struct StaticHand<F>(StaticSampleDelay<F>, usize, usize);
impl<F: Float> Hand<F> for StaticHand<F> {
    type P = U3;
    const KINDS: &'static [K] = &[I(90), UNIT, I(89)];
    fn run(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, i: F) -> [F; 4] {
        let (at, p) = (self.1 % self.2, self.0.position);
        let o = [self.0.read(), self.0.read_at(at), self.0.read_at_lin(F::new(at as f64 + 0.25)), F::new(p as f64)];
        self.0.write_and_advance(i);
        o
    }
    fn set(&mut self, _sr: F, i: usize, x: F, n: usize) {
        match i {
            0 => self.0.set_delay_length(n),
            1 => self.0.set_delay_length_fraction(x),
            _ => self.1 = n,
        }
    }
}
struct AllpassHand<F: Copy>(AllpassDelay<F>);
impl<F: Float> Hand<F> for AllpassHand<F> {
    type P = U3;
    const KINDS: &'static [K] = &[F(1.5, 60.0), T, F(1.5, 60.0)];
    fn init(&mut self, sr: u32, bs: usize) {
        self.0.init(sr, bs);
    }
    fn run(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, i: F) -> [F; 4] {
        let o = self.0.read();
        self.0.write_and_advance(i);
        [o, F::ZERO, F::ZERO, F::ZERO]
    }
    fn set(&mut self, _sr: F, i: usize, x: F, _n: usize) {
        match i {
            0 => self.0.set_delay_in_frames(x),
            1 => self.0.clear(),
            _ => self.0.set_delay_in_frames_and_clear(x),
        }
    }
}
struct AllpassFeedbackHand<F: Copy>(AllpassFeedbackDelay<F>);
impl<F: Float> Hand<F> for AllpassFeedbackHand<F> {
    type P = U3;
    const KINDS: &'static [K] = &[F(0.0, 60.0), T, F(-0.99, 0.99)];
    fn init(&mut self, sr: u32, bs: usize) {
        UGen::init(&mut self.0, sr, bs);
    }
    fn run(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, i: F) -> [F; 4] {
        [self.0.process_sample(i), F::ZERO, F::ZERO, F::ZERO]
    }
    fn set(&mut self, _sr: F, i: usize, x: F, _n: usize) {
        match i {
            0 => self.0.set_delay_in_frames(x),
            1 => self.0.clear(),
            _ => self.0.feedback(Float::to_f64(x)),
        }
    }
}
struct OnePoleHand<F: Float>(OnePole<F>, OnePole<F>);
impl<F: Float> Hand<F> for OnePoleHand<F> {
    type P = U2;
    const KINDS: &'static [K] = &[F(1.0, 20000.0), T];
    fn run(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, i: F) -> [F; 4] {
        [self.0.process_lp(i), self.1.process_hp(i), self.0.cheap_tuning_compensation_lpf(), F::ZERO]
    }
    fn set(&mut self, sr: F, i: usize, x: F, _n: usize) {
        if i == 0 {
            self.0.set_freq_lowpass(x, sr);
            self.1.set_freq_highpass(x, sr);
        } else {
            self.0.reset();
            self.1.reset();
        }
    }
}
struct PolyBlepHand<F: Copy>(PolyBlep<F>);
impl<F: Float> Hand<F> for PolyBlepHand<F> {
    type P = U4;
    const KINDS: &'static [K] = &[F(0.0, 0.3), F(-2.0, 2.0), F(8000.0, 96000.0), I(13)];
    fn init(&mut self, sr: u32, bs: usize) {
        self.0.init(sr, bs);
    }
    fn run(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, _i: F) -> [F; 4] {
        let hz = self.0.get_freq_in_hz();
        // looking does not advance
        let look = self.0.next_sample();
        let [o] = self.0.process();
        [o, hz, look, F::ZERO]
    }
    fn set(&mut self, _sr: F, i: usize, x: F, n: usize) {
        match i {
            0 => self.0.set_dt(x),
            1 => self.0.sync(x),
            2 => self.0.set_sample_rate(x),
            _ => self.0.waveform(PInteger(n)),
        }
    }
}
pub fn wrap<F: Float, U: UGen<Sample = F> + 'static>(u: U, w: i64) -> Box<dyn Dyn<F>> {
    match w & 7 {
        0 => Box::new(u),
        1 => Box::new(u.smooth_params()),
        2 => Box::new(u.ar_params()),
        3 => Box::new(u.ar_params().smooth_params()),
        4 => Box::new(u.precise_timing::<PRECISE_CAP>()),
        5 => Box::new(u.smooth_params().precise_timing::<PRECISE_CAP>()),
        6 => Box::new(u.ar_params().precise_timing::<PRECISE_CAP>()),
        _ => Box::new(u.ar_params().smooth_params().precise_timing::<PRECISE_CAP>()),
    }
}
fn buffer<F: Float>(frames: usize, channels: usize, sr: f64) -> Buffer<F> {
    let v = (0..frames * channels).map(|i| F::new(((i * 7 + i / 5) % 64) as f64 / 64.0 + if i % 3 == 0 { 0.5 } else { 0.0 })).collect();
    Buffer::from_vec_interleaved(v, channels, sr)
}
/// Always the same unit generator for the same arguments
pub fn make<F: Float>(id: usize, p: &[f64], w: i64) -> Box<dyn Dyn<F>> {
    set_next_randomness_seed(77);
    let n = |i: usize| p.get(i).copied().unwrap_or(0.0);
    let f = |i: usize| F::new(n(i));
    macro_rules! one {
        ($e:expr) => {
            wrap($e, w)
        };
    }
    if w & WR_MATH != 0 {
        // Arithmetic of a wrapped unit generator
        let l = || Linear { a: F::ZERO, b: F::ONE, n: 0 };
        return match n(0) as i64 {
            0 => one!(l().wr_mul(f(1))),
            1 => one!(l().wr_add(f(1))),
            2 => one!(l().wr_sub(f(1))),
            3 => one!(l().wr_v_sub_gen(f(1))),
            4 => one!(l().wr_div(f(1))),
            5 => one!(l().wr_v_div_gen(f(1))),
            6 => one!(l().wr_powf(f(1))),
            7 => one!(l().wr_powi((n(1) as i64 % 4) as i32)),
            // in which order a closure sees samples of several channels is not specified
            _ => one!(l().wr(move |x| x * x - F::new(0.25))),
        };
    }
    match UGENS[id].0 {
        "buffer1" => one!(BufferReader::<F, U1>::new(buffer(n(0) as usize, 1, n(1)), n(2), n(3) > 0.5).start_at(Seconds::from_secs_f64(n(4)))),
        "buffer2" => one!(BufferReader::<F, U2>::new(buffer(n(0) as usize, 2, n(1)), n(2), n(3) > 0.5).start_at(Seconds::from_secs_f64(n(4)))),
        "closure" => one!({
            let mut k = 0u32;
            UGenClosure::<F, U1, U1>::new(Box::new(move |_c: &mut AudioCtx, _f: &mut UGenFlags, i: Frame<F, U1>| {
                k += 1;
                [i[0] + F::new(k as f64)].into()
            }))
        }),
        "sample_delay" => one!(SampleDelay::<F>::new(Seconds::from_secs_f64(n(0)))),
        "allpass_delay" => one!(AllpassDelay::<F>::new(Seconds::from_secs_f64(n(0)))),
        "allpass_feedback_delay" => one!(AllpassFeedbackDelay::<F>::new(Seconds::from_secs_f64(n(0)))),
        "static_delay" => one!(StaticDelay(StaticSampleDelay::<F>::new(n(0) as usize), vec![])),
        "limiter" => one!(SafetyLimiter::<F>::new()),
        "asr" => one!(EnvAsr::<F>::new(f(0), f(1))),
        "ar" => one!(EnvAr::<F>::new(f(0), f(1))),
        "envelope" => one!(Envelope::<F>::new(n(0), (0..n(1) as usize).map(|i| EnvelopeSegment::new(n(2) * (1.0 + i as f64 * 0.37), ((i + 1) as f64 * 0.7).sin())).collect()).time_scale(n(3)).looping(n(4) > 0.5)),
        "math_add" => one!(MathUGen::<F, U2, Add>::new()),
        "math_sub" => one!(MathUGen::<F, U2, Sub>::new()),
        "math_mul" => one!(MathUGen::<F, U2, Mul>::new()),
        "math_div" => one!(MathUGen::<F, U1, Div>::new()),
        "math_pow" => one!(MathUGen::<F, U1, knaster_core_dsp::math::Pow>::new()),
        "ceil" => one!(Math1UGen::<F, Ceil>::new()),
        "sqrt" => one!(Math1UGen::<F, knaster_core_dsp::math::Sqrt>::new()),
        "floor" => one!(Math1UGen::<F, Floor>::new()),
        "trunc" => one!(Math1UGen::<F, Trunc>::new()),
        "fract" => one!(Math1UGen::<F, Fract>::new()),
        "exp" => one!(Math1UGen::<F, knaster_core_dsp::math::Exp>::new()),
        "white" => one!(WhiteNoise::<F>::new()),
        "pink" => one!(PinkNoise::<F>::new()),
        "brown" => one!(BrownNoise::<F>::new()),
        "random_lin" => one!(RandomLin::<F>::new(f(0))),
        "lpf" => one!(OnePoleLpf::<F>::new(f(0))),
        "hpf" => one!(OnePoleHpf::<F>::new()),
        "sin_wt" => one!(SinWt::<F>::new(f(0))),
        "phasor" => one!(Phasor::<F>::new(n(0))),
        "sin_numeric" => one!(SinNumeric::<F>::new(f(0))),
        "pan" => one!(Pan2::<F>::new(n(0) as f32)),
        "polyblep" => one!(PolyBlep::<F>::new(Waveform::from(PInteger(n(1) as usize)), f(0))),
        "svf" => one!(SvfFilter::<F>::new(SvfFilterType::from(PInteger(n(3) as usize)), f(0), f(1), f(2))),
        "done_on_trig" => one!(DoneOnTrig::<F>::new()),
        "constant" => one!(Constant::<F>::new(f(0))),
        "log_probe" => one!(LogProbe::<F>::new("p")),
        "galactic" => one!(Galactic::<F>::new(f(0), f(1), f(2), f(3), f(4))),
        "static_hand" => one!(ByHand(StaticHand(StaticSampleDelay::<F>::new(n(0) as usize), 0, n(0) as usize), F::ZERO)),
        "allpass_hand" => one!(ByHand(AllpassHand(AllpassDelay::<F>::new(Seconds::from_secs_f64(n(0)))), F::ZERO)),
        "allpass_feedback_hand" => one!(ByHand(AllpassFeedbackHand(AllpassFeedbackDelay::<F>::new(Seconds::from_secs_f64(n(0)))), F::ZERO)),
        "onepole_hand" => one!(ByHand(OnePoleHand(OnePole::<F>::new(), OnePole::<F>::default()), F::ZERO)),
        "polyblep_hand" => one!(ByHand(PolyBlepHand(PolyBlep::<F>::new(Waveform::from(PInteger(n(1) as usize)), f(0))), F::ZERO)),
        _ => one!(Linear { a: F::ZERO, b: F::ONE, n: 0 }),
    }
}
