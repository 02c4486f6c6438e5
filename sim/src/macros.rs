//! Unit generators declared with `impl_ugen`, with every shape of functions it accepts. They record
//! every call they get. They are driven with generated histories of values of all kinds (by index, by
//! name, unknown ones, of the wrong kind), frames and blocks in storage of every kind, directly and
//! within a graph. The calls, the sound and the memory around it are compared with what was declared.
use crate::rng::{hash, Rng};
use crate::trace::{Op, Outcome, Trace, Violation};
use knaster_core::{
    AudioCtx, Block, BlockMetadata, BlockRead, Float, FloatParameterKind, FloatParameterRange, Frame, KnasterIntegerParameter, PFloat, PInteger, PIntegerConvertible, Param,
    ParameterError, ParameterHint, ParameterSmoothing, ParameterType, ParameterValue, PartialBlock, Rate, Size, StaticBlock, UGen, UGenFlags, VecBlock, impl_ugen,
    log::ArLogSender,
    num_derive::{FromPrimitive, ToPrimitive},
    num_traits,
    typenum::*,
};
use knaster_graph::{
    block::{RawAggregateBlock, RawAggregateBlockRead, RawContiguousBlock},
    handle::HandleTrait,
    processor::{AudioProcessor, AudioProcessorOptions},
};
use std::cell::RefCell;
use std::marker::PhantomData;

thread_local! {
    static REC: RefCell<Vec<Rec>> = const { RefCell::new(vec![]) };
}
/// A call of one of the functions of a unit generator
#[derive(Clone, Debug, PartialEq)]
struct Rec(&'static str, Vec<u64>);
fn rec(what: &'static str, a: Vec<u64>) {
    REC.with(|r| r.borrow_mut().push(Rec(what, a)));
}
/// What all of them do: the sound tells which calls reached this unit generator, and in what order
#[derive(Clone, Copy, Default, PartialEq, Debug)]
struct S(u64);
impl S {
    fn init(&mut self, sr: u32, bs: usize) {
        rec("init", vec![sr as u64, bs as u64]);
        self.0 = hash(&[self.0, 1, sr as u64, bs as u64]);
    }
    fn param(&mut self, i: u64, bits: u64) {
        rec("param", vec![i, bits]);
        self.0 = hash(&[self.0, 2, i, bits]);
    }
    fn frame(&mut self, ctx: Option<(u64, u64)>) {
        if let Some(c) = ctx {
            rec("frame", vec![c.0, c.1]);
        }
        self.0 = hash(&[self.0, 3]);
    }
    /// The frame it is marked done from, now and then. It goes on all the same
    fn done_frame(&self) -> Option<u32> {
        (self.0 % 5 == 0).then_some(self.0 as u32 % 7)
    }
    fn done(&self, flags: &mut UGenFlags) {
        if let Some(f) = self.done_frame() {
            flags.mark_done(f);
        }
    }
    fn out<F: Float>(&self, c: usize, ins: &[F]) -> F {
        let s: f64 = ins.iter().enumerate().map(|(i, x)| Float::to_f64(*x) * (i + 1 + c) as f64).sum();
        F::new((self.0 % 97) as f64 * (c + 1) as f64 + s)
    }
}
fn at(c: &AudioCtx) -> Option<(u64, u64)> {
    Some((c.block_start_offset() as u64, c.frames_to_process() as u64))
}

#[derive(Default, Debug, PartialEq, Eq, Copy, Clone, FromPrimitive, ToPrimitive, KnasterIntegerParameter)]
#[num_traits = "num_traits"]
#[repr(u8)]
enum Mode {
    Sine = 0,
    #[default]
    Saw,
    Square,
    Noise,
    Off,
}
const MODES: [&str; 5] = ["Sine", "Saw", "Square", "Noise", "Off"];

/// Nothing but a frame
struct Bare<F: Float>(S, PhantomData<F>);
#[impl_ugen]
impl<F: Float> Bare<F> {
    fn process(&mut self) -> [F; 1] {
        self.0.frame(None);
        [self.0.out::<F>(0, &[])]
    }
}
/// All kinds of parameters, with arguments in all orders
struct Kinds<F: Float>(S, PhantomData<F>);
#[impl_ugen]
impl<F: Float> Kinds<F> {
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) {
        self.0.init(sample_rate, block_size);
    }
    #[param(kind = Amplitude, range = 0.0..=2.0, default = 0.5)]
    fn gain(&mut self, v: PFloat) {
        self.0.param(0, v.to_bits());
    }
    #[param(kind = Frequency, logarithmic = true)]
    fn cutoff(&mut self, ctx: &mut AudioCtx, v: f32) {
        self.0.param(1, v.to_bits() as u64 ^ ctx.sample_rate() as u64);
    }
    #[param(range = -1.0..=1.0)]
    fn ratio(&mut self, v: f64, ctx: &AudioCtx) {
        self.0.param(2, v.to_bits() ^ ctx.block_size() as u64);
    }
    #[param]
    fn t_go(&mut self) {
        self.0.param(3, 0);
    }
    #[param]
    fn on(&mut self, b: bool) {
        self.0.param(4, b as u64);
    }
    #[param]
    fn steps(&mut self, ctx: &mut AudioCtx, n: PInteger) {
        self.0.param(5, n.0 as u64 ^ ctx.sample_rate() as u64);
    }
    #[param(from = Mode)]
    fn mode(&mut self, m: PInteger) {
        self.0.param(6, Mode::from(m) as u64);
    }
    #[param]
    fn t_ctx(&mut self, ctx: &AudioCtx) {
        self.0.param(7, ctx.block_size() as u64);
    }
    #[param(kind = Seconds, default = 1.25, logarithmic = false)]
    fn time(&mut self, v: PFloat) {
        self.0.param(8, v.to_bits());
    }
    #[param(kind = Q)]
    fn q(&mut self, v: f32) {
        self.0.param(9, v.to_bits() as u64);
    }
    /// no parameter
    #[allow(unused)]
    pub fn other(&mut self, v: PFloat) {
        self.0.param(77, v.to_bits());
    }
    fn process(&mut self, flags: &mut UGenFlags, x: [F; 3], ctx: &mut AudioCtx) -> [F; 2] {
        self.0.done(flags);
        self.0.frame(at(ctx));
        [self.0.out(0, &x), self.0.out(1, &x)]
    }
}
/// Blocks as arrays of channels
struct Arrays<F: Float>(S, PhantomData<F>);
#[impl_ugen]
impl<F: Float> Arrays<F> {
    fn init(&mut self, sample_rate: u32, block_size: usize) {
        self.0.init(sample_rate, block_size);
    }
    fn process(&mut self, ctx: &mut AudioCtx, x: [F; 2]) -> [F; 3] {
        self.0.frame(at(ctx));
        std::array::from_fn(|c| self.0.out(c, &x))
    }
    fn process_block(&mut self, output: [&mut [F]; 3], ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [&[F]; 2]) {
        let (o, n) = at(ctx).unwrap();
        rec("block", vec![o, n, output[0].len() as u64, input[1].len() as u64]);
        for i in 0..output[0].len() {
            self.0.frame(None);
            for c in 0..3 {
                output[c][i] = self.0.out(c, &[input[0][i], input[1][i]]);
            }
        }
    }
    #[param]
    fn level(&mut self, v: f64) {
        self.0.param(0, v.to_bits());
    }
}
/// Blocks without inputs, in functions with other names
struct Named<F: Float>(S, PhantomData<F>);
#[impl_ugen]
impl<F: Float> Named<F> {
    #[param]
    fn z_last(&mut self, v: PInteger) {
        self.0.param(0, v.0 as u64);
    }
    #[param]
    fn a_first(&mut self, v: bool) {
        self.0.param(1, v as u64);
    }
    #[process]
    fn tick(&mut self, flags: &mut UGenFlags) -> [F; 2] {
        self.0.done(flags);
        self.0.frame(None);
        [self.0.out(0, &[]), self.0.out(1, &[])]
    }
    #[process_block]
    fn render(&mut self, flags: &mut UGenFlags, output: [&mut [F]; 2]) {
        rec("block", vec![output[0].len() as u64, output[1].len() as u64]);
        let [a, b] = output;
        for (a, b) in a.iter_mut().zip(b) {
            self.0.done(flags);
            self.0.frame(None);
            *a = self.0.out(0, &[]);
            *b = self.0.out(1, &[]);
        }
    }
}
/// The functions of the trait, for any number of channels
struct Wide<F: Float, I, O, const HOW: usize>(S, PhantomData<(F, I, O)>);
#[impl_ugen]
impl<F: Float, I: Size, O: Size, const HOW: usize> Wide<F, I, O, HOW> {
    type Inputs = I;
    type Outputs = O;
    fn init(&mut self, sample_rate: u32, block_size: usize) {
        self.0.init(sample_rate, block_size);
    }
    #[param(default = 3.0)]
    fn bend(&mut self, ctx: &AudioCtx, v: f32) {
        self.0.param(0, v.to_bits() as u64 ^ ctx.sample_rate() as u64);
    }
    #[param]
    fn t_hit(&mut self, ctx: &mut AudioCtx) {
        self.0.param(1, ctx.sample_rate() as u64);
    }
    #[param(from = Mode)]
    fn mode(&mut self, ctx: &mut AudioCtx, m: PInteger) {
        self.0.param(2, m.0 as u64 ^ ctx.block_size() as u64);
    }
    fn process(&mut self, ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        self.0.frame(at(ctx));
        let mut o = Frame::default();
        for c in 0..O::USIZE {
            o[c] = self.0.out(c, &input);
        }
        o
    }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where
        InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
        OutBlock: Block<Sample = Self::Sample> + ?Sized,
    {
        let (o, n) = at(ctx).unwrap();
        rec("block", vec![o, n, output.block_size() as u64, if I::USIZE > 0 { input.block_size() as u64 } else { 0 }]);
        let n = n as usize;
        let mut ins = [F::ZERO; 4];
        match HOW {
            // frame by frame
            0 => {
                for i in 0..n {
                    self.0.frame(None);
                    for c in 0..I::USIZE {
                        ins[c] = input.read(c, i);
                    }
                    for c in 0..O::USIZE {
                        output.write(self.0.out(c, &ins[..I::USIZE]), c, i);
                    }
                }
            }
            // channel by channel, adding to what is there
            1 => {
                let s0 = self.0;
                for c in 0..O::USIZE {
                    self.0 = s0;
                    output.channel_as_slice_mut(c).fill(F::ZERO);
                    for i in 0..n {
                        self.0.frame(None);
                        for k in 0..I::USIZE {
                            ins[k] = input.channel_as_slice(k)[i];
                        }
                        let v = output.channel_as_slice(c)[i] + self.0.out(c, &ins[..I::USIZE]);
                        output.channel_as_slice_mut(c)[i] = v;
                    }
                }
                if O::USIZE == 0 {
                    (0..n).for_each(|_| self.0.frame(None));
                }
            }
            // all channels at once, then read again
            _ => {
                let channels = output.channels();
                let mut all: Vec<&mut [F]> = output.iter_mut().collect();
                assert_eq!(all.len(), channels);
                for i in 0..n {
                    self.0.frame(None);
                    for k in 0..I::USIZE {
                        ins[k] = input.read(k, i);
                    }
                    for (c, s) in all.iter_mut().enumerate().take(O::USIZE) {
                        s[i] = self.0.out(c, &ins[..I::USIZE]);
                    }
                }
                for c in 0..O::USIZE {
                    for i in 0..n {
                        let v = output.read(c, i);
                        output.write(v, c, i);
                    }
                }
            }
        }
    }
}
/// One type of samples only
struct Fixed(S);
#[impl_ugen]
impl Fixed {
    type Sample = f64;
    type Inputs = U1;
    type Outputs = U2;
    #[param]
    fn p(&mut self, v: f64) {
        self.0.param(0, v.to_bits());
    }
    fn process(&mut self, ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: Frame<f64, U1>) -> Frame<f64, U2> {
        self.0.frame(at(ctx));
        [self.0.out(0, &input), self.0.out(1, &input)].into()
    }
}
/// Many parameters
struct Many<F: Float>(S, PhantomData<F>);
#[impl_ugen]
impl<F: Float> Many<F> {
    fn process(&mut self, x: [F; 4]) -> [F; 4] {
        self.0.frame(None);
        std::array::from_fn(|c| self.0.out(c, &x))
    }
    #[param]
    fn m(&mut self, v: PFloat) {
        self.0.param(0, v.to_bits());
    }
    #[param]
    fn k(&mut self, v: PFloat) {
        self.0.param(1, v.to_bits());
    }
    #[param]
    fn t_a(&mut self) {
        self.0.param(2, 0);
    }
    #[param]
    fn c(&mut self, v: PFloat) {
        self.0.param(3, v.to_bits());
    }
    #[param]
    fn b(&mut self, v: bool) {
        self.0.param(4, v as u64);
    }
    #[param]
    fn z(&mut self, v: PFloat) {
        self.0.param(5, v.to_bits());
    }
    #[param]
    fn t_b(&mut self) {
        self.0.param(6, 0);
    }
    #[param]
    fn y(&mut self, v: PInteger) {
        self.0.param(7, v.0 as u64);
    }
    #[param]
    fn x(&mut self, v: PFloat) {
        self.0.param(8, v.to_bits());
    }
    #[param]
    fn a(&mut self, v: f32) {
        self.0.param(9, v.to_bits() as u64);
    }
    #[param]
    fn l(&mut self, v: PFloat) {
        self.0.param(10, v.to_bits());
    }
}

/// What was declared
#[derive(Clone, Copy, PartialEq)]
enum K {
    F(u8, u8),
    Trig(u8),
    Int(u8, bool),
    Bool,
}
/// what is mixed into the value: 0 nothing, 1 the sample rate, 2 the block size; float: 0 64 bits, 1 32 bits
struct Spec {
    ins: usize,
    outs: usize,
    params: &'static [(&'static str, K)],
    init: bool,
    /// does it see its place within the block when processing frames / does it have its own blocks
    frame_at: bool,
    block: Option<u8>,
    done: bool,
}
const N: usize = 13;
fn spec(id: i64) -> Spec {
    use K::*;
    let s = Spec { ins: 0, outs: 1, params: &[], init: false, frame_at: false, block: None, done: false };
    let wide = Spec { params: &[("bend", F(1, 1)), ("t_hit", Trig(1)), ("mode", Int(2, true))], init: true, frame_at: true, block: Some(2), ..s };
    match id {
        0 => s,
        1 => Spec {
            ins: 3,
            outs: 2,
            params: &[("gain", F(0, 0)), ("cutoff", F(1, 1)), ("ratio", F(0, 2)), ("t_go", Trig(0)), ("on", Bool), ("steps", Int(1, false)), ("mode", Int(0, true)), ("t_ctx", Trig(2)), ("time", F(0, 0)), ("q", F(1, 0))],
            init: true,
            frame_at: true,
            done: true,
            ..s
        },
        2 => Spec { ins: 2, outs: 3, params: &[("level", F(0, 0))], init: true, frame_at: true, block: Some(0), ..s },
        3 => Spec { outs: 2, params: &[("z_last", Int(0, false)), ("a_first", Bool)], block: Some(1), done: true, ..s },
        4 => Spec { ins: 4, outs: 3, ..wide },
        5 => Spec { ins: 1, outs: 4, ..wide },
        6 => Spec { ins: 0, outs: 2, ..wide },
        7 => Spec { ins: 4, outs: 0, ..wide },
        8 => Spec { ins: 2, outs: 2, ..wide },
        9 => Spec { ins: 3, outs: 1, ..wide },
        10 => Spec { ins: 1, outs: 2, params: &[("p", F(0, 0))], frame_at: true, ..s },
        11 => Spec { ins: 4, outs: 4, params: &[("m", F(0, 0)), ("k", F(0, 0)), ("t_a", Trig(0)), ("c", F(0, 0)), ("b", Bool), ("z", F(0, 0)), ("t_b", Trig(0)), ("y", Int(0, false)), ("x", F(0, 0)), ("a", F(1, 0)), ("l", F(0, 0))], ..s },
        _ => Spec { ins: 1, outs: 1, ..wide },
    }
}
fn new<T>(s: S) -> (S, PhantomData<T>) {
    (s, PhantomData)
}

pub fn generate(prop: &str, seed: u64) -> Trace {
    let mut r = Rng::new(hash(&[seed, 0x3ac]));
    let mut t = Trace { prop: prop.into(), engine: "macros".into(), seed, ..Default::default() };
    let id = r.below(N as u64) as i64;
    let s = spec(id);
    let graph = r.chance(1, 3);
    t.set("ugen", id);
    t.set("graph", graph as i64);
    t.set("f64", if id == 10 { 1 } else { r.below(2) as i64 });
    t.set("sr", *r.pick(&[8000i64, 44100, 48000, 96000]));
    t.set("bs", *r.pick(&[1i64, 2, 7, 16, 32, 64, 64]));
    let n = 2 + r.below(24);
    for _ in 0..n {
        let np = s.params.len() as u64;
        // a parameter, now and then one which does not exist
        let p = if np == 0 || r.chance(1, 12) { np as i64 + r.below(3) as i64 } else { r.below(np) as i64 };
        let right = s.params.get(p as usize).map(|p| match p.1 {
            K::F(..) => 0,
            K::Trig(_) => 1,
            K::Int(..) => 2,
            K::Bool => 3,
        });
        let kind = match right {
            Some(k) if r.chance(4, 5) => k,
            // what triggers do with other values is not said
            Some(1) => 4,
            _ => r.below(5) as i64,
        };
        let v = match kind {
            0 => [r.range(-1000, 1000), r.range(-(1 << 40), 1 << 40), r.below(6) as i64 - (1 << 50)][r.below(3) as usize],
            2 => [r.below(6) as i64, r.below(1 << 40) as i64, -1][r.below(3) as usize],
            3 => r.below(2) as i64,
            4 => r.below(4) as i64,
            _ => 0,
        };
        let way = r.below(3) as i64;
        let off = r.below(20) as i64;
        let op = match r.below(10) {
            0..=4 => Op::new("set", &[p, way, kind, v]),
            5 | 6 if !graph => Op::new("frame", &[1 + off % 3]),
            _ => Op::new("block", &[r.below(5) as i64, r.below(4) as i64, r.below(3) as i64, r.below(64) as i64, 1 + r.below(64) as i64, r.below(64) as i64, 1 + r.below(64) as i64, r.below(1 << 20) as i64]),
        };
        t.steps.push(op);
    }
    t
}
fn value(kind: i64, v: i64) -> ParameterValue {
    match kind {
        0 => ParameterValue::Float(if v < -(1 << 49) { [f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e300, 1e-310, f64::MAX][(v + (1 << 50)) as usize % 6] } else { v as f64 / 64.0 }),
        1 => ParameterValue::Trigger,
        2 => ParameterValue::Integer(PInteger(v as usize)),
        3 => ParameterValue::Bool(v != 0),
        _ => ParameterValue::Smoothing(if v & 1 == 0 { ParameterSmoothing::None } else { ParameterSmoothing::Linear(0.01) }, if v & 2 == 0 { Rate::BlockRate } else { Rate::AudioRate }),
    }
}
struct Model {
    s: S,
    spec: Spec,
    sr: u32,
    bs: usize,
}
impl Model {
    /// The value is what the parameter takes
    fn fits(&self, p: usize, kind: i64) -> bool {
        match (self.spec.params[p].1, kind) {
            (K::F(..), 0) | (K::Trig(_), 1) | (K::Int(..), 2) | (K::Bool, 3) => true,
            _ => false,
        }
    }
    fn set(&mut self, p: usize, v: ParameterValue) {
        let with = |w: u8| match w {
            0 => 0,
            1 => self.sr as u64,
            _ => self.bs as u64,
        };
        let name = self.spec.params[p].0;
        let bits = match (self.spec.params[p].1, v) {
            (K::F(0, w), ParameterValue::Float(x)) => x.to_bits() ^ with(w),
            (K::F(_, w), ParameterValue::Float(x)) => (x as f32).to_bits() as u64 ^ with(w),
            (K::Trig(w), _) => with(w),
            (K::Int(0, true), ParameterValue::Integer(k)) => if k.0 < 5 { k.0 as u64 } else { 1 },
            (K::Int(w, _), ParameterValue::Integer(k)) => k.0 as u64 ^ with(w),
            (_, ParameterValue::Bool(b)) => b as u64,
            _ => unreachable!("{name}"),
        };
        self.s.param(p as u64, bits);
    }
}
type E = (&'static str, String);
type R = Result<(), E>;
/// What is recorded while `f` runs
fn calls<T>(f: impl FnOnce() -> T) -> (T, Vec<Rec>) {
    REC.with(|r| r.borrow_mut().clear());
    let t = f();
    (t, REC.with(|r| std::mem::take(&mut *r.borrow_mut())))
}
fn compare(what: &str, got: &[Rec], want: &[Rec]) -> R {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(("call", format!("{what}: call {i} is {:?} instead of {:?}", got.get(i), want.get(i))))
}
fn hints<F: Float, U: UGen<Sample = F>>(id: i64, s: &Spec) -> R {
    let e = |d: String| Err(("hint", d));
    let (d, h, ty) = (U::param_descriptions(), U::param_hints(), U::param_types());
    if d.len() != s.params.len() || U::Inputs::USIZE != s.ins || U::Outputs::USIZE != s.outs {
        return e(format!("{} inputs, {} outputs and {} parameters", U::Inputs::USIZE, U::Outputs::USIZE, d.len()));
    }
    for (i, (name, k)) in s.params.iter().enumerate() {
        if d[i] != *name {
            return e(format!("parameter {i} is called {} instead of {name}", d[i]));
        }
        let ok = match (k, h[i], ty[i]) {
            (K::F(..), ParameterHint::Float(_), ParameterType::Float) => true,
            (K::Trig(_), ParameterHint::Trigger, ParameterType::Trigger) => true,
            (K::Int(..), ParameterHint::Integer(_), ParameterType::Integer) => true,
            (K::Bool, ParameterHint::Bool, ParameterType::Bool) => true,
            _ => false,
        };
        if !ok {
            return e(format!("parameter {name} has the hint {:?}", h[i]));
        }
        if let ParameterHint::Integer(x) = h[i] {
            if let K::Int(_, true) = k {
                let names = MODES.iter().enumerate().map(|(i, n)| (i, n.to_string())).collect::<Vec<_>>();
                let got = x.descriptions().unwrap_or_default().into_iter().map(|(p, n)| (p.0, n)).collect::<Vec<_>>();
                if got != names || x.default.map(|d| d.0) != Some(1) || x.range.0.0 != 0 || x.range.1.0 < 4 {
                    return e(format!("parameter {name} has the hint {x:?}: {got:?}"));
                }
                for (j, n) in MODES.iter().enumerate() {
                    if x.description(PInteger(j)) != Some(n) || Mode::pinteger_descriptions(PInteger(j)) != Some(n) || Mode::from(PInteger(j)) as usize != j || PInteger::from(Mode::from(PInteger(j))).0 != j {
                        return e(format!("value {j} of {name} is {:?}", x.description(PInteger(j))));
                    }
                }
                if x.description(PInteger(5)).is_some() || Mode::from(PInteger(5)) != Mode::Saw || Mode::from(PInteger(usize::MAX)) != Mode::Saw {
                    return e(format!("values of {name} beyond the last one"));
                }
            } else if x.range.0.0 != 0 || x.range.1.0 != usize::MAX || x.description(PInteger(0)).is_some() {
                return e(format!("parameter {name} has the hint {x:?}"));
            }
        }
        if let ParameterHint::Float(x) = h[i] {
            use FloatParameterKind as Kd;
            let want: (Option<f64>, Option<(f64, f64)>, Option<Kd>, bool) = match (id, i) {
                (1, 0) => (Some(0.5), Some((0.0, 2.0)), Some(Kd::Amplitude), false),
                (1, 1) => (None, None, Some(Kd::Frequency), true),
                (1, 2) => (None, Some((-1.0, 1.0)), None, false),
                (1, 8) => (Some(1.25), None, Some(Kd::Seconds), false),
                (1, 9) => (None, None, Some(Kd::Q), false),
                (4..=9 | 12, 0) => (Some(3.0), None, None, false),
                _ => (None, None, None, false),
            };
            let range = match x.range {
                None => None,
                Some(FloatParameterRange::Range(a, b)) => Some((a, b)),
                Some(_) => Some((f64::NAN, f64::NAN)),
            };
            if x.default != want.0 || range != want.1 || x.kind != want.2 || x.is_logarithmic.unwrap_or(false) != want.3 {
                return e(format!("parameter {name} has the hint {x:?} instead of {want:?}"));
            }
        }
    }
    Ok(())
}
const GUARD: usize = 5;
fn poison<F: Float>(i: usize) -> F {
    F::new(-7777.0 - i as f64)
}
/// Storage of one kind for 4 channels
enum Store<F: Float> {
    Vec(VecBlock<F>),
    Static(Box<StaticBlock<F, U4, U64>>),
    /// with memory around it which nobody may touch
    Whole(Vec<F>, usize),
    Channels([Vec<F>; 4], usize),
}
impl<F: Float> Store<F> {
    fn new(kind: i64, bs: usize) -> Self {
        match kind {
            0 => Store::Vec(VecBlock::new(4, bs)),
            1 => Store::Static(Box::default()),
            2 => Store::Whole(vec![F::ZERO; 4 * bs + 2 * GUARD], bs),
            _ => Store::Channels(std::array::from_fn(|_| vec![F::ZERO; bs + 2 * GUARD]), bs),
        }
    }
    fn bs(&self) -> usize {
        match self {
            Store::Vec(v) => Block::block_size(v),
            Store::Static(_) => 64,
            Store::Whole(_, b) | Store::Channels(_, b) => *b,
        }
    }
    /// All samples which are there, guards included
    fn each(&mut self, mut f: impl FnMut(Option<(usize, usize)>, &mut F)) {
        let bs = self.bs();
        match self {
            Store::Vec(v) => {
                for c in 0..4 {
                    for i in 0..bs {
                        let mut x = Block::read(v, c, i);
                        f(Some((c, i)), &mut x);
                        v.write(x, c, i);
                    }
                }
            }
            Store::Static(v) => {
                for c in 0..4 {
                    for i in 0..bs {
                        let mut x = Block::read(&**v, c, i);
                        f(Some((c, i)), &mut x);
                        v.write(x, c, i);
                    }
                }
            }
            Store::Whole(v, _) => {
                for (i, x) in v.iter_mut().enumerate() {
                    let k = (i >= GUARD && i < GUARD + 4 * bs).then(|| ((i - GUARD) / bs, (i - GUARD) % bs));
                    f(k, x);
                }
            }
            Store::Channels(v, _) => {
                for (c, v) in v.iter_mut().enumerate() {
                    for (i, x) in v.iter_mut().enumerate() {
                        f((i >= GUARD && i < GUARD + bs).then(|| (c, i - GUARD)), x);
                    }
                }
            }
        }
    }
}
trait Out<F: Float> {
    fn go<B: Block<Sample = F>>(&mut self, b: &mut B);
}
fn nest<F: Float, B: Block<Sample = F>>(b: &mut B, views: &[(usize, usize)], k: &mut impl Out<F>) {
    match views {
        [] => k.go(b),
        [(o, l)] => k.go(&mut b.partial_mut(*o, *l)),
        [(o, l), (p, m), ..] => {
            let mut v = b.partial_mut(*o, *l);
            k.go(&mut v.partial_mut(*p, *m))
        }
    }
}
fn with_out<F: Float>(s: &mut Store<F>, views: &[(usize, usize)], k: &mut impl Out<F>) {
    match s {
        Store::Vec(v) => nest(v, views, k),
        Store::Static(v) => nest(&mut **v, views, k),
        Store::Whole(v, bs) => nest(&mut unsafe { RawContiguousBlock::new(v[GUARD..].as_mut_ptr(), 4, *bs) }, views, k),
        Store::Channels(v, bs) => {
            let p = v.each_mut().map(|c| unsafe { c.as_mut_ptr().add(GUARD) });
            nest(&mut unsafe { RawAggregateBlock::new(&p, *bs) }, views, k)
        }
    }
}
fn nest_in<F: Float, B: BlockRead<Sample = F>, T>(b: &B, views: &[(usize, usize)], k: impl FnOnce(&dyn BlockRead<Sample = F>) -> T) -> T {
    match views {
        [] => k(b),
        [(o, l)] => k(&PartialBlock::from_block(b, *o, *l)),
        [(o, l), (p, m), ..] => {
            let v = PartialBlock::from_block(b, *o, *l);
            k(&PartialBlock::from_block(&v, *p, *m))
        }
    }
}
fn with_in<F: Float, T>(s: &mut Store<F>, read_only: bool, views: &[(usize, usize)], k: impl FnOnce(&dyn BlockRead<Sample = F>) -> T) -> T {
    match s {
        Store::Vec(v) => match views {
            [(o, l)] => k(&v.partial(*o, *l)),
            _ => nest_in(v, views, k),
        },
        Store::Static(v) => nest_in(&**v, views, k),
        Store::Whole(v, bs) => nest_in(&unsafe { RawContiguousBlock::new(v[GUARD..].as_mut_ptr(), 4, *bs) }, views, k),
        Store::Channels(v, bs) if read_only => {
            let p = v.each_mut().map(|c| unsafe { c.as_ptr().add(GUARD) });
            nest_in(&unsafe { RawAggregateBlockRead::new(&p, *bs) }, views, k)
        }
        Store::Channels(v, bs) => {
            let p = v.each_mut().map(|c| unsafe { c.as_mut_ptr().add(GUARD) });
            nest_in(&unsafe { RawAggregateBlock::new(&p, *bs) }, views, k)
        }
    }
}
struct Process<'a, U: UGen> {
    u: &'a mut U,
    ctx: &'a mut AudioCtx,
    flags: &'a mut UGenFlags,
    input: &'a dyn BlockRead<Sample = U::Sample>,
    shape: (usize, usize),
}
impl<U: UGen> Out<U::Sample> for Process<'_, U> {
    fn go<B: Block<Sample = U::Sample>>(&mut self, b: &mut B) {
        self.shape = (Block::channels(b), Block::block_size(b));
        self.u.process_block(self.ctx, self.flags, self.input, b);
    }
}
fn input<F: Float>(seed: u64, c: usize, i: usize) -> F {
    F::new((hash(&[seed, c as u64, i as u64]) % 101) as f64 - 50.0)
}
/// How often a model's clone was marked done and when first
fn expect_block<F: Float>(m: &mut Model, off: usize, len: usize, ins: impl Fn(usize, usize) -> F, in_bs: usize, done: &mut Option<u32>) -> Vec<Vec<F>> {
    match m.spec.block {
        Some(0) => rec("block", vec![off as u64, len as u64, len as u64, len as u64]),
        Some(1) => rec("block", vec![len as u64, len as u64]),
        Some(_) => rec("block", vec![off as u64, len as u64, len as u64, if m.spec.ins > 0 { in_bs as u64 } else { 0 }]),
        None => (),
    }
    let mut o = vec![vec![F::ZERO; len]; m.spec.outs];
    for i in 0..len {
        if let (true, Some(d)) = (m.spec.done, m.s.done_frame()) {
            *done = Some(done.map_or(d, |x| x.min(d)));
        }
        m.s.frame((m.spec.frame_at && m.spec.block.is_none()).then_some(((off + i) as u64, 1)));
        let x: Vec<F> = (0..m.spec.ins).map(|c| ins(c, i)).collect();
        for (c, o) in o.iter_mut().enumerate() {
            o[i] = m.s.out(c, &x);
        }
    }
    o
}
fn direct<F: Float, U: UGen<Sample = F>>(t: &Trace, mut u: U, o: &mut Outcome) -> R {
    let (sr, bs) = (t.get("sr", 48000) as u32, t.get("bs", 64).clamp(1, 64) as usize);
    let id = t.get("ugen", 0);
    let mut m = Model { s: S::default(), spec: spec(id), sr, bs };
    hints::<F, U>(id, &m.spec)?;
    let mut ctx = AudioCtx::new(sr, bs, ArLogSender::non_rt());
    let got = calls(|| u.init(sr, bs)).1;
    let want = calls(|| if m.spec.init { m.s.init(sr, bs) }).1;
    compare("init", &got, &want)?;
    for s in &t.steps {
        o.evals += 1;
        let what = s.text();
        match s.name.as_str() {
            "set" => {
                let (p, way, kind) = (s.a(0).max(0) as usize, s.a(1), s.a(2));
                let v = value(kind, s.a(3));
                let known = p < m.spec.params.len();
                let fits = known && m.fits(p, kind);
                let name: Param = if known { m.spec.params[p].0.into() } else { ["other", "process", ""][p % 3].into() };
                o.fault(if !known { "unknown_parameter" } else if fits { "value" } else if kind == 4 { "smoothing_without_wrapper" } else { "wrong_kind" });
                let (r, got) = calls(|| match way {
                    0 => {
                        u.param_apply(&mut ctx, p, v);
                        Ok(())
                    }
                    1 => u.param(&mut ctx, p, v),
                    _ => u.param(&mut ctx, name, v),
                });
                let want = calls(|| if fits { m.set(p, v) }).1;
                compare(&what, &got, &want)?;
                let right = match (way, known) {
                    (0, _) => true,
                    (1, false) => matches!(r, Err(ParameterError::ParameterIndexOutOfBounds)),
                    (_, false) => matches!(r, Err(ParameterError::DescriptionNotFound(_))),
                    _ if fits => r.is_ok(),
                    // smoothing is a matter of float parameters
                    _ if kind == 4 && matches!(m.spec.params[p].1, K::F(..)) => r.is_ok(),
                    _ => matches!(r, Err(ParameterError::WrongParameterType)),
                };
                if !right {
                    return Err(("result", format!("`{what}`: {r:?}")));
                }
                o.hash = hash(&[o.hash, m.s.0]);
            }
            "frame" => {
                o.fault("frame");
                for k in 0..s.a(0).clamp(1, 8) as usize {
                    let x: Vec<F> = (0..m.spec.ins).map(|c| input(s.a(0) as u64, c, k)).collect();
                    let mut f = Frame::<F, U::Inputs>::default();
                    f.iter_mut().zip(&x).for_each(|(a, b)| *a = *b);
                    let off = k % bs;
                    ctx.block = BlockMetadata::new(bs).make_partial(off, 1);
                    let mut flags = UGenFlags::new();
                    let (y, got) = calls(|| u.process(&mut ctx, &mut flags, f));
                    let done = m.s.done_frame().filter(|_| m.spec.done);
                    let want = calls(|| m.s.frame(m.spec.frame_at.then_some((off as u64, 1)))).1;
                    compare(&what, &got, &want)?;
                    for c in 0..m.spec.outs {
                        if y[c] != m.s.out(c, &x) {
                            return Err(("sound", format!("`{what}`: channel {c} is {:?} instead of {:?}", y[c], m.s.out(c, &x))));
                        }
                    }
                    if flags.done() != done {
                        return Err(("flags", format!("`{what}`: done {:?} instead of {done:?}", flags.done())));
                    }
                    o.frames += 1;
                    o.hash = hash(&[o.hash, m.s.0]);
                }
            }
            "block" => {
                let seed = s.a(7) as u64;
                let size = |kind: i64| if kind == 1 { 64 } else { bs };
                let (ik, ok) = (s.a(0).clamp(0, 4), s.a(1).clamp(0, 3));
                o.fault(["storage_vec", "storage_static", "storage_raw", "storage_raw_channels"][ok as usize]);
                let depth = s.a(2).clamp(0, 2) as usize;
                // the same length in both, the views may lie elsewhere
                let len = if depth == 0 { size(ik).min(size(ok)) } else { 1 + (s.a(4).max(1) as usize - 1) % size(ik).min(size(ok)) };
                // without views both have to be of one size
                let depth = if depth == 0 && size(ik) != size(ok) { 1 } else { depth };
                let len = len.min(bs);
                let depth = if depth == 0 && len != size(ok) { 1 } else { depth };
                if depth > 0 {
                    o.fault(["", "view", "nested_view"][depth]);
                }
                let views = |size: usize, x: i64| {
                    let off = x.max(0) as usize % (size - len + 1);
                    match depth {
                        0 => (vec![], 0),
                        1 => (vec![(off, len)], off),
                        _ => {
                            let a = (s.a(6).max(0) as usize).min(off);
                            let rest = size - (off + len);
                            let b = (s.a(5).max(0) as usize).min(rest);
                            (vec![(off - a, a + len + b), (a, len)], off)
                        }
                    }
                };
                let (iv, ioff) = views(size(ik), s.a(3));
                let (ov, ooff) = views(size(ok), s.a(3) + s.a(5));
                let mut ist = Store::<F>::new(if ik == 4 { 3 } else { ik }, bs);
                let mut ost = Store::<F>::new(ok, bs);
                ist.each(|k, x| *x = if let Some((c, i)) = k { input(seed, c, i) } else { poison(9) });
                let mut n = 0;
                ost.each(|_, x| {
                    n += 1;
                    *x = poison(n)
                });
                let off = s.a(3).max(0) as usize % (bs - len + 1);
                let meta = BlockMetadata::new(bs).make_partial(off, len);
                ctx.block = meta;
                let mut flags = UGenFlags::new();
                let mut shape = (0, 0);
                let mut seen = None;
                let (_, got) = calls(|| {
                    with_in(&mut ist, ik == 4, &iv, |i| {
                        seen = Some((i.channels(), i.block_size()));
                        let mut p = Process { u: &mut u, ctx: &mut ctx, flags: &mut flags, input: i, shape: (0, 0) };
                        with_out(&mut ost, &ov, &mut p);
                        shape = p.shape;
                    })
                });
                if shape != (4, len) || seen != Some((4, len)) {
                    return Err(("view", format!("`{what}`: shapes of the blocks {seen:?} and {shape:?} instead of {len} frames of 4 channels")));
                }
                let mut done = None;
                let (y, want) = calls(|| expect_block::<F>(&mut m, off, len, |c, i| input(seed, c, ioff + i), len, &mut done));
                compare(&what, &got, &want)?;
                let mut bad = None;
                ist.each(|k, x| {
                    if *x != k.map_or(poison(9), |(c, i)| input(seed, c, i)) {
                        bad = Some(("view", format!("`{what}`: the input changed at {k:?} to {x:?}")));
                    }
                });
                let mut n = 0;
                ost.each(|k, x| {
                    n += 1;
                    let w = match k {
                        Some((c, i)) if c < m.spec.outs && i >= ooff && i < ooff + len => y[c][i - ooff],
                        _ => poison(n),
                    };
                    if *x != w && bad.is_none() {
                        bad = Some((if w == poison(n) { "view" } else { "sound" }, format!("`{what}`: channel and frame {k:?} of the storage are {x:?} instead of {w:?}")));
                    }
                });
                if let Some(b) = bad {
                    return Err(b);
                }
                if flags.done() != done {
                    return Err(("flags", format!("`{what}`: done {:?} instead of {done:?}", flags.done())));
                }
                let c = &ctx.block;
                if (c.block_start_offset(), c.frames_to_process(), c.frame_clock()) != (off, len, meta.frame_clock()) {
                    return Err(("flags", format!("`{what}`: the context's block became {c:?}")));
                }
                o.frames += len as u64;
                o.blocks += 1;
                o.hash = hash(&[o.hash, m.s.0]);
            }
            _ => (),
        }
    }
    Ok(())
}
fn in_graph<F: Float, U: UGen<Sample = F> + 'static>(t: &Trace, u: U, o: &mut Outcome) -> R {
    let (sr, bs) = (t.get("sr", 48000) as u32, t.get("bs", 64).clamp(1, 64) as usize);
    let id = t.get("ugen", 0);
    let mut m = Model { s: S::default(), spec: spec(id), sr, bs };
    o.fault("graph");
    let (mut g, mut ap, _log) = AudioProcessor::<F>::new::<U4, U4>(AudioProcessorOptions { block_size: bs, sample_rate: sr, ring_buffer_size: 100, log_channel_capacity: 100 });
    let (h, got) = calls(|| {
        let h = g.push(u);
        g.edit(|_| {});
        h
    });
    let want = calls(|| if m.spec.init { m.s.init(sr, bs) }).1;
    compare("init", &got, &want)?;
    g.edit(|e| {
        let n = e.handle(&h).unwrap();
        let n = match m.spec.ins {
            0 => n,
            1 => e.from_inputs([0]).unwrap() >> n,
            2 => e.from_inputs([0, 1]).unwrap() >> n,
            3 => e.from_inputs([0, 1, 2]).unwrap() >> n,
            _ => e.from_inputs([0, 1, 2, 3]).unwrap() >> n,
        };
        n.to_graph_out();
    });
    let (d, hs) = (h.parameters(), h.hints());
    if d.iter().ne(m.spec.params.iter().map(|p| &p.0)) || hs.len() != d.len() || HandleTrait::inputs(&h) as usize != m.spec.ins || HandleTrait::outputs(&h) as usize != m.spec.outs {
        return Err(("hint", format!("the handle has the parameters {d:?}")));
    }
    let mut waiting: Vec<(usize, ParameterValue)> = vec![];
    let mut clock = 0;
    let any = h.into_any();
    for s in t.steps.iter().chain(&[Op::new("block", &[])]) {
        o.evals += 1;
        let what = s.text();
        match s.name.as_str() {
            "set" => {
                let (p, way, kind) = (s.a(0).max(0) as usize, s.a(1), s.a(2));
                let v = value(kind, s.a(3));
                let known = p < m.spec.params.len();
                let fits = known && m.fits(p, kind);
                o.fault(if !known { "unknown_parameter" } else if fits { "value" } else if kind == 4 { "smoothing_without_wrapper" } else { "wrong_kind" });
                let name: Param = if known { m.spec.params[p].0.into() } else { ["other", "process", ""][p % 3].into() };
                let r = if way == 1 { any.set((p, v)) } else { any.set((name, v)) };
                if !known && r.is_ok() {
                    return Err(("result", format!("`{what}`: accepted")));
                }
                if fits {
                    if let Err(e) = r {
                        return Err(("result", format!("`{what}`: {e}")));
                    }
                    waiting.push((p, v));
                }
            }
            "block" => {
                let data: Vec<Vec<F>> = (0..4).map(|c| (0..bs).map(|i| input(7, c, clock + i)).collect()).collect();
                let refs: Vec<&[F]> = data.iter().map(|d| d.as_slice()).collect();
                let (_, got) = calls(|| ap.run(&refs));
                let mut done = None;
                let (y, want) = calls(|| {
                    for (p, v) in waiting.drain(..) {
                        m.set(p, v);
                    }
                    expect_block::<F>(&mut m, 0, bs, |c, i| data[c][i], bs, &mut done)
                });
                compare(&what, &got, &want)?;
                for c in 0..4 {
                    for i in 0..bs {
                        let w = y.get(c).map_or(F::ZERO, |y| y[i]);
                        let g = BlockRead::read(&*ap.output_block(), c, i);
                        if g != w {
                            return Err(("sound", format!("`{what}`: channel {c} frame {i} of the graph is {g:?} instead of {w:?}")));
                        }
                    }
                }
                clock += bs;
                o.frames += bs as u64;
                o.blocks += 1;
                o.hash = hash(&[o.hash, m.s.0]);
            }
            _ => (),
        }
    }
    Ok(())
}
fn drive<F: Float, U: UGen<Sample = F> + 'static>(t: &Trace, u: U, o: &mut Outcome) -> R {
    if t.get("graph", 0) != 0 { in_graph(t, u, o) } else { direct(t, u, o) }
}
fn dispatch<F: Float>(t: &Trace, o: &mut Outcome) -> R {
    let s = S::default();
    macro_rules! wide {
        ($i:ty, $o:ty, $h:literal) => {{
            let (s, p) = new(s);
            drive::<F, _>(t, Wide::<F, $i, $o, $h>(s, p), o)
        }};
    }
    match t.get("ugen", 0) {
        0 => drive::<F, _>(t, Bare(s, PhantomData), o),
        1 => drive::<F, _>(t, Kinds(s, PhantomData), o),
        2 => drive::<F, _>(t, Arrays(s, PhantomData), o),
        3 => drive::<F, _>(t, Named(s, PhantomData), o),
        4 => wide!(U4, U3, 0),
        5 => wide!(U1, U4, 1),
        6 => wide!(U0, U2, 2),
        7 => wide!(U4, U0, 0),
        8 => wide!(U2, U2, 2),
        9 => wide!(U3, U1, 1),
        11 => drive::<F, _>(t, Many(s, PhantomData), o),
        _ => wide!(U1, U1, 2),
    }
}
pub fn run_trace(t: &Trace) -> Outcome {
    let mut o = Outcome::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if t.get("ugen", 0) == 10 {
            drive::<f64, _>(t, Fixed(S::default()), &mut o)
        } else if t.get("f64", 0) != 0 {
            dispatch::<f64>(t, &mut o)
        } else {
            dispatch::<f32>(t, &mut o)
        }
    }));
    match r {
        Ok(Ok(())) => (),
        Ok(Err((class, detail))) => o.violation = Some(Violation { class, detail }),
        Err(_) => o.violation = Some(Violation { class: "panic", detail: crate::panic_message() }),
    }
    o.points = t.size() as u64;
    o.inter = o.hash;
    o.sim_ns = o.frames * 1_000_000_000 / t.get("sr", 48000).max(1) as u64;
    o
}
