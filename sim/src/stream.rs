//! C21: the audio backends on simulated devices. cpal's host and the JACK server are simulated, the
//! `jack` crate on top of it is the real one.
#![allow(deprecated)]
use crate::alloc;
use crate::rng::{Rng, hash};
use crate::trace::{Op, Outcome, Trace, Violation};
use cpal::sim as dev;
use jack_sys::sim as server;
use knaster_core::{AudioCtx, Block, BlockRead, Float, Frame, ParameterHint, ParameterValue, UGen, UGenFlags, numeric_array::NumericArray, typenum::*};
use knaster_graph::audio_backend::cpal::{CpalBackend, CpalBackendOptions};
use knaster_graph::audio_backend::jack::JackBackend;
use knaster_graph::audio_backend::{AudioBackend, AudioBackendError};
use knaster_graph::graph::{Graph, NodeId, NodeOrGraph};
use knaster_graph::handle::HandleTrait;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use std::sync::atomic::Ordering::Relaxed;

/// What the source nodes of one processor saw
#[derive(Default)]
struct Rec {
    /// frames rendered
    count: u64,
    inits: Vec<(u32, usize)>,
    /// by channel and slot, since the last callback
    inputs: Vec<[Vec<f64>; 2]>,
    bad: Option<String>,
    live: i64,
}
static mut RECS: Vec<Rec> = vec![];
#[allow(static_mut_refs)]
fn recs() -> &'static mut Vec<Rec> {
    unsafe { &mut RECS }
}
/// What channel sources produce: (almost) every value differs from those around it
fn wave<F: Float>(key: u64, weird: bool, n: u64) -> F {
    let h = hash(&[key, n]);
    let v = match if weird { h % 48 } else { 99 } {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 1.0,
        4 => -1.0,
        5 => 1.5,
        6 => -3e9,
        7 => -0.0,
        8 => 1e-40,
        9 => 1e300,
        10 => -1.0000001,
        _ => ((h >> 16) & 0xff_ffff) as f64 / 8388608.0 - 1.0 + (h >> 48) as f64 * 1e-15,
    };
    F::new(v)
}
struct Src<F> {
    session: usize,
    ch: usize,
    key: u64,
    weird: bool,
    observe: bool,
    _m: std::marker::PhantomData<F>,
}
impl<F: Float> UGen for Src<F> {
    type Sample = F;
    type Inputs = U2;
    type Outputs = U1;
    type Parameters = U0;
    fn init(&mut self, sr: u32, bs: usize) {
        alloc::pause(|| recs()[self.session].inits.push((sr, bs)));
    }
    fn process(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, _i: Frame<F, U2>) -> Frame<F, U1> {
        unreachable!()
    }
    fn process_block<I, O>(&mut self, c: &mut AudioCtx, _f: &mut UGenFlags, input: &I, output: &mut O)
    where
        I: BlockRead<Sample = F> + ?Sized,
        O: Block<Sample = F> + ?Sized,
    {
        let n = c.frames_to_process();
        let at = c.frame_clock() + c.block_start_offset() as u64;
        for (k, o) in output.channel_as_slice_mut(0)[..n].iter_mut().enumerate() {
            *o = wave(self.key, self.weird, at + k as u64);
        }
        if self.observe {
            alloc::pause(|| {
                let r = &mut recs()[self.session];
                for s in 0..2 {
                    r.inputs[self.ch][s].extend(input.channel_as_slice(s)[..n].iter().map(|x| Float::to_f64(*x)));
                }
                if self.ch == 0 {
                    if at != r.count {
                        r.bad = Some(format!("frame {at} is rendered after {} frames", r.count));
                    }
                    r.count += n as u64;
                }
            });
        }
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _c: &mut AudioCtx, _i: usize, _v: ParameterValue) {}
}
impl<F> Drop for Src<F> {
    fn drop(&mut self) {
        recs()[self.session].live -= 1;
    }
}

const FORMATS: [cpal::SampleFormat; 10] = {
    use cpal::SampleFormat::*;
    [F32, I16, I8, I32, I64, U8, U16, U32, U64, F64]
};
const OUTS: [u64; 6] = [1, 2, 3, 4, 6, 8];
const BLOCKS: [i64; 12] = [1, 2, 3, 7, 16, 32, 48, 64, 64, 64, 100, 128];
const PERIODS: [i64; 12] = [1, 5, 16, 32, 37, 64, 64, 64, 100, 128, 256, 441];

pub fn generate(prop: &str, seed: u64) -> Trace {
    let mut r = Rng::new(hash(&[seed, 0xC21]));
    let mut t = Trace { prop: prop.into(), engine: "stream".into(), seed, ..Default::default() };
    let jack = r.chance(2, 5);
    t.set("jack", jack as i64);
    t.set("f64", r.chance(1, 2) as i64);
    t.set("sr", [8000, 22050, 44100, 48000, 96000][r.below(5) as usize]);
    t.set("bs", BLOCKS[r.below(12) as usize]);
    t.set("ch", OUTS[r.below(6) as usize] as i64);
    t.set("ins", if jack { r.below(4) as i64 } else if r.chance(1, 6) { 1 + r.below(3) as i64 } else { 0 });
    t.set("weird", r.chance(1, 2) as i64);
    t.set("fmt", if r.chance(1, 3) { 0 } else { r.below(10) as i64 });
    if seed % 40 == 7 {
        t.set("builder", 1 + r.below(2) as i64);
        if r.chance(4, 5) {
            t.set("ch", 2);
        }
        t.set("ins", 0);
    }
    // what is wrong before the start
    if r.chance(1, 8) {
        t.set(["nodefault", "nodevs", "noname", "cfgerr", "nolib", "nosrv"][r.below(6) as usize], 1 + r.below(3) as i64);
    }
    t.set("named", [0, 0, 0, 1, 1, 2][r.below(6) as usize]);
    let period = if r.chance(1, 3) { t.get("bs", 64) } else { PERIODS[r.below(12) as usize] };
    t.set("period", period);
    let style = r.below(4);
    let constant = PERIODS[r.below(12) as usize];
    let n = 2 + r.below(if seed % 11 == 0 { 60 } else { 20 });
    let start = |r: &mut Rng| {
        let mut a = [0i64; 4];
        if r.chance(1, 8) {
            match r.below(4) {
                0 => a[0] = 1,
                1 => a[1] = 1 + r.below(5) as i64,
                2 => a[2] = 1 + r.below(2) as i64,
                _ => a[3] = 1 + r.below(2) as i64,
            }
        }
        Op::new("start", &a)
    };
    if r.chance(7, 8) {
        t.steps.push(start(&mut r));
    }
    for _ in 0..n {
        let op = match r.weighted(&[60, 3, 3, 3, 4, 5, 1, 1]) {
            0 => {
                let len = match style {
                    0 => constant,
                    1 => [0, 1, 2, 63, 64, 65, 127, 128, 129][r.below(9) as usize],
                    2 => r.below(700) as i64,
                    _ => PERIODS[r.below(12) as usize],
                };
                Op::new("cb", &[len, r.below(256) as i64])
            }
            1 => start(&mut r),
            2 => Op::new("stop", &[]),
            3 => Op::new("err", &[r.below(2) as i64]),
            4 => Op::new("note", &[r.below(5) as i64, r.below(8) as i64]),
            5 => Op::new("swap", &[r.below(8) as i64]),
            6 => Op::new("period", &[PERIODS[r.below(12) as usize]]),
            _ => {
                if r.chance(1, 3) {
                    Op::new("gone", &[])
                } else {
                    Op::new("swap", &[0])
                }
            }
        };
        t.steps.push(op);
    }
    t
}

struct Session<F: Float> {
    graph: Graph<F>,
    /// The block size of the processor
    bs: u64,
    ins: usize,
    outs: usize,
    /// By channel: from which frame on which source
    want: Vec<Vec<(u64, u64)>>,
    delivered: u64,
    received: u64,
    /// By channel and slot: frames of the device's input seen, and zeros in between
    seen: Vec<[(u64, u64); 2]>,
    /// All periods so far were multiples of the block size
    even: bool,
}
enum Back<F: Float> {
    None,
    Cpal(CpalBackend<F>),
    Jack(JackBackend<F>),
}
struct Run<'a, F: Float> {
    t: &'a Trace,
    back: Back<F>,
    sessions: Vec<Session<F>>,
    current: Option<usize>,
    o: Outcome,
    /// What is done to numbers beyond ±1 and to NaN (for float formats): 1 passed on, 2 changed
    range: u8,
    nan: u8,
}
type Res = Result<(), (&'static str, String)>;

fn build_error(k: i64) -> Option<cpal::BuildStreamError> {
    use cpal::BuildStreamError::*;
    match k {
        0 => None,
        1 => Some(DeviceNotAvailable),
        2 => Some(StreamConfigNotSupported),
        3 => Some(InvalidArgument),
        4 => Some(StreamIdOverflow),
        _ => Some(BackendSpecific { err: cpal::BackendSpecificError { description: "simulated".into() } }),
    }
}
fn play_error(k: i64) -> Option<cpal::PlayStreamError> {
    match k {
        0 => None,
        1 => Some(cpal::PlayStreamError::DeviceNotAvailable),
        _ => Some(cpal::PlayStreamError::BackendSpecific { err: cpal::BackendSpecificError { description: "simulated".into() } }),
    }
}
fn processor<F: Float>(ins: usize, outs: usize, o: AudioProcessorOptions) -> (Graph<F>, AudioProcessor<F>) {
    macro_rules! outs {
        ($i:ty) => {
            match outs {
                1 => AudioProcessor::<F>::new::<$i, U1>(o),
                2 => AudioProcessor::<F>::new::<$i, U2>(o),
                3 => AudioProcessor::<F>::new::<$i, U3>(o),
                4 => AudioProcessor::<F>::new::<$i, U4>(o),
                5 => AudioProcessor::<F>::new::<$i, U5>(o),
                6 => AudioProcessor::<F>::new::<$i, U6>(o),
                7 => AudioProcessor::<F>::new::<$i, U7>(o),
                8 => AudioProcessor::<F>::new::<$i, U8>(o),
                _ => AudioProcessor::<F>::new::<$i, U9>(o),
            }
        };
    }
    let (g, p, _log) = match ins {
        0 => outs!(U0),
        1 => outs!(U1),
        2 => outs!(U2),
        _ => outs!(U3),
    };
    (g, p)
}
/// The device's input
fn tag(input: usize, frame: u64) -> f32 {
    ((frame % 4_000_000) * 4 + input as u64 + 1) as f32 / 1024.0
}
impl<F: Float> Run<'_, F> {
    fn get(&self, k: &str) -> i64 {
        self.t.get(k, 0)
    }
    fn outs(&self) -> usize {
        self.t.get("ch", 2).clamp(1, 8) as usize
    }
    fn format(&self) -> cpal::SampleFormat {
        FORMATS[self.get("fmt").clamp(0, 9) as usize]
    }
    fn jack(&self) -> bool {
        self.get("jack") != 0
    }
    fn device(&mut self) {
        let period = self.t.get("period", 64).clamp(1, 4096) as u32;
        let sr = self.t.get("sr", 48000) as u32;
        server::reset(sr, period);
        server::with(|s| {
            s.no_library = self.get("nolib") != 0;
            s.no_server = self.get("nosrv") != 0;
        });
        dev::reset();
        let config = |ch: usize| cpal::SupportedStreamConfig::new(ch as u16, cpal::SampleRate(sr), cpal::SupportedBufferSize::Unknown, self.format());
        let other = dev::DeviceSpec { name: (self.get("noname") == 0).then(|| "other".into()), config: Ok(config(1)), build: vec![], play: vec![] };
        let main = dev::DeviceSpec {
            name: (self.get("noname") < 2).then(|| "main".into()),
            config: match self.get("cfgerr") {
                0 => Ok(config(self.outs())),
                1 => Err(cpal::DefaultStreamConfigError::DeviceNotAvailable),
                2 => Err(cpal::DefaultStreamConfigError::StreamTypeNotSupported),
                _ => Err(cpal::DefaultStreamConfigError::BackendSpecific { err: cpal::BackendSpecificError { description: "simulated".into() } }),
            },
            build: vec![],
            play: vec![],
        };
        dev::with(|s| {
            s.devices = vec![other, main];
            s.default_output = (self.get("nodefault") == 0).then_some(1);
            s.fail_devices = self.get("nodevs") != 0;
        });
    }
    fn options(&self) -> CpalBackendOptions {
        CpalBackendOptions {
            device: match self.get("named") {
                0 => "default",
                1 => "main",
                _ => "missing",
            }
            .into(),
            verbose: self.get("weird") != 0,
        }
    }
    fn device_found(&self) -> bool {
        let found = match self.get("named") {
            0 => self.get("nodefault") == 0,
            1 => self.get("nodevs") == 0 && self.get("noname") < 2,
            _ => false,
        };
        found && self.get("cfgerr") == 0
    }
    fn open(&mut self) -> Res {
        if self.get("nodefault") + self.get("nodevs") + self.get("noname") + self.get("cfgerr") > 0 && !self.jack() {
            self.o.fault("device_missing_or_failing");
        }
        if self.jack() {
            let want = self.get("nolib") == 0 && self.get("nosrv") == 0;
            if !want {
                self.o.fault("no_server");
            }
            match alloc::sut(|| JackBackend::<F>::new("knsim")) {
                Ok(b) => {
                    if !want {
                        return Err(("api", "a client without a server".into()));
                    }
                    if b.sample_rate() != self.get("sr") as u32 || b.block_size() != Some(self.get("period").clamp(1, 4096) as usize) {
                        return Err(("api", format!("sample rate {} and block size {:?} reported", b.sample_rate(), b.block_size())));
                    }
                    self.back = Back::Jack(b);
                }
                Err(e) => {
                    if want {
                        return Err(("api", format!("opening a client failed: {e}")));
                    }
                }
            }
        } else {
            let want = self.device_found();
            // a name that cannot be logged is allowed to be an error
            let verbose = self.get("noname") >= 2 && self.get("weird") != 0;
            match alloc::sut(|| CpalBackend::<F>::new(self.options())) {
                Ok(b) => {
                    if !want {
                        return Err(("api", "a backend without a device".into()));
                    }
                    if b.sample_rate() != self.get("sr") as u32 || b.native_output_channels() != Some(self.outs()) || b.num_outputs() != self.outs() {
                        return Err(("api", format!("sample rate {} and {} outputs reported", b.sample_rate(), b.num_outputs())));
                    }
                    self.back = Back::Cpal(b);
                }
                Err(e) => {
                    if want && !verbose {
                        return Err(("api", format!("opening the device failed: {e}")));
                    }
                }
            }
        }
        Ok(())
    }
    /// Sources for the outputs of a new graph
    fn populate(&mut self, mut graph: Graph<F>, ins: usize, outs: usize, bs: usize) -> Session<F> {
        let id = self.sessions.len();
        recs().push(Rec { inputs: (0..outs).map(|_| Default::default()).collect(), ..Default::default() });
        let weird = self.get("weird") != 0;
        let mut want = vec![];
        for ch in 0..outs {
            let key = (id * 1000 + ch) as u64;
            recs()[id].live += 1;
            let src = Src::<F> { session: id, ch, key, weird, observe: true, _m: Default::default() };
            let h = alloc::sut(|| graph.push(src));
            let n: NodeId = h.node_id();
            alloc::sut(|| graph.connect2(n, 0, ch as u16, NodeOrGraph::Graph)).unwrap();
            if ins > 0 {
                alloc::sut(|| graph.connect2(NodeOrGraph::Graph, (ch % ins) as u16, 0, n)).unwrap();
                alloc::sut(|| graph.connect2(NodeOrGraph::Graph, ((ch + outs) % ins) as u16, 1, n)).unwrap();
            }
            want.push(vec![(0, key)]);
        }
        alloc::sut(|| graph.edit(|_| ()));
        Session { graph, bs: bs as u64, ins, outs, want, delivered: 0, received: 0, seen: vec![Default::default(); outs], even: true }
    }
    fn streaming(&self) -> usize {
        if self.jack() { server::active().len() } else { dev::playing().len() }
    }
    fn start(&mut self, op: &Op) -> Res {
        let running = self.current;
        let mut fail = false;
        let mut unsure = false;
        let outs = self.outs() + (op.a(0) != 0) as usize;
        if self.jack() {
            let ports = (self.get("ins") as usize + outs) as u32;
            server::with(|s| {
                s.fail_register = (op.a(1) > 0).then(|| s.registered + (op.a(1) as u32 * 7) % ports);
                s.fail_activate = op.a(2) != 0;
            });
            fail |= op.a(1) > 0 || op.a(2) != 0;
            // a client can be used once
            unsure = !self.sessions.is_empty() || server::with(|s| s.no_server);
        } else {
            dev::with(|s| {
                s.devices[1].build = vec![build_error(op.a(1))];
                s.devices[1].play = match op.a(2) {
                    0 => vec![play_error(op.a(3))],
                    k => vec![None, play_error(k)],
                }
            });
            fail |= op.a(1) != 0 || op.a(3) != 0;
            // whether play is called twice is up to the backend
            unsure |= op.a(2) != 0;
            if outs != self.outs() {
                self.o.fault("wrong_number_of_channels");
                fail = true;
            }
        }
        if fail || unsure {
            self.o.fault("start_fails");
        }
        if running.is_some() {
            self.o.fault("start_twice");
        }
        let bs = self.t.get("bs", 64).clamp(1, 4096) as usize;
        let ins = self.get("ins").clamp(0, 3) as usize;
        let (graph, p) = alloc::sut(|| processor::<F>(ins, outs, AudioProcessorOptions { block_size: bs, sample_rate: self.get("sr") as u32, ..Default::default() }));
        let s = self.populate(graph, ins, outs, bs);
        self.sessions.push(s);
        let r = alloc::sut(|| match &mut self.back {
            Back::Cpal(b) => b.start_processing(p),
            Back::Jack(b) => b.start_processing(p),
            Back::None => unreachable!(),
        });
        dev::with(|s| {
            s.devices[1].build.clear();
            s.devices[1].play.clear();
        });
        server::with(|s| {
            s.fail_register = None;
            s.fail_activate = false;
        });
        match (running, r) {
            (Some(_), Err(AudioBackendError::BackendAlreadyRunning)) => {
                if self.streaming() != 1 && !server::with(|s| s.no_server) {
                    return Err(("api", "starting a running backend again stops it".into()));
                }
            }
            (Some(_), r) => return Err(("api", format!("starting a running backend again: {r:?}"))),
            (None, Ok(())) => {
                if fail {
                    return Err(("api", "start_processing hides an error".into()));
                }
                if self.streaming() != 1 {
                    return Err(("api", format!("{} streams after start_processing", self.streaming())));
                }
                self.current = Some(self.sessions.len() - 1);
            }
            (None, Err(e)) => {
                if !fail && !unsure {
                    return Err(("api", format!("start_processing fails: {e}")));
                }
                if self.streaming() != 0 {
                    return Err(("api", "start_processing fails but streams".into()));
                }
            }
        }
        Ok(())
    }
    fn stop(&mut self) -> Res {
        let r = alloc::sut(|| match &mut self.back {
            Back::Cpal(b) => b.stop(),
            Back::Jack(b) => b.stop(),
            Back::None => Ok(()),
        });
        match (self.current, &r) {
            (Some(_), Ok(())) => {}
            (Some(_), Err(_)) if self.jack() && server::with(|s| s.no_server) => {}
            (None, Ok(()) | Err(AudioBackendError::BackendNotRunning)) => {
                self.o.fault("stop_twice");
            }
            _ => return Err(("api", format!("stop: {r:?}"))),
        }
        self.current = None;
        if self.streaming() != 0 {
            return Err(("api", "streaming after stop".into()));
        }
        Ok(())
    }
    /// Compare a sample with what was rendered
    fn sample(&mut self, format: cpal::SampleFormat, got: f64, want: F) -> Result<(), String> {
        let w = Float::to_f64(Float::to_f32(want));
        let whole = |bits: i32, signed: bool| -> (f64, f64) {
            let top = (2.0f64).powi(bits - 1);
            let v = if w.is_nan() { 0.0 } else { (w * top).clamp(-top, top) };
            // the device's number and how far it may be off
            (if signed { v } else { v + top }, 1.0 + v.abs() * 3e-7)
        };
        use cpal::SampleFormat::*;
        let (v, tol) = match format {
            I8 => whole(8, true),
            I16 => whole(16, true),
            I32 => whole(32, true),
            I64 => whole(64, true),
            U8 => whole(8, false),
            U16 => whole(16, false),
            U32 => whole(32, false),
            U64 => whole(64, false),
            _ => {
                let special = |mode: &mut u8, passed: bool, changed: bool| {
                    let m = if passed {
                        1
                    } else if changed {
                        2
                    } else {
                        return Err(format!("{got} is delivered for {w}"));
                    };
                    if *mode != 0 && *mode != m {
                        return Err(format!("{got} is delivered for {w}, but other samples like it were treated differently"));
                    }
                    *mode = m;
                    Ok(())
                };
                if w.is_nan() {
                    return special(&mut self.nan, got.is_nan(), got == 0.0);
                }
                if w.abs() > 1.0 {
                    return special(&mut self.range, got == w, got == w.signum());
                }
                (w, w.abs() * 1.2e-7)
            }
        };
        if (got - v).abs() <= tol { Ok(()) } else { Err(format!("{got} is delivered for {w} (as {format:?})")) }
    }
    fn callback(&mut self, op: &Op) -> Res {
        let Some(cur) = self.current else { return Ok(()) };
        let jack = self.jack();
        let frames = if jack { server::with(|s| s.buffer_size) as usize } else { op.a(0).clamp(0, 8192) as usize };
        let (outs, ins) = (self.sessions[cur].outs, self.sessions[cur].ins);
        let at = self.sessions[cur].delivered;
        let before = (alloc::AUDIO_ALLOCS.load(Relaxed), alloc::AUDIO_FREES.load(Relaxed));
        let call = |f: &mut dyn FnMut()| alloc::sut_audio(f);
        // by channel
        let mut got: Vec<Vec<f64>> = vec![vec![]; outs];
        let mut format = cpal::SampleFormat::F32;
        if jack {
            let Some(&c) = server::active().first() else { return Ok(()) };
            let received = self.sessions[cur].received;
            let (r, out) = server::process(c, frames as u32, f32::from_bits(0x7fc0_0000 + op.a(1) as u32), |i, f| tag(i, received + f as u64), call);
            if r != 0 {
                return Err(("stopped", format!("the process callback fails: {}", crate::panic_message())));
            }
            if out.len() != outs {
                return Err(("api", format!("{} output ports for {outs} outputs", out.len())));
            }
            for (c, o) in out.iter().enumerate() {
                got[c] = o.iter().map(|x| *x as f64).collect();
            }
            let s = &mut self.sessions[cur];
            s.received += frames as u64;
            s.even &= frames as u64 % s.bs == 0;
        } else {
            let Some(&st) = dev::playing().first() else { return Ok(()) };
            format = self.format();
            let time = at * 1_000_000_000 / self.get("sr").max(1) as u64;
            let b = dev::callback(st, frames * outs, op.a(1) as u8, time, call).unwrap();
            let size = format.sample_size();
            for (i, c) in b.chunks_exact(size).enumerate() {
                use cpal::SampleFormat::*;
                let v = match format {
                    I8 => c[0] as i8 as f64,
                    U8 => c[0] as f64,
                    I16 => i16::from_ne_bytes(c.try_into().unwrap()) as f64,
                    U16 => u16::from_ne_bytes(c.try_into().unwrap()) as f64,
                    I32 => i32::from_ne_bytes(c.try_into().unwrap()) as f64,
                    U32 => u32::from_ne_bytes(c.try_into().unwrap()) as f64,
                    I64 => i64::from_ne_bytes(c.try_into().unwrap()) as f64,
                    U64 => u64::from_ne_bytes(c.try_into().unwrap()) as f64,
                    F64 => f64::from_ne_bytes(c.try_into().unwrap()),
                    _ => f32::from_ne_bytes(c.try_into().unwrap()) as f64,
                };
                got[i % outs].push(v);
            }
        }
        let after = (alloc::AUDIO_ALLOCS.load(Relaxed), alloc::AUDIO_FREES.load(Relaxed));
        self.o.blocks += 1;
        self.o.frames += frames as u64;
        // (the builder's log thread counts as well)
        if before != after && self.get("builder") == 0 {
            return Err(("alloc", format!("{} allocations and {} deallocations in the device's callback", after.0 - before.0, after.1 - before.1)));
        }
        let weird = self.get("weird") != 0;
        for ch in 0..outs {
            if got[ch].len() != frames {
                return Err(("stream", format!("{} frames in a buffer of {frames}", got[ch].len())));
            }
            for i in 0..frames {
                let f = at + i as u64;
                let key = self.sessions[cur].want[ch].iter().rev().find(|x| x.0 <= f).unwrap().1;
                if let Err(e) = self.sample(format, got[ch][i], wave::<F>(key, weird, f)) {
                    // which frame is it?
                    let near = (0..2000u64)
                        .flat_map(|d| [f + d, f.wrapping_sub(d)])
                        .find(|f| self.sample(format, got[ch][i], wave::<F>(key, weird, *f)).is_ok());
                    let near = near.map_or(String::new(), |n| format!(" (like frame {n})"));
                    return Err(("stream", format!("frame {f} of channel {ch}: {e}{near}")));
                }
            }
        }
        self.o.evals += (frames * outs) as u64;
        for v in got.iter().flatten() {
            self.o.hash = (self.o.hash ^ v.to_bits()).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
        }
        self.sessions[cur].delivered += frames as u64;
        let rec = &mut recs()[cur];
        if let Some(b) = rec.bad.take() {
            return Err(("stream", b));
        }
        let s = &mut self.sessions[cur];
        if ins > 0 {
            for ch in 0..outs {
                for slot in 0..2 {
                    let input = (ch + slot * outs) % ins;
                    let (next, zeros) = &mut s.seen[ch][slot];
                    for v in rec.inputs[ch][slot].drain(..) {
                        if !jack {
                            if v != 0.0 {
                                return Err(("input", format!("{v} in an input without a source")));
                            }
                            continue;
                        }
                        self.o.evals += 1;
                        if v == 0.0 {
                            *zeros += 1;
                            if s.even || *zeros >= s.bs {
                                return Err(("input", format!("input {input} of the graph is silent {zeros} times after frame {next}")));
                            }
                        } else {
                            if v != tag(input, *next) as f64 {
                                return Err(("input", format!("input {input} of the graph is {v} ({}) where frame {next} ({}) of the device is due", v as f64 * 1024.0, tag(input, *next) as f64 * 1024.0)));
                            }
                            *next += 1;
                        }
                    }
                    if jack && s.received - *next >= s.bs.max(1) {
                        return Err(("input", format!("{} frames of input {input} are late", s.received - *next)));
                    }
                }
            }
        }
        Ok(())
    }
    fn swap(&mut self, op: &Op) {
        let Some(cur) = self.current else { return };
        let s = &mut self.sessions[cur];
        let ch = op.a(0).unsigned_abs() as usize % s.outs;
        let key = hash(&[cur as u64, ch as u64, s.want[ch].len() as u64, 0x77]);
        recs()[cur].live += 1;
        let src = Src::<F> { session: cur, ch, key, weird: self.t.get("weird", 0) != 0, observe: false, _m: Default::default() };
        let g = &mut s.graph;
        let ok = alloc::sut(|| {
            let h = g.push(src);
            let ok = g.connect2_replace(h.node_id().into(), 0, ch as u16, NodeOrGraph::Graph).is_ok();
            g.edit(|_| ());
            ok
        });
        if ok {
            s.want[ch].push((recs()[cur].count, key));
            self.o.fault("graph_edited_while_streaming");
        }
    }
    fn step(&mut self, op: &Op) -> Res {
        match op.name.as_str() {
            "start" => self.start(op)?,
            "stop" => self.stop()?,
            "cb" => self.callback(op)?,
            "swap" => self.swap(op),
            "err" => {
                for s in dev::playing() {
                    self.o.fault("stream_error");
                    alloc::sut(|| dev::error(s, op.a(0) != 0));
                }
            }
            "note" => {
                if self.jack() && self.current.is_some() {
                    self.o.fault("jack_notification");
                    if alloc::sut(|| server::notify(op.a(0) as u8, op.a(1) as u32)) != 0 {
                        return Err(("stopped", "a notification is answered with an error".into()));
                    }
                }
            }
            "period" => {
                if self.jack() && self.current.is_some() {
                    self.o.fault("period_changes");
                    if alloc::sut(|| server::set_buffer_size(op.a(0).clamp(1, 4096) as u32)) != 0 {
                        return Err(("stopped", "a change of the period is answered with an error".into()));
                    }
                }
            }
            "gone" => {
                if self.jack() {
                    self.o.fault("server_shuts_down");
                    alloc::sut(server::shutdown);
                } else {
                    for s in dev::playing() {
                        self.o.fault("stream_error");
                        alloc::sut(|| dev::error(s, true));
                    }
                }
            }
            _ => (),
        }
        let misuse = dev::with(|s| s.misuse.pop()).or_else(|| server::with(|s| s.misuse.pop()));
        match misuse {
            Some(m) => Err(("memory", m)),
            None => Ok(()),
        }
    }
    fn builder(&mut self) -> Res {
        self.o.abandoned = true;
        self.o.fault("builder");
        let sr = self.get("sr") as u32;
        let direct = self.get("builder") == 1;
        let mut found = self.device_found();
        if direct {
            // the default device
            found = self.get("nodefault") == 0 && self.get("cfgerr") == 0;
        }
        let mut b = knaster::knaster::<F>();
        let mut bs = 64;
        if !direct {
            self.open()?;
            b = match std::mem::replace(&mut self.back, Back::None) {
                Back::Cpal(c) => b.backend(c),
                Back::Jack(j) => {
                    bs = j.block_size().unwrap();
                    b.backend(j)
                }
                Back::None => return Ok(()),
            };
        }
        let ok = self.jack() || found && self.outs() == 2;
        match b.start() {
            Ok(g) => {
                if !ok {
                    return Err(("api", "the builder starts a graph without a device for it".into()));
                }
                if self.streaming() != 1 {
                    return Err(("api", "the builder starts no stream".into()));
                }
                let s = self.populate(g, 0, 2, bs);
                self.sessions.push(s);
                self.current = Some(0);
                for i in &recs()[0].inits {
                    if i.0 != sr {
                        return Err(("rate", format!("the graph runs at {} Hz on a device of {sr} Hz", i.0)));
                    }
                }
            }
            Err(e) => {
                if ok {
                    return Err(("api", format!("the builder fails: {e}")));
                }
            }
        }
        Ok(())
    }
}
pub fn run(t: &Trace) -> Outcome {
    alloc::quarantine_start();
    let r = std::panic::catch_unwind(|| if t.get("f64", 0) != 0 { run_f::<f64>(t) } else { run_f::<f32>(t) });
    let mut o = match r {
        Ok(o) => o,
        Err(_) => Outcome { violation: Some(Violation { class: "panic", detail: crate::panic_message() }), ..Default::default() },
    };
    if o.abandoned {
        return o;
    }
    let c = alloc::quarantine_end();
    if o.violation.is_none() && c.0 + c.1 > 0 {
        o.violation = Some(Violation { class: "corrupt", detail: format!("{} writes beyond an allocation, {} writes to freed memory", c.0, c.1) });
    }
    o
}
fn run_f<F: Float>(t: &Trace) -> Outcome {
    recs().clear();
    let mut t = t.clone();
    if t.get("builder", 0) == 1 {
        t.set("jack", 0);
        t.set("named", 0);
    }
    if t.get("builder", 0) != 0 && t.get("jack", 0) != 0 {
        t.set("ch", 2);
    }
    let mut w = Run::<F> { t: &t, back: Back::None, sessions: vec![], current: None, o: Outcome::default(), range: 0, nan: 0 };
    w.device();
    let builder = t.get("builder", 0) != 0;
    let mut res = if builder { w.builder() } else { w.open() };
    let mut h = hash(&[t.get("fmt", 0) as u64, t.get("jack", 0) as u64, t.get("bs", 0) as u64, t.get("ch", 0) as u64]);
    if res.is_ok() && (w.current.is_some() || !matches!(w.back, Back::None)) {
        for op in &t.steps {
            if builder && matches!(op.name.as_str(), "start" | "stop") {
                continue;
            }
            res = w.step(op);
            w.o.points += 1;
            h = hash(&[h, hash(&op.args.iter().map(|x| *x as u64).collect::<Vec<_>>()), op.name.len() as u64, w.current.is_some() as u64]);
            if res.is_err() {
                break;
            }
        }
    }
    if let Err(e) = res {
        w.o.violation = Some(Violation { class: e.0, detail: e.1 });
    }
    w.o.inter = h;
    w.o.hash = hash(&[h, w.o.hash, w.o.frames, w.o.evals, w.o.blocks]);
    w.o.sim_ns = w.o.frames * 1_000_000_000 / t.get("sr", 48000).max(1) as u64;
    let Run { back, sessions, o, .. } = w;
    if o.violation.is_some() {
        // whatever state they are in
        std::mem::forget((back, sessions));
    } else {
        alloc::sut(|| drop(back));
        alloc::sut(|| drop(sessions));
    }
    dev::reset();
    o
}
