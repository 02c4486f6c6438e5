//! The simulator: one process, one thread. The audio side is a coroutine which is suspended at every
//! scheduling point; the control side decides at each of its own scheduling points, following the
//! schedule of the run, for how many scheduling points the audio side runs on.
use crate::alloc::{self, pause};
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::collections::VecDeque;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Y {
    Point,
    BlockDone,
}
/// What a probe saw in one call to process (or in a run of single frame calls)
#[derive(Clone, Debug)]
pub struct Seg {
    pub label: u32,
    pub off: usize,
    pub len: usize,
    pub counter: u64,
    pub clock: u64,
    pub sr: u32,
    pub bs: usize,
    /// Initialised exactly once before
    pub inits: u32,
    pub per_frame: bool,
    pub ins: Vec<Vec<f64>>,
    pub outs: Vec<Vec<f64>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PVal {
    F(f64),
    I(u64),
    B(bool),
    Trig,
    /// smoothing duration
    Smooth(f64),
}
#[derive(Clone, Debug)]
pub struct Apply {
    pub label: u32,
    pub param: usize,
    pub val: PVal,
    /// Frames of this block which the node had already produced
    pub frame: usize,
    pub block: u64,
    pub on_audio: bool,
    pub tick: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MarkKind {
    Done,
    RemoveParent,
    RemoveSelf,
}
#[derive(Clone, Debug)]
pub struct Mark {
    pub label: u32,
    pub kind: MarkKind,
    pub frame: usize,
    pub tick: u64,
}
#[derive(Clone, Debug, Default)]
pub struct BlockRec {
    pub idx: u64,
    pub start: u64,
    pub end: u64,
    pub ins: Vec<Vec<f64>>,
    pub outs: Vec<Vec<f64>>,
    pub segs: Vec<Seg>,
    pub marks: Vec<Mark>,
    pub allocs: u64,
    pub frees: u64,
}
#[derive(Clone, Debug)]
pub struct DropRec {
    pub label: u32,
    pub on_audio: bool,
    pub tick: u64,
}
pub struct Global {
    co: Option<Coroutine<(), Y, ()>>,
    yielder: *const Yielder<(), Y>,
    pub on_audio: bool,
    pub in_sim: bool,
    pub sched: VecDeque<u8>,
    pub tick: u64,
    pub points: u64,
    pub audio_points: u64,
    pub switches: u64,
    /// hash over all scheduling decisions and audio results
    pub hash: u64,
    /// hash over the pairs (control point, audio point) at which a switch happened
    pub inter: u64,
    pub last_audio_point: &'static str,
    pub cur: Option<BlockRec>,
    pub done: VecDeque<BlockRec>,
    pub applies: Vec<Apply>,
    pub drops: Vec<DropRec>,
    pub blocks_started: u64,
    pub block_limit: u64,
    pub outputs_nan: bool,
    pub panics: Vec<String>,
    pub steps_left: u64,
}
static mut G: Option<Box<Global>> = None;
#[allow(static_mut_refs)]
pub fn g() -> &'static mut Global {
    unsafe { G.as_mut().expect("simulation not started") }
}
#[allow(static_mut_refs)]
pub fn active() -> bool {
    unsafe { G.is_some() }
}
pub fn mix(h: &mut u64, v: u64) {
    *h = crate::rng::hash(&[*h, v]);
}
pub fn str_hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
/// Start a new run
pub fn start() {
    unsafe {
        G = Some(Box::new(Global {
            co: None,
            yielder: std::ptr::null(),
            on_audio: false,
            in_sim: true,
            sched: VecDeque::new(),
            tick: 0,
            points: 0,
            audio_points: 0,
            switches: 0,
            hash: 0,
            inter: 0,
            last_audio_point: "",
            cur: None,
            done: VecDeque::new(),
            applies: Vec::new(),
            drops: Vec::new(),
            blocks_started: 0,
            block_limit: u64::MAX,
            outputs_nan: false,
            panics: Vec::new(),
            steps_left: 5_000_000,
        }));
    }
}
pub fn stop() {
    unsafe {
        if let Some(g) = (*std::ptr::addr_of_mut!(G)).as_mut() {
            if let Some(co) = g.co.as_mut() {
                if co.started() && !co.done() {
                    unsafe { co.force_reset() };
                }
            }
        }
        G = None;
    }
}
pub fn tick() -> u64 {
    let g = g();
    g.tick += 1;
    g.tick
}
/// A scheduling point: called from the hooks in the code under test and from the probes.
pub fn point(name: &'static str) {
    if !active() {
        return;
    }
    let g = g();
    if !g.in_sim {
        return;
    }
    g.points += 1;
    if g.on_audio {
        g.audio_points += 1;
        g.last_audio_point = name;
        suspend(Y::Point);
    } else {
        let k = g.sched.pop_front().unwrap_or(0);
        mix(&mut g.hash, k as u64 + 1);
        if k > 0 {
            pause(|| {
                mix(&mut g.inter, str_hash(name));
                for _ in 0..k {
                    if !audio_step() {
                        break;
                    }
                }
                mix(&mut g.inter, str_hash(g.last_audio_point));
            });
        }
    }
}
/// Hand control back to the control side
pub fn suspend(y: Y) {
    let g = g();
    let was_audio = alloc::AUDIO.swap(false, Relaxed);
    let was_sut = alloc::SUT.swap(false, Relaxed);
    let yl = g.yielder;
    g.on_audio = false;
    unsafe { (*yl).suspend(y) };
    let g = self::g();
    g.on_audio = true;
    alloc::AUDIO.store(was_audio, Relaxed);
    alloc::SUT.store(was_sut, Relaxed);
}
/// Install the body of the audio side. It calls [`block_begin`]/[`block_end`] around every block.
pub fn set_audio(body: fn()) {
    let g = g();
    let co = Coroutine::new(move |y: &Yielder<(), Y>, _: ()| {
        self::g().yielder = y;
        loop {
            body();
            suspend(Y::BlockDone);
        }
    });
    g.co = Some(co);
}
pub fn mid_block() -> bool {
    g().cur.is_some()
}
pub fn has_audio() -> bool {
    g().co.is_some()
}
/// Let the audio side run to its next scheduling point. Returns false if there is no audio side.
pub fn audio_step() -> bool {
    let g = g();
    if g.co.is_none() || g.on_audio {
        return false;
    }
    if g.cur.is_none() && g.blocks_started >= g.block_limit {
        return false;
    }
    if g.steps_left == 0 {
        return false;
    }
    g.steps_left -= 1;
    g.switches += 1;
    g.on_audio = true;
    let r = g.co.as_mut().unwrap().resume(());
    let g = self::g();
    g.on_audio = false;
    match r {
        CoroutineResult::Yield(Y::Point) => true,
        CoroutineResult::Yield(Y::BlockDone) => true,
        CoroutineResult::Return(()) => {
            g.co = None;
            false
        }
    }
}
/// Finish the block being rendered, if any
pub fn finish_block() {
    while mid_block() {
        if !audio_step() {
            break;
        }
    }
}
/// Render `n` whole blocks (after finishing a partial one)
pub fn blocks(n: u64) {
    finish_block();
    for _ in 0..n {
        if !audio_step() {
            return;
        }
        finish_block();
    }
}
/// Remove the audio side (between blocks). What it processed is owned by the world and dropped there.
pub fn remove_audio() {
    finish_block();
    let g = g();
    if let Some(mut co) = g.co.take() {
        // Nothing with a destructor lives on the stack of the coroutine between blocks
        if co.started() && !co.done() {
            unsafe { co.force_reset() };
        }
    }
}
