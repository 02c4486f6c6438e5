//! The unit generators the simulated graphs are made of. They record everything they see.
use crate::alloc::pause;
use crate::rng::hash;
use crate::sim::{self, Apply, DropRec, Mark, MarkKind, PVal, Seg};
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::{
    AudioCtx, Block, BlockRead, Float, Frame, ParameterHint, ParameterSmoothing, ParameterValue, Size, UGen, UGenFlags,
    rt_log,
};
use std::marker::PhantomData;

/// Value a probe produces: depends on nothing but the node, the channel and the number of frames the
/// node has processed, so that any sum of them is exact in every float type.
pub fn out_value(label: u32, ch: usize, counter: u64) -> f64 {
    (hash(&[label as u64, ch as u64, counter]) & 0xfff) as f64
}
pub fn in_value(ch: usize, frame: u64) -> f64 {
    (hash(&[0xABCD_0000, ch as u64, frame]) & 0xfff) as f64
}
pub const PLAN_DONE: u64 = 1;
pub const PLAN_PARENT: u64 = 2;
pub const PLAN_SELF: u64 = 3;
pub const PLAN_LOG: u64 = 4;

pub struct Probe<F, I, O> {
    label: u32,
    counter: u64,
    inits: u32,
    init_sr: u32,
    init_bs: usize,
    /// (kind, frame)
    plan: Option<(u64, u64)>,
    /// frames of the current block already produced, and the block they belong to
    in_block: usize,
    block: u64,
    log_n: u32,
    _p: PhantomData<(F, I, O)>,
}
impl<F: Float, I: Size, O: Size> Probe<F, I, O> {
    pub fn new(label: u32) -> Self {
        Self {
            label,
            counter: 0,
            inits: 0,
            init_sr: 0,
            init_bs: 0,
            plan: None,
            in_block: 0,
            block: u64::MAX,
            log_n: 0,
            _p: PhantomData,
        }
    }
    fn sync_block(&mut self) {
        let b = sim::g().cur.as_ref().map_or(u64::MAX - 1, |c| c.idx);
        if b != self.block {
            self.block = b;
            self.in_block = 0;
        }
    }
    fn run_plan(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, len: usize) {
        if let Some((kind, frame)) = self.plan {
            let bs = ctx.block_size() as u64;
            // the end of the block, where a buffer which is played to its last frame is done, counts as well
            let f = (frame % (bs + 1)) as usize;
            let end = self.in_block + len;
            if f >= self.in_block && (f < end || f == end && end as u64 == bs) {
                self.plan = None;
                let k = match kind {
                    PLAN_DONE => {
                        flags.mark_done(f as u32);
                        Some(MarkKind::Done)
                    }
                    PLAN_PARENT => {
                        flags.mark_remove_parent(f as u32);
                        Some(MarkKind::RemoveParent)
                    }
                    PLAN_SELF => {
                        flags.mark_remove_self(ctx);
                        Some(MarkKind::RemoveSelf)
                    }
                    PLAN_LOG => {
                        self.log_n += 1;
                        rt_log!(ctx.logger(); "probe", self.label as u64, self.log_n as u64, frame as u64);
                        None
                    }
                    _ => None,
                };
                if let Some(kind) = k {
                    let label = self.label;
                    pause(|| {
                        let tick = sim::tick();
                        if let Some(c) = sim::g().cur.as_mut() {
                            c.marks.push(Mark { label, kind, frame: f, tick });
                        }
                    });
                }
            }
        }
    }
}
impl<F, I, O> Drop for Probe<F, I, O> {
    fn drop(&mut self) {
        if !sim::active() {
            return;
        }
        let label = self.label;
        // A second drop of the same memory would see the poisoned label
        pause(|| {
            let tick = sim::tick();
            let on_audio = sim::g().on_audio;
            sim::g().drops.push(DropRec { label, on_audio, tick });
        });
        sim::point("probe:drop");
    }
}
impl<F: Float, I: Size, O: Size> UGen for Probe<F, I, O> {
    type Sample = F;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U4;

    fn init(&mut self, sample_rate: u32, block_size: usize) {
        self.inits += 1;
        self.init_sr = sample_rate;
        self.init_bs = block_size;
        sim::point("probe:init");
    }
    fn process(
        &mut self,
        ctx: &mut AudioCtx,
        flags: &mut UGenFlags,
        input: Frame<F, I>,
    ) -> Frame<F, O> {
        self.sync_block();
        self.run_plan(ctx, flags, 1);
        let mut out = Frame::<F, O>::default();
        for ch in 0..O::USIZE {
            out[ch] = F::new(out_value(self.label, ch, self.counter));
        }
        pause(|| {
            if let Some(c) = sim::g().cur.as_mut() {
                let cont = match c.segs.last_mut() {
                    Some(s) if s.per_frame && s.label == self.label && s.off + s.len == self.in_block => Some(s),
                    _ => None,
                };
                let s = match cont {
                    Some(s) => s,
                    None => {
                        c.segs.push(Seg {
                            label: self.label,
                            off: self.in_block,
                            len: 0,
                            counter: self.counter,
                            clock: ctx.frame_clock(),
                            sr: self.init_sr,
                            bs: self.init_bs,
                            inits: self.inits,
                            per_frame: true,
                            ins: vec![vec![]; I::USIZE],
                            outs: vec![vec![]; O::USIZE],
                        });
                        c.segs.last_mut().unwrap()
                    }
                };
                for ch in 0..I::USIZE {
                    s.ins[ch].push(input[ch].to_f64());
                }
                for ch in 0..O::USIZE {
                    s.outs[ch].push(out[ch].to_f64());
                }
                s.len += 1;
            }
        });
        self.counter += 1;
        self.in_block += 1;
        if self.in_block == 1 || self.in_block == ctx.block_size() {
            sim::point("probe:frame");
        }
        out
    }
    fn process_block<InBlock, OutBlock>(
        &mut self,
        ctx: &mut AudioCtx,
        flags: &mut UGenFlags,
        input: &InBlock,
        output: &mut OutBlock,
    ) where
        InBlock: BlockRead<Sample = F> + ?Sized,
        OutBlock: Block<Sample = F> + ?Sized,
    {
        self.sync_block();
        sim::point("probe:block");
        let n = ctx.frames_to_process();
        self.run_plan(ctx, flags, n);
        // Inputs must be read before outputs are written: they may share memory only if the graph is wrong
        let ins: Vec<Vec<f64>> = pause(|| {
            (0..I::USIZE)
                .map(|ch| (0..n).map(|f| input.read(ch, f).to_f64()).collect())
                .collect()
        });
        let mut outs: Vec<Vec<f64>> = pause(|| (0..O::USIZE).map(|_| Vec::with_capacity(n)).collect());
        for ch in 0..O::USIZE {
            for f in 0..n {
                let v = out_value(self.label, ch, self.counter + f as u64);
                output.write(F::new(v), ch, f);
                outs[ch].push(v);
            }
        }
        // An input which changes while the outputs are written shares memory with them
        pause(|| {
            let mut ins = ins;
            for ch in 0..I::USIZE {
                for f in 0..n {
                    let v = input.read(ch, f).to_f64();
                    if v != ins[ch][f] {
                        ins[ch][f] = f64::NAN;
                    }
                }
            }
            if let Some(c) = sim::g().cur.as_mut() {
                c.segs.push(Seg {
                    label: self.label,
                    off: self.in_block,
                    len: n,
                    counter: self.counter,
                    clock: ctx.frame_clock(),
                    sr: self.init_sr,
                    bs: self.init_bs,
                    inits: self.inits,
                    per_frame: false,
                    ins,
                    outs,
                });
            }
        });
        self.counter += n as u64;
        self.in_block += n;
        sim::point("probe:block_end");
    }
    fn param_descriptions() -> NumericArray<&'static str, Self::Parameters> {
        ["pa", "pb", "plan", "trig"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, Self::Parameters> {
        [
            ParameterHint::infinite_float(),
            ParameterHint::infinite_float(),
            ParameterHint::infinite_float(),
            ParameterHint::Trigger,
        ]
        .into()
    }
    fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        self.sync_block();
        let val = match value {
            ParameterValue::Float(f) => PVal::F(f as f64),
            ParameterValue::Integer(i) => PVal::I(i.0 as u64),
            ParameterValue::Bool(b) => PVal::B(b),
            ParameterValue::Trigger => PVal::Trig,
            ParameterValue::Smoothing(s, _) => PVal::Smooth(match s {
                ParameterSmoothing::Linear(d) => d as f64,
                ParameterSmoothing::None => -1.0,
            }),
        };
        if index == 2 {
            if let PVal::I(v) = val {
                self.plan = Some((v & 7, (v >> 3) & 0xffff));
            }
        }
        pause(|| {
            let g = sim::g();
            let block = g.cur.as_ref().map_or(u64::MAX, |c| c.idx);
            let (on_audio, tick) = (g.on_audio, g.tick);
            g.applies.push(Apply {
                label: self.label,
                param: index,
                val,
                frame: self.in_block,
                block,
                on_audio,
                tick,
            });
        });
    }
}
