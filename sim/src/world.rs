//! Engine "graph": real graphs, handles and processor under the simulated scheduler, compared with
//! the reference model.
use crate::alloc::{self, pause, sut};
use crate::model::{CLOCK0, Model, NodeM, Src, Ver};
use crate::probe::{PLAN_DONE, in_value};
use crate::shapes::{self, PRECISE_CAP, SHAPES, SUB_SHAPES};
use crate::sim::{self, BlockRec, MarkKind, PVal, g};
use crate::trace::{Op, Outcome, Trace, Violation};
use knaster_core::log::ArLogReceiver;
use knaster_core::typenum::*;
use knaster_core::{Float, Param, ParameterHint, ParameterSmoothing, ParameterValue, PInteger, PTrigger, Seconds};
use knaster_graph::graph::{Graph, GraphError, NodeId, NodeOrGraph};
use knaster_graph::graph_edit::{GraphEdit, Parameter};
use knaster_graph::inspection::{EdgeSource, GraphInspection};
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use knaster_graph::{SchedulingToken, Time};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;

pub const TES: u64 = 282_240_000;

/// The audio side: what the coroutine works on
struct AudioSide<F: Float> {
    proc: AudioProcessor<F>,
    n: u64,
    bs: usize,
    nin: usize,
    nout: usize,
    bufs: Vec<Vec<F>>,
}
static mut AUDIO_PTR: *mut () = std::ptr::null_mut();

fn audio_body<F: Float>() {
    let a = unsafe { &mut *(AUDIO_PTR as *mut AudioSide<F>) };
    let mut ins = vec![];
    for c in 0..a.nin {
        let mut v = vec![];
        for f in 0..a.bs {
            let x = in_value(c, a.n * a.bs as u64 + f as u64);
            a.bufs[c][f] = F::new(x);
            v.push(x);
        }
        ins.push(v);
    }
    let start = sim::tick();
    g().blocks_started += 1;
    g().cur = Some(BlockRec {
        idx: a.n,
        start,
        ins,
        ..Default::default()
    });
    let al = alloc::AUDIO_ALLOCS.load(Relaxed);
    let fr = alloc::AUDIO_FREES.load(Relaxed);
    {
        let mut refs: [&[F]; 16] = [&[]; 16];
        for c in 0..a.nin {
            refs[c] = &a.bufs[c];
        }
        alloc::SUT.store(true, Relaxed);
        alloc::AUDIO.store(true, Relaxed);
        match (a.nin, a.n % 3) {
            (0, 1) => a.proc.run_without_inputs(),
            (n, 2) => {
                let p = refs.map(|r| r.as_ptr());
                unsafe { a.proc.run_raw_ptr_inputs(&p[..n]) }
            }
            (n, _) => a.proc.run(&refs[..n]),
        }
        alloc::AUDIO.store(false, Relaxed);
        alloc::SUT.store(false, Relaxed);
    }
    let mut outs = vec![];
    for c in 0..a.nout {
        use knaster_core::BlockRead;
        let b = a.proc.output_block();
        outs.push((0..a.bs).map(|f| b.read(c, f).to_f64()).collect());
    }
    a.n += 1;
    let end = sim::tick();
    let gl = g();
    let mut rec = gl.cur.take().unwrap();
    rec.outs = outs;
    rec.end = end;
    rec.allocs = alloc::AUDIO_ALLOCS.load(Relaxed) - al;
    rec.frees = alloc::AUDIO_FREES.load(Relaxed) - fr;
    for o in &rec.outs {
        for x in o {
            sim::mix(&mut gl.hash, x.to_bits());
        }
    }
    gl.done.push_back(rec);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Asap,
    /// absolute frame of the clock
    At(u64),
    /// frames after arrival
    After(u64),
    Token(usize),
}
#[derive(Clone, Debug)]
struct Ev {
    id: u64,
    label: u32,
    g: usize,
    param: usize,
    val: PVal,
    kind: Kind,
    b: u64,
    e: u64,
    ok: bool,
    /// the probe can see it
    seen: bool,
    applied: Option<(u64, usize)>,
    arr_lo: Option<u64>,
    arr_hi: Option<u64>,
    expired: bool,
    /// it may have come while a signal drove the parameter, which means that it is ignored
    waived: bool,
}
struct Token {
    tok: Option<SchedulingToken>,
    act: Option<u64>,
    /// activated between two blocks
    idle: bool,
}
pub struct World<F: Float> {
    pub m: Model,
    prop: String,
    graphs: Vec<Option<Graph<F>>>,
    /// graphs as they are called in the trace
    gmap: BTreeMap<i64, usize>,
    ids: BTreeMap<u32, NodeId>,
    params: BTreeMap<u32, Vec<Parameter>>,
    handles: BTreeMap<u32, shapes::Hnd>,
    inspections: Vec<GraphInspection>,
    clocks: Vec<knaster_graph::SharedFrameClock>,
    tokens: BTreeMap<i64, Token>,
    events: Vec<Ev>,
    first_open: usize,
    arval: BTreeMap<(u32, usize), f64>,
    audio: Option<Box<AudioSide<F>>>,
    log_rx: Option<ArLogReceiver<U1>>,
    pub out: Outcome,
    pub stop: bool,
    clock0: u64,
    blocks_done: u64,
    next_id: u64,
    seen_drops: usize,
    dropped: BTreeMap<u32, u32>,
    pushed: BTreeSet<u32>,
    alloc_risk: bool,
    /// (bytes, allocations, what the user holds on to)
    plateau: Vec<(usize, usize, [usize; 7])>,
    nested: bool,
    logs: Vec<String>,
    log_last: BTreeMap<u64, u64>,
    proc_dropped: bool,
    marked_done: BTreeSet<u32>,
    live_base: usize,
}

/// Kinds of oracle failures which refute a property
pub fn accepts(prop: &str, class: &str) -> bool {
    if std::env::var_os("KNSIM_ALL").is_some() {
        return true;
    }
    if matches!(class, "panic" | "corrupt" | "harness" | "hang") {
        return true;
    }
    let l: &[&str] = match prop {
        "C01" => &["runset", "missing", "ran_removed", "input", "input_sub", "output", "feedback", "memory"],
        "C02" => &["input", "input_sub", "output", "memory", "runset", "missing", "feedback", "coverage"],
        "C03" => &["coverage", "state", "init", "missing", "ran_removed", "runset", "memory", "drop_live"],
        "C04" => &["drop_twice", "drop_audio", "drop_live", "reclaim", "leak", "memory", "plateau", "ran_removed"],
        "C05" => &["memory", "leak", "drop_twice", "drop_live", "send_after_free", "output", "input", "input_sub", "runset", "missing", "api_result", "reclaim"],
        "C06" | "C07" => &["ev_lost", "ev_early", "ev_late", "ev_dup", "ev_wrong", "ev_order", "ev_err_applied", "send_refused"],
        "C08" => &["token_early", "token_late", "ev_dup", "ev_wrong", "ev_err_applied"],
        "C09" => &["ran_removed", "output", "reclaim", "missing", "runset", "input", "input_sub", "drop_live"],
        "C10" => &["send_refused", "runset", "missing", "ran_removed", "state", "output", "input", "input_sub", "ev_lost", "ev_dup", "ev_wrong", "drop_live", "drop_twice", "reclaim", "ev_late", "leak", "memory", "init"],
        "C11" => &["alloc"],
        "C12" => &["clock", "clock_shared"],
        "C13" => &["log"],
        "C14" => &["feedback", "input", "input_sub", "output", "runset", "missing"],
        "C15" => &["input", "input_sub", "output", "missing", "runset", "ran_removed", "reclaim", "leak", "drop_live", "feedback", "memory"],
        "C16" => &["api_result", "lookup_edit", "output", "input", "input_sub", "runset", "missing", "feedback", "inspect"],
        "C17" => &["ar_value", "ar_stale", "ev_lost", "memory"],
        "C18" => &["ramp", "passed_on", "clock", "init"],
        "C19" => &["split", "done", "outside"],
        "C22" => &["inspect", "lookup", "lookup_edit", "input", "output", "runset"],
        _ => &[],
    };
    l.contains(&class)
}

fn pv<F>(_: &World<F>, v: PVal) -> ParameterValue
where
    F: Float,
{
    match v {
        PVal::F(f) => f.into(),
        PVal::I(i) => ParameterValue::Integer(PInteger(i as usize)),
        PVal::B(b) => b.into(),
        PVal::Trig => PTrigger.into(),
        PVal::Smooth(d) => ParameterSmoothing::Linear(d as f32).into(),
    }
}
fn pname(p: usize) -> &'static str {
    if p < 4 { shapes::PARAMS[p] } else { "wr_mul" }
}
fn is_freed(e: &GraphError) -> bool {
    matches!(e, GraphError::ParameterError(knaster_core::ParameterError::GraphWasFreed))
}

impl<F: Float> World<F> {
    pub fn new(t: &Trace) -> Self {
        let bs = t.get("bs", 4) as usize;
        let sr = t.get("sr", 48000) as u32;
        let ring = t.get("ring", 8) as usize;
        let nin = t.get("nin", 0) as usize;
        let nout = t.get("nout", 1) as usize;
        let clock0 = t.get("clock0", 0) as u64;
        let log = t.get("log", 64) as usize;
        let o = AudioProcessorOptions {
            block_size: bs,
            sample_rate: sr,
            ring_buffer_size: ring,
            log_channel_capacity: log,
        };
        let (graph, proc, rx) = sut(|| match (nin, nout) {
            (0, 1) => AudioProcessor::<F>::new::<U0, U1>(o),
            (1, 1) => AudioProcessor::<F>::new::<U1, U1>(o),
            (1, 2) => AudioProcessor::<F>::new::<U1, U2>(o),
            (2, 2) => AudioProcessor::<F>::new::<U2, U2>(o),
            (2, 1) => AudioProcessor::<F>::new::<U2, U1>(o),
            (0, 2) => AudioProcessor::<F>::new::<U0, U2>(o),
            (0, 3) => AudioProcessor::<F>::new::<U0, U3>(o),
            (5, _) => AudioProcessor::<F>::new::<U5, U6>(o),
            (9, _) => AudioProcessor::<F>::new::<U9, U10>(o),
            _ => AudioProcessor::<F>::new::<U3, U3>(o),
        });
        let mut proc = proc;
        if clock0 != 0 {
            proc.sim_set_frame_clock(clock0);
        }
        let nin = proc.inputs() as usize;
        let nout = proc.outputs() as usize;
        let mut m = Model {
            bs,
            sr: sr as u64,
            ..Default::default()
        };
        m.add_graph(nin as u16, nout as u16, None, ring);
        CLOCK0.with(|c| c.set(clock0));
        m.graphs[0].vers.push(Ver {
            state: Rc::new(Default::default()),
            begin: 0,
            end: 0,
            sure: true,
        });
        let mut audio = Box::new(AudioSide {
            proc,
            n: 0,
            bs,
            nin,
            nout,
            bufs: vec![vec![F::ZERO; bs]; nin],
        });
        unsafe { AUDIO_PTR = &mut *audio as *mut AudioSide<F> as *mut () };
        sim::set_audio(audio_body::<F>);
        let clocks = vec![graph.shared_frame_clock()];
        World {
            m,
            prop: t.prop.clone(),
            graphs: vec![Some(graph)],
            gmap: BTreeMap::from([(0, 0)]),
            ids: BTreeMap::new(),
            params: BTreeMap::new(),
            handles: BTreeMap::new(),
            inspections: vec![],
            clocks,
            tokens: BTreeMap::new(),
            events: vec![],
            first_open: 0,
            arval: BTreeMap::new(),
            audio: Some(audio),
            log_rx: Some(rx),
            out: Outcome::default(),
            stop: false,
            clock0,
            blocks_done: 0,
            next_id: 1,
            seen_drops: 0,
            dropped: BTreeMap::new(),
            pushed: BTreeSet::new(),
            alloc_risk: false,
            plateau: vec![],
            nested: false,
            logs: vec![],
            log_last: BTreeMap::new(),
            proc_dropped: false,
            marked_done: BTreeSet::new(),
            live_base: 0,
        }
    }
    pub fn viol(&mut self, class: &'static str, detail: String) {
        if self.stop {
            return;
        }
        self.stop = true;
        if accepts(&self.prop, class) {
            self.out.violation = Some(Violation { class, detail });
        } else {
            self.out.other += 1;
            if std::env::var("KNSIM_SHOW_OTHER").is_ok() {
                eprintln!("other: {class}: {detail}");
            }
        }
    }
    fn gi(&self, trace_g: i64) -> Option<usize> {
        self.gmap.get(&trace_g).copied()
    }
    /// Is this node gone from the edited state, on its own or with what contains it?
    fn dead(&self, l: u32) -> bool {
        let n = &self.m.nodes[&l];
        if n.removed.is_some() {
            return true;
        }
        match self.m.graphs[n.g].parent {
            Some((_, pl)) => self.dead(pl),
            None => false,
        }
    }
    /// Is the removing graph's handle still there, so that it can be reclaimed?
    fn reclaimable(&self, l: u32) -> bool {
        let n = &self.m.nodes[&l];
        match self.m.graphs[n.g].parent {
            // it does not run any more, and edits do not reach it
            Some((_, pl)) if self.dead(pl) => self.reclaimable(pl),
            _ => n.removed.is_some() && self.graphs[n.g].is_some(),
        }
    }
    /// Is the graph being rendered freed by a done action, itself or one which contains it?
    fn graph_freed(&self, gi: usize) -> bool {
        if self.m.graphs[gi].freed.is_some() {
            return true;
        }
        match self.m.graphs[gi].parent {
            Some((pg, pl)) => self.m.nodes[&pl].removed.is_some() || self.graph_freed(pg),
            None => false,
        }
    }

    // ---------------------------------------------------------------- edits
    fn add_node(&mut self, gi: usize, l: u32, ins: u16, outs: u16, params: u16, wrap: u8, done: u8, sub: Option<usize>, id: NodeId) {
        self.m.graphs[gi].work.nodes.insert(l);
        self.m.nodes.insert(
            l,
            NodeM {
                label: l,
                g: gi,
                ins,
                outs,
                params,
                wrap,
                done,
                sub,
                mortal: true,
                name: None,
                removed: None,
                marked: None,
                ran: false,
                last_ran: 0,
                first_ran: 0,
                counter: 0,
            },
        );
        self.ids.insert(l, id);
        if sub.is_none() {
            self.pushed.insert(l);
        }
    }
    /// Effects of the marks seen so far on graph `gi`: nodes which asked for their removal
    fn marked_nodes(&self, gi: usize, with_current: bool) -> Vec<u32> {
        let mut r = vec![];
        let gl = g();
        let cur = if with_current { gl.cur.as_ref() } else { None };
        for b in gl.done.iter().chain(cur) {
            for mk in &b.marks {
                let n = &self.m.nodes[&mk.label];
                let (me, parent) = match mk.kind {
                    MarkKind::Done => (n.done == 2, n.done == 3),
                    MarkKind::RemoveSelf => (n.done >= 1, false),
                    MarkKind::RemoveParent => (false, true),
                };
                if me && n.g == gi {
                    r.push(mk.label);
                }
                if parent {
                    if let Some((pg, pl)) = self.m.graphs[n.g].parent {
                        if pg == gi {
                            r.push(pl);
                        }
                    }
                }
            }
        }
        // marks of blocks which are checked already
        for l in &self.marked_done {
            if self.m.nodes[l].g == gi {
                r.push(*l);
            }
        }
        r.retain(|l| self.m.live(gi, *l) && self.m.nodes[l].mortal);
        r.sort();
        r.dedup();
        r
    }
    fn pre_commit(&mut self, gi: usize) {
        let t = sim::tick();
        for l in self.marked_nodes(gi, false) {
            self.m.graphs[gi].work.remove_node(l);
            self.m.nodes.get_mut(&l).unwrap().removed = Some(t);
        }
        let outstanding = self.m.graphs[gi].commits.len();
        if outstanding + 1 >= self.m.graphs[gi].ring {
            self.alloc_risk = true;
            self.out.fault("commit_channel_full");
        }
        let t = sim::tick();
        self.m.commit_begin(gi, t);
    }
    fn post_commit(&mut self, gi: usize, gr: Option<&Graph<F>>) {
        let t = sim::tick();
        if let Some(gr) = gr {
            let l: Vec<u32> = self.marked_nodes(gi, true);
            for l in l {
                if gr.node_data(self.ids[&l]).is_none() {
                    self.m.graphs[gi].work.remove_node(l);
                    self.m.nodes.get_mut(&l).unwrap().removed = Some(t);
                    let w = self.m.graphs[gi].work.clone();
                    self.m.graphs[gi].vers.last_mut().unwrap().state = Rc::new(w);
                    self.out.fault("done_during_commit");
                }
            }
        }
        self.m.commit_end(gi, t);
    }
    fn edit(&mut self, tg: i64, subs: &[Op]) {
        let Some(gi) = self.gi(tg) else { return };
        let Some(mut gr) = self.graphs[gi].take() else { return };
        let this = &mut *self;
        sut(|| {
            gr.edit(|e| {
                pause(|| {
                    this.edit_ops(&e, gi, subs);
                    this.pre_commit(gi);
                });
                drop(e);
            })
        });
        self.post_commit(gi, Some(&gr));
        self.graphs[gi] = Some(gr);
    }
    fn expect_handle<'a, 'b>(
        &mut self,
        e: &'a GraphEdit<'b, F>,
        gi: usize,
        l: u32,
    ) -> Option<knaster_graph::graph_edit::DH<'a, 'b, F, knaster_graph::graph_edit::DynamicHandle3>> {
        let id = *self.ids.get(&l)?;
        let live = self.m.live(gi, l);
        let h = sut(|| e.handle(id));
        self.out.evals += 1;
        if h.is_some() != live {
            self.viol(
                "lookup_edit",
                format!("GraphEdit::handle for node {l} in graph {gi} returned {}, but the node {}", if h.is_some() { "a handle" } else { "nothing" }, if live { "is there" } else { "is not part of this graph" }),
            );
        }
        if live { h } else { None }
    }
    fn edit_ops(&mut self, e: &GraphEdit<F>, gi: usize, subs: &[Op]) {
        for op in subs {
            if self.stop {
                return;
            }
            let (l, b) = (op.a(0) as u32, op.a(1) as u32);
            match op.name.as_str() {
                "push" => {
                    if self.m.nodes.contains_key(&l) {
                        continue;
                    }
                    let shape = (op.a(1).max(0) as usize) % SHAPES.len();
                    let wrap = shapes::wrap_for(shape, op.a(2));
                    let done = op.a(3);
                    let (i, o) = SHAPES[shape];
                    let ch = (l + b) as u16 % o.max(1);
                    let link = if op.args.len() > 5 && o > 0 {
                        self.ids.get(&(op.a(4) as u32)).map(|id| (*id, op.a(5) as usize, ch))
                    } else {
                        None
                    };
                    let p = sut(|| shapes::push(e, l, shape, wrap, done, link));
                    self.add_node(gi, l, i, o, shapes::params(wrap as u8, done > 0).len() as u16, wrap as u8, done as u8, None, p.id);
                    self.params.insert(l, p.params);
                    if link.is_some() {
                        self.m.connect_param(gi, true, l, ch, op.a(4) as u32, op.a(5) as u16).ok();
                    }
                }
                "params" => {
                    // params L how: the parameters once more, through a handle found in the edit
                    let Some(h) = self.expect_handle(e, gi, l) else { continue };
                    let m = &self.m.nodes[&l];
                    let names = if m.params > 0 { shapes::params(m.wrap, m.params as usize > 4 + shapes::has_mul(m.wrap) as usize) } else { vec![] };
                    let how = op.a(1);
                    let got: Vec<Option<Parameter>> = names.iter().enumerate().map(|(i, n)| sut(|| if (how >> i) & 1 == 0 { h.try_param(i) } else { h.try_param(*n) })).collect();
                    let none = sut(|| match how % 3 {
                        0 => h.try_param(names.len()),
                        1 => h.try_param(names.len() + 65536),
                        _ => h.try_param("no such parameter"),
                    });
                    self.out.evals += 1;
                    if none.is_some() || got.iter().any(|x| x.is_none()) {
                        self.viol("lookup_edit", format!("the handle of node {l} has the parameters {:?} of {names:?} and {} another which does not exist", got.iter().map(|x| x.is_some()).collect::<Vec<_>>(), if none.is_some() { "has" } else { "lacks" }));
                    }
                    if sut(|| h.id()) != self.ids[&l] {
                        self.viol("lookup_edit", format!("the handle of node {l} gives another id"));
                    }
                    if !got.is_empty() {
                        let old = self.params.insert(l, got.into_iter().flatten().collect());
                        sut(|| drop((old, none)));
                    }
                }
                "all" => {
                    let Some(s) = self.expect_handle(e, gi, b) else { continue };
                    let Some(d) = self.expect_handle(e, gi, op.a(2) as u32) else { continue };
                    let mode = op.a(0);
                    sut(|| match mode {
                        0 => drop(s.to(d)),
                        1 => drop(s.to_replace(d)),
                        2 => drop(s.to_feedback(d)),
                        _ => drop(s.to_feedback_replace(d)),
                    });
                    let n = self.m.nodes[&b].outs.min(self.m.nodes[&(op.a(2) as u32)].ins);
                    for c in 0..n {
                        self.m.connect(gi, mode, Some(b), c, Some(op.a(2) as u32), c).ok();
                    }
                }
                "try" => {
                    // try_to: stops at the first error
                    let d = b;
                    let Some(s) = self.expect_handle(e, gi, l) else { continue };
                    let Some(dh) = self.expect_handle(e, gi, d) else { continue };
                    let r = sut(|| s.try_to(dh).is_ok());
                    let n = self.m.nodes[&l].outs.min(self.m.nodes[&d].ins);
                    let mut want = true;
                    for c in 0..n {
                        if self.m.connect(gi, 0, Some(l), c, Some(d), c).is_err() {
                            want = false;
                            break;
                        }
                    }
                    self.api("try_to", op, r, want);
                }
                "one" => {
                    let (mode, src, sch, dst) = (op.a(0), op.a(1) as u32, op.a(2), op.a(3) as u32);
                    let Some(s) = self.expect_handle(e, gi, src) else { continue };
                    let Some(d) = self.expect_handle(e, gi, dst) else { continue };
                    if sch < 0 || sch >= self.m.nodes[&src].outs as i64 {
                        continue;
                    }
                    let sch = sch as u16;
                    sut(|| {
                        let s = s.out(sch);
                        match mode {
                            0 => drop(s.to(d)),
                            1 => drop(s.to_replace(d)),
                            2 => drop(s.to_feedback(d)),
                            _ => drop(s.to_feedback_replace(d)),
                        }
                    });
                    if self.m.nodes[&dst].ins > 0 {
                        self.m.connect(gi, mode, Some(src), sch, Some(dst), 0).ok();
                    }
                }
                "tout" => {
                    // tout L replace [channel]
                    let Some(s) = self.expect_handle(e, gi, l) else { continue };
                    let rep = op.a(1) != 0;
                    if op.args.len() > 2 {
                        let ch = op.a(2) as u16;
                        sut(|| if rep { s.to_graph_out_channels_replace([ch]) } else { s.to_graph_out_channels([ch]) });
                        if self.m.nodes[&l].outs > 0 {
                            self.m.connect(gi, rep as i64, Some(l), 0, None, ch).ok();
                        }
                    } else {
                        sut(|| if rep { s.to_graph_out_replace() } else { s.to_graph_out() });
                        for c in 0..self.m.nodes[&l].outs {
                            self.m.connect(gi, rep as i64, Some(l), c, None, c).ok();
                        }
                    }
                }
                "fin" => {
                    // graph input a(0) to node a(1), mode a(2)
                    let ich = op.a(0) as u16;
                    let mode = op.a(2) & 1;
                    let Some(d) = self.expect_handle(e, gi, b) else { continue };
                    let want = ich < self.m.graphs[gi].ins;
                    let r = sut(|| match e.from_inputs([ich]) {
                        Ok(s) => {
                            if mode == 1 {
                                drop(s.dynamic().to_replace(d))
                            } else {
                                drop(s >> d)
                            }
                            true
                        }
                        Err(_) => false,
                    });
                    self.api("from_inputs", op, r, want);
                    if want && self.m.nodes[&b].ins > 0 {
                        self.m.connect(gi, mode, None, ich, Some(b), 0).ok();
                    }
                }
                "in2out" => {
                    let ich = op.a(0) as u16;
                    let want = ich < self.m.graphs[gi].ins;
                    let r = sut(|| match e.from_inputs([ich]) {
                        Ok(s) => {
                            s.to_graph_out();
                            true
                        }
                        Err(_) => false,
                    });
                    self.api("from_inputs", op, r, want);
                    if want {
                        self.m.connect(gi, 0, None, ich, None, 0).ok();
                    }
                }
                "dout" | "din" => {
                    let Some(s) = self.expect_handle(e, gi, l) else { continue };
                    let out = op.name == "dout";
                    let n = &self.m.nodes[&l];
                    let max = if out { n.outs } else { n.ins };
                    if op.a(1) < 0 || op.a(1) >= max as i64 {
                        continue;
                    }
                    let ch = op.a(1) as u16;
                    sut(|| if out { s.disconnect_output(ch) } else { s.disconnect_input(ch) });
                    let w = &mut self.m.graphs[gi].work;
                    if out {
                        w.disconnect_output(Some(l), ch);
                    } else {
                        w.ins.remove(&(l, ch));
                    }
                }
                "free" => {
                    let Some(id) = self.ids.get(&l).copied() else { continue };
                    let r = sut(|| e.free_node(id).is_ok());
                    let t = sim::tick();
                    let want = self.m.free(gi, l, t).is_ok();
                    self.api("free_node", op, r, want);
                }
                "sub" => {
                    // sub L G shape ring { .. }
                    if self.m.nodes.contains_key(&l) || self.gmap.contains_key(&op.a(1)) {
                        continue;
                    }
                    let shape = (op.a(2).max(0) as usize) % SUB_SHAPES.len();
                    let ring = op.a(3).clamp(1, 64) as usize;
                    let (i, o) = SUB_SHAPES[shape];
                    let c = self.m.add_graph(i, o, Some((gi, l)), ring);
                    self.graphs.push(None);
                    self.gmap.insert(op.a(1), c);
                    self.nested = true;
                    // the label is needed for the children's ancestry
                    self.add_node(gi, l, i, o, 0, 0, 0, Some(c), NodeId::invalid());
                    self.m.graphs[gi].work.nodes.remove(&l);
                    let this = &mut *self;
                    let (id, child) = sut(|| {
                        shapes::subgraph(e, shape, ring, |ce| {
                            pause(|| {
                                this.edit_ops(&ce, c, &op.sub);
                                this.pre_commit(c);
                            });
                            drop(ce);
                        })
                    });
                    self.post_commit(c, None);
                    self.ids.insert(l, id);
                    self.m.graphs[gi].work.nodes.insert(l);
                    self.clocks.push(child.shared_frame_clock());
                    self.graphs[c] = Some(child);
                }
                "name" => {
                    let Some(s) = self.expect_handle(e, gi, l) else { continue };
                    let name = node_name(op.a(1));
                    let nm = name.as_str();
                    sut(|| drop(s.name(nm)));
                    self.m.nodes.get_mut(&l).unwrap().name = Some(name);
                }
                "send" => self.send(Some(e), op),
                "hname" => {
                    // lookup by name inside an edit
                    let name = node_name(op.a(0));
                    let r = sut(|| e.handle_from_name(name.as_str()).map(|h| h.id()));
                    self.check_name(gi, &name, r);
                }
                _ => (),
            }
        }
    }
    fn check_name(&mut self, gi: usize, name: &str, r: Option<NodeId>) {
        self.out.evals += 1;
        let want: Vec<u32> = self.m.graphs[gi].work.nodes.iter().copied().filter(|l| self.m.nodes[l].name.as_deref() == Some(name)).collect();
        match r {
            None if want.is_empty() => (),
            Some(id) if want.iter().any(|l| self.ids[l] == id) => (),
            _ => self.viol("lookup", format!("looking up the name {name} in graph {gi} found {:?}, nodes with this name: {want:?}", r.map(|id| self.label_of(gi, id)))),
        }
    }
    fn label_of(&self, gi: usize, id: NodeId) -> Option<u32> {
        self.ids.iter().find(|(l, i)| **i == id && self.m.nodes[l].g == gi).map(|x| *x.0)
    }
    fn api(&mut self, what: &str, op: &Op, got: bool, want: bool) {
        self.out.evals += 1;
        if !want {
            self.out.fault("invalid_call");
        }
        if got != want {
            self.viol("api_result", format!("{what} ({}) returned {}, expected {}", op.text(), if got { "Ok" } else { "an error" }, if want { "Ok" } else { "an error" }));
        }
    }
    fn direct(&mut self, tg: i64, subs: &[Op]) {
        let Some(gi) = self.gi(tg) else { return };
        for op in subs {
            if self.stop {
                return;
            }
            let Some(mut gr) = self.graphs[gi].take() else { return };
            self.m.graphs[gi].uncommitted = true;
            self.direct_op(gi, &mut gr, op);
            self.graphs[gi] = Some(gr);
        }
    }
    fn node_or_graph(&self, l: i64) -> Option<(NodeOrGraph, Option<u32>)> {
        if l < 0 {
            return Some((NodeOrGraph::Graph, None));
        }
        self.ids.get(&(l as u32)).map(|id| (NodeOrGraph::Node(*id), Some(l as u32)))
    }
    fn direct_op(&mut self, gi: usize, gr: &mut Graph<F>, op: &Op) {
        match op.name.as_str() {
            "con" => {
                let (mode, sch, kch) = (op.a(0), op.a(2) as u16, op.a(4) as u16);
                let Some((s, sl)) = self.node_or_graph(op.a(1)) else { return };
                let Some((d, dl)) = self.node_or_graph(op.a(3)) else { return };
                let r = sut(|| match mode {
                    0 => gr.connect2(s, sch, kch, d).is_ok(),
                    1 => gr.connect2_replace(s, sch, kch, d).is_ok(),
                    2 => gr.connect2_feedback(s, sch, kch, d).is_ok(),
                    _ => gr.connect2_feedback_replace(s, sch, kch, d).is_ok(),
                });
                let want = self.m.connect(gi, mode, sl, sch, dl, kch).is_ok();
                self.api("connect", op, r, want);
            }
            "pcon" => {
                let (rep, sch, p) = (op.a(0) != 0, op.a(2) as u16, op.a(4) as usize);
                let Some(s) = self.ids.get(&(op.a(1) as u32)).copied() else { return };
                let Some(d) = self.ids.get(&(op.a(3) as u32)).copied() else { return };
                // by name or by index
                let named = (op.a(1) + op.a(3) + op.a(2)) % 3 == 0;
                let r = sut(|| {
                    let prm: knaster_core::Param = match p {
                        0 if named => "pa".into(),
                        1 if named => "pb".into(),
                        _ if named && self.m.nodes.get(&(op.a(3) as u32)).is_none_or(|n| n.params as usize <= p) => "pa ".into(),
                        _ => p.into(),
                    };
                    if rep {
                        gr.connect_replace_to_parameter(s, sch, prm, d).is_ok()
                    } else {
                        gr.connect_to_parameter(s, sch, prm, d).is_ok()
                    }
                });
                let want = p <= u16::MAX as usize && self.m.connect_param(gi, rep, op.a(1) as u32, sch, op.a(3) as u32, p as u16).is_ok();
                self.api("connect to parameter", op, r, want);
            }
            "dout" | "din" => {
                let out = op.name == "dout";
                let ch = op.a(1) as u16;
                let Some((s, sl)) = self.node_or_graph(op.a(0)) else { return };
                let r = sut(|| if out { gr.disconnect_output_from_source(s, ch).is_ok() } else { gr.disconnect_input_to_sink(ch, s).is_ok() });
                let gm = &self.m.graphs[gi];
                let max = match sl {
                    Some(l) if !self.m.live(gi, l) => 0,
                    Some(l) => if out { self.m.nodes[&l].outs } else { self.m.nodes[&l].ins },
                    None => if out { gm.ins } else { gm.outs },
                };
                let want = ch < max;
                self.api("disconnect", op, r, want);
                if want {
                    let w = &mut self.m.graphs[gi].work;
                    match (out, sl) {
                        (true, _) => w.disconnect_output(sl, ch),
                        (false, Some(l)) => {
                            w.ins.remove(&(l, ch));
                        }
                        (false, None) => {
                            w.outs.remove(&ch);
                        }
                    }
                }
            }
            "mort" => {
                let l = op.a(0) as u32;
                let Some(id) = self.ids.get(&l).copied() else { return };
                let mortal = op.a(1) != 0;
                let want = self.m.live(gi, l);
                let r = sut(|| gr.set_mortality(id, mortal).is_ok());
                self.api("set_mortality", op, r, want);
                if want {
                    self.m.nodes.get_mut(&l).unwrap().mortal = mortal;
                    self.out.fault("mortality_changed");
                }
            }
            "name" => {
                let l = op.a(0) as u32;
                let Some(id) = self.ids.get(&l).copied() else { return };
                let name = node_name(op.a(1));
                let nm = name.as_str();
                sut(|| gr.set_name(id, nm.into()));
                if self.m.live(gi, l) {
                    self.m.nodes.get_mut(&l).unwrap().name = Some(name);
                }
            }
            "push" => {
                let l = op.a(0) as u32;
                if self.m.nodes.contains_key(&l) {
                    return;
                }
                let shape = (op.a(1).max(0) as usize) % SHAPES.len();
                let (i, o) = SHAPES[shape];
                let h = sut(|| shapes::push_direct(gr, l, shape));
                self.add_node(gi, l, i, o, 4, 0, 0, None, h.id());
                self.handles.insert(l, h);
            }
            "sub" => {
                let l = op.a(0) as u32;
                if self.m.nodes.contains_key(&l) || self.gmap.contains_key(&op.a(1)) {
                    return;
                }
                let shape = (op.a(2).max(0) as usize) % SUB_SHAPES.len();
                let ring = op.a(3).clamp(1, 64) as usize;
                let (i, o) = SUB_SHAPES[shape];
                let c = self.m.add_graph(i, o, Some((gi, l)), ring);
                let t = sim::tick();
                self.m.graphs[c].vers.push(Ver { state: Rc::new(Default::default()), begin: t, end: t, sure: true });
                self.gmap.insert(op.a(1), c);
                self.nested = true;
                let child = sut(|| shapes::subgraph_direct(gr, shape, ring));
                self.add_node(gi, l, i, o, 0, 0, 0, Some(c), child.id());
                self.clocks.push(child.shared_frame_clock());
                self.graphs.push(Some(child));
            }
            _ => (),
        }
    }

    // ---------------------------------------------------------------- parameter changes
    fn unresolved(&self, gi: usize) -> usize {
        self.events.iter().filter(|e| e.ok && e.g == gi && e.applied.is_none() && !e.expired).count()
    }
    /// Seconds which fall into sample `frame` (`frac` sixteenths into it)
    fn secs(&self, frame: u64, frac: u64) -> (Seconds, u64) {
        let sr = self.m.sr as u128;
        let t = (frame as u128 * 16 + (frac as u128 & 15)) * TES as u128;
        let tes = t.div_ceil(16 * sr) as u64;
        let target = (tes as u128 * sr / TES as u128) as u64;
        (Seconds::new((tes / TES) as u32, (tes % TES) as u32), target)
    }
    /// send L p kind via t frac
    fn send(&mut self, e: Option<&GraphEdit<F>>, op: &Op) {
        let l = op.a(0) as u32;
        let Some(n) = self.m.nodes.get(&l) else { return };
        let gi = n.g;
        let np = n.params as usize;
        let (mut p, kind, mut via, t, frac) = (op.a(1), op.a(2), op.a(3), op.a(4), op.a(5) as u64);
        let smooth = (10..20).contains(&p);
        if smooth {
            p -= 10;
        }
        let p = p.clamp(0, 4) as usize;
        if n.wrap & 1 != 0 {
            let pending = self.events.iter().filter(|e| e.label == l && e.ok && e.applied.is_none() && !e.expired).count();
            if pending + 2 > PRECISE_CAP {
                return;
            }
        }
        let id = self.next_id;
        self.next_id += 1;
        let val = if smooth {
            PVal::Smooth(id as f64)
        } else {
            match p {
                0 | 1 => PVal::F(id as f64 + 0.5),
                2 => PVal::I(id << 20),
                3 => PVal::Trig,
                _ => PVal::F(1.),
            }
        };
        // The factor of a wrapper stays 1, only when it is set matters to others
        let mul = p == 4 && !smooth && shapes::has_mul(n.wrap);
        if p == 4 && !mul {
            return;
        }
        let now = self.clock0 + g().blocks_started * self.m.bs as u64;
        let (kindm, time) = match kind {
            1 => {
                let (s, target) = self.secs((now as i64 + t).max(0) as u64, frac);
                (Kind::At(target), Some(Time::at(s)))
            }
            2 => {
                let (s, target) = self.secs(t.max(0) as u64, frac);
                (Kind::After(target), Some(Time::after(s)))
            }
            3 => {
                if !self.handles.contains_key(&l) || !self.tokens.get(&t).is_some_and(|t| t.tok.is_some()) {
                    return;
                }
                if via != 5 {
                    via = 3;
                }
                (Kind::Token(t as usize), None)
            }
            _ => (Kind::Asap, None),
        };
        let v = pv(self, val);
        let trig = val == PVal::Trig;
        // a trigger carries no number: at most one of those with a time is on its way
        if trig && !matches!(kind, 0..=2) {
            return;
        }
        if trig && self.events.iter().any(|e| e.label == l && e.val == PVal::Trig && e.ok && e.applied.is_none() && !e.expired && (time.is_some() || !matches!(e.kind, Kind::Asap))) {
            return;
        }
        let how = op.a(6);
        let secs_at = match kind {
            1 => Some(self.secs((now as i64 + t).max(0) as u64, frac).0),
            2 => Some(self.secs(t.max(0) as u64, frac).0),
            _ => None,
        };
        let can = self.handles.get(&l).map(|h| sut(|| h.can_send()));
        let mut precheck = None;
        let node_here = self.m.live(gi, l) && !self.marked_possible(l);
        let b = sim::tick();
        let mut both = None;
        let r: Result<(), GraphError> = if smooth && via == 3 && self.handles.contains_key(&l) {
            return;
        } else if via == 5 && time.is_none() && !smooth && !trig && p < 2 && self.handles.contains_key(&l) {
            // value and smoothing in one change
            let h = &self.handles[&l];
            let tok = match kindm {
                Kind::Token(_) => self.tokens[&t].tok.clone(),
                _ => None,
            };
            let sid = self.next_id;
            self.next_id += 1;
            both = Some(sid);
            let sm = ParameterSmoothing::Linear(sid as f32);
            let key = if how & 2 == 2 { Param::from(pname(p)) } else { Param::Index(p) };
            sut(|| h.set(key, v, Some(sm), tok))
        } else if via == 3 && time.is_none() && self.handles.contains_key(&l) {
            let h = &self.handles[&l];
            let tok = match kindm {
                Kind::Token(_) => self.tokens[&t].tok.clone(),
                _ => None,
            };
            let key = if how & 2 == 2 { Param::from(pname(p)) } else { Param::Index(p) };
            sut(|| h.set(key, v, None, tok))
        } else if matches!(via, 1 | 2) && !smooth && !(trig && time.is_some()) && e.is_none() && self.graphs[gi].is_some() {
            let gr = self.graphs[gi].as_ref().unwrap();
            let id = self.ids[&l];
            let tm = time.unwrap_or(Time::asap());
            precheck = Some(node_here && p < np);
            if via == 1 {
                if id_odd(self.next_id) {
                    sut(|| gr.set(id, p, v, tm))
                } else {
                    let name = pname(p);
                    sut(|| gr.set(id, name, v, tm))
                }
            } else {
                let unresolved = self.unresolved(gi);
                if unresolved + 1 >= self.m.graphs[gi].ring || !node_here || p >= np || !self.root_alive(gi) {
                    return;
                }
                sut(|| gr.set_many(&[(id, Param::Index(p), v)], tm));
                Ok(())
            }
        } else if via == 4 && e.is_some() && !smooth && self.m.live(gi, l) {
            let e = e.unwrap();
            let id = self.ids[&l];
            let tm = time.unwrap_or(Time::asap());
            sut(|| e.set(id, p, v, tm))
        } else {
            let Some(ps) = self.params.get_mut(&l) else { return };
            let Some(par) = ps.get_mut(p) else { return };
            // directly in seconds?
            let at = secs_at.filter(|_| how & 1 == 1);
            let sm = ParameterSmoothing::Linear(id as f32);
            let absolute = kind == 1;
            sut(|| match (smooth, time, at) {
                (false, None, _) if trig => par.trig(),
                (false, None, _) => par.set(v),
                (false, Some(_), Some(s)) if trig && absolute => par.trig_at(s),
                (false, Some(_), Some(s)) if trig => par.trig_after(s),
                (false, Some(tm), None) if trig => par.trig_time(tm),
                (false, Some(_), Some(s)) if absolute => par.set_at(v, s),
                (false, Some(_), Some(s)) => par.set_after(v, s),
                (false, Some(tm), None) => par.set_time(v, tm),
                (true, None, _) => par.smooth(sm),
                (true, Some(_), Some(s)) if absolute => par.smooth_at(sm, s),
                (true, Some(_), Some(s)) => par.smooth_after(sm, s),
                (true, Some(tm), None) => par.smooth_time(sm, tm),
            })
        };
        let en = sim::tick();
        let ok = r.is_ok();
        self.out.evals += 1;
        if let Some(can) = can {
            if ok && !can {
                self.viol("send_after_free", format!("a change was sent to node {l} of graph {gi} although its handle said before that it could not send"));
            }
            if can && self.must_be_gone(gi) {
                self.viol("send_after_free", format!("the handle of node {l} of graph {gi} says that it can send although the audio side is gone"));
            }
            if !can && !self.may_be_gone(gi) {
                self.viol("api_result", format!("the handle of node {l} of graph {gi} says that it cannot send although the audio side is alive"));
            }
        }
        if let Some(valid) = precheck {
            let refused = matches!(r, Err(GraphError::NodeNotFound) | Err(GraphError::ParameterError(knaster_core::ParameterError::ParameterIndexOutOfBounds)) | Err(GraphError::WrongSinkNodeGraph { .. }));
            if valid && refused {
                self.viol("api_result", format!("Graph::set on node {l} of graph {gi} was refused with {r:?} although the node and parameter exist"));
            }
            if !valid && ok && !self.marked_possible(l) {
                self.viol("api_result", format!("Graph::set on node {l}, which is not part of graph {gi} any more, was accepted"));
            }
        }
        self.judge_send(gi, l, &r);
        if let Some(id) = both {
            self.out.fault("value_and_smoothing");
            self.events.push(Ev {
                id,
                label: l,
                g: gi,
                param: p,
                val: PVal::Smooth(id as f64),
                kind: kindm,
                b,
                e: en,
                ok,
                seen: true,
                applied: None,
                arr_lo: None,
                arr_hi: None,
                expired: false,
                waived: false,
            });
        }
        self.events.push(Ev {
            id,
            label: l,
            g: gi,
            param: p,
            val,
            kind: kindm,
            b,
            e: en,
            ok,
            seen: !mul,
            applied: None,
            arr_lo: None,
            arr_hi: None,
            expired: false,
            waived: false,
        });
        match kind {
            1 if t < 0 => self.out.fault("late_event"),
            1 | 2 => self.out.fault("timed_event"),
            3 => self.out.fault("token_event"),
            _ => (),
        }
    }
    fn marked_possible(&self, l: u32) -> bool {
        let gi = self.m.nodes[&l].g;
        self.marked_nodes(gi, true).contains(&l)
    }
    fn root_alive(&self, gi: usize) -> bool {
        !self.proc_dropped && !self.graph_freed(gi)
    }
    /// May the audio side of this graph be gone?
    fn may_be_gone(&self, gi: usize) -> bool {
        if self.proc_dropped {
            return true;
        }
        match self.m.graphs[gi].parent {
            // the handle of a parent dropped before the node was committed takes the subgraph with it
            Some((pg, pl)) => self.m.nodes[&pl].removed.is_some() || self.graphs[pg].is_none() && self.m.graphs[pg].handle_dropped.is_some() || self.may_be_gone(pg),
            None => false,
        }
    }
    fn must_be_gone(&self, gi: usize) -> bool {
        if !self.proc_dropped {
            return false;
        }
        let mut gi = gi;
        loop {
            // What has been rendered is owned by the processor; the rest may be waiting in a channel
            if gi == 0 {
                return true;
            }
            if self.m.graphs[gi].runs == 0 {
                return false;
            }
            let (pg, pl) = self.m.graphs[gi].parent.unwrap();
            if self.m.nodes[&pl].removed.is_some() {
                return false;
            }
            gi = pg;
        }
    }
    fn judge_send(&mut self, gi: usize, l: u32, r: &Result<(), GraphError>) {
        match r {
            Ok(()) => {
                if self.must_be_gone(gi) {
                    self.viol("send_after_free", format!("sending to node {l} of graph {gi} was accepted although the processor is dropped"));
                }
            }
            Err(er) if is_freed(er) => {
                self.out.fault("send_to_freed_graph");
                if !self.may_be_gone(gi) {
                    self.viol("api_result", format!("sending to node {l} of graph {gi} reported that the graph was freed, but it is alive"));
                }
            }
            Err(GraphError::PushChangeError(_)) => {
                self.out.fault("event_channel_full");
                if self.must_be_gone(gi) {
                    self.viol("send_after_free", format!("sending to node {l} of graph {gi} did not report that the graph was freed: {r:?}"));
                } else if self.unresolved(gi) < self.m.graphs[gi].ring && !self.graph_freed(gi) {
                    let (u, c) = (self.unresolved(gi), self.m.graphs[gi].ring);
                    self.viol("send_refused", format!("sending to node {l} of graph {gi} was refused as full, but only {u} of {c} places can be taken"));
                }
            }
            Err(_) => (),
        }
    }

    // ---------------------------------------------------------------- steps
    pub fn step(&mut self, op: &Op) {
        g().sched = op.sched.iter().copied().collect();
        match op.name.as_str() {
            "blocks" => sim::blocks(op.a(0).max(0) as u64),
            "yields" => {
                for _ in 0..op.a(0) {
                    if !sim::audio_step() {
                        break;
                    }
                }
            }
            "edit" => self.edit(op.a(0), &op.sub),
            "direct" => self.direct(op.a(0), &op.sub),
            "send" => self.send(None, op),
            "burst" => {
                // burst N kind via time frac: N changes to the nodes in turn
                let labels: Vec<u32> = self.ids.keys().copied().collect();
                if labels.is_empty() {
                    return;
                }
                self.out.fault("burst_of_changes");
                for i in 0..op.a(0).clamp(0, 600) {
                    let l = labels[(i as usize * 7) % labels.len()];
                    self.send(None, &Op::new("send", &[l as i64, i % 2, op.a(1), op.a(2), op.a(3), op.a(4)]));
                }
            }
            "plan" => {
                // plan L kind frame
                let l = op.a(0) as u32;
                if self.m.nodes.get(&l).is_some_and(|n| n.wrap & 1 != 0 && self.events.iter().filter(|e| e.label == l && e.ok && e.applied.is_none() && !e.expired).count() + 2 > PRECISE_CAP) {
                    return;
                }
                if let (Some(n), Some(ps)) = (self.m.nodes.get(&l), self.params.get_mut(&l)) {
                    let gi = n.g;
                    let id = self.next_id;
                    self.next_id += 1;
                    let v = (id << 20) | (op.a(1) as u64 & 7) | ((op.a(2) as u64 & 0xffff) << 3);
                    let b = sim::tick();
                    let r = sut(|| ps[2].set(ParameterValue::Integer(PInteger(v as usize))));
                    let e = sim::tick();
                    self.judge_send(gi, l, &r);
                    self.events.push(Ev { id, label: l, g: gi, param: 2, val: PVal::I(v), kind: Kind::Asap, b, e, ok: r.is_ok(), seen: true, applied: None, arr_lo: None, arr_hi: None, expired: false, waived: false });
                    if op.a(1) == PLAN_DONE as i64 {
                        self.out.fault("done");
                    }
                }
            }
            "doneact" => {
                let l = op.a(0) as u32;
                let Some(n) = self.m.nodes.get(&l) else { return };
                let gi = n.g;
                if n.done == 0 || sim::mid_block() || !n.ran || n.last_ran + 1 != self.blocks_done || n.wrap & 1 != 0 || self.graph_freed(gi) || self.unresolved(gi) > 0 || self.proc_dropped {
                    return;
                }
                let a = op.a(1).rem_euclid(3);
                let Some(ps) = self.params.get_mut(&l) else { return };
                let b = sim::tick();
                let r = sut(|| ps.last_mut().unwrap().set(ParameterValue::Integer(PInteger(a as usize))));
                let e = sim::tick();
                let id = self.next_id;
                self.next_id += 1;
                self.judge_send(gi, l, &r);
                let ok = r.is_ok();
                self.events.push(Ev { id, label: l, g: gi, param: 4, val: PVal::I(a as u64), kind: Kind::Asap, b, e, ok, seen: false, applied: None, arr_lo: None, arr_hi: None, expired: false, waived: false });
                if ok {
                    self.m.nodes.get_mut(&l).unwrap().done = 1 + a as u8;
                    self.out.fault("done_action_changed");
                    sim::blocks(1);
                }
            }
            "tok" => {
                self.tokens.entry(op.a(0)).or_insert_with(|| Token { tok: Some(sut(SchedulingToken::new)), act: None, idle: false });
            }
            "act" => {
                let idle = !sim::mid_block();
                let t = sim::tick();
                if let Some(tk) = self.tokens.get_mut(&op.a(0)) {
                    if let (Some(x), None) = (&tk.tok, tk.act) {
                        let x = x.clone();
                        tk.act = Some(t);
                        tk.idle = idle;
                        sut(|| x.activate_inner());
                        sim::tick();
                        self.out.fault("token_activated");
                    }
                }
            }
            "tokdrop" => {
                if let Some(tk) = self.tokens.get_mut(&op.a(0)) {
                    let x = tk.tok.take();
                    sut(|| drop(x));
                }
            }
            "grab" => self.grab(op.a(0)),
            "inspect" => self.inspect(op.a(0)),
            "badset" => self.badset(op),
            "name?" => {
                let Some(gi) = self.gi(op.a(0)) else { return };
                let Some(gr) = self.graphs[gi].as_ref() else { return };
                let name = node_name(op.a(1));
                let r = sut(|| gr.node_id_with_name(&name));
                let r2 = sut(|| gr.node_data_from_name(name.as_str()).map(|x| x.0));
                self.check_name(gi, &name, r);
                self.check_name(gi, &name, r2);
            }
            "poll" => self.poll(),
            "flush" => self.flush(),
            "plateau" => {
                self.flush();
                if self.stop || self.proc_dropped {
                    return;
                }
                if self.m.graphs.iter().any(|x| x.freed.is_some()) {
                    // nothing is applied any more in a graph which ended itself
                    return;
                }
                if op.a(0) > 0 {
                    // what is held of nodes and graphs which are gone
                    let dead: Vec<u32> = self.m.nodes.keys().copied().filter(|l| self.dead(*l)).collect();
                    let mut ps = vec![];
                    let mut hs = vec![];
                    for l in dead {
                        ps.extend(self.params.remove(&l));
                        hs.extend(self.handles.remove(&l));
                    }
                    let i = std::mem::take(&mut self.inspections);
                    let c = self.clocks.split_off(1.min(self.clocks.len()));
                    sut(|| drop((ps, hs, i, c)));
                }
                let held = [
                    self.m.nodes.keys().filter(|l| !self.dead(**l)).count(),
                    self.graphs.iter().flatten().count(),
                    self.tokens.values().filter(|t| t.tok.is_some()).count(),
                    self.handles.len(),
                    self.inspections.len() + self.clocks.len(),
                    self.params.len(),
                    self.events.iter().filter(|e| e.ok && e.applied.is_none() && !e.expired).count(),
                ];
                let v = (alloc::SUT_LIVE.load(Relaxed), alloc::SUT_COUNT.load(Relaxed), held);
                self.plateau.push(v);
                self.out.evals += 1;
                let p = &self.plateau;
                if p.len() >= 6 && p[p.len() - 6..].windows(2).all(|w| w[1].2 == w[0].2) {
                    self.out.fault("equal_rounds");
                }
                if p.len() >= 6 && p[p.len() - 6..].windows(2).all(|w| w[1].1 > w[0].1 && w[1].2 == w[0].2) {
                    let d = format!("memory of the system grows although the graph does not: {:?} (bytes, allocations) after equal rounds of edits", &p[p.len() - 6..]);
                    self.viol("plateau", d);
                }
            }
            "dropgraph" => {
                let Some(gi) = self.gi(op.a(0)) else { return };
                if let Some(gr) = self.graphs[gi].take() {
                    if !self.m.graphs[gi].commits.is_empty() {
                        self.alloc_risk = true;
                    }
                    // what is not committed is lost with the handle
                    self.m.graphs[gi].handle_dropped = Some(sim::tick());
                    sut(|| drop(gr));
                    self.out.fault("drop_graph");
                    self.alloc_risk = true;
                }
            }
            "dropproc" => self.drop_proc(),
            "droplog" => {
                if let Some(r) = self.log_rx.take() {
                    sut(|| drop(r));
                    self.out.fault("drop_log_receiver");
                }
            }
            "drophandles" => {
                let h = std::mem::take(&mut self.handles);
                let i = std::mem::take(&mut self.inspections);
                sut(|| {
                    drop(h);
                    drop(i)
                });
                if op.a(0) != 0 {
                    let p = std::mem::take(&mut self.params);
                    sut(|| drop(p));
                }
                self.out.fault("drop_handles");
            }
            _ => (),
        }
        self.after_step();
    }
    fn drop_proc(&mut self) {
        sim::remove_audio();
        self.after_step();
        if let Some(a) = self.audio.take() {
            self.proc_dropped = true;
            sut(|| drop(a));
            self.out.fault("drop_processor");
        }
    }
    fn grab(&mut self, tg: i64) {
        let Some(gi) = self.gi(tg) else { return };
        let Some(gr) = self.graphs[gi].as_ref() else { return };
        let hs = sut(|| gr.inspection().node_handles());
        for h in hs {
            use knaster_graph::handle::HandleTrait;
            if let Some(l) = self.label_of(gi, h.node_id()) {
                let m = &self.m.nodes[&l];
                let h: shapes::Hnd = sut(|| Box::new(h));
                let (i, o, d, hints) = h.describe();
                self.out.evals += 1;
                if i != m.ins || o != m.outs || d.len() != m.params as usize || hints.len() != m.params as usize || m.params > 0 && d != shapes::params(m.wrap, m.params as usize > 4 + shapes::has_mul(m.wrap) as usize) {
                    self.viol("inspect", format!("the handle of node {l} gives {i} inputs, {o} outputs, the parameters {d:?} and {} hints", hints.len()));
                }
                self.handles.insert(l, h);
            } else {
                sut(|| drop(h));
            }
        }
    }
    /// Changes of parameters or nodes which do not exist: badset L how
    fn badset(&mut self, op: &Op) {
        let l = op.a(0) as u32;
        let Some(id) = self.ids.get(&l).copied() else { return };
        let np = self.m.nodes[&l].params as usize;
        let v: ParameterValue = 0.25f64.into();
        let gi = self.m.nodes[&l].g;
        self.out.fault("invalid_call");
        let r: Option<bool> = match op.a(1) {
            // index out of range, on the right graph
            0 | 1 | 2 => {
                let Some(gr) = self.graphs[gi].as_ref() else { return };
                let p = match op.a(1) {
                    0 => np,
                    1 => 65536,
                    _ => np + 1 + (op.a(2) as usize & 0xffffff),
                };
                Some(sut(|| gr.set(id, p, v, Time::asap()).is_ok()))
            }
            3 => {
                let Some(gr) = self.graphs[gi].as_ref() else { return };
                Some(sut(|| gr.set(id, "no such parameter", v, Time::asap()).is_ok()))
            }
            // another graph
            4 => {
                let Some(o) = self.gi(op.a(2)) else { return };
                if o == gi {
                    return;
                }
                let Some(gr) = self.graphs[o].as_ref() else { return };
                Some(sut(|| gr.set(id, 0usize, v, Time::asap()).is_ok()))
            }
            5 | 6 => {
                let Some(h) = self.handles.get(&l) else { return };
                let p = if op.a(1) == 5 { np } else { np + 1 + (op.a(2) as usize & 0xfffff) };
                Some(sut(|| h.set(Param::Index(p), v, None, None).is_ok()))
            }
            7 => {
                let Some(h) = self.handles.get(&l) else { return };
                Some(sut(|| h.set("no such parameter".into(), v, None, None).is_ok()))
            }
            _ => None,
        };
        if let Some(r) = r {
            self.api("set with an invalid target", op, r, false);
        }
    }
    fn poll(&mut self) {
        let Some(rx) = self.log_rx.as_mut() else { return };
        use knaster_core::log::ArLogMessage as M;
        // The parts of a chain may arrive in several calls
        let mut got: Vec<M> = vec![];
        sut(|| rx.recv(|m| pause(|| got.extend_from_slice(m))));
        if !got.is_empty() && !got.last().unwrap().is_end() {
            self.viol("log", format!("part of a log message was received without its end: {got:?}"));
            return;
        }
        for m in got.split(|m| m.is_end()) {
            self.out.evals += 1;
            match m {
                [M::Str("probe"), M::Unsigned(l), M::Unsigned(n), M::Unsigned(_)] => {
                    let last = self.log_last.entry(*l).or_insert(0);
                    if *n <= *last {
                        let d = format!("log message {n} of node {l} was received after message {last}");
                        self.viol("log", d);
                        return;
                    }
                    *last = *n;
                }
                m if m.iter().skip(1).any(|x| matches!(x, M::Str("probe"))) || m.iter().filter(|x| matches!(x, M::Unsigned(_))).count() > 3 => {
                    self.viol("log", format!("several log messages received as one: {m:?}"));
                    return;
                }
                _ => (),
            }
        }
    }
    fn flush(&mut self) {
        if self.proc_dropped {
            return;
        }
        let tgs: Vec<i64> = self.gmap.keys().copied().collect();
        // Those which end during the rounds may need more of them
        let dead: Vec<u32> = self.pushed.iter().copied().filter(|l| self.dead(*l) || self.marked_done.contains(l)).collect();
        for _ in 0..6 {
            for t in &tgs {
                self.edit(*t, &[]);
            }
            sim::blocks(1);
            self.after_step();
            if self.stop {
                return;
            }
        }
        for t in &tgs {
            self.edit(*t, &[]);
        }
        self.after_step();
        if self.stop {
            return;
        }
        for l in dead {
            if self.m.nodes[&l].ran && self.dead(l) && self.reclaimable(l) && !self.frozen(l) {
                self.out.evals += 1;
                if !self.dropped.contains_key(&l) {
                    self.viol("reclaim", format!("node {l} was removed but is not dropped after 6 more rounds of blocks and edits"));
                    return;
                }
            }
        }
        if self.graphs.iter().all(|g| g.is_some()) {
            self.alloc_risk = false;
        }
    }
    /// Inside a graph which was silenced by a done action, and the graph node itself is still there:
    /// nothing is applied any more
    fn frozen(&self, l: u32) -> bool {
        let n = &self.m.nodes[&l];
        let gm = &self.m.graphs[n.g];
        let here = gm.freed.is_some();
        match gm.parent {
            Some((_, pl)) => {
                if self.m.nodes[&pl].removed.is_some() && self.reclaimable(pl) {
                    return self.frozen(pl);
                }
                here || self.frozen(pl)
            }
            None => here,
        }
    }

    // ---------------------------------------------------------------- checks
    pub fn after_step(&mut self) {
        if self.stop {
            return;
        }
        while let Some(rec) = g().done.pop_front() {
            self.check_rec(rec);
            if self.stop {
                return;
            }
        }
        let c = alloc::corruption();
        if c.0 > 0 || c.1 > 0 {
            self.viol("corrupt", format!("memory corruption: {} writes beyond an allocation, {} writes to freed memory", c.0, c.1));
            return;
        }
        // Shared clock
        let want = (((self.clock0 + self.blocks_done * self.m.bs as u64) as u128 * TES as u128) / self.m.sr as u128) as u64;
        if self.clock0 != 0 || self.blocks_done > 0 || self.m.bs > 0 {
            let mut bad = None;
            for c in &self.clocks {
                let t = c.get().to_subsample_tesimals_u64();
                self.out.evals += 1;
                if t != want {
                    bad = Some(t);
                }
            }
            if let Some(h) = self.handles.values().next() {
                let t = h.time().to_subsample_tesimals_u64();
                if t != want {
                    bad = Some(t);
                }
            }
            if let Some(t) = bad {
                let d = format!("the clock reads {t} after {} blocks of {} frames at {} Hz, expected {want} (in units of 1/{TES} s)", self.blocks_done, self.m.bs, self.m.sr);
                self.viol("clock_shared", d);
                return;
            }
        }
        self.check_drops();
    }
    fn check_drops(&mut self) {
        let drops: Vec<_> = g().drops[self.seen_drops..].to_vec();
        self.seen_drops += drops.len();
        for d in drops {
            let n = self.dropped.entry(d.label).or_insert(0);
            *n += 1;
            if *n > 1 {
                self.viol("drop_twice", format!("node {} was dropped twice", d.label));
                return;
            }
            if !self.m.nodes.contains_key(&d.label) {
                self.viol("memory", format!("an object which is no node was dropped (label {})", d.label));
                return;
            }
            if d.on_audio && !self.alloc_risk {
                self.viol("drop_audio", format!("node {} was dropped on the audio side", d.label));
                return;
            }
            if self.m.nodes[&d.label].ran && !self.dead(d.label) && !self.proc_dropped {
                self.viol("drop_live", format!("node {} was dropped although it was not removed", d.label));
                return;
            }
        }
    }
    fn check_rec(&mut self, rec: BlockRec) {
        self.blocks_done = rec.idx + 1;
        self.out.blocks += 1;
        self.out.frames += self.m.bs as u64;
        self.out.evals += 1 + rec.segs.len() as u64;
        // done actions
        for mk in &rec.marks {
            let Some(n) = self.m.nodes.get(&mk.label) else { continue };
            let gi = n.g;
            let (me, parent) = match mk.kind {
                MarkKind::Done => (n.done == 2, n.done == 3),
                MarkKind::RemoveSelf => (n.done >= 1, false),
                MarkKind::RemoveParent => (false, true),
            };
            if me {
                self.marked_done.insert(mk.label);
                self.out.fault("free_self");
            }
            if parent {
                self.out.fault("free_parent");
                let f = &mut self.m.graphs[gi].freed;
                *f = Some(match *f {
                    Some((b, fr)) if b == rec.idx => (b, fr.min(mk.frame)),
                    Some(x) => x,
                    None => (rec.idx, mk.frame),
                });
                if let Some((_, pl)) = self.m.graphs[gi].parent {
                    self.marked_done.insert(pl);
                }
            }
        }
        let res = self.m.check_block(&rec);
        if self.m.lost_track {
            // too many possible states to follow: nothing can be said about the rest of this run
            self.out.fault("harness_lost_track");
            self.out.abandoned = true;
            self.stop = true;
            return;
        }
        if let Err(b) = res {
            self.viol(b.class, b.detail);
            return;
        }
        if rec.allocs + rec.frees > 0 && !self.alloc_risk {
            self.viol("alloc", format!("block {}: {} allocations and {} deallocations on the audio side", rec.idx, rec.allocs, rec.frees));
            return;
        }
        self.check_events(&rec);
    }
    fn ev_fail(&mut self, e: &Ev, class: &'static str, what: String) {
        let class = match (e.kind, class) {
            (Kind::Token(_), "ev_lost" | "ev_late") => "token_late",
            (Kind::Token(_), "ev_early") => "token_early",
            _ => class,
        };
        self.viol(class, format!("parameter change {} of node {} parameter {} ({:?}, value {:?}): {what}", e.id, e.label, e.param, e.kind, e.val));
    }
    /// Samples of the clock at which a timed change may be due
    fn targets(&self, e: &Ev, b: u64) -> Vec<u64> {
        match e.kind {
            Kind::At(t) => vec![t],
            Kind::After(d) => {
                let lo = e.arr_lo.unwrap_or(b);
                let hi = e.arr_hi.unwrap_or(b).min(b);
                let mut r = vec![];
                for arr in lo..=hi.max(lo) {
                    let t = self.clock0 + arr * self.m.bs as u64 + d;
                    if TES % self.m.sr == 0 || d == 0 {
                        r.push(t);
                    } else {
                        let s = 2 + (d / self.m.bs as u64 + 1) * self.m.sr / TES;
                        for x in t.saturating_sub(s)..=t + s {
                            r.push(x.max(self.clock0 + arr * self.m.bs as u64));
                        }
                    }
                }
                r
            }
            _ => vec![],
        }
    }
    fn check_events(&mut self, rec: &BlockRec) {
        let idx = rec.idx;
        let bs = self.m.bs as u64;
        let keep = (self.m.sr * 9 / 10) as i64 / bs as i64 - 1;
        let expire = (self.m.sr * 12 / 10) / bs + 3;
        // A change is certainly received when the ones sent before it cannot fill the queue of waiting changes
        let mut room: BTreeMap<usize, usize> = BTreeMap::new();
        for e in &mut self.events[self.first_open..] {
            if !e.ok || e.applied.is_some() || e.expired {
                continue;
            }
            if self.m.ran_maybe.contains(&e.g) && e.arr_lo.is_none() && rec.end >= e.b {
                e.arr_lo = Some(idx);
            }
            if self.m.ran_graphs.contains(&e.g) {
                if e.arr_hi.is_none() && rec.start > e.e && room.get(&e.g).copied().unwrap_or(0) < self.m.graphs[e.g].ring {
                    e.arr_hi = Some(idx);
                }
                *room.entry(e.g).or_insert(0) += 1;
            }
            if !e.waived && e.arr_lo.is_some() && e.param < 2 && self.m.nodes[&e.label].wrap & 2 != 0 {
                e.waived = self.m.param_sums(e.label, e.param as u16).iter().any(|x| x.is_some());
            }
        }
        // What was applied
        let applies: Vec<_> = std::mem::take(&mut g().applies);
        let (now, later): (Vec<_>, Vec<_>) = applies.into_iter().partition(|a| a.block == idx);
        g().applies = later;
        let mut ar: BTreeMap<(u32, usize), Vec<(usize, f64)>> = BTreeMap::new();
        for a in now {
            self.out.evals += 1;
            let is_ar = |v: f64| v.fract() == 0.0;
            let id = match a.val {
                PVal::F(v) => {
                    ar.entry((a.label, a.param)).or_default().push((a.frame, v));
                    if is_ar(v) {
                        continue;
                    }
                    Some((v - 0.5) as u64)
                }
                PVal::I(v) => Some(v >> 20),
                PVal::Smooth(d) => Some(d as u64),
                PVal::Trig => {
                    // those which are not given up already come first
                    let mut c = self.events.iter().filter(|e| e.val == PVal::Trig && e.label == a.label && e.ok && e.applied.is_none());
                    c.clone().find(|e| !e.expired).or_else(|| c.next()).map(|e| e.id)
                }
                PVal::B(_) => None,
            };
            let Some(i) = id.and_then(|id| self.events.iter().position(|e| e.id == id)) else {
                self.viol("ev_wrong", format!("block {idx}: node {} parameter {} was set to {:?}, which nobody sent", a.label, a.param, a.val));
                return;
            };
            let e = self.events[i].clone();
            if e.label != a.label || e.param != a.param || e.val != a.val {
                self.ev_fail(&e, "ev_wrong", format!("arrived in block {idx} at node {} parameter {} as {:?}", a.label, a.param, a.val));
                return;
            }
            if !e.ok {
                self.ev_fail(&e, "ev_err_applied", format!("was refused with an error but applied in block {idx}"));
                return;
            }
            if e.applied.is_some() {
                self.ev_fail(&e, "ev_dup", format!("was applied in block {} and again in block {idx}", e.applied.unwrap().0));
                return;
            }
            self.events[i].applied = Some((idx, a.frame));
            let n = &self.m.nodes[&a.label];
            let precise = n.wrap & 1 != 0;
            let first = if n.ran { n.first_ran } else { idx };
            match e.kind {
                Kind::Asap => {
                    if a.frame != 0 {
                        self.ev_fail(&e, "ev_late", format!("was applied in block {idx} at frame {} instead of the start of the block", a.frame));
                        return;
                    }
                    // order among changes of the same node
                    if let Some(o) = self.events.iter().find(|o| o.label == e.label && o.kind == Kind::Asap && o.ok && o.seen && !o.expired && o.applied.is_none() && o.e < e.b && !self.maybe_waived(o) && o.arr_lo.is_none_or(|lo| idx == lo || (idx - lo) as i64 <= keep)) {
                        let o = o.clone();
                        self.ev_fail(&e, "ev_order", format!("was applied in block {idx} before change {} ({:?} to parameter {}), which was sent earlier", o.id, o.val, o.param));
                        return;
                    }
                }
                Kind::Token(t) => {
                    let tk = &self.tokens[&(t as i64)];
                    if tk.act.is_none_or(|x| x > a.tick) {
                        self.ev_fail(&e, "ev_early", format!("was applied in block {idx} before its token was activated"));
                        return;
                    }
                    if a.frame != 0 {
                        self.ev_fail(&e, "ev_late", format!("was applied in block {idx} at frame {} instead of the start of the block", a.frame));
                        return;
                    }
                }
                Kind::At(_) | Kind::After(_) => {
                    let ts = self.targets(&e, idx);
                    let mut ok = false;
                    let mut early = true;
                    for t in &ts {
                        let (due, exact) = if *t < self.clock0 { (0, 0) } else { ((*t - self.clock0) / bs, if precise { ((*t - self.clock0) % bs) as usize } else { 0 }) };
                        let past = *t < self.clock0;
                        if !past && idx == due && a.frame == exact {
                            ok = true;
                        }
                        if (idx > due || past) && a.frame == 0 {
                            let l = due.max(e.arr_hi.unwrap_or(idx)).max(first);
                            if idx <= l {
                                ok = true;
                            }
                        }
                        if idx > due || idx == due && a.frame > exact {
                            early = false;
                        }
                    }
                    if !ok {
                        let b0 = self.clock0 + idx * bs;
                        self.ev_fail(&e, if early { "ev_early" } else { "ev_late" }, format!("was applied at frame {} of block {idx} (starting at {b0}), due at {:?}, received in block {:?}..={:?}, node running since block {first}", a.frame, &ts[..ts.len().min(4)], e.arr_lo, e.arr_hi));
                        return;
                    }
                }
            }
        }
        // What should have been applied by now
        let mut lost = None;
        for i in self.first_open..self.events.len() {
            let e = &self.events[i];
            if !e.ok || e.applied.is_some() || e.expired {
                continue;
            }
            let (Some(lo), Some(hi)) = (e.arr_lo, e.arr_hi) else { continue };
            let n = &self.m.nodes[&e.label];
            let ran = n.ran && n.last_ran == idx;
            if !e.seen {
                if ran && idx >= hi && e.kind == Kind::Asap {
                    self.events[i].applied = Some((idx, 0));
                } else if idx > hi + expire {
                    self.events[i].expired = true;
                }
                continue;
            }
            if idx > hi + expire {
                // Tied to a token or to a time far away: kept no longer than this
                self.events[i].expired = true;
                continue;
            }
            if !ran || idx < hi || !(idx == lo || (idx - lo) as i64 <= keep) {
                continue;
            }
            let must = match e.kind {
                Kind::Asap => true,
                Kind::Token(t) => {
                    let tk = &self.tokens[&(t as i64)];
                    match tk.act {
                        Some(a) => rec.start > a,
                        None => false,
                    }
                }
                Kind::At(_) | Kind::After(_) => {
                    let t = *self.targets(e, idx).iter().max().unwrap();
                    let due = t.saturating_sub(self.clock0) / bs;
                    idx >= due
                }
            };
            if !must || self.maybe_waived(e) {
                continue;
            }
            lost = Some((i, lo, hi, n.first_ran));
            break;
        }
        if let Some((i, lo, hi, first)) = lost {
            let e = self.events[i].clone();
            self.ev_fail(&e, "ev_lost", format!("is still not applied at the end of block {idx}; received in block {lo}..={hi}, node running since block {first}"));
            return;
        }
        while self.first_open < self.events.len() {
            let e = &self.events[self.first_open];
            if e.ok && e.applied.is_none() && !e.expired {
                break;
            }
            self.first_open += 1;
        }
        self.check_ar(rec, &ar);
    }
    /// Values set directly are dropped while a signal drives the parameter
    fn maybe_waived(&self, e: &Ev) -> bool {
        e.waived
    }
    fn check_ar(&mut self, rec: &BlockRec, ar: &BTreeMap<(u32, usize), Vec<(usize, f64)>>) {
        let ran: BTreeSet<u32> = rec.segs.iter().map(|s| s.label).collect();
        for l in ran {
            let n = &self.m.nodes[&l];
            if n.wrap & 2 == 0 {
                if let Some((k, v)) = ar.iter().find(|(k, v)| k.0 == l && v.iter().any(|x| x.1.fract() == 0.0)) {
                    let d = format!("block {}: node {l} parameter {} was set to {:?}, which nobody sent", rec.idx, k.1, v[0]);
                    self.viol("ev_wrong", d);
                    return;
                }
                continue;
            }
            for p in 0..2usize {
                let none = vec![];
                let ap = ar.get(&(l, p)).unwrap_or(&none);
                let sums = self.m.param_sums(l, p as u16);
                let before = self.arval.get(&(l, p)).copied().unwrap_or(f64::NAN);
                let mut vals = vec![];
                let mut cur = before;
                let mut it = ap.iter().peekable();
                for f in 0..self.m.bs {
                    while let Some(x) = it.peek() {
                        if x.0 <= f {
                            cur = x.1;
                            it.next();
                        } else {
                            break;
                        }
                    }
                    vals.push(cur);
                }
                self.arval.insert((l, p), cur);
                let stale = ap.iter().any(|x| x.1.fract() == 0.0);
                let mut ok = sums.is_empty();
                let mut why = None;
                for s in &sums {
                    self.out.evals += 1;
                    match s {
                        None => {
                            if !stale {
                                ok = true;
                            }
                        }
                        Some(s) => match s.iter().zip(&vals).position(|(a, b)| a != b) {
                            None => ok = true,
                            Some(f) => why = Some((f, s[f], vals[f])),
                        },
                    }
                }
                if !ok {
                    let (class, d) = match why {
                        Some((f, want, got)) => ("ar_value", format!("block {}: node {l} parameter {p} is {got} at frame {f}, but the connected signal is {want}", rec.idx)),
                        None => ("ar_stale", format!("block {}: node {l} parameter {p} is not connected but was driven: {:?}", rec.idx, &ap[..ap.len().min(4)])),
                    };
                    self.viol(class, d);
                    return;
                }
            }
        }
    }
    fn inspect(&mut self, tg: i64) {
        let Some(gi) = self.gi(tg) else { return };
        let Some(gr) = self.graphs[gi].as_ref() else { return };
        let gm = &self.m.graphs[gi];
        let clean = !gm.uncommitted && gm.vers.last().is_some_and(|v| v.sure && *v.state == gm.work);
        let ins = sut(|| gr.inspection());
        let dot = sut(|| ins.to_dot_string());
        if let Err(d) = crate::dot::check(&dot, &ins) {
            self.viol("inspect", format!("the inspection of graph {gi} as a dot graph: {d}"));
            return;
        }
        sut(|| drop(dot));
        let pending = self.marked_nodes(gi, true);
        // Lookups are always about the edited state
        let all: Vec<(u32, NodeId)> = self.ids.iter().map(|(a, b)| (*a, *b)).collect();
        let gr = self.graphs[gi].as_ref().unwrap();
        let mut bad = None;
        for (l, id) in &all {
            let live = self.m.live(gi, *l);
            self.out.evals += 1;
            if sut(|| gr.node_data(*id).is_some()) != live && !pending.contains(l) {
                bad = Some(format!("node_data of node {l} in graph {gi} returned {}, but the node is {}part of it", if live { "nothing" } else { "data" }, if live { "" } else { "not " }));
                break;
            }
        }
        if let Some(b) = bad {
            self.viol("lookup", b);
            return;
        }
        if clean {
            if let Err(d) = self.check_inspection(gi, &ins) {
                self.viol("inspect", d);
            }
        }
        if self.inspections.len() < 3 {
            self.inspections.push(ins);
        } else {
            sut(|| drop(ins));
        }
    }
    fn check_inspection(&mut self, gi: usize, ins: &GraphInspection) -> Result<(), String> {
        let gm = &self.m.graphs[gi];
        let st = &gm.work;
        let mut key: BTreeMap<u32, usize> = BTreeMap::new();
        let mut labels: Vec<Option<u32>> = vec![];
        let here: Vec<(u32, NodeId)> = self.ids.iter().filter(|(l, _)| self.m.nodes[l].g == gi).map(|(a, b)| (*a, *b)).collect();
        for (i, n) in ins.nodes.iter().enumerate() {
            // A key of a removed node may be used again
            let l = here.iter().filter(|(_, id)| id.key() == n.key).map(|x| x.0).find(|l| st.nodes.contains(l)).or_else(|| here.iter().find(|(_, id)| id.key() == n.key).map(|x| x.0));
            labels.push(l);
            if let Some(l) = l {
                if key.insert(l, i).is_some() {
                    return Err(format!("inspection of graph {gi} lists node {l} twice"));
                }
            }
        }
        let listed: BTreeSet<u32> = key.keys().copied().collect();
        if listed != st.nodes {
            return Err(format!("inspection of graph {gi} lists the nodes {listed:?}, but the graph consists of {:?}", st.nodes));
        }
        if ins.num_inputs != gm.ins || ins.num_outputs != gm.outs {
            return Err(format!("inspection of graph {gi} gives {} inputs and {} outputs, the graph has {} and {}", ins.num_inputs, ins.num_outputs, gm.ins, gm.outs));
        }
        let pos = |k: knaster_graph::graph::NodeKey| ins.nodes.iter().position(|n| n.key == k);
        for (i, n) in ins.nodes.iter().enumerate() {
            for e in &n.input_edges {
                if e.to_index >= n.inputs {
                    return Err(format!("inspection of graph {gi}: an edge to input {} of a node with {} inputs", e.to_index, n.inputs));
                }
                match e.source {
                    EdgeSource::Node(k) => match pos(k) {
                        None => return Err(format!("inspection of graph {gi}: an edge comes from a node which is not listed")),
                        Some(j) => {
                            if e.from_index >= ins.nodes[j].outputs {
                                return Err(format!("inspection of graph {gi}: an edge from output {} of a node with {} outputs", e.from_index, ins.nodes[j].outputs));
                            }
                            if !e.is_feedback && j >= i {
                                return Err(format!("inspection of graph {gi}: node {:?} is listed before its source {:?}", labels[i], labels[j]));
                            }
                        }
                    },
                    EdgeSource::Graph => {
                        if e.from_index >= gm.ins {
                            return Err(format!("inspection of graph {gi}: an edge from graph input {} of {}", e.from_index, gm.ins));
                        }
                    }
                }
            }
            if let Some(l) = labels[i] {
                let m = &self.m.nodes[&l];
                if n.inputs != m.ins || n.outputs != m.outs || n.parameter_descriptions.len() != m.params as usize || n.parameter_hints.len() != m.params as usize {
                    return Err(format!("inspection of graph {gi}: node {l} has {} inputs, {} outputs, {} parameters and {} hints; it was made with {}, {} and {}", n.inputs, n.outputs, n.parameter_descriptions.len(), n.parameter_hints.len(), m.ins, m.outs, m.params));
                }
                let want = if m.params > 0 { shapes::params(m.wrap, m.params as usize > 4 + shapes::has_mul(m.wrap) as usize) } else { vec![] };
                if n.parameter_descriptions != want {
                    return Err(format!("inspection of graph {gi}: node {l} lists the parameters {:?}", n.parameter_descriptions));
                }
                for (p, h) in n.parameter_hints.iter().enumerate() {
                    let good = match (p, h) {
                        (0..3, ParameterHint::Float(_)) | (3, ParameterHint::Trigger) => true,
                        (4, ParameterHint::Float(_)) if shapes::has_mul(m.wrap) => true,
                        (4 | 5, ParameterHint::Integer(x)) => (0..4).map(|i| x.description(knaster_core::PInteger(i))).eq([Some("None"), Some("FreeSelf"), Some("FreeParent"), None]),
                        _ => false,
                    };
                    if !good {
                        return Err(format!("inspection of graph {gi}: parameter {p} of node {l} has the hint {h:?}"));
                    }
                }
                if n.is_graph.is_some() != m.sub.is_some() {
                    return Err(format!("inspection of graph {gi}: node {l} is {}a graph, but is_graph is {:?}", if m.sub.is_some() { "" } else { "not " }, n.is_graph));
                }
                if let Some(name) = &m.name {
                    if n.name != *name {
                        return Err(format!("inspection of graph {gi}: node {l} is called {}, but was named {name}", n.name));
                    }
                }
            }
        }
        // Sources of one sink: (label or -1 for the graph, channel), feedback as -2
        fn expand(ins: &GraphInspection, labels: &[Option<u32>], src: EdgeSource, from: u16, depth: usize, r: &mut Vec<(i64, u16)>) -> Result<(), String> {
            if depth > 10_000 {
                return Err("inspection lists a cycle".into());
            }
            match src {
                EdgeSource::Graph => r.push((-1, from)),
                EdgeSource::Node(k) => {
                    let Some(i) = ins.nodes.iter().position(|n| n.key == k) else {
                        return Err("an edge comes from a node which is not listed".into());
                    };
                    match labels[i] {
                        Some(l) => r.push((l as i64, from)),
                        None if ins.nodes[i].inputs == 0 => r.push((-2, 0)),
                        None => {
                            for e in &ins.nodes[i].input_edges {
                                expand(ins, labels, e.source, e.from_index, depth + 1, r)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }
        let want = |v: Option<&Vec<Src>>| {
            let mut r: Vec<(i64, u16)> = v
                .into_iter()
                .flatten()
                .map(|s| match s {
                    Src::Node(n, c) => (*n as i64, *c),
                    Src::In(c) => (-1, *c),
                    Src::Fb(..) => (-2, 0),
                })
                .collect();
            r.sort();
            r
        };
        for l in &st.nodes {
            let n = &ins.nodes[key[l]];
            for c in 0..n.inputs {
                let mut got = vec![];
                for e in n.input_edges.iter().filter(|e| e.to_index == c) {
                    expand(ins, &labels, e.source, e.from_index, 0, &mut got)?;
                }
                got.sort();
                let w = want(st.ins.get(&(*l, c)));
                self.out.evals += 1;
                if got != w {
                    return Err(format!("inspection of graph {gi}: input {c} of node {l} is fed by {got:?}, but {w:?} was connected (node, channel; -1 is the graph input, -2 feedback)"));
                }
            }
        }
        for c in 0..gm.outs {
            let mut got = vec![];
            for e in ins.graph_output_edges.iter().filter(|e| e.to_index == c) {
                expand(ins, &labels, e.source, e.from_index, 0, &mut got)?;
            }
            got.sort();
            let w = want(st.outs.get(&c));
            if got != w {
                return Err(format!("inspection of graph {gi}: graph output {c} is fed by {got:?}, but {w:?} was connected"));
            }
        }
        Ok(())
    }
    /// Drop everything that is left in the order given by `seed` and check that nothing remains
    pub fn finish(&mut self, seed: u64) {
        if self.stop {
            return;
        }
        sim::finish_block();
        self.after_step();
        if self.stop {
            return;
        }
        let mut order: Vec<u64> = (0..self.graphs.len() as u64 + 4).collect();
        order.sort_by_key(|x| crate::rng::hash(&[seed, *x]));
        self.alloc_risk = true;
        for x in order {
            match x {
                0 => self.drop_proc(),
                1 => {
                    let r = self.log_rx.take();
                    sut(|| drop(r));
                }
                2 => {
                    let h = std::mem::take(&mut self.handles);
                    let i = std::mem::take(&mut self.inspections);
                    let c = std::mem::take(&mut self.clocks);
                    sut(|| {
                        drop(h);
                        drop(i);
                        drop(c);
                    });
                }
                3 => {
                    let p = std::mem::take(&mut self.params);
                    let t = std::mem::take(&mut self.tokens);
                    sut(|| {
                        drop(p);
                        drop(t)
                    });
                }
                k => {
                    if let Some(gr) = self.graphs[k as usize - 4].take() {
                        sut(|| drop(gr));
                    }
                }
            }
            if self.stop {
                return;
            }
        }
        self.proc_dropped = true;
        self.check_drops();
        if self.stop {
            return;
        }
        self.out.evals += 1;
        let left: Vec<u32> = self.pushed.iter().copied().filter(|l| !self.dropped.contains_key(l)).collect();
        if !left.is_empty() {
            self.viol("leak", format!("the nodes {left:?} were never dropped although everything else is gone"));
            return;
        }
        let (c, b) = (alloc::SUT_COUNT.load(Relaxed), alloc::SUT_LIVE.load(Relaxed));
        if c != 0 {
            self.viol("leak", format!("{c} allocations ({b} bytes) are left after everything was dropped"));
        }
    }
    /// Forget everything (after a violation the system may be in any state)
    pub fn forget(self) {
        std::mem::forget(self);
    }
}
fn id_odd(x: u64) -> bool {
    x & 1 == 1
}
/// Names users give, some of them with characters that need to be escaped elsewhere
fn node_name(i: i64) -> String {
    match i % 9 {
        4 => format!("n\"{i}\""),
        5 => format!("a<n&{i}>"),
        6 => format!("n{i}\\"),
        7 => format!("-> n{i}; [\n]"),
        _ => format!("n{i}"),
    }
}
