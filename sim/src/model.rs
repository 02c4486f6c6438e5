//! Reference model of the graphs: what has been edited, what has been committed, and what a block
//! rendered from a committed version has to look like.
use crate::sim::{BlockRec, Seg};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Src {
    Node(u32, u16),
    In(u16),
    /// source, channel, instance of the feedback edge
    Fb(u32, u16, u32),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct GState {
    pub nodes: BTreeSet<u32>,
    pub ins: BTreeMap<(u32, u16), Vec<Src>>,
    pub outs: BTreeMap<u16, Vec<Src>>,
    pub params: BTreeMap<(u32, u16), Vec<Src>>,
}
impl GState {
    fn all_lists(&mut self) -> impl Iterator<Item = &mut Vec<Src>> {
        self.ins
            .values_mut()
            .chain(self.outs.values_mut())
            .chain(self.params.values_mut())
    }
    fn prune(&mut self) {
        self.ins.retain(|_, v| !v.is_empty());
        self.outs.retain(|_, v| !v.is_empty());
        self.params.retain(|_, v| !v.is_empty());
    }
    pub fn remove_node(&mut self, l: u32) {
        self.nodes.remove(&l);
        self.ins.retain(|k, _| k.0 != l);
        self.params.retain(|k, _| k.0 != l);
        for v in self.all_lists() {
            v.retain(|s| !matches!(s, Src::Node(n, _) | Src::Fb(n, _, _) if *n == l));
        }
        self.prune();
    }
    pub fn disconnect_output(&mut self, src: Option<u32>, ch: u16) {
        for v in self.all_lists() {
            v.retain(|s| match (s, src) {
                (Src::Node(n, c), Some(l)) | (Src::Fb(n, c, _), Some(l)) => !(*n == l && *c == ch),
                (Src::In(c), None) => *c != ch,
                _ => true,
            });
        }
        self.prune();
    }
    /// Nodes which have to run before `l`
    pub fn deps(&self, l: u32) -> BTreeSet<u32> {
        let mut r = BTreeSet::new();
        let ins = self.ins.range((l, 0)..=(l, u16::MAX)).map(|x| x.1);
        let ps = self.params.range((l, 0)..=(l, u16::MAX)).map(|x| x.1);
        for v in ins.chain(ps) {
            for s in v {
                if let Src::Node(n, _) = s {
                    r.insert(*n);
                }
            }
        }
        r
    }
    /// Does the signal of `from` reach `to` in the same block?
    pub fn has_path(&self, from: u32, to: u32) -> bool {
        let mut seen = BTreeSet::new();
        let mut stack = vec![to];
        while let Some(n) = stack.pop() {
            if n == from {
                return true;
            }
            if seen.insert(n) {
                stack.extend(self.deps(n));
            }
        }
        false
    }
    pub fn order(&self) -> Vec<u32> {
        let mut done = BTreeSet::new();
        let mut r = vec![];
        let mut todo: Vec<u32> = self.nodes.iter().copied().collect();
        while !todo.is_empty() {
            let before = todo.len();
            todo.retain(|n| {
                if self.deps(*n).iter().all(|d| done.contains(d)) {
                    done.insert(*n);
                    r.push(*n);
                    false
                } else {
                    true
                }
            });
            assert!(todo.len() < before, "harness: cyclic model");
        }
        r
    }
    pub fn fb_instances(&self) -> BTreeSet<u32> {
        let mut r = BTreeSet::new();
        for v in self.ins.values().chain(self.outs.values()) {
            for s in v {
                if let Src::Fb(_, _, i) = s {
                    r.insert(*i);
                }
            }
        }
        r
    }
}
#[derive(Clone, Debug)]
pub struct Ver {
    pub state: Rc<GState>,
    pub begin: u64,
    /// u64::MAX while the edit has not returned
    pub end: u64,
    /// The channel to the audio side certainly had room for it
    pub sure: bool,
}
#[derive(Clone, Debug)]
pub struct NodeM {
    pub label: u32,
    pub g: usize,
    pub ins: u16,
    pub outs: u16,
    pub params: u16,
    pub wrap: u8,
    /// 0: no done wrapper, else 1 + action
    pub done: u8,
    pub sub: Option<usize>,
    pub mortal: bool,
    pub name: Option<String>,
    /// Tick of the removal from the edited state
    pub removed: Option<u64>,
    /// It marked itself for removal at (first possible tick, certain from tick)
    pub marked: Option<(u64, u64)>,
    pub ran: bool,
    pub last_ran: u64,
    pub first_ran: u64,
    pub counter: u64,
}
#[derive(Clone, Debug)]
pub struct GM {
    pub ins: u16,
    pub outs: u16,
    pub parent: Option<(usize, u32)>,
    pub ring: usize,
    pub work: GState,
    pub vers: Vec<Ver>,
    /// Block and frame in which a node asked for the graph to be removed
    pub freed: Option<(u64, usize)>,
    /// Start tick of the last block in which it ran
    pub last_run_start: u64,
    pub runs: u64,
    /// Ticks of the commits since last_run_start
    pub commits: Vec<u64>,
    pub sends: Vec<u64>,
    pub handle_dropped: Option<u64>,
    /// Edited since the last commit
    pub uncommitted: bool,
}
pub struct BlockCheck {
    pub class: &'static str,
    pub detail: String,
}
type R<T> = Result<T, BlockCheck>;
fn fail<T>(class: &'static str, detail: String) -> R<T> {
    Err(BlockCheck { class, detail })
}
#[derive(Default)]
pub struct Model {
    pub nodes: BTreeMap<u32, NodeM>,
    pub graphs: Vec<GM>,
    pub next_fb: u32,
    pub bs: usize,
    pub sr: u64,
    pub evals: u64,
    /// graphs which ran in the last block checked
    /// Graphs which were certainly processed in the last block
    pub ran_graphs: BTreeSet<usize>,
    /// Graphs which may have been processed in the last block
    pub ran_maybe: BTreeSet<usize>,
    /// Everything that may have been rendered so far
    pub hyps: Vec<Hyp>,
    /// There were more possibilities than can be followed: nothing can be concluded any more
    pub lost_track: bool,
}
/// One possible course of events: what was rendered in the last block
#[derive(Clone, Default, PartialEq)]
pub struct Hyp {
    /// graph -> version, and the last block it was rendered in
    at: BTreeMap<usize, (usize, u64)>,
    /// values of all node outputs in the last block
    vals: BTreeMap<(u32, u16), Vec<f64>>,
}
const MAX_HYPS: usize = 64;
/// Result of trying to explain a block
struct Ctx<'a> {
    rec: &'a BlockRec,
    hyp: &'a Hyp,
    segs: BTreeMap<u32, Vec<&'a Seg>>,
    /// how far the best attempt came
    best: Option<(usize, BlockCheck)>,
    depth: usize,
    chosen: BTreeMap<usize, usize>,
    vals: BTreeMap<(u32, u16), Vec<f64>>,
    ran: Vec<usize>,
}
impl Model {
    pub fn add_graph(&mut self, ins: u16, outs: u16, parent: Option<(usize, u32)>, ring: usize) -> usize {
        self.graphs.push(GM {
            ins,
            outs,
            parent,
            ring,
            work: GState::default(),
            vers: vec![],
            freed: None,
            last_run_start: 0,
            runs: 0,
            commits: vec![],
            sends: vec![],
            handle_dropped: None,
            uncommitted: false,
        });
        self.graphs.len() - 1
    }
    pub fn live(&self, g: usize, l: u32) -> bool {
        self.graphs[g].work.nodes.contains(&l)
    }
    /// What a connection call should do. mode: 0 add, 1 replace, 2 feedback, 3 feedback replace
    pub fn connect(
        &mut self,
        g: usize,
        mode: i64,
        src: Option<u32>,
        sch: u16,
        dst: Option<u32>,
        kch: u16,
    ) -> Result<(), &'static str> {
        let gm = &self.graphs[g];
        for l in [src, dst].into_iter().flatten() {
            if !gm.work.nodes.contains(&l) {
                return Err("node");
            }
        }
        let so = src.map_or(gm.ins, |l| self.nodes[&l].outs);
        let si = dst.map_or(gm.outs, |l| self.nodes[&l].ins);
        if sch >= so || kch >= si {
            return Err("channel");
        }
        let replace = mode == 1 || mode == 3;
        let fb = mode >= 2 && src.is_some() && dst.is_some();
        if !fb {
            if let (Some(s), Some(d)) = (src, dst) {
                if gm.work.has_path(d, s) {
                    return Err("cycle");
                }
            }
        }
        let s = match (src, fb) {
            (None, _) => Src::In(sch),
            (Some(l), false) => Src::Node(l, sch),
            (Some(l), true) => {
                self.next_fb += 1;
                Src::Fb(l, sch, self.next_fb)
            }
        };
        let w = &mut self.graphs[g].work;
        let list = match dst {
            Some(d) => w.ins.entry((d, kch)).or_default(),
            None => w.outs.entry(kch).or_default(),
        };
        if replace {
            list.clear();
        }
        list.push(s);
        Ok(())
    }
    pub fn connect_param(
        &mut self,
        g: usize,
        replace: bool,
        src: u32,
        sch: u16,
        dst: u32,
        p: u16,
    ) -> Result<(), &'static str> {
        let gm = &self.graphs[g];
        if !gm.work.nodes.contains(&src) || !gm.work.nodes.contains(&dst) {
            return Err("node");
        }
        if sch >= self.nodes[&src].outs {
            return Err("channel");
        }
        if p >= self.nodes[&dst].params {
            return Err("param");
        }
        if gm.work.has_path(dst, src) {
            return Err("cycle");
        }
        let w = &mut self.graphs[g].work;
        let list = w.params.entry((dst, p)).or_default();
        if replace {
            list.clear();
        }
        list.push(Src::Node(src, sch));
        Ok(())
    }
    pub fn free(&mut self, g: usize, l: u32, tick: u64) -> Result<(), &'static str> {
        if !self.graphs[g].work.nodes.contains(&l) {
            return Err("node");
        }
        if !self.nodes[&l].mortal {
            return Err("immortal");
        }
        self.graphs[g].work.remove_node(l);
        self.nodes.get_mut(&l).unwrap().removed = Some(tick);
        Ok(())
    }
    /// Register a new version, about to be sent to the audio side
    pub fn commit_begin(&mut self, g: usize, tick: u64) {
        let outstanding = self.graphs[g].commits.len();
        let ring = self.graphs[g].ring;
        let gm = &mut self.graphs[g];
        gm.uncommitted = false;
        // It may be consumed from when the edit returns, at the latest
        gm.commits.push(u64::MAX);
        let state = match gm.vers.last() {
            Some(v) if *v.state == gm.work => v.state.clone(),
            _ => Rc::new(gm.work.clone()),
        };
        gm.vers.push(Ver {
            state,
            begin: tick,
            end: u64::MAX,
            sure: outstanding < ring,
        });
    }
    pub fn commit_end(&mut self, g: usize, tick: u64) {
        if let Some(v) = self.graphs[g].vers.last_mut() {
            v.end = tick;
        }
        if let Some(c) = self.graphs[g].commits.last_mut().filter(|c| **c == u64::MAX) {
            *c = tick;
        }
    }
    fn window(&self, g: usize, rec: &BlockRec, hyp: &Hyp) -> (usize, usize) {
        let gm = &self.graphs[g];
        let mut lo = hyp.at.get(&g).map_or(0, |x| x.0);
        let mut hi = lo;
        for (i, v) in gm.vers.iter().enumerate().skip(lo) {
            if v.end < rec.start && v.sure {
                lo = i;
            }
            if v.begin <= rec.end {
                hi = i;
            }
        }
        (lo, hi)
    }
    /// Check one block against everything that may have been rendered
    pub fn check_block(&mut self, rec: &BlockRec) -> R<()> {
        let mut segs: BTreeMap<u32, Vec<&Seg>> = BTreeMap::new();
        for s in &rec.segs {
            segs.entry(s.label).or_default().push(s);
        }
        // Every node covers the block exactly once
        for (l, ss) in &segs {
            let Some(n) = self.nodes.get(l) else {
                return fail("memory", format!("block {}: a node which does not exist (label {l}) was processed", rec.idx));
            };
            let mut at = 0;
            let mut counter = n.counter;
            for s in ss {
                if s.off != at || s.len == 0 && self.bs > 0 {
                    return fail(
                        "coverage",
                        format!("block {}: node {l} was not processed exactly once: segments {:?}", rec.idx,
                            ss.iter().map(|s| (s.off, s.len)).collect::<Vec<_>>()),
                    );
                }
                if s.counter != counter {
                    return fail(
                        "state",
                        format!("block {}: node {l} continues from frame {} of its state, expected {counter}", rec.idx, s.counter),
                    );
                }
                if s.clock != rec.idx * self.bs as u64 + s.off as u64 + self.clock0() {
                    return fail(
                        "clock",
                        format!("block {}: node {l} at frame {} of the block saw frame clock {}, expected {}", rec.idx, s.off, s.clock,
                            rec.idx * self.bs as u64 + s.off as u64 + self.clock0()),
                    );
                }
                if s.inits != 1 || s.sr as u64 != self.sr || s.bs != self.bs {
                    return fail(
                        "init",
                        format!("block {}: node {l} was initialised {} times, last with sample rate {} block size {} (processor: {} {})",
                            rec.idx, s.inits, s.sr, s.bs, self.sr, self.bs),
                    );
                }
                at += s.len;
                counter += s.len as u64;
            }
            if at != self.bs {
                return fail("coverage", format!("block {}: node {l} was processed for {at} of {} frames", rec.idx, self.bs));
            }
        }
        if self.hyps.is_empty() {
            self.hyps.push(Hyp::default());
        }
        let hyps = std::mem::take(&mut self.hyps);
        let mut next: Vec<Hyp> = vec![];
        let mut best = None;
        let ins = rec.ins.clone();
        for hyp in &hyps {
            let mut cx = Ctx {
                rec,
                hyp,
                segs: segs.clone(),
                best: best.take(),
                depth: 0,
                chosen: BTreeMap::new(),
                vals: BTreeMap::new(),
                ran: vec![],
            };
            // Collects every explanation
            self.explain(&mut cx, 0, &ins, &mut |m, cx, out| {
                // No node may have run which belongs to no rendered graph
                for l in cx.segs.keys() {
                    let n = &m.nodes[l];
                    if !cx.ran.contains(&n.g) {
                        m.note(cx, "ran_removed", format!("block {}: node {l} was processed although its graph {} is not part of what is rendered", cx.rec.idx, n.g));
                        return false;
                    }
                }
                if let Some((ch, f)) = diff(out, &cx.rec.outs) {
                    m.note(cx, "output", format!("block {}: output channel {ch} frame {f} is {:?}, expected {:?}", cx.rec.idx,
                        cx.rec.outs.get(ch).and_then(|x| x.get(f)), out.get(ch).and_then(|x| x.get(f))));
                    return false;
                }
                let mut h = Hyp { at: cx.hyp.at.clone(), vals: BTreeMap::new() };
                for (g, v) in &cx.chosen {
                    h.at.insert(*g, (*v, rec.idx));
                }
                for ((l, c), x) in &cx.vals {
                    let g = m.nodes[l].g;
                    if cx.chosen.get(&g).is_some_and(|v| m.graphs[g].vers[*v].state.nodes.contains(l)) {
                        h.vals.insert((*l, *c), x.clone());
                    }
                }
                if !next.contains(&h) {
                    next.push(h);
                }
                next.len() > MAX_HYPS
            });
            best = cx.best.take();
            if next.len() > MAX_HYPS {
                break;
            }
        }
        if next.is_empty() {
            let (_, b) = best.unwrap_or((0, BlockCheck { class: "output", detail: format!("block {}: no committed version explains it", rec.idx) }));
            return Err(b);
        }
        if next.len() > MAX_HYPS {
            self.lost_track = true;
            next.truncate(MAX_HYPS);
        }
        for l in segs.keys() {
            let n = self.nodes.get_mut(l).unwrap();
            n.counter += self.bs as u64;
            if !n.ran {
                n.first_ran = rec.idx;
            }
            n.ran = true;
            n.last_ran = rec.idx;
        }
        self.ran_graphs = (0..self.graphs.len()).filter(|g| next.iter().all(|h| h.at.get(g).is_some_and(|x| x.1 == rec.idx))).collect();
        self.ran_maybe = (0..self.graphs.len()).filter(|g| next.iter().any(|h| h.at.get(g).is_some_and(|x| x.1 == rec.idx))).collect();
        for g in &self.ran_graphs {
            let gm = &mut self.graphs[*g];
            gm.last_run_start = rec.start;
            gm.runs += 1;
            gm.commits.retain(|t| *t >= rec.start);
            gm.sends.retain(|t| *t >= rec.start);
        }
        self.hyps = next;
        Ok(())
    }
    pub fn clock0(&self) -> u64 {
        CLOCK0.with(|c| c.get())
    }
    fn note(&self, cx: &mut Ctx, class: &'static str, detail: String) {
        if cx.best.as_ref().is_none_or(|(d, _)| cx.depth >= *d) {
            cx.best = Some((cx.depth, BlockCheck { class, detail }));
        }
    }
    /// Find versions of graph `g` and everything inside which explain the block. `k` is called with
    /// the outputs for every explanation found until it accepts one.
    fn explain<'a>(
        &self,
        cx: &mut Ctx<'a>,
        g: usize,
        ins: &[Vec<f64>],
        k: &mut dyn FnMut(&Model, &mut Ctx<'a>, &[Vec<f64>]) -> bool,
    ) -> bool {
        let gm = &self.graphs[g];
        let zero = vec![0.0; self.bs];
        if gm.freed.is_some_and(|(b, _)| b < cx.rec.idx) {
            // Removed by a done action: silence, nothing runs
            return k(self, cx, &vec![zero; gm.outs as usize]);
        }
        let (lo, hi) = self.window(g, cx.rec, cx.hyp);
        if gm.vers.is_empty() {
            self.note(cx, "harness", format!("graph {g} has no versions"));
            return false;
        }
        let mut tried: Vec<Rc<GState>> = vec![];
        let here: BTreeSet<u32> = cx.segs.keys().copied().filter(|l| self.nodes[l].g == g).collect();
        let mut run_mismatch = None;
        for v in lo..=hi {
            let st = gm.vers[v].state.clone();
            if tried.iter().any(|t| Rc::ptr_eq(t, &st) || **t == *st) {
                continue;
            }
            tried.push(st.clone());
            let probes: BTreeSet<u32> = st.nodes.iter().copied().filter(|l| self.nodes[l].sub.is_none()).collect();
            if probes != here {
                run_mismatch = Some((v, probes));
                continue;
            }
            cx.depth += 1;
            cx.chosen.insert(g, v);
            cx.ran.push(g);
            let order = st.order();
            if self.explain_nodes(cx, g, v, &st, &order, 0, ins, k) {
                return true;
            }
            cx.ran.pop();
            cx.chosen.remove(&g);
            cx.depth -= 1;
        }
        if let Some((v, probes)) = run_mismatch {
            let missing: Vec<_> = probes.difference(&here).collect();
            let extra: Vec<_> = here.difference(&probes).collect();
            let class = if lo == hi && !missing.is_empty() && extra.is_empty() {
                "missing"
            } else if lo == hi && !extra.is_empty() && missing.is_empty() && extra.iter().all(|l| self.nodes[l].removed.is_some()) {
                "ran_removed"
            } else {
                "runset"
            };
            self.note(cx, class, format!(
                "block {}: graph {g} ran the nodes {here:?}, which matches none of its committed versions {lo}..={hi}; compared to version {v}: missing {missing:?}, not part of it {extra:?}", cx.rec.idx));
        }
        false
    }
    fn sum(&self, cx: &Ctx, g: usize, srcs: Option<&Vec<Src>>, ins: &[Vec<f64>]) -> Vec<f64> {
        let mut r = vec![0.0; self.bs];
        for s in srcs.into_iter().flatten() {
            let v: Option<&Vec<f64>> = match s {
                Src::Node(n, c) => cx.vals.get(&(*n, *c)),
                Src::In(c) => ins.get(*c as usize),
                Src::Fb(n, c, inst) => {
                    if self.fb_present(cx, g, *inst) { cx.hyp.vals.get(&(*n, *c)) } else { None }
                }
            };
            if let Some(v) = v {
                for (a, b) in r.iter_mut().zip(v) {
                    *a += *b;
                }
            }
        }
        r
    }
    /// Was the feedback edge there in the previous block?
    fn fb_present(&self, cx: &Ctx, g: usize, inst: u32) -> bool {
        match cx.hyp.at.get(&g) {
            Some((v, b)) => b + 1 == cx.rec.idx && self.graphs[g].vers[*v].state.fb_instances().contains(&inst),
            None => false,
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn explain_nodes<'a>(
        &self,
        cx: &mut Ctx<'a>,
        g: usize,
        v: usize,
        st: &Rc<GState>,
        order: &[u32],
        i: usize,
        ins: &[Vec<f64>],
        k: &mut dyn FnMut(&Model, &mut Ctx<'a>, &[Vec<f64>]) -> bool,
    ) -> bool {
        let gm = &self.graphs[g];
        if i == order.len() {
            let mut outs: Vec<Vec<f64>> = vec![];
            for c in 0..gm.outs {
                outs.push(self.sum(cx, g, st.outs.get(&c), ins));
            }
            // A done action in this very block silences the rest of it
            if let Some((b, frame)) = gm.freed {
                if b == cx.rec.idx {
                    for o in &mut outs {
                        for x in &mut o[frame.min(self.bs)..] {
                            *x = 0.0;
                        }
                    }
                }
            }
            return k(self, cx, &outs);
        }
        let l = order[i];
        let n = &self.nodes[&l];
        let node_ins: Vec<Vec<f64>> = (0..n.ins)
            .map(|c| self.sum(cx, g, st.ins.get(&(l, c)), ins))
            .collect();
        if let Some(child) = n.sub {
            let (gg, ll) = (g, l);
            let order2 = order;
            return self.explain(cx, child, &node_ins, &mut |m, cx, out| {
                for (c, o) in out.iter().enumerate() {
                    cx.vals.insert((ll, c as u16), o.clone());
                }
                m.explain_nodes(cx, gg, v, st, order2, i + 1, ins, k)
            });
        }
        let got = joined(&cx.segs[&l]);
        if let Some((c, f)) = diff(&node_ins, &got.0) {
            let fb = st.ins.get(&(l, c as u16)).is_some_and(|v| v.iter().any(|s| matches!(s, Src::Fb(..))));
            let class = if fb { "feedback" } else if self.graphs.len() > 1 && g > 0 { "input_sub" } else { "input" };
            self.note(cx, class, format!(
                "block {}: node {l} input {c} frame {f} was {:?}, expected {} = sum of {:?} (graph {g} version {v})",
                cx.rec.idx, got.0[c].get(f), node_ins[c][f], st.ins.get(&(l, c as u16)).cloned().unwrap_or_default()));
            return false;
        }
        for (c, o) in got.1.into_iter().enumerate() {
            cx.vals.insert((l, c as u16), o);
        }
        cx.depth += 1;
        if self.explain_nodes(cx, g, v, st, order, i + 1, ins, k) {
            return true;
        }
        cx.depth -= 1;
        false
    }
    /// Expected value of an audio rate parameter in the last block checked, for every version which
    /// may have been rendered. None in the vector: not connected
    pub fn param_sums(&self, l: u32, p: u16) -> Vec<Option<Vec<f64>>> {
        let g = self.nodes[&l].g;
        let gm = &self.graphs[g];
        let mut r: Vec<Option<Vec<f64>>> = vec![];
        for h in &self.hyps {
            let Some((v, _)) = h.at.get(&g) else { continue };
            let st = &gm.vers[*v].state;
            let x = st.params.get(&(l, p)).map(|srcs| {
                let mut s = vec![0.0; self.bs];
                for src in srcs {
                    if let Src::Node(n, c) = src {
                        if let Some(v) = h.vals.get(&(*n, *c)) {
                            for (a, b) in s.iter_mut().zip(v) {
                                *a += *b;
                            }
                        }
                    }
                }
                s
            });
            if !r.contains(&x) {
                r.push(x);
            }
        }
        r
    }
}
thread_local! {
    pub static CLOCK0: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn joined(segs: &[&Seg]) -> (Vec<Vec<f64>>, Vec<Vec<f64>>) {
    let mut ins = segs[0].ins.clone();
    let mut outs = segs[0].outs.clone();
    for s in &segs[1..] {
        for (a, b) in ins.iter_mut().zip(&s.ins) {
            a.extend(b);
        }
        for (a, b) in outs.iter_mut().zip(&s.outs) {
            a.extend(b);
        }
    }
    (ins, outs)
}
/// First channel and frame in which they differ
fn diff(a: &[Vec<f64>], b: &[Vec<f64>]) -> Option<(usize, usize)> {
    if a.len() != b.len() {
        return Some((a.len().min(b.len()), 0));
    }
    for (c, (x, y)) in a.iter().zip(b).enumerate() {
        if x.len() != y.len() {
            return Some((c, x.len().min(y.len())));
        }
        for (f, (p, q)) in x.iter().zip(y).enumerate() {
            // NaN differs from everything. Sums of what an f32 can hold may be more than it can hold
            if !p.is_finite() || p.abs() > 1e30 {
                continue;
            }
            if p.partial_cmp(q) != Some(std::cmp::Ordering::Equal) && !(p.abs() > 16_777_216.0 && (p - q).abs() <= p.abs() / 1_000_000.0) {
                return Some((c, f));
            }
        }
    }
    None
}
