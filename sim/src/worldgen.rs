//! Seeded generation of traces for the engine "graph", weighted by the property to be checked.
use crate::rng::Rng;
use crate::shapes::{SHAPES, SHELLS, SUB_SHAPES};
use crate::trace::{Op, Trace};

#[derive(Clone, Copy, Default)]
struct W {
    // steps
    edit: u32,
    blocks: u32,
    yields: u32,
    asap: u32,
    timed: u32,
    token: u32,
    plan: u32,
    doneact: u32,
    direct: u32,
    invalid: u32,
    badset: u32,
    inspect: u32,
    flush: u32,
    plateau: u32,
    drops: u32,
    grab: u32,
    log: u32,
    poll: u32,
    // in edits
    push: u32,
    con: u32,
    rep: u32,
    fb: u32,
    out: u32,
    input: u32,
    dis: u32,
    free: u32,
    sub: u32,
    name: u32,
    link: u32,
    // how nodes are made (percent)
    wrapped: u32,
    done: u32,
    // schedule density (percent of steps with switches inside)
    race: u32,
}
fn base() -> W {
    W {
        edit: 30,
        blocks: 14,
        yields: 10,
        asap: 4,
        plan: 1,
        inspect: 1,
        push: 22,
        con: 26,
        rep: 8,
        fb: 2,
        out: 16,
        input: 8,
        dis: 6,
        free: 8,
        sub: 2,
        name: 1,
        wrapped: 10,
        done: 10,
        race: 50,
        ..Default::default()
    }
}
fn weights(p: &str) -> W {
    let b = base();
    match p {
        "C01" => W { race: 85, yields: 16, fb: 4, sub: 4, asap: 2, direct: 3, ..b },
        "C02" => W { push: 30, con: 46, rep: 14, out: 24, dis: 12, free: 10, link: 4, fb: 5, sub: 4, race: 25, asap: 1, direct: 3, ..b },
        "C03" => W { free: 12, asap: 4, sub: 5, race: 60, direct: 3, ..b },
        "C04" => W { free: 22, push: 30, flush: 3, plateau: 2, done: 40, plan: 8, doneact: 1, sub: 6, race: 60, rep: 14, fb: 5, link: 3, dis: 10, wrapped: 20, direct: 3, ..b },
        "C05" => W { drops: 5, free: 12, sub: 8, asap: 14, timed: 3, token: 3, race: 60, grab: 3, done: 20, plan: 4, direct: 3, ..b },
        "C06" => W { asap: 50, grab: 3, free: 6, wrapped: 30, done: 20, sub: 4, race: 60, direct: 3, ..b },
        "C07" => W { timed: 45, asap: 12, wrapped: 55, blocks: 26, sub: 3, race: 40, ..b },
        "C08" => W { token: 50, asap: 8, timed: 4, grab: 6, blocks: 20, sub: 6, race: 40, wrapped: 20, ..b },
        "C09" => W { done: 80, plan: 26, doneact: 6, sub: 10, flush: 2, blocks: 22, race: 50, wrapped: 35, free: 3, direct: 3, ..b },
        "C10" => W { asap: 45, race: 10, blocks: 5, yields: 5, timed: 3, sub: 4, free: 12, ..b },
        "C11" => W { asap: 12, timed: 6, token: 8, plan: 8, done: 40, grab: 4, free: 14, sub: 6, fb: 6, link: 5, wrapped: 40, log: 4, flush: 2, race: 60, rep: 12, direct: 3, ..b },
        "C12" => W { blocks: 30, yields: 30, sub: 6, grab: 4, wrapped: 40, race: 70, timed: 3, ..b },
        "C13" => W { log: 40, poll: 25, yields: 20, blocks: 14, timed: 4, edit: 12, race: 50, wrapped: 20, ..b },
        "C14" => W { fb: 44, con: 22, dis: 14, free: 12, rep: 8, sub: 4, race: 40, blocks: 20, direct: 3, ..b },
        "C15" => W { sub: 16, input: 20, out: 30, direct: 8, free: 10, race: 60, fb: 4, asap: 4, drops: 1, ..b },
        "C16" => W { invalid: 30, badset: 8, direct: 14, free: 12, grab: 2, sub: 5, fb: 5, link: 6, inspect: 2, ..b },
        "C17" => W { link: 40, direct: 12, wrapped: 90, asap: 10, timed: 4, token: 2, free: 10, dis: 12, race: 40, blocks: 20, con: 20, ..b },
        "C22" => W { inspect: 30, free: 12, name: 12, fb: 8, sub: 6, rep: 12, dis: 10, done: 25, plan: 4, direct: 8, ..b },
        _ => b,
    }
}
struct GG {
    tg: i64,
    nodes: Vec<(u32, u16, u16, bool)>,
    ins: u16,
    outs: u16,
    depth: u32,
}
struct Gen<'a> {
    r: &'a mut Rng,
    w: W,
    graphs: Vec<GG>,
    next: u32,
    next_g: i64,
    dead: Vec<u32>,
    names: i64,
    /// Nodes with a factor
    mul: Vec<u32>,
    tokens: i64,
    precise: Vec<u32>,
    ar: Vec<u32>,
    ring: i64,
    bs: i64,
    sr: i64,
    max_nodes: usize,
    /// many channels
    wide: bool,
}
impl Gen<'_> {
    fn any(&mut self, gi: usize) -> Option<(u32, u16, u16, bool)> {
        let n = &self.graphs[gi].nodes;
        if n.is_empty() { None } else { Some(n[self.r.below(n.len() as u64) as usize]) }
    }
    fn any_anywhere(&mut self) -> Option<u32> {
        for _ in 0..4 {
            let gi = self.r.below(self.graphs.len() as u64) as usize;
            if let Some(n) = self.any(gi) {
                return Some(n.0);
            }
        }
        None
    }
    fn sched(&mut self, n: usize) -> Vec<u8> {
        if !self.r.chance(self.w.race as u64, 100) {
            return vec![];
        }
        let dense = self.r.below(3);
        let len = 1 + self.r.below(n as u64 + 1);
        (0..len)
            .map(|_| {
                let hit = match dense {
                    0 => self.r.chance(1, 8),
                    1 => self.r.chance(1, 3),
                    _ => self.r.chance(3, 4),
                };
                if !hit {
                    0
                } else {
                    match self.r.below(10) {
                        0..=5 => 1 + self.r.below(4) as u8,
                        6..=8 => 1 + self.r.below(20) as u8,
                        _ => 20 + self.r.below(100) as u8,
                    }
                }
            })
            .collect()
    }
    fn push_op(&mut self, gi: usize) -> Op {
        let l = self.next;
        self.next += 1;
        let wrapped = self.r.chance(self.w.wrapped as u64, 100);
        let shape = if wrapped { *self.r.pick(&[0usize, 1, 4]) } else { self.r.weighted(&[20, 24, 14, 8, 10, 8, 4, 5, 3, if self.wide { 12 } else { 1 }, if self.wide { 10 } else { 0 }]) };
        let mut wrap = if wrapped { 1 + self.r.below(3) as i64 } else { 0 };
        if wrapped && shape == 1 && self.r.chance(1, 3) {
            let k = if self.r.chance(1, 3) { 1 } else { 1 + self.r.below(SHELLS as u64) as i64 };
            wrap = if self.r.chance(1, 8) { k << 2 } else { wrap | k << 2 };
            if k == 1 {
                self.mul.push(l);
            }
        }
        let done = if self.r.chance(self.w.done as u64, 100) { 1 + self.r.weighted(&[2, 6, 3]) as i64 } else { 0 };
        if wrap & 1 != 0 {
            self.precise.push(l);
        }
        if wrap & 2 != 0 {
            self.ar.push(l);
        }
        let (i, o) = SHAPES[shape];
        let mut op = Op::new("push", &[l as i64, shape as i64, wrap, done]);
        if self.w.link > 0 && self.r.chance(self.w.link as u64, 150) {
            if let Some(d) = self.ar_target(gi) {
                op.args.push(d as i64);
                op.args.push(self.r.below(2) as i64);
            }
        }
        self.graphs[gi].nodes.push((l, i, o, false));
        op
    }
    fn ar_target(&mut self, gi: usize) -> Option<u32> {
        let c: Vec<u32> = self.graphs[gi].nodes.iter().map(|n| n.0).filter(|n| self.ar.contains(n)).collect();
        if !c.is_empty() && self.r.chance(9, 10) {
            return Some(*self.r.pick(&c));
        }
        self.any(gi).map(|n| n.0)
    }
    fn subs(&mut self, gi: usize, n: usize, depth: u32) -> Vec<Op> {
        let mut v = vec![];
        for _ in 0..n {
            let w = self.w;
            let full = self.graphs[gi].nodes.len() >= self.max_nodes;
            let k = self.r.weighted(&[
                if full { 0 } else { w.push },
                w.con,
                w.rep,
                w.fb,
                w.out,
                w.input,
                w.dis,
                if full { w.free * 3 + 4 } else { w.free },
                if depth < 3 && self.graphs.len() < 6 && !full { w.sub } else { 0 },
                w.name,
                w.link,
                w.asap / 6,
            ]);
            let op = match k {
                0 => self.push_op(gi),
                1..=3 => {
                    let (Some(a), Some(b)) = (self.any(gi), self.any(gi)) else { continue };
                    let mode = match k {
                        1 => 0,
                        2 => 1,
                        _ => 2 + self.r.chance(1, 4) as i64,
                    };
                    // Mostly forwards in time, to get deep graphs
                    let (a, b) = if mode < 2 && a.0 > b.0 && self.r.chance(2, 3) { (b, a) } else { (a, b) };
                    if mode == 0 && self.r.chance(1, 10) {
                        Op::new("try", &[a.0 as i64, b.0 as i64])
                    } else if a.2 > 0 && self.r.chance(1, 4) {
                        Op::new("one", &[mode, a.0 as i64, self.r.below(a.2 as u64) as i64, b.0 as i64])
                    } else {
                        Op::new("all", &[mode, a.0 as i64, b.0 as i64])
                    }
                }
                4 => {
                    let Some(a) = self.any(gi) else { continue };
                    let rep = self.r.chance(1, 5) as i64;
                    if self.r.chance(1, 3) {
                        let over = self.r.chance(1, 12) as u64;
                        let ch = self.r.below(self.graphs[gi].outs as u64 + over) as i64;
                        Op::new("tout", &[a.0 as i64, rep, ch])
                    } else {
                        Op::new("tout", &[a.0 as i64, rep])
                    }
                }
                5 => {
                    let ins = self.graphs[gi].ins;
                    if ins == 0 && self.r.chance(9, 10) {
                        continue;
                    }
                    let over = self.r.chance(1, 12) as u64;
                    let c = self.r.below(ins as u64 + over) as i64;
                    if self.r.chance(1, 5) {
                        Op::new("in2out", &[c])
                    } else {
                        let Some(b) = self.any(gi) else { continue };
                        Op::new("fin", &[c, b.0 as i64, self.r.chance(1, 4) as i64])
                    }
                }
                6 => {
                    let Some(a) = self.any(gi) else { continue };
                    if self.r.chance(1, 2) && a.2 > 0 {
                        Op::new("dout", &[a.0 as i64, self.r.below(a.2 as u64) as i64])
                    } else if a.1 > 0 {
                        Op::new("din", &[a.0 as i64, self.r.below(a.1 as u64) as i64])
                    } else {
                        continue;
                    }
                }
                7 => {
                    let Some(a) = self.any(gi) else { continue };
                    if self.r.chance(9, 10) {
                        self.graphs[gi].nodes.retain(|x| x.0 != a.0);
                        self.dead.push(a.0);
                    }
                    Op::new("free", &[a.0 as i64])
                }
                8 => {
                    let l = self.next;
                    self.next += 1;
                    let tg = self.next_g;
                    self.next_g += 1;
                    let shape = if self.wide { self.r.below(9) } else { self.r.below(7) } as usize;
                    let (i, o) = SUB_SHAPES[shape];
                    self.graphs.push(GG { tg, nodes: vec![], ins: i, outs: o, depth: depth + 1 });
                    let c = self.graphs.len() - 1;
                    let n = self.r.below(6) as usize;
                    let inner = self.subs(c, n, depth + 1);
                    self.graphs[gi].nodes.push((l, i, o, true));
                    let ring = self.ring;
                    Op::new("sub", &[l as i64, tg, shape as i64, ring]).with(inner)
                }
                9 => {
                    let Some(a) = self.any(gi) else { continue };
                    self.names += 1;
                    let n = if self.r.chance(1, 3) { self.r.below(4) as i64 } else { self.names };
                    if self.r.chance(1, 3) { Op::new("hname", &[n]) } else { Op::new("name", &[a.0 as i64, n]) }
                }
                10 => {
                    // Only possible when pushing, through the edit interface
                    if full {
                        continue;
                    }
                    let mut op = self.push_op(gi);
                    op.args[1] = if self.wide && self.r.chance(1, 4) { *self.r.pick(&[9, 10]) } else { *self.r.pick(&[0, 1, 2, 3, 5]) };
                    if op.args[1] > 5 {
                        op.args[2] = 0;
                    }
                    let l = op.a(0) as u32;
                    let (i, o) = SHAPES[op.a(1) as usize];
                    if let Some(x) = self.graphs[gi].nodes.iter_mut().find(|x| x.0 == l) {
                        (x.1, x.2) = (i, o);
                    }
                    op.args.truncate(4);
                    let Some(d) = self.ar_target(gi) else { continue };
                    op.args.push(d as i64);
                    let p = self.r.below(2) as i64;
                    op.args.push(if self.mul.contains(&d) && self.r.chance(1, 3) { 4 } else { p });
                    op
                }
                _ if self.r.chance(1, 4) => {
                    let Some(a) = self.any(gi) else { continue };
                    Op::new("params", &[a.0 as i64, self.r.below(64) as i64])
                }
                _ => {
                    let Some(l) = self.any_anywhere() else { continue };
                    Op::new("send", &[l as i64, self.r.below(2) as i64, 0, 4])
                }
            };
            v.push(op);
        }
        v
    }
    fn direct(&mut self, gi: usize, invalid: bool) -> Vec<Op> {
        let n = 1 + self.r.below(4) as usize;
        let mut v = vec![];
        for _ in 0..n {
            let bad = invalid && self.r.chance(2, 3);
            // which of the arguments to spoil
            let which = self.r.below(5);
            let (Some(mut a), Some(mut b)) = (self.any(gi), self.any(gi)) else { break };
            if bad && which == 0 {
                a = self.other(gi, a);
            }
            if bad && which == 1 {
                b = self.other(gi, b);
            }
            let gp = SpoilG { ins: self.graphs[gi].ins, outs: self.graphs[gi].outs };
            let src = if self.r.chance(1, 8) { (-1, gp.ins) } else { (a.0 as i64, a.2) };
            let dst = if self.r.chance(1, 5) { (-1, gp.outs) } else { (b.0 as i64, b.1) };
            let chan = |r: &mut Rng, max: u16, spoil: bool| -> i64 {
                if spoil {
                    *r.pick(&[max as i64, max as i64 + 1, 255, 65535])
                } else if max == 0 {
                    0
                } else {
                    r.below(max as u64) as i64
                }
            };
            let k = self.r.weighted(&[10, 4 + self.w.link / 4, 3, 3, 2, 1, 3, 1]);
            let op = match k {
                0 => {
                    let s = chan(self.r, src.1, bad && which == 2);
                    let d = chan(self.r, dst.1, bad && which == 3);
                    let mode = self.r.weighted(&[6, 3, if invalid { 2 } else { 0 } + self.w.fb / 8, 1]) as i64;
                    let (mut x, mut y) = (src.0, dst.0);
                    // close a cycle
                    if bad && which == 4 && x >= 0 && y >= 0 && y > x {
                        std::mem::swap(&mut x, &mut y);
                    }
                    Op::new("con", &[mode, x, s, y, d])
                }
                1 => {
                    let s = chan(self.r, a.2, bad && which == 2);
                    let p = if bad && which == 3 { *self.r.pick(&[4i64, 5, 6, 65535, 65536, 65537, 1 << 20]) } else if self.mul.contains(&b.0) && self.r.chance(1, 6) { 4 } else { self.r.below(2) as i64 };
                    Op::new("pcon", &[self.r.chance(1, 3) as i64, a.0 as i64, s, b.0 as i64, p])
                }
                2 => Op::new("dout", &[src.0, chan(self.r, src.1, bad && which >= 2)]),
                3 => Op::new("din", &[dst.0, chan(self.r, dst.1, bad && which >= 2)]),
                4 => Op::new("mort", &[a.0 as i64, self.r.chance(2, 3) as i64]),
                5 => Op::new("name", &[a.0 as i64, self.r.below(6) as i64]),
                6 => {
                    if self.graphs[gi].nodes.len() >= self.max_nodes {
                        continue;
                    }
                    let mut op = self.push_op(gi);
                    op.args.truncate(2);
                    op
                }
                _ => {
                    if self.graphs.len() >= 6 || self.graphs[gi].nodes.len() >= self.max_nodes {
                        continue;
                    }
                    let l = self.next;
                    self.next += 1;
                    let tg = self.next_g;
                    self.next_g += 1;
                    let shape = if self.wide { self.r.below(9) } else { self.r.below(7) } as usize;
                    let (i, o) = SUB_SHAPES[shape];
                    let depth = self.graphs[gi].depth + 1;
                    if depth > 3 {
                        continue;
                    }
                    self.graphs.push(GG { tg, nodes: vec![], ins: i, outs: o, depth });
                    self.graphs[gi].nodes.push((l, i, o, true));
                    Op::new("sub", &[l as i64, tg, shape as i64, self.ring])
                }
            };
            v.push(op);
        }
        v
    }
    /// A node which cannot be used in graph `gi`
    fn other(&mut self, gi: usize, dflt: (u32, u16, u16, bool)) -> (u32, u16, u16, bool) {
        if !self.dead.is_empty() && self.r.chance(1, 2) {
            return (*self.r.pick(&self.dead.clone()), dflt.1.max(1), dflt.2.max(1), false);
        }
        for _ in 0..4 {
            let o = self.r.below(self.graphs.len() as u64) as usize;
            if o != gi {
                if let Some(x) = self.any(o) {
                    return x;
                }
            }
        }
        dflt
    }
    fn time(&mut self) -> (i64, i64, i64) {
        let kind = 1 + self.r.below(2) as i64;
        let sr = self.sr;
        let bs = self.bs;
        let t = match self.r.below(8) {
            0 => 0,
            1 => self.r.range(0, bs),
            2 | 3 => self.r.range(0, 4 * bs),
            4 => self.r.range(0, 12 * bs),
            5 => self.r.range(0, 3) * bs,
            6 => -self.r.range(0, 4 * bs),
            _ => self.r.range(0, (sr / 2).max(1)).min(40 * bs),
        };
        (kind, t, self.r.below(16) as i64)
    }
}
struct SpoilG {
    ins: u16,
    outs: u16,
}
pub fn generate(prop: &str, seed: u64) -> Trace {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let mut t = Trace {
        prop: prop.into(),
        engine: "graph".into(),
        seed,
        ..Default::default()
    };
    let mut w = weights(prop);
    let mut bs = *r.pick(&[1i64, 2, 3, 4, 4, 5, 7, 8, 8, 16, 32]);
    // Now and then larger numbers of everything
    let large = prop != "C10" && r.chance(1, 16);
    if large && r.chance(1, 3) {
        bs = *r.pick(&[64i64, 64, 128, 256, 512]);
    }
    let sr = match r.below(10) {
        0 => 1000,
        1 => 8000,
        2 => 22050,
        3 | 4 => 44100,
        5 => 96000,
        6 => *r.pick(&[100i64, 997, 11025, 12345, 47999, 192000]),
        _ => 48000,
    };
    let small = prop == "C10";
    let ring = if small { *r.pick(&[1i64, 2, 3, 4, 6]) } else { *r.pick(&[4i64, 8, 16, 30, 50]) };
    let ring = if large { *r.pick(&[100i64, 200, 400, 1000]) } else { ring };
    t.set("bs", bs);
    t.set("sr", sr);
    t.set("ring", ring);
    t.set("nin", r.below(3) as i64);
    t.set("nout", 1 + r.below(2) as i64);
    let wide = large || r.chance(1, 8);
    if wide && r.chance(1, 2) {
        let most = r.chance(1, 2);
        t.set("nin", if most { 9 } else { 5 });
        t.set("nout", if most { 10 } else { 6 });
    }
    t.set("f64", r.chance(1, 3) as i64);
    t.set("log", *r.pick(&[8i64, 20, 64, 1000]));
    if r.chance(1, if prop == "C12" || prop == "C07" { 3 } else { 8 }) {
        // far into a long session, with second and 32 bit boundaries near
        let base = *r.pick(&[sr, sr * 60, 1i64 << 31, 1i64 << 32, sr * 86400 * 30, (1i64 << 32) * 3]);
        t.set("clock0", (base - r.range(0, 20 * bs)).max(0));
    }
    t.set("end", r.u64() as i64 & 0xffff);
    // Swarm: leave some kinds of operations out
    for x in [&mut w.rep, &mut w.fb, &mut w.dis, &mut w.input, &mut w.name, &mut w.sub, &mut w.free] {
        if r.chance(1, 8) {
            *x = 0;
        }
    }
    let (nin, nout) = match (t.get("nin", 0), t.get("nout", 1)) {
        (a, b) => (a as u16, b as u16),
    };
    let max_nodes = *r.pick(&[3usize, 6, 10, 16]);
    let steps = 12 + r.below(if prop == "C02" { 20 } else { 45 }) as usize;
    let mut g = Gen {
        r,
        w,
        graphs: vec![GG { tg: 0, nodes: vec![], ins: nin, outs: nout, depth: 0 }],
        next: 1,
        next_g: 1,
        dead: vec![],
        names: 0,
        mul: vec![],
        tokens: 0,
        precise: vec![],
        ar: vec![],
        ring,
        bs,
        sr,
        max_nodes,
        wide,
    };
    // Something to start with
    let n0 = 2 + g.r.below(10) as usize;
    let first = g.subs(0, n0, 0);
    t.steps.push(Op::new("edit", &[0]).with(first));
    if g.r.chance(4, 5) {
        t.steps.push(Op::new("blocks", &[1 + g.r.below(2) as i64]));
    }
    let mut round = vec![];
    if w.plateau > 0 && g.r.chance(1, 6) {
        // Equal rounds of pushing and freeing must not make memory grow
        let with = g.r.u64();
        let has = |k: u32| with >> k & 1 == 1;
        for _ in 0..7 {
            let a = g.next as i64;
            g.next += 5;
            let keep = g.graphs[0].nodes.first().map(|n| n.0 as i64).unwrap_or(a);
            let mut v = vec![
                Op::new("push", &[a, 1, 0, 2]),
                Op::new("push", &[a + 1, 4, 0, 0]),
                Op::new("all", &[0, a, a + 1]),
                Op::new("all", &[0, keep, a + 1]),
            ];
            if has(0) {
                v.push(Op::new("all", &[2, a + 1, a]));
            }
            v.push(Op::new("tout", &[a + 1, 0]));
            v.push(Op::new("tout", &[a, 0]));
            if has(1) {
                v.push(Op::new("sub", &[a + 2, 1000 + a, 1, 4]).with(vec![Op::new("in2out", &[0])]));
                v.push(Op::new("tout", &[a + 2, 0]));
            }
            if has(2) {
                // ends by itself
                v.push(Op::new("push", &[a + 3, 1, 1, 1]));
                v.push(Op::new("tout", &[a + 3, 0]));
            }
            if has(3) {
                v.push(Op::new("name", &[a, 1]));
            }
            round.push(Op::new("edit", &[0]).with(v));
            if has(4) {
                round.push(Op::new("direct", &[0]).with(vec![Op::new("pcon", &[0, keep, 0, a, 0]), Op::new("pcon", &[0, a, 0, a + 1, 0])]));
                round.push(Op::new("edit", &[0]));
            }
            if has(5) {
                round.push(Op::new("send", &[a, 0, 0, 3, 0, 0]));
                round.push(Op::new("send", &[a + 1, 0, 2, 0, 3, 0]));
                round.push(Op::new("send", &[a, 1, 0, 1, 0, 0]));
            }
            if has(6) {
                round.push(Op::new("inspect", &[0]));
            }
            if has(9) {
                let tk = g.tokens;
                g.tokens += 1;
                round.push(Op::new("grab", &[0]));
                round.push(Op::new("tok", &[tk]));
                round.push(Op::new("send", &[a, 0, 3, 3, tk, 0]));
                round.push(Op::new("send", &[a + 1, 0, 3, 5, tk, 0]));
                round.push(Op::new("blocks", &[1]));
                round.push(Op::new("act", &[tk]));
                round.push(Op::new("tokdrop", &[tk]));
            }
            if has(2) {
                round.push(Op::new("plan", &[a + 3, 1, 0]));
            }
            round.push(Op::new("blocks", &[1]));
            let mut v = vec![];
            if has(7) {
                v.push(Op::new("dout", &[a, 0]));
                v.push(Op::new("din", &[a + 1, 0]));
            }
            if has(8) {
                v.push(Op::new("free", &[a + 1]));
                v.push(Op::new("free", &[a]));
            } else {
                v.push(Op::new("free", &[a]));
                v.push(Op::new("free", &[a + 1]));
            }
            if has(1) {
                v.push(Op::new("free", &[a + 2]));
            }
            if has(2) {
                v.push(Op::new("free", &[a + 3]));
            }
            round.push(Op::new("edit", &[0]).with(v));
            round.push(Op::new("blocks", &[1]));
            if has(1) {
                round.push(Op::new("dropgraph", &[1000 + a]));
            }
            round.push(Op::new("plateau", &[1]));
        }
    }
    for _ in 0..steps {
        let w = g.w;
        if large && g.r.chance(1, 6) {
            match g.r.below(4) {
                0 => {
                    // Many versions between two blocks
                    let tg = g.graphs[g.r.below(g.graphs.len() as u64) as usize].tg;
                    for i in 0..2 + g.r.below(40) {
                        let l = g.next as i64;
                        g.next += 1;
                        t.steps.push(Op::new("edit", &[tg]).with(vec![Op::new("push", &[l, 0, 0, 0]), if i % 3 == 0 { Op::new("free", &[l]) } else { Op::new("tout", &[l, 0]) }]));
                        if i % 3 == 1 {
                            t.steps.push(Op::new("edit", &[tg]).with(vec![Op::new("free", &[l])]));
                        }
                    }
                }
                1 => {
                    // Many nodes: chains, one source for all, one sink for all
                    let mut v = vec![];
                    let mut last = None;
                    let most = if g.r.chance(1, 8) { 330 } else { 100 };
                    let form = g.r.below(4);
                    let mut all = vec![];
                    let k = if g.r.chance(1, 3) { g.r.below(g.graphs.len() as u64) as usize } else { 0 };
                    let (tg, gin) = (g.graphs[k].tg, g.graphs[k].ins as u64);
                    // many of them connected to the inputs of the graph, to its outputs, or with parameters driven by one source
                    let (fed, heard, driven) = (gin > 0 && g.r.chance(1, 2), g.r.chance(1, 4), g.r.chance(1, 4));
                    let driver = g.next as i64;
                    let mut pcons = vec![];
                    if driven {
                        g.next += 1;
                        v.push(Op::new("push", &[driver, 0, 0, 0]));
                    }
                    for _ in 0..2 + g.r.below(most) {
                        let l = g.next as i64;
                        g.next += 1;
                        let shape = 1 + g.r.below(2) as i64;
                        v.push(Op::new("push", &[l, shape, if driven && shape == 1 { 2 } else { 0 }, 0]));
                        all.push((l, shape));
                        if fed && g.r.chance(2, 3) {
                            v.push(Op::new("fin", &[g.r.below(gin) as i64, l, 0]));
                        }
                        if heard && g.r.chance(2, 3) {
                            v.push(Op::new("tout", &[l, 0]));
                        }
                        if driven && shape == 1 && g.r.chance(2, 3) {
                            pcons.push(Op::new("pcon", &[0, driver, 0, l, g.r.below(2) as i64]));
                        }
                        if let Some(m) = last {
                            v.push(if form == 3 { Op::new("one", &[0, l, 0, m]) } else { Op::new("one", &[0, m, 0, l]) });
                        }
                        last = match form {
                            0 | 1 => if g.r.chance(1, if form == 0 { 4 } else { 200 }) { None } else { Some(l) },
                            _ => last.or(Some(l)),
                        };
                    }
                    if form > 0 {
                        v.push(Op::new("tout", &[all[all.len() - 1].0, 0]));
                        v.push(Op::new("tout", &[all[0].0, 0]));
                    }
                    // some of them take part in what follows
                    for _ in 0..g.r.below(4) {
                        let (l, shape) = *g.r.pick(&all);
                        if !g.graphs[k].nodes.iter().any(|n| n.0 as i64 == l) {
                            let (i, o) = SHAPES[shape as usize];
                            g.graphs[k].nodes.push((l as u32, i, o, false));
                        }
                    }
                    let (l, shape) = all[all.len() - 1];
                    if g.r.chance(1, 2) && !g.graphs[k].nodes.iter().any(|n| n.0 as i64 == l) {
                        let (i, o) = SHAPES[shape as usize];
                        g.graphs[k].nodes.push((l as u32, i, o, false));
                    }
                    t.steps.push(Op::new("edit", &[tg]).with(v));
                    if driven {
                        t.steps.push(Op::new("direct", &[tg]).with(pcons));
                        t.steps.push(Op::new("edit", &[tg]));
                    }
                    if g.r.chance(1, 2) {
                        t.steps.push(Op::new("blocks", &[1 + g.r.below(2) as i64]));
                        let some = 1 + g.r.below(3);
                        let v: Vec<Op> = all.iter().filter(|n| g.r.chance(some, 3) && !g.graphs[k].nodes.iter().any(|m| m.0 as i64 == n.0)).map(|n| Op::new("free", &[n.0])).collect();
                        t.steps.push(Op::new("edit", &[tg]).with(v));
                        t.steps.push(Op::new("blocks", &[1]));
                    }
                }
                _ => {
                    let n = 10 + g.r.below(300) as i64;
                    let (kind, tt, frac) = if g.r.chance(1, 3) {
                        (0, 0, 0)
                    } else if g.tokens > 0 && g.r.chance(1, 2) {
                        for gg in &g.graphs {
                            t.steps.push(Op::new("grab", &[gg.tg]));
                        }
                        (3, g.tokens - 1, 0)
                    } else {
                        g.time()
                    };
                    t.steps.push(Op::new("burst", &[n, kind, 0, tt, frac]));
                    t.steps.push(Op::new("burst", &[1 + g.r.below(20) as i64, 0, *g.r.pick(&[0i64, 1, 3]), 0, 0]));
                }
            }
        }
        if w.done >= 10 && g.r.chance(w.done as u64, 1200) {
            // Many nodes which are done between two edits
            let tg = g.graphs[g.r.below(g.graphs.len() as u64) as usize].tg;
            let n = 2 + g.r.below(9) as i64;
            let first = g.next as i64;
            g.next += n as u32;
            let mut v = vec![];
            for i in 0..n {
                v.push(Op::new("push", &[first + i, 1, 0, 2]));
                if g.r.chance(1, 3) {
                    v.push(Op::new("tout", &[first + i, 0]));
                }
                if i > 0 && g.r.chance(1, 3) {
                    v.push(Op::new("one", &[0, first + i - 1, 0, first + i]));
                }
            }
            t.steps.push(Op::new("edit", &[tg]).with(v));
            t.steps.push(Op::new("blocks", &[1 + g.r.below(2) as i64]));
            for i in 0..n {
                if !g.r.chance(1, 8) {
                    t.steps.push(Op::new("plan", &[first + i, 1, g.r.below(bs as u64) as i64]));
                }
            }
            t.steps.push(Op::new("blocks", &[1 + g.r.below(2) as i64]));
            t.steps.push(Op::new("edit", &[tg]));
            t.steps.push(Op::new("blocks", &[1]));
        }
        let gi = if g.graphs.len() > 1 && g.r.chance(1, 2) { g.r.below(g.graphs.len() as u64) as usize } else { 0 };
        let tg = g.graphs[gi].tg;
        let depth = g.graphs[gi].depth;
        let k = g.r.weighted(&[
            w.edit, w.blocks, w.yields, w.asap, w.timed, w.token, w.plan, w.doneact, w.direct, w.invalid, w.badset, w.inspect, w.flush, w.plateau.min(1), w.drops, w.grab, w.log, w.poll,
        ]);
        let op = match k {
            0 => {
                let n = g.r.below(6) as usize;
                let s = g.subs(gi, n, depth);
                Op::new("edit", &[tg]).with(s)
            }
            1 => {
                let n = if g.r.chance(1, 12) { g.r.below(40) } else { 1 + g.r.below(3) };
                Op::new("blocks", &[n as i64])
            }
            2 => Op::new("yields", &[1 + g.r.below(14) as i64]),
            3 => {
                let many = if small { 1 + g.r.below(6) } else { 1 + g.r.below(3) };
                for _ in 0..many {
                    let Some(l) = (if g.r.chance(1, 12) && !g.dead.is_empty() { Some(*g.r.pick(&g.dead.clone())) } else { g.any_anywhere() }) else { continue };
                    let p = match g.r.below(10) {
                        0..=5 => g.r.below(2) as i64,
                        6 => 3,
                        _ => 10 + g.r.below(2) as i64,
                    };
                    let via = *g.r.pick(&[0i64, 0, 0, 1, 2, 3, 5]);
                    let p = if g.mul.contains(&l) && g.r.chance(1, 5) { 4 } else { p };
                    t.steps.push(Op::new("send", &[l as i64, p, 0, via, 0, 0, g.r.below(4) as i64]));
                }
                continue;
            }
            4 => {
                let l = if !g.precise.is_empty() && g.r.chance(2, 3) { Some(*g.r.pick(&g.precise.clone())) } else { g.any_anywhere() };
                let Some(l) = l else { continue };
                for _ in 0..1 + g.r.below(3) {
                    let (kind, tt, frac) = g.time();
                    let p = if g.r.chance(1, 5) { 10 + g.r.below(2) as i64 } else { g.r.below(2) as i64 };
                    let p = if g.r.chance(1, 12) { 3 } else { p };
                    let p = if g.mul.contains(&l) && g.r.chance(1, 5) { 4 } else { p };
                    let via = *g.r.pick(&[0i64, 0, 1, 2]);
                    t.steps.push(Op::new("send", &[l as i64, p, kind, via, tt, frac, g.r.below(4) as i64]));
                }
                continue;
            }
            5 => {
                let n = g.r.below(10);
                if n < 6 {
                    if g.tokens == 0 || g.r.chance(1, 4) {
                        t.steps.push(Op::new("tok", &[g.tokens]));
                        g.tokens += 1;
                    }
                    if g.r.chance(1, 2) {
                        for gg in &g.graphs {
                            t.steps.push(Op::new("grab", &[gg.tg]));
                        }
                    }
                    for _ in 0..1 + g.r.below(4) {
                        let Some(l) = g.any_anywhere() else { continue };
                        let tk = g.tokens - 1 - g.r.below(2.min(g.tokens as u64)) as i64;
                        t.steps.push(Op::new("send", &[l as i64, g.r.below(2) as i64, 3, *g.r.pick(&[3i64, 3, 5]), tk, 0, g.r.below(4) as i64]));
                    }
                    continue;
                } else if g.tokens > 0 {
                    let tk = g.r.below(g.tokens as u64) as i64;
                    if n < 9 { Op::new("act", &[tk]) } else { Op::new("tokdrop", &[tk]) }
                } else {
                    continue;
                }
            }
            6 => {
                let Some(l) = g.any_anywhere() else { continue };
                let kind = 1 + g.r.weighted(&[6, 2, 2]) as i64;
                let f = if g.r.chance(1, 8) { bs as u64 } else { g.r.below(bs as u64) };
                Op::new("plan", &[l as i64, kind, f as i64])
            }
            7 => {
                let Some(l) = g.any_anywhere() else { continue };
                Op::new("doneact", &[l as i64, g.r.below(3) as i64])
            }
            8 | 9 => {
                let s = g.direct(gi, k == 9);
                let op = Op::new("direct", &[tg]).with(s);
                t.steps.push(op);
                if g.r.chance(2, 3) {
                    let mut e = Op::new("edit", &[tg]);
                    e.sched = g.sched(10);
                    t.steps.push(e);
                }
                continue;
            }
            10 => {
                let Some(l) = g.any_anywhere() else { continue };
                Op::new("badset", &[l as i64, g.r.below(8) as i64, g.r.below(g.graphs.len() as u64) as i64])
            }
            11 => {
                if g.r.chance(1, 5) {
                    Op::new("name?", &[tg, g.r.below(g.names as u64 + 2) as i64])
                } else {
                    Op::new("inspect", &[tg])
                }
            }
            12 => Op::new("flush", &[]),
            13 => Op::new("plateau", &[]),
            14 => match g.r.below(10) {
                0..=3 => {
                    let gi = g.r.below(g.graphs.len() as u64) as usize;
                    Op::new("dropgraph", &[g.graphs[gi].tg])
                }
                4 | 5 => Op::new("dropproc", &[]),
                6 => Op::new("droplog", &[]),
                _ => Op::new("drophandles", &[g.r.chance(1, 3) as i64]),
            },
            15 => Op::new("grab", &[tg]),
            16 => {
                let Some(l) = g.any_anywhere() else { continue };
                Op::new("plan", &[l as i64, 4, g.r.below(bs as u64) as i64])
            }
            _ => Op::new("poll", &[]),
        };
        let mut op = op;
        if matches!(op.name.as_str(), "edit" | "dropgraph" | "flush" | "dropproc") {
            op.sched = g.sched(10 + op.sub.len() * 2);
        }
        t.steps.push(op);
    }
    t.steps.extend(round);
    // Let everything settle
    if prop == "C10" {
        t.steps.push(Op::new("blocks", &[2]));
        t.steps.push(Op::new("edit", &[0]).with(vec![Op::new("push", &[900_000, 0, 0, 0]), Op::new("tout", &[900_000, 0])]));
    }
    t.steps.push(Op::new("blocks", &[2]));
    if g.r.chance(1, 2) {
        t.steps.push(Op::new("flush", &[]));
    }
    t
}
