//! C13: log channels. The audio side writes message chains with `rt_log!`, the control side polls
//! before, between and after any two messages, and the audio side writes while a receiver is
//! being polled. Compared with a model of what has to arrive.
use crate::alloc;
use crate::rng::{Rng, hash};
use crate::trace::{Op, Outcome, Trace, Violation};
use knaster_core::{
    AudioCtx, Seconds,
    log::{ArLogMessage as M, ArLogReceiver, ArLogSender},
    rt_log,
    typenum::*,
};
use std::cell::RefCell;

enum Rx {
    None,
    R0(ArLogReceiver<U0>),
    R1(ArLogReceiver<U1>),
    R2(ArLogReceiver<U2>),
    R3(ArLogReceiver<U3>),
}
impl Rx {
    fn add(self, cap: usize) -> (Option<ArLogSender>, Rx) {
        fn some<A, B>(x: (A, B)) -> (Option<A>, B) {
            (Some(x.0), x.1)
        }
        match self {
            Rx::R0(r) => {
                let x = some(r.sender(cap));
                (x.0, Rx::R1(x.1))
            }
            Rx::R1(r) => {
                let x = some(r.sender(cap));
                (x.0, Rx::R2(x.1))
            }
            Rx::R2(r) => {
                let x = some(r.sender(cap));
                (x.0, Rx::R3(x.1))
            }
            x => (None, x),
        }
    }
    fn recv(&mut self, h: impl FnMut(&[M])) {
        match self {
            Rx::None => (),
            Rx::R0(r) => r.recv(h),
            Rx::R1(r) => r.recv(h),
            Rx::R2(r) => r.recv(h),
            Rx::R3(r) => r.recv(h),
        }
    }
    fn channels(&self) -> usize {
        match self {
            Rx::None => 0,
            Rx::R0(r) => r.channels(),
            Rx::R1(r) => r.channels(),
            Rx::R2(r) => r.channels(),
            Rx::R3(r) => r.channels(),
        }
    }
}
#[derive(Clone, Debug)]
struct Chain {
    items: Vec<M>,
    /// there certainly was room for all of it
    room: bool,
    /// written to its end
    ended: bool,
    got: bool,
    /// messages of it which may be in the channel
    held: usize,
}
struct Chan {
    cap: usize,
    tx: Option<AudioCtx>,
    chains: Vec<Chain>,
    /// index of the next chain which may arrive
    next: usize,
    /// what arrived since the last end of a chain
    part: Vec<M>,
    serial: u64,
}
struct W {
    ch: Vec<Chan>,
    /// Channel whose messages are arriving: chains of different channels must not be mixed
    o: Outcome,
    viol: Option<(&'static str, String)>,
    empty: usize,
}
thread_local! {
    static ST: RefCell<Option<W>> = const { RefCell::new(None) };
    static RX: RefCell<Option<Rx>> = const { RefCell::new(None) };
}
fn w<T>(f: impl FnOnce(&mut W) -> T) -> T {
    ST.with(|s| f(s.borrow_mut().as_mut().unwrap()))
}
fn same(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::Str(a), M::Str(b)) => a == b,
        (M::Float(a), M::Float(b)) => a.to_bits() == b.to_bits(),
        (M::Unsigned(a), M::Unsigned(b)) => a == b,
        (M::Signed(a), M::Signed(b)) => a == b,
        (M::Timestamp(a), M::Timestamp(b)) => a == b,
        (M::End, M::End) => true,
        _ => false,
    }
}
const STRS: [&str; 40] = [
    "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23", "24", "25", "26", "27", "28", "29", "30", "31", "32", "33", "34", "35", "36",
    "37", "38", "39",
];
/// A message which tells channel and serial number apart
struct Item(i64, u64);
/// The value itself, of many types
macro_rules! item {
    ($kind:expr, $n:expr, $f:expr) => {
        match $kind {
            0 => $f(M::from($n as f64 + 0.25)),
            1 => $f(M::from($n)),
            2 => $f(M::from(-($n as i64) - 1)),
            3 => $f(M::from(Seconds::from_subsample_tesimals_u64($n * 1000003))),
            4 => $f(M::from($n as u32)),
            5 => $f(M::from(($n as f32) * 0.5)),
            6 => $f(M::from($n as usize)),
            7 => $f(M::from(STRS[$n as usize % 40])),
            8 => $f(M::from(i64::MIN + $n as i64)),
            9 => $f(M::from(u64::MAX - $n)),
            10 => $f(M::from(($n % 251) as u8)),
            11 => $f(M::from(-(($n % 120) as i8))),
            12 => $f(M::from(($n % 60000) as u16)),
            13 => $f(M::from(-(($n % 30000) as i16))),
            14 => $f(M::from(-($n as i32))),
            _ => $f(M::from(f64::MAX / ($n as f64 + 1.0))),
        }
    };
}
fn expect(i: &Item) -> M {
    let n = i.1;
    match i.0 {
        0 => M::Float(n as f64 + 0.25),
        1 | 4 | 6 => M::Unsigned(n),
        2 => M::Signed(-(n as i64) - 1),
        3 => M::Timestamp(Seconds::from_subsample_tesimals_u64(n * 1000003)),
        5 => M::Float((n as f32 * 0.5) as f64),
        7 => M::Str(STRS[n as usize % 40]),
        8 => M::Signed(i64::MIN + n as i64),
        9 => M::Unsigned(u64::MAX - n),
        10 => M::Unsigned(n % 251),
        11 => M::Signed(-((n % 120) as i64)),
        12 => M::Unsigned(n % 60000),
        13 => M::Signed(-((n % 30000) as i64)),
        14 => M::Signed(-(n as i64)),
        _ => M::Float(f64::MAX / (n as f64 + 1.0)),
    }
}
fn fail(c: &'static str, d: String) {
    w(|w| {
        if w.viol.is_none() {
            w.viol = Some((c, d))
        }
    })
}
/// The audio side writes a chain to channel `c`. Operations in `between[i]` happen before message i.
fn write(c: usize, kinds: &[i64], between: &[Op]) {
    let Some(mut tx) = w(|w| w.ch[c].tx.take()) else { return };
    let items: Vec<Item> = w(|w| {
        let ch = &mut w.ch[c];
        let held: usize = ch.chains.iter().map(|c| c.held).sum();
        let room = held + kinds.len() + 1 <= ch.cap;
        kinds
            .iter()
            .map(|k| {
                ch.serial += 1;
                let mut k = k.rem_euclid(16);
                if !room && matches!(k, 7 | 10..=13) {
                    // of a chain which may arrive in part every message has to be unique
                    k %= 5;
                }
                Item(k, ch.serial * 4 + c as u64)
            })
            .collect()
    });
    let id = w(|w| {
        let ch = &mut w.ch[c];
        let held: usize = ch.chains.iter().map(|c| c.held).sum();
        let n = items.len() + 1;
        let room = held + n <= ch.cap;
        ch.chains.push(Chain { items: items.iter().map(expect).collect(), room, ended: false, got: false, held: n });
        w.o.fault(if room { "chain_fits" } else { "channel_full" });
        ch.chains.len() - 1
    });
    // what the other side does before message i
    let gap = |i: usize| {
        for o in between {
            if o.a(0) as usize == i.min(99) {
                w(|w| w.o.fault("poll_within_chain"));
                step(o);
            }
        }
    };
    // The macro evaluates each message right before it sends it
    macro_rules! m {
        ($i:expr) => {{
            gap($i);
            item!(items[$i].0, items[$i].1, |m| m)
        }};
    }
    let l = tx.logger();
    match items.len() {
        0 => rt_log!(l;),
        1 => rt_log!(l; m!(0)),
        2 => rt_log!(l; m!(0), m!(1)),
        3 => rt_log!(l; m!(0), m!(1), m!(2)),
        4 => rt_log!(l; m!(0), m!(1), m!(2), m!(3)),
        5 => rt_log!(l; m!(0), m!(1), m!(2), m!(3), m!(4)),
        6 => rt_log!(l; m!(0), m!(1), m!(2), m!(3), m!(4), m!(5)),
        7 => rt_log!(l; m!(0), m!(1), m!(2), m!(3), m!(4), m!(5), m!(6)),
        n => {
            for i in 0..n {
                l.send(m!(i));
            }
            gap(n);
            l.send(M::End);
        }
    }
    w(|w| {
        let ch = &mut w.ch[c];
        ch.chains[id].ended = true;
        ch.tx = Some(tx);
        w.o.blocks += 1;
    });
}
/// The control side polls. Operations in `during` happen while its handler is called.
fn poll(during: &[Op]) {
    let Some(mut rx) = RX.with(|r| r.borrow_mut().take()) else { return };
    // complete before the poll starts, must have been received when it ends
    let due: Vec<usize> = w(|w| w.ch.iter().map(|c| c.chains.iter().take_while(|c| c.ended).count()).collect());
    let mut calls = 0usize;
    let mut cur: Option<usize> = None;
    alloc::sut(|| {
        rx.recv(|s| {
            alloc::pause(|| {
                if s.iter().any(|m| m.is_end()) || !s.is_empty() {
                    w(|w| {
                        for m in s {
                            arrived(w, m, &mut cur);
                        }
                    });
                }
                for o in during {
                    if o.a(0) as usize == calls.min(99) {
                        w(|w| w.o.fault("write_during_poll"));
                        step(o);
                    }
                }
                calls += 1;
            })
        })
    });
    RX.with(|r| *r.borrow_mut() = Some(rx));
    w(|w| {
        w.o.switches += 1;
        if cur.is_some() || w.ch.iter().any(|c| !c.part.is_empty()) {
            w.viol.get_or_insert(("log", "part of a message chain was received without its end".into()));
        }
        let mut least = 0;
        for (k, c) in w.ch.iter_mut().enumerate() {
            for i in 0..due[k] {
                c.chains[i].held = 0;
                if c.chains[i].room && c.chains[i].items.is_empty() {
                    least += 1;
                } else if c.chains[i].room && !c.chains[i].got {
                    let d = format!("chain {i} of channel {k} ({:?}) was complete before the receiver was polled and there was room for it, but it was not received", c.chains[i].items);
                    w.viol.get_or_insert(("log", d));
                    return;
                }
            }
        }
        if least > w.empty {
            w.viol.get_or_insert(("log", format!("{} empty message chains were received, {least} have to be", w.empty)));
        }
    });
}
fn subsequence(a: &[M], b: &[M]) -> bool {
    let mut i = 0;
    for m in b {
        if i < a.len() && same(&a[i], m) {
            i += 1;
        }
    }
    i == a.len()
}
fn arrived(w: &mut W, m: &M, cur: &mut Option<usize>) {
    w.o.evals += 1;
    if !m.is_end() {
        // which channel it is from is found at the end of the chain
        w.ch[0].part.push(*m);
        *cur = Some(0);
        return;
    }
    *cur = None;
    let part = std::mem::take(&mut w.ch[0].part);
    w.o.hash = hash(&[w.o.hash, part.len() as u64]);
    // Channels are polled in any order, chains of one in the order written
    if part.is_empty() {
        // an empty one, or nothing of it arrived but its end: only their number is checked
        w.empty += 1;
        let most: usize = w.ch.iter().map(|c| c.chains.iter().filter(|x| x.items.is_empty() || !x.room).count()).sum();
        if w.empty > most {
            w.viol.get_or_insert(("log", format!("{} empty message chains were received, at most {most} were sent", w.empty)));
        }
        return;
    }
    for k in 0..w.ch.len() {
        let c = &mut w.ch[k];
        for i in c.next..c.chains.len() {
            let x = &c.chains[i];
            if subsequence(&part, &x.items) && (!x.room || part.len() == x.items.len()) {
                if let Some(j) = (c.next..i).find(|j| c.chains[*j].room && !c.chains[*j].items.is_empty()) {
                    let d = format!("chain {i} of channel {k} was received before chain {j}: {:?}", c.chains[j].items);
                    w.viol.get_or_insert(("log", d));
                }
                c.chains[i].got = true;
                c.next = i + 1;
                return;
            }
        }
    }
    let d = format!("received a chain {part:?} which is not a chain sent and not received before, nor what may be left of one");
    w.viol.get_or_insert(("log", d));
}
fn step(o: &Op) {
    if w(|w| w.viol.is_some()) {
        return;
    }
    let n = w(|w| w.ch.len());
    match o.name.as_str() {
        // write <when> <channel> <kinds...>
        "write" if n > 0 => write(o.a(1).rem_euclid(n as i64) as usize, o.args.get(2..).unwrap_or(&[]), &o.sub),
        "poll" => poll(&o.sub),
        "add" => {
            let Some(rx) = RX.with(|r| r.borrow_mut().take()) else { return };
            let cap = o.a(1).clamp(1, 4096) as usize;
            let (tx, rx) = rx.add(cap);
            if let Some(tx) = tx {
                w(|w| {
                    w.o.fault("add_channel");
                    w.ch.push(Chan { cap, tx: Some(AudioCtx::new(48000, 16, tx)), chains: vec![], next: 0, part: vec![], serial: 0 });
                    if rx.channels() != w.ch.len() {
                        w.viol = Some(("log", format!("{} channels instead of {}", rx.channels(), w.ch.len())));
                    }
                });
            }
            RX.with(|r| *r.borrow_mut() = Some(rx));
        }
        "dropsend" if n > 0 => {
            let t = w(|w| {
                w.o.fault("drop_sender");
                w.ch[o.a(1).rem_euclid(n as i64) as usize].tx.take()
            });
            drop(t);
        }
        "droprecv" => {
            if let Some(r) = RX.with(|r| r.borrow_mut().take()) {
                w(|w| w.o.fault("drop_receiver"));
                drop(r);
            }
        }
        _ => (),
    }
}
pub fn run(t: &Trace) -> Outcome {
    alloc::quarantine_start();
    let r = std::panic::catch_unwind(|| {
        ST.with(|s| *s.borrow_mut() = Some(W { ch: vec![], o: Outcome::default(), viol: None, empty: 0 }));
        RX.with(|r| *r.borrow_mut() = Some(Rx::R0(ArLogReceiver::new())));
        for o in &t.steps {
            step(o);
        }
        poll(&[]);
        let mut w = ST.with(|s| s.borrow_mut().take().unwrap());
        let rx = RX.with(|r| r.borrow_mut().take());
        let mut o = std::mem::take(&mut w.o);
        if let Some(v) = w.viol.take() {
            o.violation = Some(Violation { class: v.0, detail: v.1 });
        }
        drop((rx, w));
        o
    });
    let c = alloc::quarantine_end();
    let mut o = match r {
        Ok(o) => o,
        Err(_) => Outcome { violation: Some(Violation { class: "panic", detail: crate::panic_message() }), abandoned: true, ..Default::default() },
    };
    if o.violation.is_none() && c.0 + c.1 > 0 {
        o.violation = Some(Violation { class: "corrupt", detail: format!("{} writes beyond an allocation, {} writes to freed memory", c.0, c.1) });
    }
    let mut h = 0;
    for s in &t.steps {
        for b in s.text().bytes() {
            h = hash(&[h, b as u64]);
        }
    }
    o.inter = h;
    o.hash = hash(&[o.hash, h]);
    o.points = t.size() as u64;
    o
}
fn gen_write(r: &mut Rng, depth: u64, at: i64, long: i64) -> Op {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.below(long as u64 + 2) as i64,
        _ => r.below(8) as i64,
    };
    let mut a = vec![at, r.below(3) as i64];
    // kinds whose values are all different, so that chains are told apart; sometimes any kind
    let any = r.chance(1, 3);
    for i in 0..n {
        a.push(if any && i > 0 { r.below(16) as i64 } else { [0, 1, 2, 3, 4, 8, 9][r.below(7) as usize] });
    }
    let mut sub = vec![];
    if depth > 0 && r.chance(1, 2) {
        for _ in 0..1 + r.below(3) {
            let k = r.below(n as u64 + 1) as i64;
            sub.push(gen_poll(r, depth - 1, k, long));
        }
    }
    Op::new("write", &a).with(sub)
}
fn gen_poll(r: &mut Rng, depth: u64, at: i64, long: i64) -> Op {
    let mut sub = vec![];
    if depth > 0 && r.chance(1, 3) {
        for _ in 0..1 + r.below(3) {
            let k = r.below(6) as i64;
            sub.push(gen_write(r, depth - 1, k, long));
        }
    }
    Op::new("poll", &[at]).with(sub)
}
pub fn generate(prop: &str, seed: u64) -> Trace {
    let mut r = Rng::new(hash(&[seed, 0x1060]));
    let mut t = Trace { prop: prop.into(), engine: "log".into(), seed, ..Default::default() };
    let small = r.chance(3, 4);
    let cap = |r: &mut Rng| if small { 1 + r.below(12) as i64 } else { 1 + r.below(100) as i64 };
    let c = cap(&mut r);
    t.steps.push(Op::new("add", &[0, c]));
    let steps = 2 + r.below(60);
    let polls = 1 + r.below(10);
    for _ in 0..steps {
        let o = match r.weighted(&[20, polls as u32 * 2, 1, 1, 1]) {
            0 => gen_write(&mut r, 2, 0, c),
            1 => gen_poll(&mut r, 2, 0, c),
            2 => {
                let c = cap(&mut r);
                Op::new("add", &[0, c])
            }
            3 if r.chance(1, 4) => Op::new("dropsend", &[0, r.below(3) as i64]),
            4 if r.chance(1, 12) => Op::new("droprecv", &[]),
            _ => Op::new("poll", &[0]),
        };
        t.steps.push(o);
    }
    t
}
