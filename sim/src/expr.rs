//! C23: graph expressions. Generated expressions are spelled with the operators of the static and
//! the dynamic handles while blocks are being rendered, and the output is compared with the same
//! expression computed on the signals of its operands.
use crate::alloc;
use crate::rng::{Rng, hash};
use crate::trace::{Op, Outcome, Trace, Violation};
use knaster_core::{AudioCtx, Float, Frame, Param, ParameterHint, ParameterValue, Size, UGen, UGenFlags, numeric_array::NumericArray, typenum::*};
use knaster_core_dsp::wrappers_core::WrArParams;
use knaster_graph::{
    graph::{Graph, GraphOptions, NodeId},
    graph_edit::{ChannelsHandle, DH, DynamicChannelsHandle, DynamicHandle3, GraphEdit, Handle3, SH, Stack},
    processor::{AudioProcessor, AudioProcessorOptions},
};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::rc::Rc;

fn sig<F: Float>(label: u64, ch: u64, frame: u64) -> F {
    let h = hash(&[label, ch, frame]);
    F::new(match h % 16 {
        0 => 0.0,
        1 => -1.0,
        2 => 2.0,
        3 => -((h >> 40) as f64),
        _ => ((h >> 32) as i32) as f64 / (1u64 << 28) as f64,
    })
}
pub struct Src<F, N> {
    label: u64,
    m: PhantomData<(F, N)>,
}
impl<F: Float, N: Size> UGen for Src<F, N> {
    type Sample = F;
    type Inputs = U0;
    type Outputs = N;
    type Parameters = U0;
    fn process(&mut self, c: &mut AudioCtx, _: &mut UGenFlags, _: Frame<F, U0>) -> Frame<F, N> {
        let mut o = Frame::<F, N>::default();
        for ch in 0..N::USIZE {
            o[ch] = sig(self.label, ch as u64, c.frame_clock());
        }
        o
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
pub struct Mix<F, I, O> {
    label: u64,
    m: PhantomData<(F, I, O)>,
}
fn mix<F: Float>(label: u64, ch: usize, x: F) -> F {
    x * F::new(0.5) + F::new((label % 7) as f64 + ch as f64)
}
impl<F: Float, I: Size, O: Size> UGen for Mix<F, I, O> {
    type Sample = F;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, i: Frame<F, I>) -> Frame<F, O> {
        let mut o = Frame::<F, O>::default();
        for ch in 0..O::USIZE {
            o[ch] = mix(self.label, ch, i[ch % I::USIZE]);
        }
        o
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
/// Model of a signal
enum Ex<F> {
    Zero,
    Src(u64, u64),
    In(usize),
    Const(F),
    Bin(i64, E<F>, E<F>),
    Mix(u64, usize, E<F>),
    /// The input and the signal of the parameter
    Par(E<F>, E<F>),
    /// One block later, silent until after the block with this number
    Fb(Rc<Cell<u64>>, E<F>),
    Sub(Rc<RefCell<SubM<F>>>, usize),
}
type E<F> = Rc<Ex<F>>;
struct SubM<F> {
    ins: Vec<E<F>>,
    out: Outs<F>,
}
/// Sources of every output channel: committed and as edited so far
struct Outs<F> {
    done: Vec<Vec<E<F>>>,
    edit: Vec<Vec<E<F>>>,
}
impl<F> Outs<F> {
    fn new(n: usize) -> Self {
        Outs { done: vec![vec![]; n], edit: vec![vec![]; n] }
    }
    fn commit(&mut self) {
        self.done = self.edit.clone();
    }
}
/// A value: exact, or with an error bound where the order of a sum is not specified
#[derive(Clone, Copy)]
struct Val<F> {
    v: F,
    exact: bool,
}
struct Eval<'a, F> {
    bs: u64,
    frame: u64,
    ins: &'a dyn Fn(usize) -> Val<F>,
}
fn ap<F: Float>(op: i64, a: F, b: F) -> F {
    match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        _ => a.powf(b),
    }
}
fn ev<F: Float>(c: &Eval<F>, e: &E<F>, memo: &mut HashMap<*const Ex<F>, Val<F>>) -> Val<F> {
    let p = Rc::as_ptr(e);
    if let Some(v) = memo.get(&p) {
        return *v;
    }
    let ex = |v| Val { v, exact: true };
    let v = match &**e {
        Ex::Zero => ex(F::ZERO),
        Ex::Src(l, ch) => ex(sig(*l, *ch, c.frame)),
        Ex::In(i) => (c.ins)(*i),
        Ex::Const(v) => ex(*v),
        Ex::Bin(op, a, b) => {
            let (a, b) = (ev(c, a, memo), ev(c, b, memo));
            Val { v: ap(*op, a.v, b.v), exact: a.exact && b.exact }
        }
        Ex::Mix(l, ch, x) => {
            let x = ev(c, x, memo);
            Val { v: mix(*l, *ch, x.v), exact: x.exact }
        }
        Ex::Par(x, p) => {
            let (x, p) = (ev(c, x, memo), ev(c, p, memo));
            Val { v: x.v + p.v * F::new(3.0), exact: x.exact && p.exact }
        }
        Ex::Fb(start, x) => {
            if c.frame < c.bs || c.frame / c.bs <= start.get() { ex(F::ZERO) } else { ev(&Eval { bs: c.bs, frame: c.frame - c.bs, ins: c.ins }, x, &mut HashMap::new()) }
        }
        Ex::Sub(s, ch) => {
            let s = s.borrow();
            let iv: Vec<Val<F>> = s.ins.iter().map(|e| ev(c, e, memo)).collect();
            let f = |i: usize| iv.get(i).copied().unwrap_or(Val { v: F::ZERO, exact: true });
            sum(&Eval { bs: c.bs, frame: c.frame, ins: &f }, &s.out.done[*ch], &mut HashMap::new())
        }
    };
    memo.insert(p, v);
    v
}
/// Only sources and what is computed of them
fn pure<F>(e: &E<F>) -> bool {
    match &**e {
        Ex::Zero | Ex::Src(..) | Ex::Const(_) => true,
        Ex::In(_) | Ex::Sub(..) => false,
        Ex::Bin(_, a, b) | Ex::Par(a, b) => pure(a) && pure(b),
        Ex::Mix(_, _, a) | Ex::Fb(_, a) => pure(a),
    }
}
/// Adds a parameter, which can follow a signal, to its input
pub struct Par<F> {
    p: F,
}
impl<F: Float> UGen for Par<F> {
    type Sample = F;
    type Inputs = U1;
    type Outputs = U1;
    type Parameters = U2;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, i: Frame<F, U1>) -> Frame<F, U1> {
        [i[0] + self.p * F::new(3.0)].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U2> {
        ["other", "gain"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U2> {
        [ParameterHint::infinite_float(), ParameterHint::infinite_float()].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, i: usize, v: ParameterValue) {
        if i == 1 {
            self.p = F::new(v.float().unwrap());
        }
    }
}
fn sum<F: Float>(c: &Eval<F>, s: &[E<F>], memo: &mut HashMap<*const Ex<F>, Val<F>>) -> Val<F> {
    let mut v = Val { v: F::ZERO, exact: true };
    for (i, e) in s.iter().enumerate() {
        let x = ev(c, e, memo);
        v = Val { v: if i == 0 { x.v } else { v.v + x.v }, exact: v.exact && x.exact && s.len() < 3 };
    }
    v
}
type H<'a, 'b, F, U> = SH<'a, 'b, F, Handle3<U>>;
type C<'a, 'b, F, N> = SH<'a, 'b, F, ChannelsHandle<N>>;
type T<'a, 'b, F, A, B> = SH<'a, 'b, F, Stack<ChannelsHandle<A>, ChannelsHandle<B>>>;
#[derive(Clone)]
enum V<'a, 'b, F: Float> {
    H1(H<'a, 'b, F, Src<F, U1>>),
    H2(H<'a, 'b, F, Src<F, U2>>),
    H3(H<'a, 'b, F, Src<F, U3>>),
    M11(H<'a, 'b, F, Mix<F, U1, U1>>),
    M22(H<'a, 'b, F, Mix<F, U2, U2>>),
    TM(SH<'a, 'b, F, Stack<Handle3<Mix<F, U1, U1>>, Handle3<Mix<F, U1, U1>>>>),
    C1(C<'a, 'b, F, U1>),
    C2(C<'a, 'b, F, U2>),
    C3(C<'a, 'b, F, U3>),
    C4(C<'a, 'b, F, U4>),
    T11(T<'a, 'b, F, U1, U1>),
    T12(T<'a, 'b, F, U1, U2>),
    T22(T<'a, 'b, F, U2, U2>),
    D(DH<'a, 'b, F, DynamicHandle3>),
    DC(DH<'a, 'b, F, DynamicChannelsHandle>),
}
/// Calls `$b` with the static handle in `$v` as `$x`; `$d` for dynamic ones
macro_rules! st {
    ($v:expr, $x:ident => $b:expr, $y:ident => $d:expr) => {
        match $v {
            V::H1($x) => $b,
            V::H2($x) => $b,
            V::H3($x) => $b,
            V::M11($x) => $b,
            V::M22($x) => $b,
            V::TM($x) => $b,
            V::C1($x) => $b,
            V::C2($x) => $b,
            V::C3($x) => $b,
            V::C4($x) => $b,
            V::T11($x) => $b,
            V::T12($x) => $b,
            V::T22($x) => $b,
            V::D($y) => $d,
            V::DC($y) => $d,
        }
    };
}
/// Static handles with the same number of outputs on both sides
macro_rules! pairs {
    ($a:expr, $b:expr, $x:ident, $y:ident => $r:ident $op:expr; $($ret:ident: [$($l:ident)*] $all:tt;)*) => {
        match ($a, $b) {
            $($((V::$l($x), y) => pairs!(@2 y, $y => $r $op; $ret $all),)*)*
            _ => None,
        }
    };
    (@2 $b:ident, $y:ident => $r:ident $op:expr; $ret:ident [$($k:ident)*]) => {
        match $b {
            $(V::$k($y) => Some(V::$ret($op)),)*
            _ => None,
        }
    };
}
macro_rules! same {
    ($a:expr, $b:expr, $x:ident, $y:ident => $op:expr) => {
        pairs!($a, $b, $x, $y => r $op;
            C1: [H1 M11 C1] [H1 M11 C1];
            C2: [H2 M22 TM C2 T11] [H2 M22 TM C2 T11];
            C3: [H3 C3 T12] [H3 C3 T12];
            C4: [C4 T22] [C4 T22];
        )
    };
}
impl<'a, 'b, F: Float> V<'a, 'b, F> {
    fn is_static(&self) -> bool {
        !matches!(self, V::D(_) | V::DC(_))
    }
    fn dynamic(self) -> V<'a, 'b, F> {
        match self {
            V::H1(x) => V::D(x.dynamic()),
            V::H2(x) => V::D(x.dynamic()),
            V::H3(x) => V::D(x.dynamic()),
            V::M11(x) => V::D(x.dynamic()),
            V::M22(x) => V::D(x.dynamic()),
            V::TM(x) => V::DC(x.dynamic()),
            V::C1(x) => V::DC(x.dynamic()),
            V::C2(x) => V::DC(x.dynamic()),
            V::C3(x) => V::DC(x.dynamic()),
            V::C4(x) => V::DC(x.dynamic()),
            V::T11(x) => V::DC(x.dynamic()),
            V::T12(x) => V::DC(x.dynamic()),
            V::T22(x) => V::DC(x.dynamic()),
            V::D(x) => V::D(x.dynamic()),
            V::DC(x) => V::DC(x.dynamic()),
        }
    }
    fn bin(self, op: i64, b: V<'a, 'b, F>) -> V<'a, 'b, F> {
        if self.is_static() && b.is_static() {
            let r = match op {
                0 => same!(self, b, x, y => x + y),
                1 => same!(self, b, x, y => x - y),
                2 => same!(self, b, x, y => x * y),
                3 => same!(self, b, x, y => x / y),
                _ => same!(self, b, x, y => x.pow(y)),
            };
            return r.expect("harness: different numbers of channels");
        }
        if op > 3 {
            return V::DC(match (self.dynamic(), b.dynamic()) {
                (V::D(x), V::D(y)) => x.pow(y),
                (V::D(x), V::DC(y)) => x.pow(y),
                (V::DC(x), V::D(y)) => x.pow(y),
                (V::DC(x), V::DC(y)) => x.pow(y),
                _ => unreachable!(),
            });
        }
        macro_rules! sd {
            ($x:ident, $y:ident => $op:expr) => {
                match (self, b) {
                    (V::D($x), V::D($y)) => $op,
                    (V::D($x), V::DC($y)) => $op,
                    (V::DC($x), V::D($y)) => $op,
                    (V::DC($x), V::DC($y)) => $op,
                    (V::D($x), s) => st!(s, $y => $op, _z => unreachable!()),
                    (V::DC($x), s) => st!(s, $y => $op, _z => unreachable!()),
                    (s, V::D($y)) => st!(s, $x => $op, _z => unreachable!()),
                    (s, V::DC($y)) => st!(s, $x => $op, _z => unreachable!()),
                    _ => unreachable!(),
                }
            };
        }
        V::DC(match op {
            0 => sd!(x, y => x + y),
            1 => sd!(x, y => x - y),
            2 => sd!(x, y => x * y),
            _ => sd!(x, y => x / y),
        })
    }
    /// Constant of type `ty` on the left or the right
    fn con(self, op: i64, left: bool, ty: i64, k: i64) -> V<'a, 'b, F> {
        macro_rules! all {
            ($x:ident => $e:expr) => {
                match self {
                    V::H1($x) => V::C1($e),
                    V::H2($x) => V::C2($e),
                    V::H3($x) => V::C3($e),
                    V::M11($x) => V::C1($e),
                    V::M22($x) => V::C2($e),
                    V::C1($x) => V::C1($e),
                    V::C2($x) => V::C2($e),
                    V::C3($x) => V::C3($e),
                    V::C4($x) => V::C4($e),
                    V::T11($x) => V::C2($e),
                    V::T12($x) => V::C3($e),
                    V::TM($x) => V::C2($e),
                    V::T22($x) => V::C4($e),
                    V::D($x) => V::DC($e),
                    V::DC($x) => V::DC($e),
                }
            };
        }
        macro_rules! ops {
            ($c:expr) => {{
                let c = $c;
                match (op, left) {
                    (0, true) => all!(x => c + x),
                    (0, false) => all!(x => x + c),
                    (1, true) => all!(x => c - x),
                    (1, false) => all!(x => x - c),
                    (2, true) => all!(x => c * x),
                    (2, false) => all!(x => x * c),
                    (_, true) => all!(x => c / x),
                    (_, false) => all!(x => x / c),
                }
            }};
        }
        match ty {
            0 => ops!(cf(k) as f32),
            1 => ops!(cf(k)),
            2 => ops!(cu(k)),
            _ => ops!(k as i32),
        }
    }
    fn out(&self, ch: &[u16]) -> V<'a, 'b, F> {
        macro_rules! o {
            ($x:expr, $t:ident $u:ident $v:ident $w:ident) => {
                match *ch {
                    [a] => V::$t($x.out(a)),
                    [a, b] => V::$u($x.out([a, b])),
                    [a, b, c] => V::$v($x.out([a, b, c])),
                    [a, b, c, d] => V::$w($x.out([a, b, c, d])),
                    _ => panic!("harness: channels"),
                }
            };
        }
        st!(self, x => o!(x, C1 C2 C3 C4), y => o!(y, DC DC DC DC))
    }
    fn stack(self, b: V<'a, 'b, F>, bar: bool) -> V<'a, 'b, F> {
        macro_rules! s {
            ($x:expr, $y:expr) => {
                if bar { $x | $y } else { $x.stack($y) }
            };
        }
        match (self, b) {
            (V::C1(x), V::C1(y)) => V::T11(s!(x, y)),
            (V::C1(x), V::C2(y)) => V::T12(s!(x, y)),
            (V::C2(x), V::C2(y)) => V::T22(s!(x, y)),
            (V::D(x), V::D(y)) => V::DC(s!(x, y)),
            (V::D(x), V::DC(y)) => V::DC(s!(x, y)),
            (V::DC(x), V::D(y)) => V::DC(s!(x, y)),
            (V::DC(x), V::DC(y)) => V::DC(s!(x, y)),
            (V::D(y), x) => V::DC(st!(x, x => y | x, _z => unreachable!())),
            (V::DC(y), x) => V::DC(st!(x, x => y | x, _z => unreachable!())),
            (x, V::D(y)) => V::DC(st!(x, x => x | y, _z => unreachable!())),
            (x, V::DC(y)) => V::DC(st!(x, x => x | y, _z => unreachable!())),
            (x, y) => x.dynamic().stack(y.dynamic(), bar),
        }
    }
}
fn cf(k: i64) -> f64 {
    // has to be told apart in f32 and f64
    k as f64 * 0.1
}
fn cu(k: i64) -> usize {
    k.unsigned_abs() as usize
}
fn cval<F: Float>(ty: i64, k: i64) -> F {
    match ty {
        0 => F::new(cf(k) as f32),
        1 => F::new(cf(k)),
        2 => F::new(cu(k) as f64),
        _ => F::new((k as i32) as f64),
    }
}
/// Everything needed while a graph is edited
struct Cx<F: Float> {
    ap: AudioProcessor<F>,
    ins: usize,
    bs: usize,
    clock: u64,
    o: Outcome,
    viol: Option<(&'static str, String)>,
    main: Rc<RefCell<Outs<F>>>,
    ids: HashMap<i64, (NodeId, usize, Vec<E<F>>, String)>,
    subs: HashMap<i64, (Graph<F>, Rc<RefCell<SubM<F>>>)>,
    named: u64,
    /// Feedback made in the edit which is going on
    fresh: Vec<Rc<Cell<u64>>>,
}
impl<F: Float> Cx<F> {
    fn block(&mut self) {
        if self.viol.is_some() {
            return;
        }
        let bufs: Vec<Vec<F>> = (0..self.ins).map(|c| (0..self.bs).map(|i| sig(1 << 40, c as u64, self.clock + i as u64)).collect()).collect();
        let refs: Vec<&[F]> = bufs.iter().map(|b| &b[..]).collect();
        if self.ins == 0 && self.clock % 2 == 0 {
            self.ap.run_without_inputs();
        } else {
            self.ap.run(&refs);
        }
        use knaster_core::BlockRead;
        let main = self.main.clone();
        let main = main.borrow();
        for i in 0..self.bs {
            let frame = self.clock + i as u64;
            let f = |c: usize| Val { v: sig(1 << 40, c as u64, frame), exact: true };
            let mut memo = HashMap::new();
            for (ch, s) in main.done.iter().enumerate() {
                let want = sum(&Eval { bs: self.bs as u64, frame, ins: &f }, s, &mut memo);
                let got = BlockRead::read(&*self.ap.output_block(), ch, i);
                self.o.evals += 1;
                let (w, g) = (Float::to_f64(want.v), Float::to_f64(got));
                if !want.exact {
                    // a sum of three or more signals
                    continue;
                }
                self.o.hash = hash(&[self.o.hash, if g.is_nan() { 0 } else { (g + 0.0).to_bits() }]);
                if !(w == g || w.is_nan() && g.is_nan()) {
                    self.viol = Some(("expr", format!("channel {ch} is {g} in frame {frame} instead of {w}")));
                    return;
                }
            }
        }
        self.clock += self.bs as u64;
        self.o.blocks += 1;
        self.o.frames += self.bs as u64;
    }
}
type R<'a, 'b, F> = (V<'a, 'b, F>, Vec<E<F>>);
fn resize<'a, 'b, F: Float>(r: R<'a, 'b, F>, n: usize) -> R<'a, 'b, F> {
    if r.1.len() == n {
        return r;
    }
    let ch: Vec<u16> = (0..n).map(|i| (i % r.1.len()) as u16).collect();
    (r.0.out(&ch), ch.iter().map(|c| r.1[*c as usize].clone()).collect())
}
/// To a plain channels handle
fn plain<'a, 'b, F: Float>(r: R<'a, 'b, F>) -> R<'a, 'b, F> {
    let ch: Vec<u16> = (0..r.1.len() as u16).collect();
    (r.0.out(&ch), r.1)
}
struct Env<'a, 'b, 'c, F: Float> {
    e: &'a GraphEdit<'b, F>,
    lets: &'c mut HashMap<i64, R<'a, 'b, F>>,
    ins: usize,
    nested: bool,
}
fn push_src<'a, 'b, F: Float>(cx: &mut Cx<F>, e: &'a GraphEdit<'b, F>, n: i64, label: i64, keep: bool) -> R<'a, 'b, F> {
    let l = label as u64;
    let n = n.clamp(1, 3);
    let name = format!("n{}", cx.named);
    cx.named += 1;
    let m = PhantomData;
    let (v, id) = match n {
        1 => {
            let h = e.push(Src::<F, U1> { label: l, m: PhantomData }).name(name.as_str());
            (V::H1(h), h.id())
        }
        2 => {
            let h = e.push(Src::<F, U2> { label: l, m: PhantomData }).name(name.as_str());
            (V::H2(h), h.id())
        }
        _ => {
            let h = e.push(Src::<F, U3> { label: l, m }).name(name.as_str());
            (V::H3(h), h.id())
        }
    };
    let es: Vec<E<F>> = (0..n).map(|c| Rc::new(Ex::Src(l, c as u64))).collect();
    if keep {
        cx.ids.insert(label, (id, n as usize, es.clone(), name));
    }
    (v, es)
}
fn expr<'a, 'b, F: Float>(cx: &mut Cx<F>, env: &mut Env<'a, 'b, '_, F>, op: &Op) -> R<'a, 'b, F> {
    let e = env.e;
    let sub = |i: usize| op.sub.get(i).cloned().unwrap_or(Op::new("src", &[1, 0]));
    match op.name.as_str() {
        "reg" => match env.lets.get(&op.a(0)) {
            Some(r) => r.clone(),
            None => push_src(cx, e, 1, 0, false),
        },
        "in" if env.ins > 0 => {
            let ch: Vec<u16> = op.args.iter().take(4).map(|c| c.rem_euclid(env.ins as i64) as u16).collect();
            let v = match *ch {
                [a] => V::C1(e.from_inputs(a).unwrap()),
                [a, b] => V::C2(e.from_inputs([a, b]).unwrap()),
                [a, b, c] => V::C3(e.from_inputs([a, b, c]).unwrap()),
                [a, b, c, d] => V::C4(e.from_inputs([a, b, c, d]).unwrap()),
                _ => return push_src(cx, e, 1, 0, false),
            };
            (v, ch.iter().map(|c| Rc::new(Ex::In(*c as usize))).collect())
        }
        // a node pushed in an earlier edit
        "old" => match cx.ids.get(&op.a(0)).cloned() {
            Some((id, _, es, name)) => {
                let h = if op.a(1) == 0 { e.handle(id) } else { e.handle_from_name(&name) };
                match h {
                    Some(h) => (V::D(if op.a(1) == 2 { h.dynamic() } else { h }), es),
                    None => push_src(cx, e, 1, 0, false),
                }
            }
            None => push_src(cx, e, 1, 0, false),
        },
        "bin" => {
            let mut a = expr(cx, env, &sub(0));
            let mut b = expr(cx, env, &sub(1));
            let n = match op.a(3) {
                0 => a.1.len(),
                1 => b.1.len(),
                _ => a.1.len().max(b.1.len()),
            };
            a = resize(a, n);
            b = resize(b, n);
            if op.a(1) != 0 {
                a.0 = a.0.dynamic();
            }
            if op.a(2) != 0 {
                b.0 = b.0.dynamic();
            }
            let o = op.a(0).clamp(0, 4);
            let v = a.0.bin(o, b.0);
            (v, a.1.into_iter().zip(b.1).map(|(a, b)| Rc::new(Ex::Bin(o, a, b))).collect())
        }
        "con" => {
            let a = expr(cx, env, &sub(0));
            let (o, left, ty, k) = (op.a(0).clamp(0, 3), op.a(1) != 0, op.a(2).clamp(0, 3), op.a(3));
            let c: E<F> = Rc::new(Ex::Const(cval(ty, k)));
            let v = a.0.con(o, left, ty, k);
            (v, a.1.into_iter().map(|a| Rc::new(if left { Ex::Bin(o, c.clone(), a) } else { Ex::Bin(o, a, c.clone()) })).collect())
        }
        "out" => {
            let a = expr(cx, env, &sub(0));
            let n = a.1.len() as i64;
            let ch: Vec<u16> = op.args.iter().take(4).map(|c| c.rem_euclid(n) as u16).collect();
            if ch.is_empty() {
                return a;
            }
            (a.0.out(&ch), ch.iter().map(|c| a.1[*c as usize].clone()).collect())
        }
        "dyn" => {
            let a = expr(cx, env, &sub(0));
            let v = match a.0.dynamic() {
                V::D(x) if op.a(0) != 0 => V::DC(x.to_channels_handle()),
                x => x,
            };
            (v, a.1)
        }
        "stack" => {
            let mut a = expr(cx, env, &sub(0));
            let mut b = expr(cx, env, &sub(1));
            if a.1.len() + b.1.len() > 4 {
                a = resize(a, 2);
                b = resize(b, 2);
            }
            if op.a(1) != 0 {
                a.0 = a.0.dynamic();
            } else if a.0.is_static() && b.0.is_static() {
                a = plain(a);
                b = plain(b);
            }
            if op.a(2) != 0 {
                b.0 = b.0.dynamic();
            }
            let v = a.0.stack(b.0, op.a(0) != 0);
            let mut es = a.1;
            es.extend(b.1);
            (v, es)
        }
        "mix" => {
            // kind, label, shr or to, dynamic sink, how it is connected
            let a = expr(cx, env, &sub(0));
            let l = op.a(1) as u64;
            let wide = a.1.len() >= 2;
            let n = if wide { 2 } else { 1 };
            let mut a = resize(a, n);
            let dynsink = op.a(3) != 0;
            // 1: besides another, 2: instead of another, 3 to 5: feedback alone, besides and instead of another,
            // 6, 7: besides another, of which a channel is disconnected
            let mut mode = op.a(4).clamp(0, 7);
            if (3..6).contains(&mode) && (env.nested || !a.1.iter().all(pure)) {
                mode -= 3;
            }
            if matches!(mode, 2..6) && (dynsink || !a.0.is_static()) {
                a.0 = a.0.dynamic();
            }
            let b = if matches!(mode, 0 | 3) { None } else { Some(push_src(cx, e, n as i64, op.a(1) + 1000, false)) };
            let start = Rc::new(Cell::new(u64::MAX));
            if (3..6).contains(&mode) {
                cx.o.fault("feedback");
                cx.fresh.push(start.clone());
            }
            let ins: Vec<E<F>> = (0..n)
                .map(|c| {
                    let x = a.1[c].clone();
                    let x = if (3..6).contains(&mode) { Rc::new(Ex::Fb(start.clone(), x)) } else { x };
                    match &b {
                        Some(b) if matches!(mode, 1 | 4) || matches!(mode, 6 | 7) && c != 0 => Rc::new(Ex::Bin(0, b.1[c].clone(), x)),
                        _ => x,
                    }
                })
                .collect();
            macro_rules! to {
                ($x:expr, $m:expr) => {
                    match mode {
                        2 => $x.to_replace($m),
                        3 | 4 => $x.to_feedback($m),
                        5 => $x.to_feedback_replace($m),
                        _ if op.a(2) != 0 => $x >> $m,
                        _ => $x.to($m),
                    }
                };
            }
            macro_rules! sink {
                ($h:expr, $st:ident, $dy:ident, $($one:ident)*) => {{
                    let h = $h;
                    let dh = h.clone().dynamic();
                    if let Some((b, _)) = &b {
                        let x = b.clone();
                        match x {
                            $(V::$one(x) if !dynsink => drop(x.to(h.clone())),)*
                            x => drop(st!(x, x => x >> dh.clone(), _z => unreachable!())),
                        }
                        match (mode, dynsink) {
                            (6, false) => h.disconnect_input(0),
                            (6, true) => dh.disconnect_input(0),
                            (7, false) => st!(b, x => x.disconnect_output(0), _z => unreachable!()),
                            (7, true) => match b.clone().dynamic() {
                                V::D(x) => x.disconnect_output(0),
                                _ => unreachable!(),
                            },
                            _ => (),
                        }
                    }
                    if dynsink || matches!(mode, 2..6) && !a.0.is_static() {
                        match a.0 {
                            V::D(x) => V::$dy(to!(x, dh)),
                            V::DC(x) => V::$dy(to!(x, dh)),
                            x => V::$dy(st!(x, x => x >> dh, _z => unreachable!())),
                        }
                    } else {
                        match a.0 {
                            $(V::$one(x) => V::$st(to!(x, h)),)*
                            V::D(x) => V::$st(x >> h),
                            V::DC(x) => V::$st(x >> h),
                            _ => panic!("harness: channels"),
                        }
                    }
                }};
            }
            let mixes = |l: u64| -> Vec<E<F>> { (0..n).map(|c| Rc::new(Ex::Mix(l, c, ins[c].clone()))).collect() };
            if !wide {
                let v = sink!(e.push(Mix::<F, U1, U1> { label: l, m: PhantomData }), M11, D, H1 M11 C1);
                return (v, mixes(l));
            }
            if op.a(0) == 0 {
                let v = sink!(e.push(Mix::<F, U2, U2> { label: l, m: PhantomData }), M22, D, H2 M22 TM C2 T11);
                return (v, mixes(l));
            }
            // two sinks stacked
            let h0 = e.push(Mix::<F, U1, U1> { label: l, m: PhantomData });
            let h1 = e.push(Mix::<F, U1, U1> { label: l + 1, m: PhantomData });
            let es = vec![Rc::new(Ex::Mix(l, 0, ins[0].clone())), Rc::new(Ex::Mix(l + 1, 0, ins[1].clone()))];
            (sink!(h0 | h1, TM, DC, H2 M22 TM C2 T11), es)
        }
        // a parameter follows a signal: by index or by name, replacing another, through the dynamic interface
        "par" => {
            let x = resize(expr(cx, env, &sub(0)), 1);
            let p = resize(expr(cx, env, &sub(1)), 1);
            // only static handles of nodes can be linked
            let p = if matches!(*p.1[0], Ex::In(_)) || !p.0.is_static() { push_src(cx, e, 1, op.a(0) + 2000, false) } else { p };
            cx.o.fault("driven_parameter");
            let h = e.push(WrArParams::new(Par { p: F::ZERO }));
            if op.a(1) != 0 {
                let V::H1(o) = push_src(cx, e, 1, op.a(0) + 3000, false).0 else { unreachable!() };
                h.link(1, o);
            }
            let h = match (op.a(2) != 0, p.0) {
                (false, V::H1(s)) => h.link("gain", s),
                (false, V::M11(s)) => h.link(1, s),
                (false, V::C1(s)) => h.link(1, s),
                (_, s) => {
                    let key = if op.a(3) != 0 { Param::from("gain") } else { Param::Index(1) };
                    let dh = h.dynamic();
                    let V::C1(s) = s.out(&[0]) else { unreachable!() };
                    dh.link(key, s);
                    h
                }
            };
            let v = match x.0 {
                V::H1(s) => s.to(h).out(0),
                V::M11(s) => s.to(h).out(0),
                V::C1(s) => s.to(h).out(0),
                V::D(s) => (s >> h).out(0),
                V::DC(s) => (s >> h).out(0),
                _ => panic!("harness: one channel"),
            };
            (V::C1(v), vec![Rc::new(Ex::Par(x.1[0].clone(), p.1[0].clone()))])
        }
        // a new graph within this one: its contents are the statements after its input
        "sub" => {
            let a = expr(cx, env, &sub(0));
            let a = resize(a, 2);
            let m = Rc::new(RefCell::new(SubM { ins: a.1, out: Outs::new(2) }));
            let o = RefCell::new(std::mem::replace(&mut m.borrow_mut().out, Outs::new(2)));
            let (h, g) = e.subgraph::<U2, U2>(GraphOptions { name: format!("s{}", op.a(0)).into(), ring_buffer_size: 50 }, |e2| {
                let mut lets = HashMap::new();
                let mut env = Env { e: &e2, lets: &mut lets, ins: 2, nested: true };
                for s in op.sub.iter().skip(1) {
                    // no blocks in here: the sub graph is not used before its parent is committed
                    statement(cx, &mut env, s, &o, false);
                }
            });
            {
                let mut o = o.into_inner();
                o.commit();
                m.borrow_mut().out = o;
            }
            cx.subs.insert(op.a(0), (g, m.clone()));
            cx.o.fault("nested_graph");
            let v = match a.0 {
                V::H2(x) => x.to(h).dynamic(),
                V::M22(x) => x.to(h).dynamic(),
                V::TM(x) => x.to(h).dynamic(),
                V::C2(x) => x.to(h).dynamic(),
                V::T11(x) => x.to(h).dynamic(),
                V::D(x) => (x >> h).dynamic(),
                V::DC(x) => (x >> h).dynamic(),
                _ => panic!("harness: two channels"),
            };
            (V::D(v), (0..2).map(|c| Rc::new(Ex::Sub(m.clone(), c))).collect())
        }
        "src" => push_src(cx, e, op.a(0), op.a(1), op.a(2) != 0 && op.a(1) != 0),
        _ => push_src(cx, e, 1, 0, false),
    }
}
fn statement<'a, 'b, F: Float>(cx: &mut Cx<F>, env: &mut Env<'a, 'b, '_, F>, s: &Op, outs: &RefCell<Outs<F>>, blocks: bool) {
    let n = outs.borrow().edit.len();
    match s.name.as_str() {
        "blk" if blocks => {
            for _ in 0..s.a(0).clamp(0, 20) {
                cx.o.fault("block_during_edit");
                cx.o.mid_block += 1;
                cx.block();
            }
        }
        "let" if !s.sub.is_empty() => {
            let r = expr(cx, env, &s.sub[0]);
            env.lets.insert(s.a(0), r);
        }
        // replace, all or channels
        "to" if !s.sub.is_empty() => {
            let mut r = expr(cx, env, &s.sub[0]);
            if r.1.len() > n {
                r = resize(r, n);
            }
            let rep = s.a(0) != 0;
            let k = r.1.len();
            let ch: Vec<u16> = if s.a(1) != 0 { (0..k as u16).collect() } else { (0..k).map(|i| ((i as i64 * s.a(3).max(1) + s.a(2)).rem_euclid(n as i64)) as u16).collect() };
            {
                let mut o = outs.borrow_mut();
                for (c, e) in ch.iter().zip(&r.1) {
                    let o = &mut o.edit[*c as usize];
                    if rep {
                        o.clear();
                    }
                    o.push(e.clone());
                }
            }
            if s.a(1) != 0 {
                st!(r.0, x => if rep { x.to_graph_out_replace() } else { x.to_graph_out() }, x => if rep { x.to_graph_out_replace() } else { x.to_graph_out() });
                return;
            }
            macro_rules! chs {
                ($x:expr, $c:expr) => {
                    if rep { $x.to_graph_out_channels_replace($c) } else { $x.to_graph_out_channels($c) }
                };
            }
            match (r.0, &ch[..]) {
                (V::H1(x), &[a]) => chs!(x, a),
                (V::M11(x), &[a]) => chs!(x, a),
                (V::C1(x), &[a]) => chs!(x, a),
                (V::H2(x), &[a, b]) => chs!(x, [a, b]),
                (V::M22(x), &[a, b]) => chs!(x, [a, b]),
                (V::C2(x), &[a, b]) => chs!(x, [a, b]),
                (V::TM(x), &[a, b]) => chs!(x, [a, b]),
                (V::T11(x), &[a, b]) => chs!(x, [a, b]),
                (V::H3(x), &[a, b, c]) => chs!(x, [a, b, c]),
                (V::C3(x), &[a, b, c]) => chs!(x, [a, b, c]),
                (V::T12(x), &[a, b, c]) => chs!(x, [a, b, c]),
                (V::C4(x), &[a, b, c, d]) => chs!(x, [a, b, c, d]),
                (V::T22(x), &[a, b, c, d]) => chs!(x, [a, b, c, d]),
                (V::D(x), &[a]) => chs!(x, a),
                (V::D(x), &[a, b]) => chs!(x, [a, b]),
                (V::D(x), &[a, b, c]) => chs!(x, [a, b, c]),
                (V::DC(x), &[a]) => chs!(x, a),
                (V::DC(x), &[a, b]) => chs!(x, [a, b]),
                (V::DC(x), &[a, b, c]) => chs!(x, [a, b, c]),
                (V::DC(x), &[a, b, c, d]) => chs!(x, [a, b, c, d]),
                _ => panic!("harness: channels"),
            }
        }
        _ => (),
    }
}
pub fn run(t: &Trace) -> Outcome {
    alloc::quarantine_start();
    let r = std::panic::catch_unwind(|| if t.get("f64", 0) != 0 { outs::<f64>(t) } else { outs::<f32>(t) });
    let c = alloc::quarantine_end();
    let mut o = match r {
        Ok(o) => o,
        Err(_) => Outcome { violation: Some(Violation { class: "panic", detail: crate::panic_message() }), ..Default::default() },
    };
    if o.violation.is_none() && c.0 + c.1 > 0 {
        o.violation = Some(Violation { class: "corrupt", detail: format!("{} writes beyond an allocation, {} writes to freed memory", c.0, c.1) });
    }
    let mut h = 0;
    for s in &t.steps {
        for b in s.text().bytes() {
            h = hash(&[h, b as u64]);
        }
    }
    o.inter = h;
    o.points = t.size() as u64;
    o.sim_ns = o.frames * 1_000_000_000 / t.get("sr", 48000) as u64;
    o
}
fn outs<F: Float>(t: &Trace) -> Outcome {
    match (t.get("ins", 0), t.get("outs", 1)) {
        (0, 1) => go::<F, U0, U1>(t),
        (0, 2) => go::<F, U0, U2>(t),
        (0, _) => go::<F, U0, U4>(t),
        (_, 1) => go::<F, U3, U1>(t),
        (_, 2) => go::<F, U3, U2>(t),
        _ => go::<F, U3, U4>(t),
    }
}
fn go<F: Float, I: Size, O: Size + NonZero>(t: &Trace) -> Outcome {
    let bs = t.get("bs", 16).clamp(1, 4096) as usize;
    let (mut g, ap, log) = AudioProcessor::<F>::new::<I, O>(AudioProcessorOptions { block_size: bs, sample_rate: t.get("sr", 48000) as u32, ring_buffer_size: 200, log_channel_capacity: 100 });
    let mut cx = Cx {
        ap,
        ins: I::USIZE,
        bs,
        clock: 0,
        o: Outcome::default(),
        viol: None,
        main: Rc::new(RefCell::new(Outs::new(O::USIZE))),
        ids: HashMap::new(),
        subs: HashMap::new(),
        named: 0,
        fresh: vec![],
    };
    for s in &t.steps {
        if cx.viol.is_some() {
            break;
        }
        match s.name.as_str() {
            "edit" => {
                cx.o.switches += 1;
                let main = cx.main.clone();
                // its edits so far, so that blocks within the edit can look at what is committed
                let work = RefCell::new(Outs { done: vec![], edit: main.borrow().edit.clone() });
                g.edit(|e| {
                    let mut lets = HashMap::new();
                    let mut env = Env { e: &e, lets: &mut lets, ins: I::USIZE, nested: false };
                    for x in &s.sub {
                        statement(&mut cx, &mut env, x, &work, true);
                    }
                });
                for f in cx.fresh.drain(..) {
                    f.set(cx.clock / bs as u64);
                }
                let mut m = main.borrow_mut();
                m.edit = work.into_inner().edit;
                m.commit();
            }
            "editsub" => {
                if let Some((mut sg, m)) = cx.subs.remove(&s.a(0)) {
                    cx.o.fault("nested_graph_edited");
                    let work = RefCell::new(Outs { done: vec![], edit: m.borrow().out.edit.clone() });
                    sg.edit(|e| {
                        let mut lets = HashMap::new();
                        let mut env = Env { e: &e, lets: &mut lets, ins: 2, nested: true };
                        for x in &s.sub {
                            statement(&mut cx, &mut env, x, &work, true);
                        }
                    });
                    {
                        let mut m = m.borrow_mut();
                        m.out.edit = work.into_inner().edit;
                        m.out.commit();
                    }
                    cx.subs.insert(s.a(0), (sg, m));
                }
            }
            "blk" => {
                for _ in 0..s.a(0).clamp(0, 20) {
                    cx.block();
                }
            }
            _ => (),
        }
    }
    cx.block();
    let mut o = std::mem::take(&mut cx.o);
    if let Some(v) = cx.viol.take() {
        o.violation = Some(Violation { class: v.0, detail: v.1 });
    }
    drop((cx, g, log));
    o
}
struct Gen {
    label: i64,
    lets: i64,
    olds: Vec<i64>,
    subs: Vec<i64>,
    dynamic: bool,
}
fn gen_expr(r: &mut Rng, g: &mut Gen, depth: u32, nested: bool) -> Op {
    let d = |r: &mut Rng, g: &Gen| (g.dynamic && r.chance(1, 4)) as i64;
    let leaf = depth == 0;
    let k = if leaf { r.weighted(&[0, 0, 0, 0, 0, 0, 0, 10, 4, 4, 3]) } else { r.weighted(&[14, 8, 3, 4, 2, 4, 1, 3, 2, 3, 1]) };
    match k {
        0 => {
            let a = gen_expr(r, g, depth - 1, nested);
            let b = gen_expr(r, g, depth - 1, nested);
            let o = r.below(5) as i64;
            Op::new("bin", &[o, d(r, g), d(r, g), r.below(3) as i64]).with(vec![a, b])
        }
        1 => {
            let a = gen_expr(r, g, depth - 1, nested);
            let v = match r.below(4) {
                0 => r.range(-5, 5),
                1 => r.range(-1000, 1000),
                2 => r.range(i32::MIN as i64, i32::MAX as i64),
                _ => r.range(0, 20),
            };
            Op::new("con", &[r.below(4) as i64, r.below(2) as i64, r.below(4) as i64, v]).with(vec![a])
        }
        2 => {
            let a = gen_expr(r, g, depth - 1, nested);
            let n = 1 + r.below(4);
            let c: Vec<i64> = (0..n).map(|_| r.below(4) as i64).collect();
            Op::new("out", &c).with(vec![a])
        }
        3 => {
            let a = gen_expr(r, g, depth - 1, nested);
            let b = gen_expr(r, g, depth - 1, nested);
            Op::new("stack", &[r.below(2) as i64, d(r, g), d(r, g)]).with(vec![a, b])
        }
        4 => {
            let a = gen_expr(r, g, depth - 1, nested);
            if g.dynamic { Op::new("dyn", &[r.below(2) as i64]).with(vec![a]) } else { a }
        }
        5 => {
            let a = gen_expr(r, g, depth - 1, nested);
            g.label += 2;
            if depth > 1 && r.chance(1, 5) {
                let p = gen_expr(r, g, depth - 1, nested);
                return Op::new("par", &[g.label, r.chance(1, 4) as i64, r.chance(1, 3) as i64, r.below(2) as i64]).with(vec![a, p]);
            }
            let mode = if r.chance(1, 2) { r.below(8) as i64 } else { 0 };
            Op::new("mix", &[r.below(2) as i64, g.label, r.below(2) as i64, d(r, g), mode]).with(vec![a])
        }
        6 if !nested => {
            let mut v = vec![gen_expr(r, g, depth - 1, nested)];
            // registers belong to one edit
            let lets = std::mem::replace(&mut g.lets, 0);
            let olds = std::mem::take(&mut g.olds);
            for _ in 0..1 + r.below(3) {
                v.push(gen_statement(r, g, depth - 1, true));
            }
            g.lets = lets;
            g.olds = olds;
            g.label += 1;
            g.subs.push(g.label);
            Op::new("sub", &[g.label]).with(v)
        }
        8 => {
            let n = 1 + r.below(4);
            let c: Vec<i64> = (0..n).map(|_| r.below(3) as i64).collect();
            Op::new("in", &c)
        }
        9 if g.lets > 0 => Op::new("reg", &[r.below(g.lets as u64) as i64]),
        10 if !g.olds.is_empty() && g.dynamic => Op::new("old", &[*r.pick(&g.olds), r.below(3) as i64]),
        _ => {
            g.label += 1;
            let keep = !nested && r.chance(1, 3);
            if keep {
                // may be used in later edits
                g.olds.push(g.label);
            }
            Op::new("src", &[1 + r.below(3) as i64, g.label, keep as i64])
        }
    }
}
fn gen_statement(r: &mut Rng, g: &mut Gen, depth: u32, nested: bool) -> Op {
    let k = r.weighted(&[3, 6, if nested { 0 } else { 2 }]);
    match k {
        0 => {
            let e = gen_expr(r, g, depth, nested);
            g.lets += 1;
            Op::new("let", &[g.lets - 1]).with(vec![e])
        }
        1 => {
            let e = gen_expr(r, g, depth, nested);
            Op::new("to", &[r.chance(2, 3) as i64, r.below(2) as i64, r.below(4) as i64, 1 + r.below(3) as i64]).with(vec![e])
        }
        _ => Op::new("blk", &[1 + r.below(2) as i64]),
    }
}
pub fn generate(prop: &str, seed: u64) -> Trace {
    let mut r = Rng::new(hash(&[seed, 0x2300]));
    let mut t = Trace { prop: prop.into(), engine: "expr".into(), seed, ..Default::default() };
    t.set("sr", [8000, 44100, 48000, 96000][r.below(4) as usize]);
    t.set("f64", r.chance(1, 2) as i64);
    t.set("bs", [1, 2, 3, 4, 7, 8, 16, 32, 64][r.below(9) as usize]);
    t.set("ins", r.below(2) as i64 * 3);
    t.set("outs", [1, 2, 4][r.below(3) as usize]);
    let mut g = Gen { label: 0, lets: 0, olds: vec![], subs: vec![], dynamic: r.chance(3, 4) };
    for _ in 0..1 + r.below(5) {
        g.lets = 0;
        let depth = 1 + r.below(4) as u32;
        let mut v = vec![];
        if !g.subs.is_empty() && r.chance(1, 4) {
            let s = *r.pick(&g.subs);
            let olds = std::mem::take(&mut g.olds);
            for _ in 0..1 + r.below(3) {
                v.push(gen_statement(&mut r, &mut g, depth, true));
            }
            g.olds = olds;
            t.steps.push(Op::new("editsub", &[s]).with(v));
        } else {
            for _ in 0..1 + r.below(5) {
                v.push(gen_statement(&mut r, &mut g, depth, false));
            }
            t.steps.push(Op::new("edit", &[]).with(v));
        }
        t.steps.push(Op::new("blk", &[1 + r.below(3) as i64]));
    }
    t
}
