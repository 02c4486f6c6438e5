//! Construction of typed nodes from the untyped description in a trace.
use crate::probe::Probe;
use knaster_core::typenum::*;
use knaster_core::{Done, Float, Param, ParameterHint, ParameterSmoothing, ParameterValue, Seconds};
use knaster_core_dsp::wrappers_core::{UGenWrapperCoreExt, WrArParams, WrPreciseTiming};
use knaster_graph::graph::{Graph, GraphOptions, NodeId};
use knaster_graph::graph::GraphError;
use knaster_graph::graph_edit::{GraphEdit, Parameter};
use knaster_graph::handle::HandleTrait;
use knaster_graph::SchedulingToken;

pub const SHAPES: [(u16, u16); 11] = [
    (0, 1),
    (1, 1),
    (2, 1),
    (1, 2),
    (2, 2),
    (0, 2),
    (1, 0),
    (3, 3),
    (0, 0),
    (6, 5),
    (9, 12),
];
pub const PRECISE_CAP: usize = 8;
pub const SUB_SHAPES: [(u16, u16); 9] = [(0, 1), (1, 1), (2, 2), (1, 2), (0, 2), (2, 1), (1, 0), (5, 6), (9, 10)];

pub struct Pushed {
    pub id: NodeId,
    pub params: Vec<Parameter>,
}
fn done(d: i64) -> Done {
    match d {
        2 => Done::FreeSelf,
        3 => Done::FreeParent,
        _ => Done::None,
    }
}
pub const PARAMS: [&str; 4] = ["pa", "pb", "plan", "trig"];
macro_rules! finish {
    ($e:expr, $h:expr, $l:expr, $done:expr, $outs:expr, $link:expr) => {{
        let h = $h;
        let link: Option<(NodeId, usize, u16)> = $link;
        if $outs > 0 {
            if let Some((dst, p, ch)) = link {
                if let Some(d) = $e.handle(dst) {
                    if p < 2 && $l % 2 == 1 { d.link(PARAMS[p], h.out(ch)) } else { d.link(p, h.out(ch)) };
                }
            }
        }
        // some of them by name
        let mut params: Vec<Parameter> = (0..4usize).map(|i| if ($l as usize + i) % 3 == 0 { h.param(PARAMS[i]) } else { h.param(i) }).collect();
        params.extend(h.try_param("wr_mul"));
        if $done != 0 {
            params.extend(if $l % 2 == 0 { h.try_param("done_action") } else { h.try_param(params.len()) });
        }
        Pushed { id: h.id(), params }
    }};
}
macro_rules! wrapped {
    ($e:expr, $l:expr, $u:expr, $done:expr, $outs:expr, $link:expr) => {
        if $done == 0 {
            finish!($e, $e.push($u), $l, 0, $outs, $link)
        } else {
            finish!($e, $e.push_with_done_action($u, done($done)), $l, 1, $outs, $link)
        }
    };
}
macro_rules! shape {
    ($e:expr, $l:expr, $w:expr, $d:expr, $i:ty, $o:ty, $outs:expr, $link:expr) => {
        match $w & 3 {
            1 => wrapped!($e, $l, WrPreciseTiming::<PRECISE_CAP, _>::new(Probe::<F, $i, $o>::new($l)), $d, $outs, $link),
            2 => wrapped!($e, $l, WrArParams::new(Probe::<F, $i, $o>::new($l)), $d, $outs, $link),
            3 => wrapped!(
                $e,
                $l,
                WrPreciseTiming::<PRECISE_CAP, _>::new(WrArParams::new(Probe::<F, $i, $o>::new($l))),
                $d,
                $outs,
                $link
            ),
            _ => wrapped!($e, $l, Probe::<F, $i, $o>::new($l), $d, $outs, $link),
        }
    };
}
// Wrappers around those, which change neither the signal nor what reaches the node
macro_rules! shells {
    ($e:expr, $l:expr, $k:expr, $u:expr, $d:expr, $outs:expr, $link:expr) => {{
        let u = $u;
        match $k {
            1 => wrapped!($e, $l, u.wr_mul(F::ONE), $d, $outs, $link),
            2 => wrapped!($e, $l, u.wr_add(F::ZERO), $d, $outs, $link),
            3 => wrapped!($e, $l, u.wr_sub(F::ZERO), $d, $outs, $link),
            4 => wrapped!($e, $l, u.wr_div(F::ONE), $d, $outs, $link),
            5 => wrapped!($e, $l, u.wr_powi(1), $d, $outs, $link),
            6 => wrapped!($e, $l, u.wr_powf(F::ONE), $d, $outs, $link),
            7 => wrapped!($e, $l, u.wr(|x| x), $d, $outs, $link),
            8 => wrapped!($e, $l, u.wr_v_sub_gen(F::ZERO).wr_v_sub_gen(F::ZERO), $d, $outs, $link),
            // exact for small integers
            _ => wrapped!($e, $l, u.wr_v_div_gen(F::ONE).wr_v_div_gen(F::ONE).wr(|x| F::new(x.to_f64().round())), $d, $outs, $link),
        }
    }};
}
macro_rules! shelled {
    ($e:expr, $l:expr, $w:expr, $d:expr, $i:ty, $o:ty, $outs:expr, $link:expr) => {{
        let k = $w >> 2;
        match $w & 3 {
            1 => shells!($e, $l, k, WrPreciseTiming::<PRECISE_CAP, _>::new(Probe::<F, $i, $o>::new($l)), $d, $outs, $link),
            2 => shells!($e, $l, k, WrArParams::new(Probe::<F, $i, $o>::new($l)), $d, $outs, $link),
            3 => shells!($e, $l, k, WrPreciseTiming::<PRECISE_CAP, _>::new(WrArParams::new(Probe::<F, $i, $o>::new($l))), $d, $outs, $link),
            _ => shells!($e, $l, k, Probe::<F, $i, $o>::new($l), $d, $outs, $link),
        }
    }};
}
/// Push a probe in an edit. `wrap` & 3 is 1: precise timing, 2: audio rate parameters, 3: both; `wrap` >> 2 is the
/// arithmetic wrapper around them, see `shells`
pub fn push<F: Float>(
    e: &GraphEdit<F>,
    label: u32,
    shape: usize,
    wrap: i64,
    d: i64,
    link: Option<(NodeId, usize, u16)>,
) -> Pushed {
    match shape {
        0 => shape!(e, label, wrap, d, U0, U1, 1, link),
        1 if wrap > 3 => shelled!(e, label, wrap, d, U1, U1, 1, link),
        1 => shape!(e, label, wrap, d, U1, U1, 1, link),
        2 => shape!(e, label, 0, d, U2, U1, 1, link),
        3 => shape!(e, label, 0, d, U1, U2, 1, link),
        4 => shape!(e, label, wrap, d, U2, U2, 1, link),
        5 => shape!(e, label, 0, d, U0, U2, 1, link),
        6 => wrapped!(e, label, Probe::<F, U1, U0>::new(label), d, 0, None::<(NodeId, usize, u16)>),
        7 => shape!(e, label, 0, d, U3, U3, 1, link),
        9 => shape!(e, label, 0, d, U6, U5, 1, link),
        10 => shape!(e, label, 0, d, U9, U12, 1, link),
        _ => wrapped!(e, label, Probe::<F, U0, U0>::new(label), d, 0, None::<(NodeId, usize, u16)>),
    }
}
/// Wrappers are only available for some shapes
pub fn wrap_for(shape: usize, wrap: i64) -> i64 {
    let wrap = wrap.clamp(0, SHELLS << 2 | 3);
    match shape {
        1 => wrap,
        0 | 4 => wrap & 3,
        _ => 0,
    }
}
pub const SHELLS: i64 = 9;
pub fn has_mul(wrap: u8) -> bool {
    wrap >> 2 == 1
}
/// The names of the parameters
pub fn params(wrap: u8, done: bool) -> Vec<&'static str> {
    let mut v = PARAMS.to_vec();
    if has_mul(wrap) {
        v.push("wr_mul");
    }
    if done {
        v.push("done_action");
    }
    v
}
/// Typed handles and such without type
pub trait AnyH {
    fn set(&self, p: Param, v: ParameterValue, s: Option<ParameterSmoothing>, t: Option<SchedulingToken>) -> Result<(), GraphError>;
    fn id(&self) -> NodeId;
    fn can_send(&self) -> bool;
    fn time(&self) -> Seconds;
    fn describe(&self) -> (u16, u16, Vec<&'static str>, Vec<ParameterHint>);
}
impl<H: HandleTrait> AnyH for H {
    fn set(&self, p: Param, v: ParameterValue, s: Option<ParameterSmoothing>, t: Option<SchedulingToken>) -> Result<(), GraphError> {
        match (s, t) {
            (None, None) => HandleTrait::set(self, (p, v)),
            (None, Some(t)) => HandleTrait::set(self, (p, v, t)),
            (Some(s), None) => HandleTrait::set(self, (p, v, s)),
            (Some(s), Some(t)) => HandleTrait::set(self, (p, v, s, t)),
        }
    }
    fn id(&self) -> NodeId {
        self.node_id()
    }
    fn can_send(&self) -> bool {
        HandleTrait::can_send(self)
    }
    fn time(&self) -> Seconds {
        self.current_frame_time()
    }
    fn describe(&self) -> (u16, u16, Vec<&'static str>, Vec<ParameterHint>) {
        (self.inputs(), self.outputs(), self.parameters(), self.hints())
    }
}
pub type Hnd = Box<dyn AnyH>;
/// The deprecated way
#[allow(deprecated)]
pub fn push_direct<F: Float>(g: &mut Graph<F>, label: u32, shape: usize) -> Hnd {
    macro_rules! p {
        ($i:ty, $o:ty) => {{
            let h = g.push(Probe::<F, $i, $o>::new(label));
            if label % 2 == 0 { Box::new(h.clone().into_any()) } else { Box::new(h) }
        }};
    }
    match shape {
        0 => p!(U0, U1),
        1 => p!(U1, U1),
        2 => p!(U2, U1),
        3 => p!(U1, U2),
        4 => p!(U2, U2),
        5 => p!(U0, U2),
        6 => p!(U1, U0),
        7 => p!(U3, U3),
        9 => p!(U6, U5),
        10 => p!(U9, U12),
        _ => p!(U0, U0),
    }
}
pub fn subgraph<F: Float>(
    e: &GraphEdit<F>,
    shape: usize,
    ring: usize,
    init: impl FnOnce(GraphEdit<F>),
) -> (NodeId, Graph<F>) {
    let o = GraphOptions::default().name("sub").ring_buffer_size(ring);
    macro_rules! s {
        ($i:ty, $o:ty) => {{
            let (h, g) = e.subgraph::<$i, $o>(o, init);
            (h.id(), g)
        }};
    }
    match shape {
        0 => s!(U0, U1),
        1 => s!(U1, U1),
        2 => s!(U2, U2),
        3 => s!(U1, U2),
        4 => s!(U0, U2),
        5 => s!(U2, U1),
        7 => s!(U5, U6),
        8 => s!(U9, U10),
        _ => s!(U1, U0),
    }
}
#[allow(deprecated)]
pub fn subgraph_direct<F: Float>(g: &mut Graph<F>, shape: usize, ring: usize) -> Graph<F> {
    let o = GraphOptions::default().name("sub").ring_buffer_size(ring);
    match shape {
        0 => g.subgraph::<U0, U1>(o),
        1 => g.subgraph::<U1, U1>(o),
        2 => g.subgraph::<U2, U2>(o),
        3 => g.subgraph::<U1, U2>(o),
        4 => g.subgraph::<U0, U2>(o),
        5 => g.subgraph::<U2, U1>(o),
        7 => g.subgraph::<U5, U6>(o),
        8 => g.subgraph::<U9, U10>(o),
        _ => g.subgraph::<U1, U0>(o),
    }
}
