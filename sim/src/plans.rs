//! How much is run for each property, and what the evidence says about it
use crate::driver::{CheckInfo, Plan};
use std::time::Duration;

pub fn plan(prop: &str, tier: &str) -> (Plan, CheckInfo) {
    let quick = tier == "quick";
    let graph = CheckInfo {
        level: "exploration",
        rule: "each run is one seed: a generated configuration (sample rate, block size, ring sizes, float type), a generated history of control side operations, and a generated schedule of switches between control side and audio side at the scheduling points; distinct = different hash over all scheduling decisions and everything rendered".into(),
        measure: "hash of the sequence of (scheduling point at which one side stopped, scheduling point at which the other went on) of a run",
        assumptions: vec![],
        real: vec!["knaster_graph", "knaster_core", "knaster_core_dsp", "rtrb"],
        stub: vec!["audio thread (coroutine driven by the simulator)", "unit generators with recording probes"],
    };
    let info = match prop {
        "C19" => CheckInfo {
            rule: "each run is one seed: a unit generator with generated arguments and wrappers, an input signal, parameter changes at generated frames, and several ways to cut the same time line into blocks, compared frame by frame with the line cut into single frames; distinct = different hash over everything rendered".into(),
            measure: "hash of the cuts of a run",
            real: vec!["knaster_core_dsp unit generators and wrappers", "knaster_airwindows", "knaster_core::UGen", "knaster_primitives blocks"],
            stub: vec!["graph and audio thread (the simulator calls the unit generator the way the graph does)", "randomness seeds"],
            ..graph
        },
        "C18" => CheckInfo {
            rule: "each run is one seed: a smoothed unit generator, changes of values and of smoothing settings at generated frames, other kinds of values mixed in, and several ways to cut the time line into blocks, partial blocks and frames, compared with a model of the ramps in every frame; distinct = different hash over all values seen".into(),
            measure: "hash of the values seen in every frame of all cuts of a run",
            real: vec!["knaster_core_dsp::wrappers_core (WrSmoothParams, WrPreciseTiming, WrArParams)", "knaster_core::UGen", "knaster_primitives blocks"],
            stub: vec!["graph and audio thread (the simulator calls the unit generator the way the graph does)", "the wrapped unit generator (a recording probe)"],
            ..graph
        },
        "C13" => CheckInfo {
            rule: "each run is one seed: two thirds write chains of log messages to several channels, with the receiver polling between any two messages and writers writing between any two messages received, one third log from nodes of a running graph; every message has unique contents and what is received is compared with what was written; distinct = different hash over schedule and messages".into(),
            measure: "hash of the schedule of a run (writes, polls and where they interrupt each other)",
            real: vec!["knaster_core::log (sender, receiver, rt_log!)", "knaster_graph (in runs with a graph)", "rtrb"],
            stub: vec!["threads (the simulator decides when each side runs)"],
            ..graph
        },
        "C20" => CheckInfo {
            rule: "each run is one seed: sound files written byte by byte by the simulator (WAV of six sample formats, FLAC, FLAC within Matroska with further tracks, random bytes), damage to the stored bytes, faults while reading, loading, playing loaded and constructed buffers, saving on disks which become full and loading what was saved; samples are compared with those which were stored; distinct = different hash over operations and everything loaded and played".into(),
            measure: "hash of the operations and faults of a run",
            real: vec!["knaster_core_dsp::dsp::buffer", "knaster_core_dsp::buffer (BufferReader)", "symphonia", "hound", "file system below a scratch directory"],
            stub: vec!["reading (short reads, interruptions, errors and shrinking files are injected between symphonia and the file)", "audio thread (the simulator calls the unit generator)"],
            ..graph
        },
        "C21" => CheckInfo {
            rule: "each run is one seed: a simulated device (channels, rate, sample format, period, errors of every call), a backend on it (cpal or JACK) or the builder, and a history of starts, stops, callbacks of any size, graph edits, stream errors, changes of the period and shutdowns; every delivered sample and every frame reaching the graph's inputs is compared; distinct = different hash over the history and what was delivered".into(),
            measure: "hash of the history of a run",
            real: vec!["knaster_graph::audio_backend", "knaster::KnasterBuilder", "knaster_graph (graph, audio processor)", "jack crate 0.13.2", "cpal 0.15.3 without its platform hosts"],
            stub: vec!["audio devices and the cpal host", "libjack and the JACK server (jack-sys)", "sources of signals"],
            ..graph
        },
        "C23" => CheckInfo {
            rule: "each run is one seed: programs of expressions over signals and constants in the static and the dynamic interface, blocks rendered in the middle of edits, nested graphs; every channel and frame compared with the expression evaluated directly; distinct = different hash over everything rendered".into(),
            measure: "hash of the program and of the points where blocks are rendered",
            real: vec!["knaster_graph (handles, edits, graph, audio processor)", "knaster_core_dsp math unit generators"],
            stub: vec!["audio thread (blocks are rendered when the simulator says so)", "sources of signals"],
            ..graph
        },
        "C24" => CheckInfo {
            rule: "each run is one seed: a unit generator with generated arguments, an input signal, a history of parameter changes and triggers at generated frames (applied between blocks, at cuts, delayed within blocks or as driving signals) and a cut of time into blocks; every frame is compared with a model in double precision; distinct = different hash over everything rendered".into(),
            measure: "hash of the history and of the cuts of a run",
            real: vec!["knaster_core_dsp unit generators and wrappers", "knaster_airwindows", "knaster_core::UGen", "knaster_primitives blocks"],
            stub: vec!["graph and audio thread (the simulator calls the unit generator the way the graph does)", "randomness seeds"],
            ..graph
        },
        "C25" => CheckInfo {
            rule: "each run is one seed: a sequencer's history of computing times and beats from one another, converting them from and to frames of several clocks, floats and durations, and scheduling changes at them, while the audio clock goes on in blocks, stalls and jumps; every value is compared with integers of unlimited precision; distinct = different hash over all values".into(),
            measure: "hash of the operations of a run",
            real: vec!["knaster_primitives::time", "knaster_graph::Time"],
            stub: vec!["the audio clock (advanced by the simulator in blocks, stalls and jumps)", "the queue of scheduled changes (asks every change in every block as GraphGen does)"],
            ..graph
        },
        "C26" => CheckInfo {
            rule: "each run is one seed: one of the unit generators declared with impl_ugen (every shape of functions the macro accepts), a history of values by index and by name (also unknown ones and those of the wrong kind), frames and blocks in storage of every kind, whole or through nested views, directly or within a graph; every call, every frame and the memory around is compared with the declaration; distinct = different hash over all calls and sounds".into(),
            measure: "hash of the operations of a run",
            real: vec!["knaster_macros", "knaster_core::UGen", "knaster_core::parameters", "knaster_primitives blocks", "knaster_graph (in runs with a graph)"],
            stub: vec!["the caller (the simulator calls the unit generator, or feeds the graph which does)", "audio thread"],
            ..graph
        },
        _ => graph,
    };
    (
        Plan {
            runs: if quick { if prop == "C25" { 2_000_000 } else if prop == "C26" { 500_000 } else if prop == "C24" { 300_000 } else if matches!(prop, "C13" | "C23") { 150_000 } else { 24_000 } } else { 100_000_000 },
            wall: Duration::from_secs(if quick { 45 } else { 600 }),
            workers: std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(2, 16),
        },
        info,
    )
}
