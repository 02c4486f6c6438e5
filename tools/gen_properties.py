#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept in step with MANIFEST.json)."""
import json, os
G="knaster_graph/src/graph.rs"; GG="knaster_graph/src/graph_gen.rs"; T="knaster_graph/src/task.rs"
S="knaster_graph/src/scheduling.rs"; H="knaster_graph/src/handle.rs"; P="knaster_graph/src/processor.rs"
E="knaster_graph/src/graph_edit.rs"; B="knaster_graph/src/buffer_allocator.rs"; D="knaster_graph/src/wrappers_graph/done.rs"
L="knaster_core/src/log.rs"; U="knaster_core/src/ugen.rs"; N="knaster_graph/src/node.rs"; I="knaster_graph/src/inspection.rs"
WP="knaster_core_dsp/src/wrappers_core/precise_timing.rs"; WA="knaster_core_dsp/src/wrappers_core/audio_rate.rs"
WS="knaster_core_dsp/src/wrappers_core/smooth_params.rs"; BU="knaster_core_dsp/src/dsp/buffer.rs"
R=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs:a["observe_at"]=list(obs)
    if hook:a["hook_needed"]="; ".join(hook)
    R.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Edits become audible atomically, one committed graph version per block",
 "However edits on the control side interleave with audio processing, every rendered block is produced from exactly one committed state of the graph: all changes made in one edit become audible together at the start of a block and never in part. Once an edit has returned, every block that starts later reflects it (or a later edit), and the rendered version never goes backwards.",
 ["schedules","histories"],"all interleavings of edit/commit steps with audio blocks, all edit histories, nested graphs included",
 "Unit tests run edit, commit and process strictly one after the other; they never run a block in the middle of an edit or a commit and never stall the audio side across several commits.",
 [G,GG,T],[("commit","Graph::commit_changes"),("pick-up of new schedules","GraphGen::process_block"),("hand-over of live unit generators","TaskData::apply_self_on_audio_thread")],
 [("committed schedule","the tasks, outputs and buffers of one committed version","TaskData")],["AudioProcessor::output_block","inputs seen by unit generators"],["points inside commit and schedule pick-up where the other side may run"])
p("C02","Signals flow exactly along the connections of the graph",
 "In every rendered block each node runs after all nodes it takes same-block input from, each node input and graph output carries the exact sum of everything connected to it in that same block, and anything unconnected carries silence. This holds for every acyclic graph that can be built through the public API by any sequence of additive connections, replacing connections, disconnections and removals, including nodes with no outputs, nodes that feed both the graph output and other nodes, and nodes reachable from no output.",
 ["programs","histories","configurations"],"all graph shapes, channel layouts and edit sequences, block sizes and both sample types",
 "Tests build a handful of fixed graphs; ordering, buffer reuse and implicit summing nodes only go wrong for particular shapes reached through particular edit histories.",
 [G,B,N,E],[("node ordering","Graph::calculate_node_order"),("buffer reuse","BufferAllocator"),("summing nodes","Graph::connect_to_node_internal, evaluate_if_node_should_be_removed")],
 [("edges","sources per node input and graph output","Graph::node_input_edges, output_edges")],["AudioProcessor::output_block","inputs seen by unit generators"])
p("C03","Unit generators keep running and keep their state across edits",
 "Every node that is part of the rendered graph is processed exactly once in every block, also when it is not connected to anything, and its internal state carries over from block to block unaffected by edits elsewhere in the graph. Freshly pushed nodes start from their initialised state (initialised exactly once, with the sample rate and block size of the processor, before first use) and removed nodes are never processed again.",
 ["schedules","histories"],"all edit histories and interleavings of commits with blocks, including several commits queued up between two blocks",
 "Unit generators are moved between schedules on the audio thread at every commit; tests commit once or twice with a fixed timing.",
 [T,GG,N,G],[("moving unit generators between schedules","TaskData::apply_self_on_audio_thread, UGenEnum::take"),("task creation","Node::make_task")],
 [("live unit generator","owned by the schedule currently running","Task::ugen")],["UGen::process_block","UGen::init"])
p("C04","Removed nodes are reclaimed exactly once, off the audio thread, and in time",
 "A node that is removed (explicitly, by finishing, or together with its graph) is dropped exactly once, never while the audio side can still use it and never on the audio side while the hand-back channel has room. As long as blocks and edits keep happening, everything removed is dropped and its memory released within a small bounded number of further blocks and edits.",
 ["schedules","histories","fault_sequences"],"all interleavings of removal, commit, block processing and audio stalls",
 "Use after free, double drop and leaks depend on where a block falls relative to the steps of a commit; tests count nodes after a fixed sequence.",
 [G,GG,T],[("deferred removal","Graph::free_node_from_key, free_old"),("hand-back channel","GraphGenCommunicator::free_old_task_data")],
 [("applied flag","the schedule without the node has been picked up","TaskData::applied")],["UGen drop"],["points around pick-up and hand-back"])
p("C05","Any part of the system can be dropped at any time, in any order",
 "The graph, its subgraphs, the audio processor, handles, parameters and the log receiver can be dropped in any order and at any point without crash, hang, use after free, leak or double drop; the surviving processor keeps rendering the last committed graph. Once the audio side of a graph is gone, sending to it through any surviving handle reports that the graph was freed, and editing still does not crash.",
 ["crash_points","schedules"],"all drop orders and drop points, including in the middle of scheduled and not yet delivered work",
 "Tests always tear down in declaration order at the end of the test.",
 [G,GG,P,H],[("shared ownership of buffers and nodes","GraphGen::_arc_nodes, _arc_buffer_allocation_ptr"),("abandoned channel detection","SchedulingChannelSender::send, is_alive")])
p("C06","An accepted parameter change is applied exactly once, in order, to its target",
 "Every parameter or smoothing change accepted by the API without a time or token reaches exactly the addressed node and parameter with exactly the given value, exactly once, no later than the first block that starts after both the send and the node's becoming part of the rendered graph (if that happens within about one second), and never reaches another node. Changes of the same node are applied in the order they were sent, whichever handle or sending function they went through.",
 ["schedules","histories"],"all interleavings of sends, commits and blocks, from handles, graph-level setters and stored parameter objects",
 "Tests send a change and then run a block; they do not send in the middle of a block, before a commit, or while audio is stalled.",
 [H,GG,S,G,E],[("event channel","SchedulingChannelSender::send"),("delivery","GraphGen::process_block apply_parameter_change")],
 [("waiting changes","received but not applicable yet","GraphGen::waiting_parameter_changes")],["UGen::param_apply"])
p("C07","Scheduled parameter changes take effect at the requested time",
 "A change scheduled for an absolute time, or for a time relative to its arrival on the audio side, and less than about one second ahead, is applied exactly once in the block that contains that time, and at exactly that frame if the node has the precise timing wrapper; a change whose time has already passed is applied at the next block. Applying a scheduled change never alters the timing of any other change.",
 ["schedules","inputs","histories"],"all times, block sizes, sample rates, send points relative to block boundaries, and queues of several scheduled changes",
 "Tests schedule one or two changes at chosen times with one block size; rounding at block borders, late delivery and interaction of several changes are not reached.",
 [S,GG,WP,D],[("due computation","Time::to_samples_until_due"),("in-block delay","WrPreciseTiming, set_delay_within_block_for_param")],
 [("waiting changes","scheduled later","GraphGen::waiting_parameter_changes")],["UGen::param_apply and the frame at which it happens"])
p("C08","Changes tied to a token wait for it and then apply together",
 "No parameter change tied to a scheduling token is applied before the token is activated. After a token is activated between two blocks, all changes tied to it that were sent before the activation and whose nodes are live are applied in the very next block, across all graphs of the processor, each exactly once.",
 ["schedules","histories"],"all interleavings of tokened and untokened sends with activation and blocks, several tokens, nested graphs",
 "No existing test covers tokens under any interleaving.",
 [S,GG],[("token check","apply_parameter_change"),("token","SchedulingToken")])
p("C09","Done actions free exactly what they should, from exactly the right frame",
 "When a node marks itself as done, its done action is carried out: with free-self only that node is removed and reclaimed after the next edits, with free-parent the output of its graph is exactly zero from the marked frame (the earliest if several nodes do so in the same block) on and for ever, none of its nodes run again, and the graph is removed from its parent after the next edits; with no action nothing changes. Marking done never affects other nodes or graphs.",
 ["schedules","histories"],"all done frames, several nodes finishing in the same block, done marks while commits are in progress, nested graphs, actions changed at run time",
 "Tests run one envelope to its end in one graph with a fixed schedule.",
 [D,GG,U,G],[("flag handling","WrDone, UGenFlags"),("graph end","GraphGen::freed, remove_me_flag"),("collection","Graph::free_old")])
p("C10","Full channels are reported and never corrupt or lose acknowledged work",
 "When a channel between control and audio side is full because audio is stalled, sending reports an error, editing does not crash, and no node, connection, parameter change or state that was acknowledged before is lost, corrupted or duplicated. Rendering continues with a committed version, and once the audio side drains the channel new sends succeed and the latest edited state becomes audible with the next edit.",
 ["fault_sequences","schedules"],"all channel capacities from one up, stall lengths and points at which channels fill and drain",
 "No test ever fills a channel.",
 [G,GG,H],[("schedule channel","GraphGenCommunicator::send_updated_tasks"),("event channel","SchedulingChannelSender::send"),("hand-back channel","GraphGen::process_block")],(),(),["points inside commit"])
p("C11","Processing a block never allocates or frees memory",
 "Rendering a block performs no heap allocation and no heap deallocation on the audio side, whatever edits, removals, parameter changes, token activations, done actions and log messages arrive, as long as the channel capacities suffice.",
 ["schedules","histories"],"all workloads within channel capacities",
 "No test observes the allocator.",
 [GG,T,P,U,WP],[("rendering","GraphGen::process_block"),("schedule hand-back","task_data_to_be_dropped_producer")],(),["global allocator"])
p("C12","The shared clock reports exactly the audio processed so far",
 "The clock read from any graph, handle or inspection of a processor equals the time of the last completed block boundary, never decreases, never shows a value that is not such a boundary, and is common to all nested graphs; the frame position given to unit generators is the exact number of frames processed before the block (plus the offset within it). This holds for every block size and sample rate and over arbitrarily long runs.",
 ["schedules","configurations","histories"],"all read points including in the middle of a block, configurations and run lengths",
 "Tests do not read the clock while a block is in progress, nor at sample rates that do not divide the time base.",
 [P,S,H,U],[("clock update","AudioProcessor::run"),("clock read","SharedFrameClock::get")],(),["SharedFrameClock::get","AudioCtx::frame_clock"])
p("C13","Audio-side log messages arrive complete, in order and never merged",
 "Log message chains written on the audio side are received in the order written, each exactly once and complete, as long as the log channel has room, whenever and however often the receiver polls, even in the middle of a chain. If the channel overflows, messages may be missing but what arrives of one chain is never merged with another chain, never reordered, and later chains arrive intact once the channel is drained.",
 ["schedules","fault_sequences"],"all capacities, chain lengths, wrap-around positions and polling points, several senders",
 "The only test writes one chain and never reads it.",
 [L],[("send","ArLogSender::send, rt_log!"),("receive","ArLogReceiver::recv")])
p("C14","Feedback connections delay the signal by exactly one block",
 "A feedback connection delivers, for every channel and frame, the value its source produced exactly one block earlier (silence for the first block after it was made), wherever source and destination are placed in the graph and however the rest of the graph is edited; feedback adds to other connections like any other connection and can form any cycle. Disconnecting or removing either end ends it without disturbing anything else.",
 ["programs","histories"],"all feedback topologies, channels, self loops, chains and edit histories around them",
 "Two tests use one feedback connection on channel zero of a fixed graph.",
 [G],[("feedback nodes","Graph::new_feedback_nodes, FeedbackSink, FeedbackSource")])
p("C15","A subgraph behaves like its contents placed in the parent",
 "Nodes in a nested graph compute the same signals as if they stood in the parent, with the subgraph's inputs and outputs as the connection points, independently of whether the subgraph is edited before or after it was added, and of the order in which parent and child are edited and committed. Removing the subgraph node ends all of its processing; the remaining handle and child graph can still be used and dropped safely.",
 ["programs","histories","schedules"],"all nestings, edit orders and removal points",
 "One test runs a small fixed subgraph.",
 [G,GG,E],[("nesting","Graph::subgraph_init, GraphGen as UGen"),("graph inputs","graph_input_channels_to_nodes")])
p("C16","Invalid edits are refused with an error and change nothing",
 "Every call that names a node that no longer exists or belongs to another graph, a channel or parameter that does not exist, or a connection that would close a cycle without feedback returns an error (or none where the API is optional), does not panic then or later, and leaves graph, audio output and later edits unaffected; freeing a protected node is refused in the same way. Valid calls on valid arguments succeed.",
 ["inputs","histories"],"all public editing calls, with stale, foreign and out-of-range arguments, in all graph states",
 "Tests check one or two error returns and never what the refused call left behind.",
 [G,E,H],[("argument checks","connect*, disconnect*, set, free_node, set_mortality"),("cycle check","Graph::has_path")])
p("C17","A parameter driven by a signal follows it sample by sample",
 "A parameter of a node with audio-rate support that is connected to one or more node outputs takes, for every frame of every block, exactly the sum of those outputs at that same frame, the sources having run before the node, whatever else is edited. While connected, directly set values do not disturb it; after it is disconnected or its sources are removed no stale memory is read and directly set values work again.",
 ["histories","programs"],"all combinations of parameter connections, replacement, removal of sources and sinks, and buffer relocations",
 "One test connects one source and never edits again.",
 [G,WA,T],[("parameter edges","Graph::connect_node_to_parameter, generate_ar_parameter_changes"),("reading the signal","WrArParams")])
p("C18","Smoothed parameters ramp linearly and land exactly on their target",
 "With linear smoothing a change moves the parameter in a straight line from its current value to the new one over the given duration, at audio rate one step per frame and at block rate one step per block, and then stays exactly on the target; it never overshoots, jumps or becomes NaN, whatever the duration (zero included), and new targets, new smoothing settings and other scheduled changes arriving in the middle of a ramp start from the value reached so far and do not lose the target.",
 ["schedules","inputs","histories"],"all durations, rates, values and points of interruption, block sizes and splits of blocks",
 "Tests check one uninterrupted ramp with one block size.",
 [WS],[("ramp","WrSmoothParams"),("state","ParameterSmoothingState")])
p("C19","Output does not depend on how time is cut into blocks",
 "For every built-in unit generator and wrapper, splitting the same stretch of time into different blocks, partial blocks or single frames, with the same input and the same parameter changes at the same frames, gives the same output, the same end state and the same done frame, up to rounding. No split makes it read or write outside the frames it was asked to process, and none makes it panic.",
 ["schedules","configurations","inputs"],"all partitions of the timeline caused by block sizes and by scheduled changes splitting blocks, for all built-in unit generators",
 "Unit generators have separate per-frame and per-block code; tests compare at most one whole block for a few of them.",
 ["knaster_core_dsp/src/ugens","knaster_core_dsp/src/wrappers_core",U,"knaster_primitives/src/block.rs","knaster_airwindows/src/galactic.rs"],[("per-frame and per-block processing","UGen::process, UGen::process_block"),("partial blocks","PartialBlock, BlockMetadata::make_partial")])
p("C20","Loading, playing and saving sound files never panics and never gives wrong audio",
 "Loading a sound file of a supported format either returns exactly the samples, channels and sample rate stored in the file or an error, whatever read sizes, interruptions and read errors are met; a missing, unreadable, truncated, empty or damaged file never makes it panic or hang, a file cut off within its audio data yields at most a correct prefix, and damaged blocks of compressed audio are left out as a whole. Playing back any loaded or constructed buffer yields its samples, zeros outside of it, and never reads outside of it. Saving a buffer reports success only if the complete audio was written so that loading it gives the same audio in 16 bits; a full disk or an impossible path is an error.",
 ["fault_sequences","inputs"],"all storage faults: missing files, wrong types, truncation and corruption at every offset, read errors, full disks, all channel counts and lengths, all playback parameters",
 "No test loads a file at all.",
 [BU,"knaster_core_dsp/src/ugens/buffer.rs"],[("decoding","Buffer::from_sound_file"),("saving","Buffer::save_to_disk"),("playback","BufferReader")])
p("C21","Audio backends stream the rendered blocks without gaps or damage",
 "Whatever buffer sizes, callback sequences and sample formats the audio device uses, the frames it receives are the rendered blocks in order with nothing lost, repeated or reordered, inputs reach the graph in order (delayed by less than a block where block and period sizes differ, silent where the backend has none), and samples that are not numbers or out of range are handled the same for every frame, without allocating in the device's callback. A graph started through the builder runs at the sample rate of the device. Starting, stopping and failing device calls report errors through the backend interface instead of crashing or disturbing a running stream.",
 ["schedules","fault_sequences","configurations"],"all sequences of device callback sizes, channel counts, formats and device errors",
 "Backends need a sound card; no test touches them.",
 ["knaster_graph/src/audio_backend.rs","knaster_graph/src/audio_backend/cpal.rs","knaster_graph/src/audio_backend/jack.rs"],[("cpal callback","CpalBackend::run"),("jack callback","JackProcess::process"),("builder","KnasterBuilder::start in knaster/src/lib.rs")])
p("C22","Inspection and lookups describe the edited graph faithfully",
 "After every edit, inspection of a graph lists exactly the nodes of its last committed state in a valid processing order with their names, channel counts, parameters and existing connections, following the listed connections reproduces every input and output of the rendered graph, the dot graph made of an inspection is valid and shows the same nodes and connections whatever the nodes are called, and lookups by name and id find exactly the live nodes. Inspecting never changes what is rendered.",
 ["histories"],"all edit histories including removals, renames, implicit nodes and nested graphs",
 "One test inspects one small graph.",
 [I,G],[("inspection","Graph::inspection"),("lookup","node_data, node_data_from_name, node_id_with_name")])
p("C23","Graph expressions compute the arithmetic they spell",
 "Combining node handles in an edit with arithmetic operators, constants, powers, channel selection, stacking and chaining, in static or dynamic form and in any nesting, builds a graph whose output is exactly that arithmetic expression of the operands' signals for every channel and frame, and the same expression gives the same result through the static and the dynamic interface.",
 ["programs","configurations"],"all expression trees over the operators, operand orders, constants, channel counts and both interface styles, while audio keeps running",
 "Tests spell a few expressions with commutative operand orders.",
 [E,"knaster_core_dsp/src/ugens/math.rs"],[("operators","impls for SH and DH"),("math unit generators","MathUGen")])
p("C24","Unit generators compute what they document under any history of changes",
 "Under any history of parameter changes, triggers and inputs, at every sample rate, in both sample types and however time is cut into blocks, the built-in unit generators compute what they document: oscillators the waveform of the set frequency, phase offset (0 to 1 being one period) and width, without drifting or jumping; envelopes start from the value they are at, take the set times, never leave the range of their values, land exactly on them and are done in exactly that frame; delays delay by the set time from silence; filters respond as their published difference equations at the set cutoff, resonance and gain; noise stays in range without repeating; arithmetic, panning, limiting and constants are exact in every frame. Finite inputs and valid settings (frequencies from 0 to below half the sample rate, times from 0) always give finite outputs and never panic.",
 ["histories","inputs","configurations"],"all histories of parameter changes and triggers at any frames, for all built-in unit generators except the buffer players of C20",
 "Tests run a few unit generators with one setting for a few frames, and mostly compare two code paths of the same code.",
 ["knaster_core_dsp/src/ugens","knaster_core_dsp/src/wrappers_core/math.rs","knaster_airwindows/src/galactic.rs"],[("oscillators","SinWt, SinNumeric, Phasor, PolyBlep"),("envelopes","EnvAsr, EnvAr, Envelope"),("delays and filters","SampleDelay, AllpassDelay, AllpassFeedbackDelay, StaticSampleDelay, OnePoleLpf, OnePoleHpf, SvfFilter"),("others","noise.rs, math.rs, Pan2, SafetyLimiter, Constant, DoneOnTrig")])
p("C25","Computing with times and beats is exact and agrees with the audio clock",
 "Whatever history of computations a time or a number of beats went through, adding, subtracting and comparing is exact, converting frames of any common sample rate to a time and back is lossless, numbers and durations become the nearest time or beats that can be represented (so that a frame number divided by the sample rate is that frame), products are right within double precision, and every result that is in range is normalised (equal times are equal values) without panicking. A scheduled time is due in exactly the frame which contains it, counted from the start or from its arrival, however blocks, stalls and jumps of the clock fall.",
 ["histories","inputs","configurations"],"all histories of operations on Seconds and Beats within their range, all magnitudes, sample rates, block sizes and positions of the clock",
 "Tests convert a handful of values; rounding only shows for a fraction of all values, and errors only add up in long histories.",
 ["knaster_primitives/src/time.rs",S],[("conversions","Seconds::from_secs_f64, from_samples, to_samples, From<Duration>, Beats::from_beats_f64"),("arithmetic","impls of Add, Mul, Ord, checked_sub, saturating_sub"),("due computation","Time::to_samples_until_due")])
p("C26","Unit generators declared with the macros behave as they are declared",
 "A unit generator written with impl_ugen gets exactly the calls its declaration says, under any history of calls: initialisation before anything else with the set sample rate and block size, every parameter set by index or by name (constant or text) reaches its own function exactly once with the exact value, converted to the declared kind, and its descriptions, ranges, defaults and hints are those declared; unknown parameters and values of the wrong kind are errors through the checked interface, change nothing and never panic on the audio thread; declared arguments (context, flags, inputs, outputs) carry the frame or block being processed, whichever storage, guard or view of a block it is given, nothing is written or read outside of it, and done flags reach the graph. Directly and within a graph it sounds the same.",
 ["histories","inputs","configurations"],"all argument shapes the macro accepts, all histories of values of every kind, all storages and nested views of blocks and all cuts of time",
 "Tests declare a few shapes and call them once; index and name tables, wrong kinds and views only differ for particular combinations.",
 ["knaster_macros/src/lib.rs","knaster_core/src/ugen.rs","knaster_primitives/src/block.rs","knaster_core/src/parameters"],[("macro","parse_ugen_impl"),("checked interface","UGen::param"),("storage","VecBlock, StaticBlock, PartialBlock, PartialBlockMut, RawContiguousBlock, RawAggregateBlock"),("derive","KnasterIntegerParameter")])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(r)+"\n" for r in R))
for r in R: assert len(r["title"])<=80,(r["id"],len(r["title"]))
print(len(R))
