HOOKS = ["10c7b06", "f5a5273", "42af00b", "a81715b"]
TECH["C21"] = "simulated audio devices (cpal host, JACK server) under the real backends; seeded search over callback sizes, formats, edits and failing device calls; every delivered sample compared with the rendered frame it must be"
NOTE["C21"] = "Randomised: held in every simulated run. cpal's platform hosts and libjack are simulated (the rest of cpal and the jack crate are real); jack_deactivate never fails in the simulation because the jack crate 0.13.2 itself deadlocks then."
TECH["C18"] = "seeded search over the points at which changes and smoothing settings arrive and over the cuts of time into blocks; every frame compared with a model of the ramps"
NOTE["C18"] = "Randomised: held in every simulated run. The simulator calls the real wrappers as the graph does; the wrapped unit generator is a probe recording the parameters in every frame. The first value of a parameter is set before its smoothing is (the wrapper knows no earlier value)."
TECH["C19"] = "seeded search over unit generators, parameter changes and cuts of time into blocks; every cut compared with the same time line cut into single frames"
NOTE["C19"] = "Randomised: held in every simulated run. All built-in unit generators and wrappers run for real; the simulator calls them as the graph does. Randomness is seeded through a hook. Smoothing at block rate depends on blocks by definition and is decided by C18; precise timing is the outermost wrapper as the graph builds it."
TECH["C13"] = "seeded search over interleavings of writers, messages and polls; what arrives compared with what was written"
NOTE["C13"] = "Randomised: held in every simulated run. Interleavings at the granularity of single messages; rtrb is trusted to be linearizable."
TECH["C20"] = "seeded search over storage faults (truncation, corruption, read errors, full disks) around the real decoders; samples compared with those stored"
NOTE["C20"] = "Randomised: held in every simulated run. Files are WAV, FLAC, FLAC in Matroska and random bytes; no encoder for Vorbis and MP3 is available. Dependencies are built without overflow checks, as in releases."
TECH["C23"] = "seeded search over expression programs in both interfaces, with blocks rendered within edits; every frame compared with the expression evaluated directly"
NOTE["C23"] = "Randomised: held in every simulated run. Sources of signals are stubs; math unit generators and graph are real."
TECH["C24"] = "seeded search over unit generators, histories of parameter changes and triggers, inputs and cuts of time; every frame compared with a double precision model of what the unit generator documents"
NOTE["C24"] = "Randomised: held in every simulated run. Unit generators and wrappers run for real, the simulator calls them as the graph does. Models follow every possibility where rounding decides in which frame something happens; outputs in single precision are compared within rounding. Noise is checked for range, continuity and its statistics. OscWt can't be constructed and isn't run."
TECH["C25"] = "seeded search over histories of computing with times and beats under a simulated audio clock with stalls and jumps; every value compared with integers of unlimited precision"
NOTE["C25"] = "Randomised: held in every simulated run. The arithmetic itself has no concurrency; the simulated parts are the clock and the order in which it is asked. Values out of range (more than about 136 years, negative) and values with more parts than a second are outside the property."
TECH["C26"] = "seeded search over histories of values, frames and blocks sent to declared unit generators, in any storage and view, directly and through a graph; every call, sound and byte around compared with the declaration"
NOTE["C26"] = "Randomised: held in every simulated run. The declarations are 13 unit generators compiled into the simulator, which cover the shapes of arguments the macro accepts; declarations the macro refuses are outside. The simulator makes the calls in place of a caller or feeds the graph."
