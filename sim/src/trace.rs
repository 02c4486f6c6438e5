//! A run is fully described by a trace: configuration and steps, each with the schedule of the
//! scheduling points met while it is carried out. Traces are generated from a seed, shrunk after a
//! violation and saved as replay files.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Op {
    pub name: String,
    pub args: Vec<i64>,
    pub sub: Vec<Op>,
    pub sched: Vec<u8>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Trace {
    pub prop: String,
    pub engine: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, i64>,
    pub steps: Vec<Op>,
}
impl Op {
    pub fn new(name: &str, args: &[i64]) -> Self {
        Op {
            name: name.into(),
            args: args.to_vec(),
            ..Default::default()
        }
    }
    pub fn with(mut self, sub: Vec<Op>) -> Self {
        self.sub = sub;
        self
    }
    pub fn a(&self, i: usize) -> i64 {
        self.args.get(i).copied().unwrap_or(0)
    }
    fn write(&self, s: &mut String) {
        s.push_str(&self.name);
        for a in &self.args {
            write!(s, " {a}").unwrap();
        }
        if !self.sub.is_empty() {
            s.push_str(" {");
            for (i, o) in self.sub.iter().enumerate() {
                s.push_str(if i == 0 { " " } else { " ; " });
                o.write(s);
            }
            s.push_str(" }");
        }
        if !self.sched.is_empty() {
            s.push_str(" @");
            for k in &self.sched {
                write!(s, " {k}").unwrap();
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    /// Number of operations in this one
    pub fn size(&self) -> usize {
        1 + self.sub.iter().map(|o| o.size()).sum::<usize>()
    }
}
struct P<'a> {
    t: Vec<&'a str>,
    i: usize,
}
impl P<'_> {
    fn op(&mut self) -> Op {
        let mut o = Op::new(self.t[self.i], &[]);
        self.i += 1;
        let mut sched = false;
        while self.i < self.t.len() {
            match self.t[self.i] {
                "{" => {
                    self.i += 1;
                    while self.t[self.i] != "}" {
                        o.sub.push(self.op());
                        if self.t[self.i] == ";" {
                            self.i += 1;
                        }
                    }
                    self.i += 1;
                }
                "}" | ";" => break,
                "@" => {
                    sched = true;
                    self.i += 1;
                }
                x => {
                    if sched {
                        o.sched.push(x.parse().unwrap_or(0));
                    } else {
                        o.args.push(x.parse().unwrap_or(0));
                    }
                    self.i += 1;
                }
            }
        }
        o
    }
}
impl Trace {
    pub fn get(&self, k: &str, default: i64) -> i64 {
        self.cfg.get(k).copied().unwrap_or(default)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.cfg.insert(k.into(), v);
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        writeln!(s, "prop {}", self.prop).unwrap();
        writeln!(s, "engine {}", self.engine).unwrap();
        writeln!(s, "seed {}", self.seed).unwrap();
        for (k, v) in &self.cfg {
            writeln!(s, "cfg {k} {v}").unwrap();
        }
        for o in &self.steps {
            writeln!(s, "step {}", o.text()).unwrap();
        }
        s
    }
    pub fn parse(text: &str) -> Trace {
        let mut t = Trace::default();
        for l in text.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "prop" => t.prop = rest.into(),
                "engine" => t.engine = rest.into(),
                "seed" => t.seed = rest.parse().unwrap_or(0),
                "cfg" => {
                    let (a, b) = rest.split_once(' ').unwrap_or((rest, "0"));
                    t.set(a, b.parse().unwrap_or(0));
                }
                "step" => {
                    let mut p = P {
                        t: rest.split_whitespace().collect(),
                        i: 0,
                    };
                    if !p.t.is_empty() {
                        t.steps.push(p.op());
                    }
                }
                _ => (),
            }
        }
        t
    }
    pub fn size(&self) -> usize {
        self.steps.iter().map(|o| o.size()).sum()
    }
}
#[derive(Clone, Debug)]
pub struct Violation {
    /// Kind of oracle which failed
    pub class: &'static str,
    pub detail: String,
}
#[derive(Default, Debug)]
pub struct Outcome {
    pub violation: Option<Violation>,
    /// Violations of oracles which are not about the property being checked
    pub other: u64,
    pub hash: u64,
    pub inter: u64,
    pub blocks: u64,
    pub frames: u64,
    /// Simulated time in nanoseconds
    pub sim_ns: u64,
    pub points: u64,
    pub switches: u64,
    pub mid_block: u64,
    /// Injected faults and notable situations, by kind
    pub faults: BTreeMap<&'static str, u64>,
    /// Number of oracle evaluations
    pub evals: u64,
    /// The run ended early, the process should not be used for another one
    pub abandoned: bool,
}
impl Outcome {
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
    pub fn faultn(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.faults.entry(k).or_insert(0) += n;
        }
    }
}
