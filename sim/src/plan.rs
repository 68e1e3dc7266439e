//! One simulated run, written out completely: initial state, what every task does,
//! which faults hit it where, and how the scheduler decides. A plan plus the code
//! under test determines the execution exactly; a replay file is a plan as text.
use std::fmt::Write;

pub const MAX_UID: usize = 4096;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fault {
    None,
    /// the n-th allocation of the op fails
    Nth(u32),
    /// every allocation from the n-th on fails
    From(u32),
    /// each allocation fails with probability ppm/1e6
    Rand(u64, u32),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Op {
    pub uid: u32,
    pub f: u8,
    pub a: Vec<u64>,
    pub fault: Fault,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum EvKind {
    /// not scheduled for this many steps (u64::MAX: until nothing else can run)
    Stall(u64),
    /// the thread dies here; the rest of its task runs on a fresh thread
    Kill,
    /// a signal handler makes the call with this uid here, on the same thread
    Call(u32),
}
/// An event `d` steps after the `n`-th time its op touches static or thread-local memory.
pub const AT_STATIC: u64 = 1 << 62;
pub fn at_static(n: u64, d: u64) -> u64 {
    AT_STATIC | n << 16 | d
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Ev {
    pub uid: u32,
    /// a step of that op, or `at_static`
    pub s: u64,
    pub kind: EvKind,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Sw {
    pub uid: u32,
    pub kind: u8,
    pub s: u64,
    pub to: u32,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Sched {
    Seeded { seed: u64, mean: u64, hot_ppm: u32, pct: bool, end_ppm: u32 },
    Trace(Vec<Sw>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Plan {
    pub prop: String,
    pub run: u64,
    pub heapcap: u64,
    /// keep every returned collection and look at it again at the end of the run
    pub keep: bool,
    /// Per-op step budget after which the op counts as never returning.
    pub budget: u64,
    pub init: Vec<Vec<u64>>,
    pub tasks: Vec<Vec<Op>>,
    pub events: Vec<Ev>,
    /// calls made by signal handlers
    pub handlers: Vec<Op>,
    pub sched: Sched,
}

impl Plan {
    pub fn new(prop: &str, run: u64) -> Plan {
        Plan {
            prop: prop.into(),
            run,
            heapcap: 64 << 20,
            keep: false,
            budget: 40_000_000,
            init: vec![],
            tasks: vec![],
            events: vec![],
            handlers: vec![],
            sched: Sched::Trace(vec![]),
        }
    }
    pub fn ops(&self) -> impl Iterator<Item = &Op> {
        self.tasks.iter().flatten()
    }
    pub fn all_ops(&self) -> impl Iterator<Item = &Op> {
        self.ops().chain(&self.handlers)
    }
    pub fn nops(&self) -> usize {
        self.tasks.iter().map(|t| t.len()).sum()
    }
    pub fn op(&self, uid: u32) -> Option<&Op> {
        self.all_ops().find(|o| o.uid == uid)
    }
    /// Interrupt op `uid` at its step `s` by a call on the same thread.
    pub fn interrupt(&mut self, uid: u32, s: u64, f: u8, a: Vec<u64>) {
        let h = (MAX_UID - 1 - self.handlers.len()) as u32;
        self.handlers.push(Op { uid: h, f, a, fault: Fault::None });
        self.events.push(Ev { uid, s, kind: EvKind::Call(h) });
    }
    pub fn push(&mut self, task: usize, f: u8, a: Vec<u64>) -> u32 {
        while self.tasks.len() <= task {
            self.tasks.push(vec![]);
        }
        let uid = self.nops() as u32;
        self.tasks[task].push(Op { uid, f, a, fault: Fault::None });
        uid
    }
    pub fn op_mut(&mut self, uid: u32) -> &mut Op {
        self.tasks.iter_mut().flatten().find(|o| o.uid == uid).unwrap()
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "h3sim-replay 1");
        let _ = writeln!(s, "property {}", self.prop);
        let _ = writeln!(s, "run {}", self.run);
        let _ = writeln!(s, "heapcap {}", self.heapcap);
        let _ = writeln!(s, "keep {}", self.keep as u8);
        let _ = writeln!(s, "budget {}", self.budget);
        for i in &self.init {
            let _ = writeln!(s, "init{}", hexes(i));
        }
        for (t, ops) in self.tasks.iter().enumerate() {
            let _ = writeln!(s, "task {}", t);
            for o in ops {
                let f = match o.fault {
                    Fault::None => "none".to_string(),
                    Fault::Nth(n) => format!("nth:{n}"),
                    Fault::From(n) => format!("from:{n}"),
                    Fault::Rand(a, p) => format!("rand:{a}:{p}"),
                };
                let _ = writeln!(s, "op {} {} {}{}", o.uid, crate::ops::NAMES[o.f as usize], f, hexes(&o.a));
            }
        }
        for o in &self.handlers {
            let _ = writeln!(s, "handler {} {}{}", o.uid, crate::ops::NAMES[o.f as usize], hexes(&o.a));
        }
        for e in &self.events {
            match e.kind {
                EvKind::Call(h) => {
                    let _ = writeln!(s, "interrupt {} {} {h}", e.uid, e.s);
                }
                EvKind::Kill => {
                    let _ = writeln!(s, "kill {} {}", e.uid, e.s);
                }
                EvKind::Stall(d) => {
                    let _ = writeln!(s, "stall {} {} {}", e.uid, e.s, d);
                }
            }
        }
        match &self.sched {
            Sched::Seeded { seed, mean, hot_ppm, pct, end_ppm } => {
                let _ = writeln!(s, "seeded {seed} {mean} {hot_ppm} {} {end_ppm}", *pct as u8);
            }
            Sched::Trace(v) => {
                for x in v {
                    let _ = writeln!(s, "switch {} {} {} {}", x.uid, x.kind as char, x.s, x.to);
                }
            }
        }
        s
    }
    pub fn from_text(t: &str) -> Result<Plan, String> {
        let mut p = Plan::new("", 0);
        let mut tr = vec![];
        let mut seeded = None;
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            let n = |i: usize| -> Result<u64, String> {
                w.get(i).and_then(|x| x.parse::<u64>().ok()).ok_or(format!("bad line: {l}"))
            };
            let hx = |from: usize| -> Result<Vec<u64>, String> {
                w.iter().skip(from).map(|x| u64::from_str_radix(x, 16).map_err(|_| format!("bad line: {l}"))).collect()
            };
            match w[0] {
                "h3sim-replay" => {}
                "property" => p.prop = w.get(1).unwrap_or(&"").to_string(),
                "run" => p.run = n(1)?,
                "heapcap" => p.heapcap = n(1)?,
                "keep" => p.keep = n(1)? != 0,
                "budget" => p.budget = n(1)?,
                "init" => p.init.push(hx(1)?),
                "task" => {
                    while p.tasks.len() <= n(1)? as usize {
                        p.tasks.push(vec![]);
                    }
                }
                "op" => {
                    let name = w.get(2).ok_or("op")?;
                    let f = crate::ops::NAMES.iter().position(|x| x == name).ok_or(format!("unknown op {name}"))? as u8;
                    let fl: Vec<&str> = w.get(3).ok_or("op")?.split(':').collect();
                    let fu = |i: usize| fl.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                    let fault = match fl[0] {
                        "nth" => Fault::Nth(fu(1) as u32),
                        "from" => Fault::From(fu(1) as u32),
                        "rand" => Fault::Rand(fu(1), fu(2) as u32),
                        _ => Fault::None,
                    };
                    let op = Op { uid: n(1)? as u32, f, a: hx(4)?, fault };
                    p.tasks.last_mut().ok_or("op before task")?.push(op);
                }
                "handler" => {
                    let f = crate::ops::NAMES.iter().position(|x| Some(x) == w.get(2)).ok_or("handler")? as u8;
                    p.handlers.push(Op { uid: n(1)? as u32, f, a: hx(3)?, fault: Fault::None });
                }
                "interrupt" => p.events.push(Ev { uid: n(1)? as u32, s: n(2)?, kind: EvKind::Call(n(3)? as u32) }),
                "kill" => p.events.push(Ev { uid: n(1)? as u32, s: n(2)?, kind: EvKind::Kill }),
                "stall" => p.events.push(Ev { uid: n(1)? as u32, s: n(2)?, kind: EvKind::Stall(n(3)?) }),
                "seeded" => {
                    seeded = Some(Sched::Seeded {
                        seed: n(1)?,
                        mean: n(2)?,
                        hot_ppm: n(3)? as u32,
                        pct: n(4)? != 0,
                        end_ppm: n(5)? as u32,
                    })
                }
                "switch" => tr.push(Sw { uid: n(1)? as u32, kind: w[2].as_bytes()[0], s: n(3)?, to: n(4)? as u32 }),
                _ => return Err(format!("bad line: {l}")),
            }
        }
        p.sched = seeded.unwrap_or(Sched::Trace(tr));
        Ok(p)
    }
}
fn hexes(v: &[u64]) -> String {
    v.iter().map(|x| format!(" {x:x}")).collect()
}
