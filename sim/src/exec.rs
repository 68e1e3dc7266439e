//! Executing plans in pristine processes, and looking at what they left behind.
use crate::plan::*;
use crate::refmodel::Ref;
use crate::sim::*;
use crate::sys;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Outcome {
    Finished,
    Crash(i32),
    Hang,
    /// too long by the wall clock
    Alarm,
    Harness(i32),
}
pub struct View<'a> {
    pub outcome: Outcome,
    pub sh: &'a Shared,
}
impl<'a> View<'a> {
    pub fn rec(&self, uid: u32) -> &OpRec {
        &self.sh.recs[uid as usize]
    }
    pub fn words(&self, uid: u32) -> &[u64] {
        let r = self.rec(uid);
        let a = r.woff as usize;
        let b = (a + r.wlen as usize).min(MAXWORDS);
        &self.sh.words[a.min(b)..b]
    }
}
/// Fork, run the plan in the child, wait for it. The caller has never called the
/// library, so the child starts pristine.
pub fn execute(plan: &Plan, sh: &mut Shared) -> Outcome {
    for _ in 0..2 {
        match execute_once(plan, sh) {
            // killed from outside: the same execution again
            Outcome::Harness(9) | Outcome::Alarm => continue,
            o => return o,
        }
    }
    match execute_once(plan, sh) {
        Outcome::Alarm => Outcome::Hang,
        o => o,
    }
}
fn execute_once(plan: &Plan, sh: &mut Shared) -> Outcome {
    sh.head = Head::default();
    for o in plan.all_ops() {
        sh.recs[o.uid as usize] = OpRec::default();
    }
    // the child changes this memory: the compiler must not assume it is ours alone
    let shared = std::hint::black_box(sh as *mut Shared);
    unsafe {
        let pid = sys::fork();
        if pid < 0 {
            crate::die("fork failed");
        }
        if pid == 0 {
            sys::limit_cpu(20, 240);
            run_child(plan, &mut *shared);
        }
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) != pid {}
        let sh: &mut Shared = &mut *std::hint::black_box(shared);
        let sig = st & 127;
        if sig == 0 {
            let code = (st >> 8) & 255;
            return if sh.head.finished == 1 { Outcome::Finished } else { Outcome::Harness(code) };
        }
        match sig {
            24 => Outcome::Hang,
            14 => Outcome::Alarm,
            9 => Outcome::Harness(9),
            s => Outcome::Crash(s),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Solo {
    pub outcome: Outcome,
    pub status: u32,
    pub words: Vec<u64>,
    pub steps: u64,
    pub allocs: u32,
    pub capfail: u32,
    pub peak: i64,
}
#[derive(Clone, Debug)]
pub struct V {
    /// stays the same while the violation is minimised
    pub class: String,
    pub msg: String,
}
pub fn v(class: &str, msg: String) -> Option<V> {
    Some(V { class: class.into(), msg })
}

/// A worker process: runs simulations, never calls the library itself.
pub struct W {
    pub r: Ref,
    pub sh: &'static mut Shared,
    pub solo_sh: &'static mut Shared,
    pub solos: HashMap<(u8, Vec<u64>), Solo>,
    pub solo_runs: u64,
    pub disks: HashMap<(u64, u32), Vec<(u64, u32)>>,
    pub counters: [u64; 16],
    pub thorough: bool,
    pub seed: u64,
}
impl W {
    pub fn new(seed: u64, thorough: bool) -> W {
        W {
            r: Ref::new(),
            sh: new_shared(),
            solo_sh: new_shared(),
            solos: HashMap::new(),
            solo_runs: 0,
            disks: HashMap::new(),
            counters: [0; 16],
            thorough,
            seed,
        }
    }
    /// The same call, alone, without faults, in a process that made no other call.
    pub fn solo(&mut self, f: u8, a: &[u64]) -> Solo {
        let key = (f, a.to_vec());
        if let Some(s) = self.solos.get(&key) {
            return s.clone();
        }
        let mut p = Plan::new("solo", 0);
        p.push(0, f, a.to_vec());
        p.heapcap = 1 << 30;
        if f == crate::ops::CROWD {
            p.budget = 300_000_000;
        }
        let outcome = execute(&p, self.solo_sh);
        self.solo_runs += 1;
        let vw = View { outcome, sh: self.solo_sh };
        let r = *vw.rec(0);
        let s = Solo {
            outcome,
            status: r.status,
            words: vw.words(0).to_vec(),
            steps: r.steps,
            allocs: r.allocs,
            capfail: r.capfail,
            peak: r.peak,
        };
        if self.solos.len() > 3000 {
            self.solos.clear();
        }
        self.solos.insert(key, s.clone());
        s
    }
    pub fn disk(&mut self, h: u64, k: u32) -> Vec<(u64, u32)> {
        if let Some(d) = self.disks.get(&(h, k)) {
            return d.clone();
        }
        let d = self.r.disk(h, k);
        if self.disks.len() > 64 {
            self.disks.clear();
        }
        if d.len() < 3000 {
            self.disks.insert((h, k), d.clone());
        }
        d
    }
}
/// Things that are wrong under every property: the process died, or a call never came back.
pub fn common(plan: &Plan, vw: &View) -> Option<V> {
    let cur = plan.op(vw.sh.head.cur_uid);
    let name = cur.map(|o| crate::ops::show(o.f, &o.a)).unwrap_or_default();
    match vw.outcome {
        Outcome::Crash(s) => return v("crash", format!("the process died with signal {s} during {name}")),
        Outcome::Hang => return v("hang", format!("the process used all its CPU time during {name}")),
        _ => {}
    }
    if vw.sh.head.overrun > 0 {
        let o = plan.op(vw.sh.head.overrun_uid);
        return v("overrun", format!("memory beyond what it had asked for was written during {}", o.map(|o| crate::ops::show(o.f, &o.a)).unwrap_or_default()));
    }
    for o in plan.all_ops() {
        if vw.rec(o.uid).status == BUDGET {
            return v(
                "unbounded",
                format!("{} had not returned after {} of its own steps", crate::ops::show(o.f, &o.a), vw.rec(o.uid).steps),
            );
        }
    }
    if vw.sh.head.deadlock != 0 {
        let w: Vec<String> = plan
            .all_ops()
            .filter(|o| vw.rec(o.uid).status == RUNNING && vw.rec(o.uid).waited > 0)
            .map(|o| crate::ops::show(o.f, &o.a))
            .collect();
        return v("deadlock", format!("blocked for ever: {}", w.join(", ")));
    }
    None
}
