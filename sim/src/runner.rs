//! Seeded search over plans: worker processes, minimisation, evidence.
use crate::exec::*;
use crate::ops::*;
use crate::plan::*;
use crate::prng::*;
use crate::props::Prop;
use crate::sim::*;
use crate::sys;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub struct Cfg {
    pub tier: String,
    pub seed: u64,
    pub secs: f64,
    pub runs: u64,
    pub workers: usize,
    pub config: String,
    pub out: String,
    pub evidence: String,
    pub known: Vec<(String, String)>,
    pub digest: bool,
}
const NC: usize = 32;
const HASHES: usize = 1 << 21;
#[repr(C)]
struct Glob {
    next: AtomicU64,
    stop: AtomicU32,
    claimed: AtomicU32,
    msg_len: AtomicU64,
    msg: [u8; 1 << 16],
    cov: [u8; MAXCOV],
}
#[repr(C)]
struct Wst {
    c: [u64; NC],
    probes: [u64; 24],
    funcs: [u64; 64],
    nh: u64,
    ni: u64,
    sample_len: u64,
    sample: [u8; 1 << 15],
    hashes: [u64; HASHES],
    inter: [u64; HASHES],
}
const RUNS: usize = 0;
const NONTRIV: usize = 1;
const OPS: usize = 2;
const STEPS: usize = 3;
const PREEMPT: usize = 4;
const HOT: usize = 5;
const KILLS: usize = 6;
const STALLS: usize = 7;
const ALLOCS: usize = 8;
const AFAIL: usize = 9;
const ACAP: usize = 10;
const FUTEX: usize = 11;
const SOLO: usize = 12;
const KNOWN: usize = 13;
const UNREPRO: usize = 14;
const PANICS: usize = 15;
const GSTEPS: usize = 16;
const INTERRUPTS: usize = 17;

pub fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    let mut h = mix(seed ^ 0x5eed);
    for b in prop.bytes() {
        h = fnv(h, b as u64);
    }
    fnv(h, run)
}
fn plan_for(prop: &dyn Prop, w: &mut W, run: u64) -> Plan {
    let mut g = Rng::new(run_seed(w.seed, prop.id(), run));
    let mut p = prop.gen(&mut g, w, run);
    p.prop = prop.id().into();
    at_statics(&mut Rng::new(run_seed(w.seed ^ 0x57a7, prop.id(), run)), &mut p);
    again(&mut Rng::new(run_seed(w.seed ^ 0xa6a1, prop.id(), run)), w, &mut p);
    if p.nops() + p.handlers.len() > MAX_UID {
        crate::die("plan too large");
    }
    p
}
/// Half of the faults strike a second time where the call touches static or thread-local
/// memory or does something atomic, if it does.
fn at_statics(g: &mut Rng, p: &mut Plan) {
    for e in p.events.clone() {
        let s = at_static(g.log(40), g.log(24));
        if g.chance(1, 2) {
            match e.kind {
                EvKind::Call(h) => {
                    if let Some(o) = p.op(h).cloned() {
                        p.interrupt(e.uid, s, o.f, o.a);
                    }
                }
                kind => p.events.push(Ev { uid: e.uid, s, kind }),
            }
        }
    }
}
/// The functions a property is about, for those that do not themselves look at long
/// histories: what a run finds may depend on how many calls came before.
fn family(prop: &str) -> &'static [u8] {
    match prop {
        "C04" => &[ITER, SKIP, CHILDREN],
        "C05" => &[DISK, DISK, FASTDISK, RING, NBR],
        "C07" => &[VALID, DECODE, DISK, NBR, NCHILD, EDGE, CHILDAT],
        "C08" => &[VALID, EVALID],
        "C09" => &[CHILDAT, CHILDAT, SKIP, NCHILD, ITER],
        "C10" => &[NBR],
        "C11" => &[EDGE, EDGE, EDEST, EORIGIN, ECELLS, EVALID, EDGES, DIRFOR],
        "C12" => &[RES0, RES0N, CHILDREN, NCHILD],
        "C13" => &[ENCODE, DECODE],
        "C14" => &[ROTL, ROTR, ROTPL, ROTPR],
        "C15" => &[LOOK, LOOK, FIELD, FIELD, MKINDEX, PENT, RES, VALID, LEADING],
        "C16" => &[AZDIST, AZIMUTH, ANGLE],
        "C17" => &[DISK, FASTDISK, RING, NCHILD, CHILDREN, CHILDAT, ENCODE, DECODE, EDGE, EDEST, ECELLS],
        _ => &[],
    }
}
/// In some runs, one of the threads also makes a few of these calls over and over.
fn again(g: &mut Rng, w: &mut W, p: &mut Plan) {
    let fs = family(&p.prop);
    if fs.is_empty() || p.tasks.is_empty() || p.heapcap < 1 << 20 || !g.chance(1, 30) {
        return;
    }
    let mut cells = vec![crate::gen::mixed_cell(g, &mut w.r)];
    let pents = g.chance(1, 3);
    for _ in 0..g.range(0, 3) {
        let h = *g.pick(&cells);
        cells.push(crate::gen::relative(g, &mut w.r, h));
    }
    if pents {
        cells = (0..g.range(1, 3)).map(|_| crate::refmodel::mk(g.below(4) as i32, *g.pick(&crate::gen::PENTS) as usize, &[0; 15])).collect();
    }
    cells.retain(|h| crate::refmodel::valid_cell(*h));
    if cells.is_empty() {
        return;
    }
    let f = *g.pick(fs);
    let one = g.chance(1, 2);
    let mut a = vec![0];
    let mut each = 0;
    // one call and then another one so often that a counter has come round
    let round = g.chance(1, 3);
    let turns = if g.chance(1, 2) { 8 } else { g.range(1, 16) };
    let turns = (1u64 << turns) - g.below(2);
    let mut calls = 0;
    for _ in 0..4 * g.log(40) {
        if round && calls == 2 {
            break;
        }
        let f = if one || round { f } else { *g.pick(fs) };
        let (f2, args) = match f {
            LOOK => (f, vec![*g.pick(&cells)]),
            FIELD => {
                let mut a = vec![*g.pick(&cells)];
                a.extend(crate::props::c15::one_edit(g, false));
                (f, a)
            }
            _ => crate::props::c01::one_call(g, w, f, &cells),
        };
        let cell = if f == CHILDAT { 1 } else { 0 };
        let intact = matches!(f, ENCODE | AZDIST | AZIMUTH | ANGLE | MKINDEX | RES0 | RES0N | EDEST | EORIGIN | ECELLS | EVALID | VALID)
            || args.get(cell).is_some_and(|h| crate::refmodel::valid_cell(*h));
        if f2 != f || !intact {
            continue;
        }
        let e = crate::props::est(f, &args);
        if e > 60_000 {
            continue;
        }
        let mut args = args;
        if round && calls == 1 && g.chance(1, 2) && matches!(f, DISK | FASTDISK | RING | CHILDREN) {
            let cell = args[0];
            args = a[3..].to_vec();
            args[0] = cell;
        }
        // how often in a row
        let times = match g.below(6) {
            _ if round => [1, turns][calls],
            0 => g.log(1000) as u64,
            1 => ((1 << g.range(1, 9)) + g.range(-1, 1)) as u64,
            _ => 1,
        };
        if each + e * times > 1 << 22 {
            continue;
        }
        each += e * times;
        calls += 1;
        a.push(f as u64 | times << 8);
        a.push(args.len() as u64);
        a.extend(args);
    }
    if each == 0 {
        return;
    }
    a[0] = ((1u64 << g.range(12, 24)) / each).max(2);
    let t = g.below(p.tasks.len() as u64) as usize;
    let at = g.below(p.tasks[t].len() as u64 + 1) as usize;
    p.push(t, AGAIN, a);
    let o = p.tasks[t].pop().unwrap();
    p.tasks[t].insert(at, o);
}
/// What every property has to say, and then what this one has.
fn judge(prop: &dyn Prop, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
    if !p.ops().any(|o| o.f == AGAIN) {
        return prop.check(p, vw, w);
    }
    for o in p.ops().filter(|o| o.f == AGAIN) {
        let ws = vw.words(o.uid);
        let calls = crate::apps::again_calls(&o.a);
        if vw.rec(o.uid).status == DONE && ws.len() > 4 && ws[0] == crate::apps::B_OTHER {
            let (f, _, a) = calls[ws[1] as usize];
            let n = 4 + ws[3] as usize;
            return v(
                "unsteady",
                format!("{} returned {} and later, after {} calls in all, {}", crate::ops::show(f, a), show_words(&ws[4..n]), ws[2], show_words(&ws[n..])),
            );
        }
        if vw.rec(o.uid).status == PANIC {
            let alone = calls.iter().any(|(f, _, a)| w.solo(*f, a).status != DONE);
            if !alone {
                return v("unsteady", format!("one of {} calls made again and again panicked, which none of them does alone", calls.len()));
            }
        }
    }
    let mut q = p.clone();
    for t in q.tasks.iter_mut() {
        t.retain(|o| o.f != AGAIN);
    }
    prop.check(&q, vw, w)
}
fn try_plan(prop: &dyn Prop, w: &mut W, sh: &mut Shared, p: &Plan) -> (Option<V>, u64) {
    let outcome = execute(p, sh);
    if let Outcome::Harness(c) = outcome {
        crate::die(&format!("simulated process ended with {c} (run {} of {})", p.run, p.prop));
    }
    let h = sh.head.log_hash;
    (judge(prop, p, &View { outcome, sh }, w), h)
}
fn to_trace(p: &Plan, sh: &Shared) -> Plan {
    let mut q = p.clone();
    let n = sh.head.nsw as usize;
    q.sched = Sched::Trace(
        sh.sw[..n]
            .iter()
            .map(|x| Sw { uid: x[0] as u32, kind: (x[0] >> 32) as u8, s: x[1], to: x[2] as u32 })
            .collect(),
    );
    q
}

/// Shrink while the same class of violation persists.
fn minimise(prop: &dyn Prop, w: &mut W, sh: &mut Shared, p: &Plan, first: V, secs: f64) -> (Plan, V) {
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let class = first.class.clone();
    let mut best = p.clone();
    let mut bestv = first;
    // the schedule as an explicit trace
    let _ = try_plan(prop, w, sh, p);
    let t = to_trace(p, sh);
    if let (Some(x), _) = try_plan(prop, w, sh, &t) {
        if x.class == class {
            best = t;
            bestv = x;
        }
    }
    let mut attempt = |q: Plan, best: &mut Plan, bestv: &mut V, w: &mut W, sh: &mut Shared| -> bool {
        if Instant::now() > end {
            return false;
        }
        if let (Some(x), _) = try_plan(prop, w, sh, &q) {
            if x.class == class {
                *best = q;
                *bestv = x;
                return true;
            }
        }
        false
    };
    fn drop_ops(p: &Plan, gone: &HashSet<u32>) -> Plan {
        let mut q = p.clone();
        for t in q.tasks.iter_mut() {
            t.retain(|o| !gone.contains(&o.uid));
        }
        q.events.retain(|e| !gone.contains(&e.uid));
        prune(&mut q);
        if let Sched::Trace(v) = &mut q.sched {
            v.retain(|s| !gone.contains(&s.uid));
        }
        q
    }
    fn prune(q: &mut Plan) {
        let ev = &q.events;
        q.handlers.retain(|o| ev.iter().any(|e| e.kind == EvKind::Call(o.uid)));
    }
    loop {
        let before = best.to_text().len();
        // whole tasks
        for t in (0..best.tasks.len()).rev() {
            if !best.tasks[t].is_empty() {
                let gone = best.tasks[t].iter().map(|o| o.uid).collect();
                let q = drop_ops(&best, &gone);
                attempt(q, &mut best, &mut bestv, w, sh);
            }
        }
        // chunks of ops
        let mut n = best.nops() / 2;
        while n >= 1 {
            let uids: Vec<u32> = best.ops().map(|o| o.uid).collect();
            for c in uids.chunks(n).rev() {
                let q = drop_ops(&best, &c.iter().copied().collect());
                if q.nops() > 0 {
                    attempt(q, &mut best, &mut bestv, w, sh);
                }
            }
            n /= 2;
        }
        // events and faults
        for i in (0..best.events.len()).rev() {
            let mut q = best.clone();
            q.events.remove(i);
            prune(&mut q);
            attempt(q, &mut best, &mut bestv, w, sh);
        }
        let uids: Vec<u32> = best.ops().filter(|o| o.fault != Fault::None).map(|o| o.uid).collect();
        for u in uids {
            let mut q = best.clone();
            q.op_mut(u).fault = Fault::None;
            if !attempt(q, &mut best, &mut bestv, w, sh) {
                for k in [1, 2, 3, 5] {
                    let mut q = best.clone();
                    q.op_mut(u).fault = Fault::Nth(k);
                    if q != best && attempt(q, &mut best, &mut bestv, w, sh) {
                        break;
                    }
                }
            }
        }
        // scheduling decisions
        if let Sched::Trace(v) = best.sched.clone() {
            let mut n = v.len();
            while n >= 1 {
                let mut i = 0;
                loop {
                    let Sched::Trace(cur) = best.sched.clone() else { break };
                    if i >= cur.len() {
                        break;
                    }
                    let hi = (i + n).min(cur.len());
                    let mut q = best.clone();
                    let mut nv = cur.clone();
                    nv.drain(i..hi);
                    q.sched = Sched::Trace(nv);
                    if !attempt(q, &mut best, &mut bestv, w, sh) {
                        i = hi;
                    }
                    if Instant::now() > end {
                        break;
                    }
                }
                n /= 2;
            }
        }
        if best.to_text().len() >= before || Instant::now() > end {
            break;
        }
    }
    (best, bestv)
}

fn worker(id: usize, prop: &dyn Prop, cfg: &Cfg, gl: &mut Glob, st: &mut Wst, cpu: Option<usize>) {
    if let Some(c) = cpu {
        sys::pin(c);
    }
    let _ = id;
    set_cov(gl.cov.as_mut_ptr());
    let mut w = W::new(cfg.seed, cfg.tier == "thorough");
    let sh = new_shared();
    let end = Instant::now() + Duration::from_secs_f64(cfg.secs);
    loop {
        if gl.stop.load(Relaxed) != 0 || Instant::now() > end {
            break;
        }
        let run = gl.next.fetch_add(1, Relaxed);
        if run >= cfg.runs {
            break;
        }
        let p = plan_for(prop, &mut w, run);
        let outcome = execute(&p, sh);
        if let Outcome::Harness(c) = outcome {
            crate::die(&format!("simulated process ended with {c} (run {run} of {})", prop.id()));
        }
        let head = sh.head;
        let nt;
        let viol;
        {
            let vw = View { outcome, sh };
            viol = judge(prop, &p, &vw, &mut w);
            nt = prop.nontrivial(&p, &vw);
        }
        if cfg.digest {
            // the recorded schedule, replayed as an explicit trace, is the same execution
            let t = to_trace(&p, sh);
            let text = t.to_text();
            let back = Plan::from_text(&text).unwrap_or_else(|e| crate::die(&e));
            if back != t {
                println!("{run} replay file does not round-trip");
            }
            execute(&back, sh);
            if sh.head.log_hash != head.log_hash && outcome == Outcome::Finished {
                println!("{run} trace replay differs");
            }
            println!("{run} {:x} {:x} {}", head.log_hash, head.sched_hash, viol.as_ref().map(|x| x.class.as_str()).unwrap_or("-"));
        }
        st.c[RUNS] += 1;
        st.c[NONTRIV] += nt as u64;
        for o in p.all_ops() {
            if sh.recs[o.uid as usize].status != NOTRUN {
                st.c[OPS] += 1;
                st.c[STEPS] += sh.recs[o.uid as usize].steps;
                st.funcs[o.f as usize] += 1;
            }
        }
        st.c[PREEMPT] += head.preempts;
        st.c[HOT] += head.hot;
        st.c[KILLS] += head.kills;
        st.c[STALLS] += head.stalls;
        st.c[ALLOCS] += head.allocs;
        st.c[AFAIL] += head.failed;
        st.c[ACAP] += head.capfail;
        st.c[FUTEX] += head.futex_waits;
        st.c[PANICS] += head.panics as u64;
        st.c[GSTEPS] += head.gsteps;
        st.c[INTERRUPTS] += head.interrupts;
        for i in 0..24 {
            st.probes[i] += head.probes[i];
        }
        for i in 0..8 {
            st.probes[16 + i] = w.counters[i];
        }
        if nt && (st.nh as usize) < HASHES {
            st.hashes[st.nh as usize] = head.log_hash;
            st.nh += 1;
        }
        if head.preempts > 0 && (st.ni as usize) < HASHES {
            st.inter[st.ni as usize] = head.sched_hash;
            st.ni += 1;
        }
        if nt && st.sample_len == 0 {
            let t = to_trace(&p, sh);
            let mut s = t.to_text();
            if s.len() > 1500 {
                s.truncate(1500);
                s += "...";
            }
            let b = s.as_bytes();
            st.sample[..b.len()].copy_from_slice(b);
            st.sample_len = b.len() as u64;
        }
        st.c[SOLO] = w.solo_runs;
        if let Some(v0) = viol {
            if cfg.digest {
                continue;
            }
            if let Some(k) = cfg.known.iter().find(|k| k.0 == prop.id() && v0.msg.contains(&k.1)) {
                let _ = k;
                st.c[KNOWN] += 1;
                continue;
            }
            // twice more: a violation that does not repeat is a fault of the harness
            let (a, ha) = try_plan(prop, &mut w, sh, &p);
            let (b, hb) = try_plan(prop, &mut w, sh, &p);
            let same = |x: &Option<V>| x.as_ref().map(|x| x.class == v0.class).unwrap_or(false);
            if !same(&a) || !same(&b) || (outcome == Outcome::Finished && (ha != head.log_hash || hb != head.log_hash)) {
                st.c[UNREPRO] += 1;
                eprintln!("not reproducible: run {run}: {} | {:?} | {:?}", v0.msg, a, b);
                continue;
            }
            if gl.claimed.compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
                continue;
            }
            gl.stop.store(1, SeqCst);
            let secs = if cfg.tier == "thorough" { 60.0 } else { 20.0 };
            let (mut q, mut vv) = minimise(prop, &mut w, sh, &p, v0.clone(), secs);
            // the file must reproduce in a fresh process, exactly
            let (c, hc) = try_plan(prop, &mut w, sh, &q);
            let (d, hd) = try_plan(prop, &mut w, sh, &q);
            if !same(&c) || !same(&d) || hc != hd {
                q = p.clone();
                vv = v0.clone();
            }
            let text = format!(
                "# {}\n# found with VERIF_SEED={} at run {} ({} tier)\n# build {}\n{}",
                vv.msg.replace('\n', " "),
                cfg.seed,
                run,
                cfg.tier,
                if cfg!(debug_assertions) { "dev" } else { "release" },
                q.to_text()
            );
            let _ = std::fs::create_dir_all(&cfg.out);
            let path = format!("{}/{}-{:016x}.replay", cfg.out, prop.id(), fnv(cfg.seed, hash_str(&q.to_text())));
            if std::fs::write(&path, text).is_err() {
                crate::die("cannot write the replay file");
            }
            let m = format!(
                "{}\nVIOLATION property={} replay={}\n",
                vv.msg.replace('\n', " "),
                prop.id(),
                path
            );
            let b = m.as_bytes();
            let n = b.len().min(gl.msg.len());
            gl.msg[..n].copy_from_slice(&b[..n]);
            gl.msg_len.store(n as u64, SeqCst);
        }
    }
}
fn hash_str(s: &str) -> u64 {
    s.bytes().fold(7, |h, b| fnv(h, b as u64))
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o
}

/// Returns the exit code.
pub fn check(prop: &dyn Prop, cfg: &Cfg) -> i32 {
    if nguards() == 0 {
        crate::die("the library was built without instrumentation");
    }
    let missing = crate::internals::missing();
    for m in &missing {
        println!("NOTE: built without the library's own helpers \"{m}\" (their interface changed); stand-ins instead");
        if matches!((prop.id(), *m), ("C14", "turns") | ("C16", "geo")) {
            crate::die("this property is about those helpers: no answer");
        }
    }
    let t0 = Instant::now();
    let gl: &'static mut Glob = unsafe { &mut *(sys::shared(std::mem::size_of::<Glob>()) as *mut Glob) };
    let mut sts: Vec<*mut Wst> = (0..cfg.workers).map(|_| sys::shared(std::mem::size_of::<Wst>()) as *mut Wst).collect();
    let cpus = sys::cpus();
    let me = std::process::id() as i32;
    let mut pids = vec![];
    for i in 0..cfg.workers {
        unsafe {
            let pid = sys::fork();
            if pid < 0 {
                crate::die("fork failed");
            }
            if pid == 0 {
                sys::die_with_parent(me);
                let cpu = if cpus.len() >= 2 { Some(cpus[i % cpus.len()]) } else { None };
                worker(i, prop, cfg, gl, &mut *sts[i], cpu);
                use std::io::Write;
                let _ = std::io::stdout().flush();
                sys::_exit(0);
            }
            pids.push(pid);
        }
    }
    let mut bad = false;
    let mut lost = 0;
    for p in pids {
        let mut st = 0;
        unsafe {
            sys::waitpid(p, &mut st, 0);
        }
        if st & 127 == 9 {
            // ended from outside (the machine ran out of memory): the others go on
            lost += 1;
        } else if st != 0 {
            bad = true;
            gl.stop.store(1, SeqCst);
        }
    }
    if lost > 0 {
        println!("NOTE: {lost} of {} workers were killed from outside", cfg.workers);
        bad |= lost == cfg.workers || (gl.claimed.load(SeqCst) != 0 && gl.msg_len.load(SeqCst) == 0);
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut c = [0u64; NC];
    let mut probes = [0u64; 24];
    let mut funcs = [0u64; 64];
    let mut hs: HashSet<u64> = HashSet::new();
    let mut is: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    for p in &sts {
        let s = unsafe { &**p };
        for i in 0..NC {
            c[i] += s.c[i];
        }
        for i in 0..24 {
            probes[i] += s.probes[i];
        }
        for i in 0..64 {
            funcs[i] += s.funcs[i];
        }
        hs.extend(&s.hashes[..s.nh as usize]);
        is.extend(&s.inter[..s.ni as usize]);
        if s.sample_len > 0 && samples.len() < 2 {
            samples.push(String::from_utf8_lossy(&s.sample[..s.sample_len as usize]).to_string());
        }
    }
    let cov = gl.cov.iter().filter(|x| **x != 0).count();
    let violated = gl.msg_len.load(SeqCst) > 0;
    let fl: Vec<String> = funcs
        .iter()
        .enumerate()
        .filter(|x| *x.1 > 0)
        .map(|(i, n)| format!("\"{}\": {}", crate::ops::NAMES[i], n))
        .collect();
    let pr: Vec<String> = prop.probes().iter().enumerate().map(|(i, n)| format!("\"{}\": {}", n, probes[16 + i])).collect();
    let hours = wall / 3600.0;
    let ev = format!(
        r#"{{"property": "{id}", "tier": "{tier}", "seed": {seed}, "level": "{level}",
 "coverage": {{
  "evaluations": {runs}, "distinct_nontrivial": {distinct},
  "rule": "{rule}",
  "samples": [{samples}],
  "nontrivial_runs": {nontriv},
  "runs_per_hour": {rph:.0}, "seeds": "one per run, derived from the seed above and the run number", "workers": {workers},
  "pristine_comparison_processes": {solo},
  "calls": {ops}, "calls_by_function": {{{fl}}},
  "library_steps": {steps}, "simulated_time_steps": {gsteps},
  "simulated_time_note": "the library reads no clock; one step (basic-block edge, memory access or allocation of the real code) is one simulated nanosecond, stalls included",
  "fault_kinds": {{"preemption_inside_a_call": {pre}, "caller_stalled": {stalls}, "caller_killed": {kills}, "interrupted_by_a_call_on_the_same_thread": {intr}, "allocation_refused": {afail}, "heap_exhausted": {acap}, "panic_unwound": {panics}, "dirty_memory_handed_out": {dirty}}},
  "allocations": {allocs}, "accesses_to_global_memory": {hot}, "futex_waits": {futex},
  "distinct_interleavings": {inter},
  "interleaving_measure": "hash of the sequence (kind of switch, edge of the real code where it happened, next task)",
  "edges_covered": {cov}, "edges_instrumented": {guards},
  "probes": {{{pr}}},
  "build": "{config}",
  "real_code": ["every function of the h3-rs crate in /repo, instrumented only", "std collections, threads, thread-locals, panics and locks"],
  "stubs": ["scheduler (baton over real threads)", "allocator failures and heap cap", "futex, sleep and yield", "clock", "hash seeds", "workload state and disk (harness)"{missing}],
  "known_findings_seen": {known}, "unreproducible": {unrepro}
 }},
 "assumptions": [{assume}],
 "wall_s": {wall:.2}, "violations": {viol}}}
"#,
        missing = missing.iter().map(|m| format!(", \"library helpers: {m}\"")).collect::<String>(),
        id = prop.id(),
        tier = cfg.tier,
        seed = cfg.seed,
        level = prop.level(),
        runs = c[RUNS],
        distinct = hs.len(),
        rule = esc(prop.rule()),
        samples = samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "),
        nontriv = c[NONTRIV],
        rph = c[RUNS] as f64 / hours.max(1e-9),
        workers = cfg.workers,
        solo = c[SOLO],
        ops = c[OPS],
        fl = fl.join(", "),
        steps = c[STEPS],
        gsteps = c[GSTEPS],
        pre = c[PREEMPT],
        stalls = c[STALLS],
        kills = c[KILLS],
        intr = c[INTERRUPTS],
        dirty = c[ALLOCS] - c[AFAIL] - c[ACAP],
        afail = c[AFAIL],
        acap = c[ACAP],
        panics = c[PANICS],
        allocs = c[ALLOCS],
        hot = c[HOT],
        futex = c[FUTEX],
        inter = is.len(),
        cov = cov,
        guards = nguards(),
        pr = pr.join(", "),
        config = cfg.config,
        known = c[KNOWN],
        unrepro = c[UNREPRO],
        assume = prop.assumptions().iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "),
        wall = wall,
        viol = violated as u32,
    );
    if !cfg.evidence.is_empty() && std::fs::write(&cfg.evidence, ev).is_err() {
        crate::die("cannot write the evidence file");
    }
    if !cfg.digest {
        println!(
            "{} {}: {} runs ({} distinct non-trivial), {} calls, {} interleavings, {} preemptions, {} kills, {} stalls, {} failed allocations, edges {}/{}, {:.1} s",
            prop.id(), cfg.tier, c[RUNS], hs.len(), c[OPS], is.len(), c[PREEMPT], c[KILLS], c[STALLS], c[AFAIL] + c[ACAP], cov, nguards(), wall
        );
    }
    if c[KNOWN] > 0 {
        for k in cfg.known.iter().filter(|k| k.0 == prop.id()) {
            println!("KNOWN-FINDING: property={} {}", k.0, k.1);
        }
    }
    if violated {
        let n = gl.msg_len.load(SeqCst) as usize;
        print!("{}", String::from_utf8_lossy(&gl.msg[..n]));
        return 1;
    }
    if bad || c[UNREPRO] > 0 {
        eprintln!("harness error");
        return 2;
    }
    if c[RUNS] == 0 {
        eprintln!("nothing was run");
        return 2;
    }
    0
}

/// Run a replay file in this (fresh) process.
pub fn replay(prop: &dyn Prop, p: &Plan, seed: u64) -> i32 {
    let mut w = W::new(seed, false);
    let sh = new_shared();
    let (a, h1) = try_plan(prop, &mut w, sh, p);
    let (b, h2) = try_plan(prop, &mut w, sh, p);
    println!("event log {h1:016x} {h2:016x}");
    match (a, b) {
        (Some(x), Some(_)) => {
            println!("{}", x.msg);
            for o in p.all_ops() {
                let r = sh.recs[o.uid as usize];
                let ws = &sh.words[r.woff as usize..(r.woff + r.wlen) as usize];
                println!(
                    "  op {} {} {:?}: status {} steps {} (ran {}..{}) refused {}/{} -> {}",
                    o.uid,
                    crate::ops::show(o.f, &o.a),
                    o.fault,
                    r.status,
                    r.steps,
                    r.start_seq,
                    r.end_seq,
                    r.failed + r.capfail,
                    r.allocs,
                    crate::ops::show_words(ws)
                );
            }
            1
        }
        (None, None) => {
            println!("no violation");
            0
        }
        _ => {
            eprintln!("the two executions differ");
            2
        }
    }
}
