//! C06: no caller can block another, and each call does bounded work.
use super::c01::{interrupts, universe};
use super::*;
use crate::gen;
use crate::prng::mix;

pub struct C06;

/// Steps a call may take, generously above what it needs: linear in the largest
/// possible answer (disks: times the radius, for the fallback's revisits).
pub fn step_bound(f: u8, a: &[u64]) -> u64 {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    let k = (g(1) as u32 as u64).min(1 << 20);
    match f {
        DISK => 20_000 + 1_000 * (3 * k * (k + 1) + 1) * (k + 2),
        FASTDISK => 20_000 + 6_000 * (3 * k * (k + 1) + 1),
        RING => 20_000 + 6_000 * (7 * k + 1),
        CHILDREN => {
            let n = (g(1) as i32 as i64 - rm::res(g(0)) as i64).clamp(0, 12);
            20_000 + 2_000 * 7u64.pow(n as u32)
        }
        ITER => 20_000 + 2_000 * g(2),
        SKIP => 20_000 + 2_000 * (g(2) + g(3)),
        RES0 => 50_000,
        _ => 20_000,
    }
}

/// So many callers die or stall inside the same few calls that whatever there is a
/// limited number of inside the library runs out; then the others call.
pub fn mass(g: &mut Rng, w: &mut W, p: &mut Plan, u: &[(u8, Vec<u64>)]) {
    let mut few: Vec<(u8, Vec<u64>)> = (0..g.range(1, 2)).map(|_| g.pick(u).clone()).filter(|x| est(x.0, &x.1) < 20_000).collect();
    if g.chance(1, 2) {
        let r = gen::any_res(g);
        few = vec![(DISK, vec![gen::near_pentagon(g, &mut w.r, r, 1), g.range(1, 3) as u64])];
    }
    if few.is_empty() {
        return;
    }
    let kills = g.range(0, 2);
    let nt = g.range(3, 72) as usize;
    let n = nt + if kills > 0 { g.range(0, 120) as usize } else { 0 };
    for i in 0..n {
        let (f, a) = g.pick(&few).clone();
        let steps = w.solo(f, &a).steps.max(2);
        let uid = p.push(i % nt, f, a);
        let kind = if kills == 2 || kills == 1 && g.chance(1, 2) { EvKind::Kill } else { EvKind::Stall(u64::MAX) };
        if !g.chance(1, 12) {
            p.events.push(Ev { uid, s: pos_in(g, steps), kind });
        }
    }
    for i in 0..g.range(1, 4) as usize {
        let (f, a) = if g.chance(2, 3) { g.pick(&few).clone() } else { g.pick(u).clone() };
        let steps = w.solo(f, &a).steps.max(2);
        // (late, so that the others are inside before)
        let uid = p.push(nt + i, f, a);
        p.events.push(Ev { uid, s: 1, kind: EvKind::Stall(steps * (n as u64) * 2) });
    }
}

/// A few callers make the same kind of call at the same time, again and again, and lose
/// the baton mostly where they touch shared memory: what only breaks when several of them
/// are in the middle of the same few instructions.
pub fn contend(g: &mut Rng, w: &mut W, p: &mut Plan, u: &[(u8, Vec<u64>)]) {
    let mut few: Vec<(u8, Vec<u64>)> = vec![];
    if g.chance(1, 2) {
        let r = gen::any_res(g);
        let k = g.range(1, 2) as u64;
        let f = *g.pick(&[DISK, DISK, DISK, RING, FASTDISK]);
        for _ in 0..g.range(2, 4) {
            few.push((f, vec![gen::near_pentagon(g, &mut w.r, r, 1), k]));
        }
    } else {
        let f = g.pick(u).0;
        few.extend(u.iter().filter(|x| x.0 == f && est(x.0, &x.1) < 20_000).take(4).cloned());
    }
    if few.is_empty() {
        return;
    }
    let nt = g.range(3, 6) as usize;
    let stalls = g.chance(2, 3);
    for i in 0..nt * g.range(2, 10) as usize {
        let (f, a) = g.pick(&few).clone();
        w.solo(f, &a);
        let uid = p.push(i % nt, f, a);
        if stalls && g.chance(1, 2) {
            p.events.push(Ev { uid, s: at_static(g.log(24), g.log(3)), kind: EvKind::Stall(g.log(8000)) });
        }
    }
    p.sched = Sched::Seeded {
        seed: g.next(),
        mean: *g.pick(&[0, 0, 60, 1000]),
        hot_ppm: *g.pick(&[50_000, 200_000, 500_000]),
        pct: false,
        end_ppm: *g.pick(&[200_000, 1_000_000]),
    };
}

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C06", run);
        let mut eg = Rng::new(mix(w.seed ^ 0xc06) ^ (run / 24));
        let u = universe(&mut eg, w, 14);
        let nt = g.range(2, 5) as usize;
        let n = g.range(2, 16) as usize;
        let mut budget = 0;
        let crowded = g.chance(1, 25);
        if crowded {
            mass(g, w, &mut p, &u);
            budget = p.ops().map(|o| step_bound(o.f, &o.a)).max().unwrap_or(0);
        }
        for i in 0..if crowded { 0 } else { n } {
            let t = if i < nt { i } else { g.below(nt as u64) as usize };
            let (mut f, mut a) = g.pick(&u).clone();
            if g.chance(1, 100) {
                // large enough for revisits to pile up, should the fallback repeat itself
                let r = g.range(2, 15) as i32;
                let k = g.range(11, 20) as u64;
                f = DISK;
                a = vec![gen::near_pentagon(g, &mut w.r, r, k / 2), k];
            }
            let e = w.solo(f, &a);
            budget = budget.max(step_bound(f, &a));
            let uid = p.push(t, f, a);
            match g.below(8) {
                0 | 1 => p.events.push(Ev { uid, s: pos_in(g, e.steps.max(2)), kind: EvKind::Stall(u64::MAX) }),
                2 => p.events.push(Ev { uid, s: pos_in(g, e.steps.max(2)), kind: EvKind::Stall(g.log(1_000_000)) }),
                3 | 4 => p.events.push(Ev { uid, s: pos_in(g, e.steps.max(2)), kind: EvKind::Kill }),
                5 if e.allocs > 0 => {
                    // stalled or dead while it waits for memory
                    p.op_mut(uid).fault = Fault::Nth(1 + g.below(e.allocs as u64) as u32);
                }
                _ => {}
            }
        }
        if g.chance(1, 3) {
            interrupts(g, w, &mut p, &u);
        }
        p.budget = 2 * budget + 50_000;
        if g.chance(1, 20) {
            let mut q = Plan::new("C06", run);
            contend(g, w, &mut q, &u);
            if q.nops() > 0 {
                q.budget = 2 * q.ops().map(|o| step_bound(o.f, &o.a)).max().unwrap_or(0) + 50_000;
                return q;
            }
        }
        let tot = est_plan(&p);
        p.sched = sched(g, tot);
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        if vw.sh.head.blocked_on_stalled > 0 {
            return v("blocked", "a caller had to wait for another caller that was stalled inside the library".into());
        }
        for o in p.all_ops() {
            let r = *vw.rec(o.uid);
            if r.status == NOTRUN && o.uid as usize > MAX_UID / 2 {
                continue; // a signal that came too late
            }
            if r.status == NOTRUN || r.status == RUNNING {
                return v("unfinished", format!("{} never finished though every other caller had", show(o.f, &o.a)));
            }
            if r.steps > step_bound(o.f, &o.a) {
                return v("steps", format!("{} took {} steps, more than {}", show(o.f, &o.a), r.steps, step_bound(o.f, &o.a)));
            }
            w.counters[0] = w.counters[0].max(r.steps * 1000 / step_bound(o.f, &o.a));
            if r.status != DONE && r.status != PANIC {
                continue;
            }
            let s = w.solo(o.f, &o.a);
            let ws = vw.words(o.uid);
            if s.outcome == Outcome::Finished
                && (r.status != s.status || ws != &s.words[..])
                && !(r.failed + r.capfail > 0 && (ws == [ERR, MEMORY] || null_disk(o)))
                && s.capfail == 0
            {
                return v(
                    "failed",
                    format!("{} returned {} while others were stalled or dead, alone it returns {}", show(o.f, &o.a), show_words(ws), show_words(&s.words)),
                );
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: 2-5 threads make up to 16 calls, many of them stalled for ever or killed at a random step inside the library (in one run of 25, up to 200 calls of the same one or two kinds by up to 76 threads, nearly all of them stalled or killed); every other call must finish, with its own answer, within a step bound proportional to its largest answer, and no thread may wait on a lock held by a stalled or dead one. Non-trivial: at least one caller was stalled or killed inside a call while another had calls left. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, _p: &Plan, vw: &View) -> bool {
        vw.sh.head.kills + vw.sh.head.stalls + vw.sh.head.interrupts > 0
    }
    fn probes(&self) -> &'static [&'static str] {
        &["largest share of its step bound any call used, per mille, summed over workers"]
    }
}
