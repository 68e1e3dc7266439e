//! C09: enumeration resumes exactly from a durable position after a crash.
use super::*;
use crate::apps::*;
use crate::gen;

pub struct C09;

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C09", run);
        let nj = g.range(1, 4) as usize;
        let nt = g.range(1, nj as i64) as usize;
        let mut related = gen::mixed_cell(g, &mut w.r);
        for j in 0..nj {
            let h = match g.below(4) {
                0 => {
                    let r = gen::any_res(g);
                    gen::pentagon(g, r)
                }
                1 => gen::relative(g, &mut w.r, related),
                _ => gen::mixed_cell(g, &mut w.r),
            };
            related = h;
            let r = rm::res(h);
            let gap = if g.chance(1, 2) { g.below(5) as i32 } else { g.below(16) as i32 };
            let cres = (r + gap).min(15);
            let n = rm::child_count(h, cres);
            // the window this job owns
            let len = g.range(1, 60).min(n);
            let lo = match g.below(8) {
                0 => 0,
                1 => n - len,
                2 => g.log(n as u64) as i64,
                3 => {
                    // around the end of the centre child's subtree, and other digit carries
                    let m = g.below(((cres - r) as u64).max(1)) as i32;
                    let q = if g.chance(1, 2) { rm::pow7(m) } else { 1 + 5 * (rm::pow7(m) - 1) / 6 };
                    let mult = g.range(1, 6);
                    q.saturating_mul(mult) - g.range(0, len)
                }
                4 => rm::pow7(g.below((cres - r + 1) as u64) as i32) - 1,
                _ => g.below(n as u64) as i64,
            }
            .clamp(0, n - len);
            let t = j % nt;
            p.init.push(vec![I_JOB, h, cres as u64, lo as u64, (lo + len) as u64]);
            // incarnations of the worker, most of which crash
            let incs = g.range(1, 7);
            for i in 0..=incs {
                let last = i == incs;
                let mode = loop {
                    let m = *g.pick(&[M_POS, M_POS, M_ITER, M_LIST, M_CHUNK, M_CHUNK]);
                    if m == M_ITER && lo + len > 3000 || m == M_LIST && n > 3000 {
                        continue;
                    }
                    break m;
                };
                let quota = if last || g.chance(2, 3) { len } else { g.range(1, len) };
                let batch = if g.chance(1, 3) { 1 } else { g.range(1, 12) };
                let mut a = vec![j as u64, mode, quota as u64, batch as u64];
                if g.chance(1, 3) {
                    let bad = match g.below(8) {
                        0 => n,
                        1 => -1,
                        2 => n + g.log(1 << 40) as i64,
                        3 => i64::MIN,
                        4 => i64::MAX,
                        5 => lo ^ 1 << g.below(63),
                        6 => -(lo + 1),
                        _ => g.next() as i64,
                    };
                    a.push(bad as u64);
                }
                let uid = p.push(t, JOB, a);
                if !last && g.chance(4, 5) {
                    let e = 100 + 120 * quota as u64;
                    p.events.push(Ev { uid, s: pos_in(g, e), kind: EvKind::Kill });
                } else if g.chance(1, 10) {
                    p.events.push(Ev { uid, s: pos_in(g, 1000), kind: EvKind::Stall(g.log(10_000)) });
                }
            }
            // positions asked for directly
            for _ in 0..g.below(6) {
                let pos = match g.below(5) {
                    0 => n - 1,
                    1 => 0,
                    2 => n,
                    _ => g.below(n as u64) as i64,
                };
                p.push(t, CHILDAT, vec![pos as u64, h, cres as u64]);
            }
        }
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, 8000) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        let mut done: Vec<std::collections::HashMap<i64, u64>> = vec![Default::default(); p.init.len()];
        let mut complete = vec![false; p.init.len()];
        for t in &p.tasks {
            for o in t {
                let r = vw.rec(o.uid);
                if r.status == PANIC {
                    return v("panic", format!("{} panicked", show(o.f, &o.a)));
                }
                if o.f == CHILDAT {
                    let (pos, h, cr) = (o.a[0] as i64, o.a[1], o.a[2] as i32);
                    let n = rm::child_count(h, cr);
                    let ws = vw.words(o.uid);
                    let ok = if pos < 0 || pos >= n { ws.first() == Some(&ERR) } else { ws == [OK, rm::child_at(h, cr, pos)] };
                    if r.status == DONE && !ok {
                        return v("position", format!("{} returned {}", show(o.f, &o.a), show_words(ws)));
                    }
                    continue;
                }
                if r.status == NOTRUN || r.status == RUNNING {
                    continue;
                }
                let j = o.a[0] as usize;
                let (h, cr, hi) = (p.init[j][1], p.init[j][2] as i32, p.init[j][4] as i64);
                let n = rm::child_count(h, cr);
                let modes = ["by position", "by enumeration", "by list", "by chunks"];
                let name = format!("job on the children of {h:x} at resolution {cr} ({n} of them), {}", modes[o.a[1] as usize]);
                w.counters[0] += (r.status == KILLED) as u64;
                let ws = vw.words(o.uid);
                for c in ws.chunks(3) {
                    if c.len() < 3 {
                        break;
                    }
                    let (x, y) = (c[1] as i64, c[2]);
                    match c[0] {
                        T_DID => {
                            let want = rm::child_at(h, cr, x);
                            if y != want {
                                return v("wrong", format!("{name}: processed {y:x} under position {x}, which is {want:x}"));
                            }
                            if let Some(old) = done[j].insert(x, y) {
                                w.counters[1] += 1;
                                if old != y {
                                    return v("wrong", format!("{name}: position {x} was {old:x} before the crash and {y:x} after"));
                                }
                            }
                        }
                        T_COUNT => {
                            if x != n {
                                return v("count", format!("{name}: announced or listed {x} children"));
                            }
                        }
                        T_END => {
                            // y: the enumeration said it was over after x children
                            if (y == 1) != (x == n) {
                                return v("end", format!("{name}: after {x} children the enumeration {}", if y == 1 { "was over" } else { "went on" }));
                            }
                        }
                        T_ERR => return v("error", format!("{name}: error {} at position {}", ename(c[1]), y)),
                        T_PROBE => {
                            let want = if x >= 0 && x < n { rm::child_at(h, cr, x) } else { 0 };
                            w.counters[2] += (want == 0) as u64;
                            if y != want {
                                return v("probe", format!("{name}: recorded position {x} gave {y:x}, expected {}", if want == 0 { "an error".into() } else { format!("{want:x}") }));
                            }
                        }
                        _ => {}
                    }
                }
                if r.status == DONE && o.a[2] as i64 >= hi - p.init[j][3] as i64 {
                    complete[j] = true;
                }
            }
        }
        for (j, i) in p.init.iter().enumerate() {
            if complete[j] {
                for pos in i[3] as i64..i[4] as i64 {
                    if !done[j].contains_key(&pos) {
                        return v("lost", format!("job on the children of {:x} at resolution {}: position {pos} was never processed", i[1], i[2]));
                    }
                }
                w.counters[3] += 1;
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: up to 4 jobs each process a window of a cell's children (resolution gaps 0-15, windows at carries, ends and random places) through up to 8 incarnations that crash at random steps and resume from the durable position, by position, by enumeration, by list, or chunk by chunk; every processed (position, child) pair, count, end and rejected position is compared with digit arithmetic. Non-trivial: at least one worker crashed. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, _p: &Plan, vw: &View) -> bool {
        vw.sh.head.kills > 0
    }
    fn probes(&self) -> &'static [&'static str] {
        &["worker crashes", "children processed again after a crash", "out-of-range positions refused", "jobs completed"]
    }
}
