//! C12: a sweep of the grid shared by crashing workers visits every cell exactly once.
use super::*;
use crate::apps::*;
use std::collections::HashSet;

pub struct C12;

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn gen(&self, g: &mut Rng, _w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C12", run);
        let res = match g.below(40) {
            0 => 3,
            1..=4 => 2,
            5..=12 => g.range(0, 2),
            _ => g.range(1, 5),
        };
        let whole = res <= 1 || res <= 3 && g.chance(1, 3);
        // how many base cells; pentagons among them
        let (lo, hi) = if whole {
            (0, 122)
        } else {
            let n = g.range(1, match res {
                2 => 40,
                3 => 8,
                4 => 2,
                _ => 1,
            });
            let lo = if g.chance(1, 2) { *g.pick(&crate::gen::PENTS) as i64 } else { g.range(0, 121) };
            let lo = (lo - g.range(0, n - 1)).clamp(0, 122 - n);
            (lo, lo + n)
        };
        let per = 7i64.pow(res as u32);
        let split = *g.pick(&[1, 7, 49, 60, 343, 400, 1 << 40]);
        // the table of shards is searched in order: do not let it grow out of hand
        let split = if (hi - lo) * per / split > 3000 { 49.max((hi - lo) * per / 3000) } else { split };
        p.init.push(vec![I_SWEEP, res as u64, lo as u64, hi as u64, split as u64]);
        let nt = g.range(1, 4) as usize;
        let n = g.range(1, 10) as usize;
        let cells = (hi - lo) * per;
        let shards = (cells / split.max(1)).clamp(hi - lo, 3000);
        for i in 0..n {
            let t = if i < nt { i } else { g.below(nt as u64) as usize };
            let quota = g.range(1, (shards / 2).max(2));
            let skew = match g.below(4) {
                0 => g.range(0, 200),
                1 => -g.range(0, 200),
                _ => 0,
            };
            let uid = p.push(t, SWEEP, vec![0, quota as u64, g.below(3), g.below(300), skew as u64]);
            let e = 3000 + 60 * (cells * quota / shards.max(1)) as u64;
            match g.below(5) {
                0 | 1 => p.events.push(Ev { uid, s: pos_in(g, e), kind: EvKind::Kill }),
                2 => p.events.push(Ev { uid, s: pos_in(g, e), kind: EvKind::Stall(if g.chance(1, 6) { u64::MAX } else { g.log(100_000) }) }),
                _ => {}
            }
            if g.chance(1, 6) {
                p.op_mut(uid).fault = Fault::Rand(g.next(), 200_000);
            }
        }
        // once faults stop, somebody finishes
        for t in 0..nt {
            p.push(t, BARRIER, vec![1]);
        }
        p.push(0, SWEEP, vec![0, 1 << 40, g.below(3), g.below(300), 0]);
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, 60 * cells as u64 + 5000) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        let (res, lo, hi) = (p.init[0][1] as i32, p.init[0][2] as usize, p.init[0][3] as usize);
        let mut seen: HashSet<u64> = HashSet::new();
        let mut last = None;
        for o in p.ops() {
            let r = vw.rec(o.uid);
            if o.f != SWEEP {
                continue;
            }
            if r.status == PANIC {
                return v("panic", format!("{} panicked", show(o.f, &o.a)));
            }
            if o.a[1] >= 1 << 40 {
                last = Some((r.status, r.failed + r.capfail));
            }
            if r.status == NOTRUN || r.status == RUNNING {
                continue;
            }
            w.counters[0] += (r.status == KILLED) as u64;
            let ws = vw.words(o.uid);
            let mut i = 0;
            while i + 3 <= ws.len() {
                let (tag, cell, n) = (ws[i], ws[i + 1], ws[i + 2]);
                i += 3;
                match tag {
                    S_SIZE => {
                        if n as i64 != rm::child_count(cell, res) {
                            return v("size", format!("shard {cell:x}: {n} children announced at resolution {res}, there are {}", rm::child_count(cell, res)));
                        }
                        continue;
                    }
                    S_BASES => {
                        if n != 122 {
                            return v("base", format!("{} base cells were announced, there are 122", n as i64));
                        }
                        continue;
                    }
                    S_ERR => {
                        let e = ws.get(i).copied().unwrap_or(0);
                        i += 1;
                        let what = ["?", "listing the base cells", "counting children", "listing children", "looking up a position"][n as usize];
                        if !(e == MEMORY && r.failed + r.capfail > 0 && (n == 1 || n == 3)) {
                            return v("error", format!("shard {cell:x}: {what} failed with {}", ename(e)));
                        }
                        continue;
                    }
                    _ => {}
                }
                let list = &ws[i..(i + n as usize).min(ws.len())];
                i += n as usize;
                match tag {
                    S_LIST => {
                        if list.len() != 122 || !(0..122).all(|b| list[b] == rm::mk(0, b, &[])) {
                            return v("base", format!("the base cells were listed as {}", show_words(list)));
                        }
                    }
                    S_SPLIT => {
                        let t = rm::child_count(cell, rm::res(cell) + 1);
                        if list.len() as i64 != t || !(0..t).all(|k| list[k as usize] == rm::child_at(cell, rm::res(cell) + 1, k)) {
                            return v("split", format!("shard {cell:x} was divided into {}", show_words(list)));
                        }
                        w.counters[1] += 1;
                    }
                    _ => {
                        w.counters[2] += 1;
                        if list.len() as i64 != rm::child_count(cell, res) {
                            return v("count", format!("shard {cell:x} yielded {} cells of resolution {res}, there are {}", list.len(), rm::child_count(cell, res)));
                        }
                        for h in list {
                            if !rm::valid_cell(*h) || rm::res(*h) != res {
                                return v("foreign", format!("shard {cell:x} yielded {h:x}, not a cell of resolution {res}"));
                            }
                            if !(lo..hi).contains(&rm::base(*h)) || !seen.insert(*h) {
                                return v("twice", format!("shard {cell:x} yielded {h:x}, which belongs to another shard"));
                            }
                        }
                    }
                }
            }
        }
        if let Some((DONE, 0)) = last {
            let want: i64 = (lo..hi).map(|b| rm::child_count(rm::mk(0, b, &[]), res)).sum();
            if seen.len() as i64 != want {
                return v("lost", format!("the finished sweep visited {} cells of {want}", seen.len()));
            }
            w.counters[3] += 1;
            w.counters[4] += (lo == 0 && hi == 122) as u64;
        } else if let Some((st, _)) = last {
            if st == NOTRUN || st == RUNNING {
                // a worker stalled for ever holds nobody up once the others are done
                return v("stuck", "the sweep was never finished".into());
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: 1-4 workers divide all base cells (or a window of them) into shards by listing base cells and splitting cells into children, lease shards under skewed clocks, and enumerate them by iterator, by position or by list, while crashing, stalling past their lease, and being refused memory; a last worker finishes. Announced sizes, splits, shards and the union of everything committed are compared with the cells of that resolution. Non-trivial: a worker crashed, stalled, was preempted or refused memory. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, _p: &Plan, vw: &View) -> bool {
        let h = &vw.sh.head;
        h.kills + h.stalls + h.preempts + h.failed > 0
    }
    fn probes(&self) -> &'static [&'static str] {
        &["worker crashes", "shards divided", "shards enumerated", "sweeps finished", "sweeps of the whole grid finished"]
    }
}
