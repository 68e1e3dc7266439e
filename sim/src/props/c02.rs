//! C02: running out of memory is an error, not a crash or a wrong answer.
use super::c01::{one_call, universe};
use super::*;
use crate::gen;
use crate::prng::mix;

pub struct C02;
const GROWING: [u8; 5] = [DISK, FASTDISK, RING, CHILDREN, RES0];

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C02", run);
        if g.chance(1, 60) {
            // an answer far larger than the heap
            p.heapcap = *g.pick(&[0, 4 << 10, 64 << 10, 512 << 10]);
            let h = gen::mixed_cell(g, &mut w.r);
            let k = *g.pick(&[1000, 5000, 40_000, 1 << 20, u32::MAX as u64, (1 << 31) + 5, 0x7fff_ffff]);
            match g.below(4) {
                0 => p.push(0, DISK, vec![h, k]),
                1 => p.push(0, FASTDISK, vec![h, k]),
                2 => p.push(0, RING, vec![h, k * 16 & 0xffff_ffff | 0xffff]),
                _ => {
                    let lo = (rm::res(h) as u64).min(7);
                    let h = rm::parent(h, lo as i32);
                    let r = lo + g.range(7, 8) as u64;
                    p.push(0, CHILDREN, vec![h, r])
                }
            };
            let f = *g.pick(&[NBR, VALID, NCHILD, DECODE]);
            let (f, a) = one_call(g, w, f, &[h]);
            p.push(1, f, a);
            p.sched = sched(g, 100_000);
            return p;
        }
        let mut eg = Rng::new(mix(w.seed ^ 0xc02) ^ (run / 24));
        let mut u = universe(&mut eg, w, 6);
        let cells: Vec<u64> = (0..3).map(|_| gen::mixed_cell(&mut eg, &mut w.r)).collect();
        for _ in 0..10 {
            let f = *eg.pick(&GROWING);
            u.push(one_call(&mut eg, w, f, &cells));
        }
        let nt = g.range(1, 3) as usize;
        let n = g.range(1, 8) as usize;
        for _ in 0..n {
            let t = g.below(nt as u64) as usize;
            let (mut f, mut a) = g.pick(&u).clone();
            if g.chance(1, 40) {
                // larger than most, and still small beside real memory
                f = *g.pick(&[DISK, FASTDISK, RING, CHILDREN]);
                let h = if g.chance(2, 3) { let r = g.range(4, 15) as i32; gen::cell_at(g, r) } else { gen::mixed_cell(g, &mut w.r) };
                let k = match f {
                    DISK => g.range(14, 24) as u64,
                    FASTDISK => g.range(14, 120) as u64,
                    _ => g.range(14, 1500) as u64,
                };
                a = if f == CHILDREN { vec![h, (rm::res(h) as u64 + 5).min(15)] } else { vec![h, k] };
            }
            let e = w.solo(f, &a);
            let uid = p.push(t, f, a.clone());
            let na = (e.allocs as u64).max(1);
            p.op_mut(uid).fault = match g.below(8) {
                0 => Fault::None,
                1..=4 => Fault::Nth(1 + g.below(na) as u32),
                5 => Fault::From(1 + g.below(na) as u32),
                6 => Fault::From(1),
                _ => Fault::Rand(g.next(), *g.pick(&[100_000, 500_000])),
            };
            if g.chance(1, 8) {
                p.events.push(Ev { uid, s: pos_in(g, e.steps.max(2)), kind: EvKind::Stall(g.log(100_000)) });
            }
            // memory is back: the same call again
            if g.chance(3, 4) {
                p.push(t, f, a);
            }
        }
        if g.chance(1, 5) {
            // refusals by a nearly full heap instead of by position
            p.heapcap = g.log(1 << 16);
        }
        let tot = est_plan(&p);
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, tot) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        let huge = p.ops().any(|o| match o.f {
            DISK | FASTDISK => o.a[1] >= 1000,
            RING => o.a[1] >= 0xffff,
            CHILDREN => rm::valid_cell(o.a[0]) && (o.a[1] as i64) < 16 && o.a[1] as i64 - rm::res(o.a[0]) as i64 >= 7,
            _ => false,
        });
        if let Some(x) = common(p, vw) {
            if !huge {
                for o in p.ops() {
                    let s = w.solo(o.f, &o.a);
                    if s.outcome != Outcome::Finished || s.status == BUDGET {
                        return None;
                    }
                }
            }
            return Some(x);
        }
        for o in p.ops() {
            let r = *vw.rec(o.uid);
            if r.status != DONE && r.status != PANIC {
                continue;
            }
            let ws = vw.words(o.uid);
            let refused = r.failed + r.capfail > 0;
            let fl = match o.fault {
                Fault::None => String::new(),
                x => format!(" with {x:?}"),
            };
            let what = format!("{}{} ({} of {} allocations refused)", show(o.f, &o.a), fl, r.failed + r.capfail, r.allocs);
            if huge && o.uid == 0 {
                if r.status == PANIC {
                    return v("panic", format!("{what} panicked for want of memory"));
                }
                let exact = matches!(o.f, DISK | CHILDREN);
                if exact && ws != [ERR, MEMORY] || ws.first() != Some(&ERR) {
                    return v("huge", format!("{what}, heap {} bytes, returned {}, not the memory error", p.heapcap, show_words(ws)));
                }
                if ws == [ERR, MEMORY] && !refused && !(matches!(o.f, DISK | FASTDISK | RING) && o.a[1] > 1 << 24) {
                    return v("spurious", format!("{what} reported the memory error though no allocation failed"));
                }
                continue;
            }
            if ws == [ERR, MEMORY] && !refused {
                return v("spurious", format!("{what} reported the memory error though no allocation failed"));
            }
            if null_disk(o) {
                continue; // the null index marks an empty slot of the fallback's table
            }
            if ws == [ERR, MEMORY] && fixed_size(o.f) {
                return v("fixed", format!("{what} has a fixed-size answer but reported the memory error"));
            }
            let s = w.solo(o.f, &o.a);
            if s.outcome != Outcome::Finished || s.capfail > 0 {
                continue;
            }
            if r.status == s.status && ws == &s.words[..] {
                continue;
            }
            if r.status == PANIC {
                return v("panic", format!("{what} panicked"));
            }
            if ws == [ERR, MEMORY] {
                continue;
            }
            return v(
                "answer",
                format!("{what} returned {} but with ample memory it returns {}", show_words(ws), show_words(&s.words)),
            );
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: 1-3 threads make up to 16 calls; each call has one of its allocations (by position, from a position on, at random, or by an almost full heap) refused, and most are repeated once memory is back. Answers are compared with the same call made alone with ample memory. Non-trivial: at least one allocation was actually refused. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, _p: &Plan, vw: &View) -> bool {
        vw.sh.head.failed + vw.sh.head.capfail > 0
    }
}
