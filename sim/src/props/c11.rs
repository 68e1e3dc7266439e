//! C11: a journey recorded as directed edges is recovered exactly.
use super::*;
use crate::apps::*;
use crate::gen;

pub struct C11;

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C11", run);
        let nw = g.range(1, 4) as usize;
        let nt = g.range(1, nw as i64) as usize;
        let rr = gen::any_res(g);
        for k in 0..nw {
            let r = if g.chance(1, 2) { rr } else { gen::any_res(g) };
            let start = match g.below(8) {
                0 => gen::cell_at(g, r),
                1 => gen::edge_cell(g, &mut w.r, r),
                2 => gen::pentagon(g, r),
                3 | 4 => gen::border_cell(g, &mut w.r, r),
                _ => gen::near_pentagon(g, &mut w.r, r, 5),
            };
            let slots = g.range(1, 24) as usize;
            let mut init = vec![I_TRAVEL, start, slots as u64];
            // what the recycled log holds: nothing, or records of older journeys
            let mut c = start;
            for _ in 0..slots {
                let old = match g.below(6) {
                    0..=2 => 0,
                    3 => {
                        let h = gen::relative(g, &mut w.r, c);
                        gen::edge_bits(h, g.below(8))
                    }
                    4 => {
                        let e = gen::edge_bits(c, g.range(1, 6) as u64);
                        gen::corrupt(g, e)
                    }
                    _ => {
                        // a record that follows on from the one before
                        let ns = w.r.neighbors(c);
                        let to = *g.pick(&ns);
                        let d = (1..7).find(|d| !(rm::is_pent(c) && *d == 1) && w.r.toward(c, *d) == to).unwrap_or(1);
                        let e = gen::edge_bits(c, d);
                        c = to;
                        e
                    }
                };
                init.push(old);
            }
            let n = g.range(1, 30);
            for _ in 0..n {
                let cmd = match g.below(16) {
                    0 => gen::mixed_cell(g, &mut w.r),
                    1 => gen::relative(g, &mut w.r, start),
                    2 => gen::corrupt(g, start),
                    3 => start,
                    4 => {
                        // duplicated
                        if init.len() > 3 + slots {
                            *init.last().unwrap()
                        } else {
                            1
                        }
                    }
                    5 | 6 => 16 + g.below(16),
                    _ => g.below(16),
                };
                init.push(cmd);
            }
            p.init.push(init);
            let task = k % nt;
            let incs = g.range(0, 6);
            for i in 0..=incs {
                let last = i == incs;
                let quota = if last { 1000 } else { g.range(1, 12) as u64 };
                let uid = p.push(task, TRAVEL, vec![k as u64, quota, g.below(4), g.below(3)]);
                if !last && g.chance(4, 5) {
                    p.events.push(Ev { uid, s: pos_in(g, 4500 * quota.min(n as u64)), kind: EvKind::Kill });
                } else if g.chance(1, 8) {
                    p.events.push(Ev { uid, s: pos_in(g, 10_000), kind: EvKind::Stall(g.log(40_000)) });
                }
                if g.chance(1, 10) {
                    p.op_mut(uid).fault = Fault::Rand(g.next(), 300_000);
                }
                if g.chance(1, 5) {
                    let x = if g.chance(1, 2) { 1 << g.below(64) } else { start ^ gen::corrupt(g, start) };
                    let t = g.below(nt as u64) as usize;
                    p.push(t, crate::ops::ROT, vec![k as u64, g.below(slots as u64), x]);
                }
                if g.chance(1, 8) {
                    let h = gen::near_pentagon(g, &mut w.r, r, 3);
                    let o = *g.pick(&w.r.neighbors(h));
                    let f = *g.pick(&[DIRFOR, EDGE]);
                    p.push(task, f, vec![h, o]);
                }
            }
        }
        let tot = 2500 * p.init.iter().map(|i| i.len() as u64).sum::<u64>();
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, tot) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        for o in p.ops() {
            let r = vw.rec(o.uid);
            if r.status == PANIC {
                return v("panic", format!("{} panicked", show(o.f, &o.a)));
            }
            let ws = vw.words(o.uid);
            if o.f == EDGE || o.f == DIRFOR {
                if r.status == DONE {
                    let (h, n) = (o.a[0], o.a[1]);
                    let d = (1..7u64).find(|d| !(rm::is_pent(h) && *d == 1) && w.r.toward(h, *d) == n).unwrap_or(7);
                    let want = if o.f == EDGE { gen::edge_bits(h, d) } else { d };
                    if ws != [OK, want] {
                        return v("edge", format!("{} returned {}, expected {want:x}", show(o.f, &o.a), show_words(ws)));
                    }
                }
                continue;
            }
            if o.f != TRAVEL || r.status == NOTRUN || r.status == RUNNING {
                continue;
            }
            w.counters[0] += (r.status == KILLED) as u64;
            let who = format!("traveller {} from {:x}", o.a[0], p.init[o.a[0] as usize][1]);
            let mut listed: Vec<u64> = vec![];
            for c in ws.chunks(4) {
                if c.len() < 4 {
                    break;
                }
                match c[0] {
                    T_SLOT => {
                        let want = rm::valid_edge(c[1]);
                        w.counters[if want { 1 } else { 2 }] += 1;
                        if want != (c[2] == 1) {
                            return v("valid", format!("{who}: log record {:x} was {}", c[1], if want { "refused" } else { "accepted" }));
                        }
                    }
                    T_CELLS => {
                        let want = w.r.edge_cells(c[1]);
                        if (c[2], c[3]) != want {
                            return v("decode", format!("{who}: log record {:x} decodes to {:x} -> {:x}, but it goes {:x} -> {:x}", c[1], c[2], c[3], want.0, want.1));
                        }
                    }
                    T_MOVE => {
                        let nb = rm::valid_cell(c[2]) && w.r.neighbors(c[1]).contains(&c[2]);
                        if !nb {
                            return v("invented", format!("{who}: {:x} and {:x} are no neighbours, yet the edge between them is {:x}", c[1], c[2], c[3]));
                        }
                        if !rm::valid_edge(c[3]) || w.r.edge_cells(c[3]) != (c[1], c[2]) {
                            return v("encode", format!("{who}: the move {:x} -> {:x} was recorded as {:x}", c[1], c[2], c[3]));
                        }
                        w.counters[3] += 1;
                        w.counters[6] += (rm::is_pent(c[1]) || rm::is_pent(c[2])) as u64;
                    }
                    T_REFUSE => {
                        if rm::valid_cell(c[2]) && w.r.neighbors(c[1]).contains(&c[2]) {
                            return v("refused", format!("{who}: the move {:x} -> {:x} was refused with {}", c[1], c[2], ename(c[3])));
                        }
                        if c[3] != 11 {
                            return v("refusal", format!("{who}: the impossible move {:x} -> {:x} was refused with {}", c[1], c[2], ename(c[3])));
                        }
                        w.counters[4] += 1;
                    }
                    T_LAND => {
                        let want = w.r.edge_cells(c[2]).1;
                        if c[3] != want {
                            return v("land", format!("{who}: edge {:x} led to {:x} instead of {want:x}", c[2], c[3]));
                        }
                    }
                    T_EDGES => {
                        let i = listed.len() as u64 + 1;
                        listed.push(c[2]);
                        let gone = rm::is_pent(c[1]) && i == 1;
                        let want = if gone { 0 } else { gen::edge_bits(c[1], i) };
                        if c[2] != want || (c[3] == 1) == gone {
                            return v("edges", format!("{who}: edge {i} of {:x} is listed as {:x} (valid: {}), expected {want:x}", c[1], c[2], c[3]));
                        }
                        w.counters[5] += 1;
                    }
                    _ => return v("error", format!("{who}: the record {:x} gave {}", c[1], ename(c[2]))),
                }
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: up to 4 travellers record every move between neighbouring cells as a directed edge in a log that is written byte by byte, over older records, with rotting bits; move commands arrive lost, repeated and out of place; travellers crash at random steps up to 6 times and recover position and log end from the log. Every record's verdict and cells, every move, landing and refusal is compared with a reference grid built from cell centres. Non-trivial: a traveller crashed, was preempted or stalled. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, _p: &Plan, vw: &View) -> bool {
        vw.sh.head.kills + vw.sh.head.preempts + vw.sh.head.stalls > 0
    }
    fn probes(&self) -> &'static [&'static str] {
        &["crashes", "records recovered", "records refused", "moves recorded", "impossible moves refused", "edges listed", "moves from or to a pentagon"]
    }
}
