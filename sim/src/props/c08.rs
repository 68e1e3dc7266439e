//! C08: validation detects every corruption that breaks the index format.
use super::*;
use crate::apps::I_STORE;
use crate::gen;

pub struct C08;

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C08", run);
        let nt = g.range(1, 4) as usize;
        let ns = g.range(1, 4) as usize;
        let mut base: Vec<u64> = (0..g.range(2, 5)).map(|_| gen::mixed_cell(g, &mut w.r)).collect();
        for i in 0..base.len() {
            let h = base[i];
            if g.chance(1, 2) {
                base.push(gen::relative(g, &mut w.r, h));
            }
            let d = g.below(8);
            base.push(gen::edge_bits(h, d));
        }
        for _ in 0..ns {
            let v = *g.pick(&base);
            p.init.push(vec![I_STORE, v]);
        }
        let n = g.range(8, 220) as usize;
        for i in 0..n {
            let t = if i < nt { i } else { g.below(nt as u64) as usize };
            let f = if g.chance(1, 2) { VALID } else { EVALID };
            let h = *g.pick(&base);
            match g.below(10) {
                0 => {
                    let slot = g.below(ns as u64);
                    p.push(t, STORE, vec![slot, h, g.below(6), g.below(8)]);
                }
                1 | 2 => {
                    let slot = g.below(ns as u64);
                    let flip = if g.chance(1, 2) { 0 } else { h ^ gen::corrupt(g, h) };
                    p.push(t, READ, vec![slot, flip, g.below(3), f as u64]);
                }
                3 => {
                    p.push(t, f, vec![h]);
                }
                4 => {
                    // every index this far from well-formed: one bit
                    let x = h ^ 1 << g.below(64);
                    p.push(t, f, vec![x]);
                }
                _ => {
                    let x = gen::corrupt(g, h);
                    p.push(t, f, vec![x]);
                }
            }
        }
        for _ in 0..g.below(3) {
            let uid = g.below(p.nops() as u64) as u32;
            let kind = if g.chance(1, 2) { EvKind::Kill } else { EvKind::Stall(g.log(3000)) };
            p.events.push(Ev { uid, s: pos_in(g, 120), kind });
        }
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, 200 * n as u64) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        for o in p.ops() {
            let r = vw.rec(o.uid);
            if o.f == STORE || r.status != DONE && r.status != PANIC {
                continue;
            }
            let ws = vw.words(o.uid);
            let (f, h, got) = match o.f {
                READ if ws.len() == 3 => (o.a[3] as u8, ws[0], ws[2]),
                READ => (o.a[3] as u8, 0, 9),
                f => (f, o.a[0], if ws.len() == 2 { ws[1] } else { 9 }),
            };
            if r.status == PANIC {
                return v("panic", format!("{} panicked", show(f, &o.a)));
            }
            let want = if f == VALID { rm::valid_cell(h) } else { rm::valid_edge(h) } as u64;
            w.counters[want as usize + if f == VALID { 0 } else { 2 }] += 1;
            if got != want {
                return v(
                    "verdict",
                    format!("{} says {} but {:016x} is {}a well-formed index of that kind", show(f, &[h]), got, h, if want == 1 { "" } else { "not " }),
                );
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: 1-4 threads write, tear, lose and rot stored indexes and validate them (8-220 operations per run), with preemption between and inside the byte writes and inside validation; each verdict is compared with the index grammar. Non-trivial: at least one damaged value was judged. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, _p: &Plan, _vw: &View) -> bool {
        true
    }
    fn probes(&self) -> &'static [&'static str] {
        &["cell rejected", "cell accepted", "edge rejected", "edge accepted"]
    }
}
