//! C10: a grid walk can crash and resume at any move and stay on course.
use super::*;
use crate::apps::*;
use crate::gen;
use crate::refmodel::{Turtle, HEADING};

pub struct C10;

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C10", run);
        let nw = g.range(1, 4) as usize;
        let nt = g.range(1, nw as i64) as usize;
        let rr = gen::any_res(g);
        for k in 0..nw {
            let r = if g.chance(1, 2) { rr } else { gen::any_res(g) };
            let start = loop {
                let h = match g.below(8) {
                    0 => gen::cell_at(g, r),
                    1 => gen::edge_cell(g, &mut w.r, r),
                    2..=4 => gen::border_cell(g, &mut w.r, r),
                    _ => gen::near_pentagon(g, &mut w.r, r, 6),
                };
                if !rm::is_pent(h) {
                    break h;
                }
            };
            let mut t = Turtle::new(&mut w.r, start);
            let mut init = vec![I_WALK, start];
            let n = g.range(1, 40);
            let style = g.below(4);
            let mut hd = g.below(6) as usize;
            for i in 0..n {
                if g.chance(1, 16) {
                    init.push(0); // stays
                    continue;
                }
                match style {
                    0 => hd = g.below(6) as usize,
                    // straight, with rare turns
                    1 => {
                        if g.chance(1, 8) {
                            hd = g.below(6) as usize
                        }
                    }
                    // circling
                    2 => {
                        if i % 2 == 0 {
                            hd = (hd + 1) % 6
                        }
                    }
                    // there and back
                    _ => hd = if g.chance(1, 3) { (hd + 3) % 6 } else { (hd + g.below(2) as usize) % 6 },
                }
                let mut tried = 0;
                while tried < 6 {
                    let mut t2 = t.clone();
                    if t2.step(&mut w.r, hd).is_some() {
                        t = t2;
                        break;
                    }
                    hd = (hd + 1) % 6;
                    tried += 1;
                }
                if tried == 6 {
                    break;
                }
                init.push(HEADING[hd]);
            }
            p.init.push(init);
            let task = k % nt;
            let incs = g.range(0, 5);
            for i in 0..=incs {
                let last = i == incs;
                let quota = if last { 1000 } else { g.range(1, 30) as u64 };
                let uid = p.push(task, WALK, vec![k as u64, quota, g.range(1, 6) as u64]);
                if !last && g.chance(4, 5) {
                    p.events.push(Ev { uid, s: pos_in(g, 350 * quota.min(n as u64)), kind: EvKind::Kill });
                } else if g.chance(1, 8) {
                    p.events.push(Ev { uid, s: pos_in(g, 3000), kind: EvKind::Stall(g.log(20_000)) });
                }
                // other users of the library in between
                if g.chance(1, 6) {
                    let h = gen::near_pentagon(g, &mut w.r, r, 3);
                    let f = *g.pick(&[NBR, DISK, DIRFOR, ECELLS]);
                    let a = match f {
                        NBR => vec![h, g.range(1, 6) as u64, g.below(6)],
                        DISK => vec![h, g.below(4)],
                        DIRFOR => vec![h, *g.pick(&w.r.neighbors(h))],
                        _ => vec![gen::edge_bits(h, g.range(1, 6) as u64)],
                    };
                    p.push(task, f, a);
                }
            }
        }
        let tot = 300 * p.init.iter().map(|i| i.len() as u64).sum::<u64>();
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, tot) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        let mut paths: Vec<Vec<u64>> = vec![];
        for i in &p.init {
            let mut t = Turtle::new(&mut w.r, i[1]);
            let mut path = vec![];
            for d in &i[2..] {
                if *d == 0 {
                    path.push(t.cell);
                    continue;
                }
                let hd = HEADING.iter().position(|x| x == d).unwrap_or(0);
                match t.step(&mut w.r, hd) {
                    Some(c) => path.push(c),
                    None => break,
                }
            }
            paths.push(path);
        }
        for o in p.ops() {
            let r = vw.rec(o.uid);
            if r.status == PANIC {
                return v("panic", format!("{} panicked", show(o.f, &o.a)));
            }
            if o.f != WALK || r.status == NOTRUN || r.status == RUNNING {
                continue;
            }
            let k = o.a[0] as usize;
            let path = &paths[k];
            w.counters[0] += (r.status == KILLED) as u64;
            for c in vw.words(o.uid).chunks(3) {
                let i = c[0] as usize;
                if c.len() < 3 || i >= path.len() {
                    continue;
                }
                w.counters[1] += 1;
                let from = if i == 0 { p.init[k][1] } else { path[i - 1] };
                if c[1] == 0 {
                    return v("error", format!("walker from {:x}, move {i}: error {} leaving {from:x} in direction {}", p.init[k][1], ename(c[2]), p.init[k][2 + i]));
                }
                if c[2] != path[i] {
                    return v(
                        "course",
                        format!("walker from {:x}, move {i}: heading {} from {from:x} led to {:x}, the course leads to {:x}", p.init[k][1], p.init[k][2 + i], c[2], path[i]),
                    );
                }
                w.counters[2] += (rm::base(from) != rm::base(c[2])) as u64;
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: up to 4 walkers make up to 40 moves each, mostly around pentagons, base-cell borders and icosahedron edges, through up to 6 incarnations that crash at random steps and resume from the last durable (cell, rotation) on another thread, while other callers interleave; every landing is compared with a walker on a reference grid built from cell centres. Non-trivial: a walker crashed, was preempted or stalled, or crossed into another base cell. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, p: &Plan, vw: &View) -> bool {
        vw.sh.head.kills + vw.sh.head.preempts + vw.sh.head.stalls > 0 || p.init.iter().any(|i| i.len() > 10)
    }
    fn probes(&self) -> &'static [&'static str] {
        &["walker crashes", "moves checked", "moves across base cells"]
    }
}
