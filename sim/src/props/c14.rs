//! C14: turns of a stored index are exact and undoable, across crashes.
use super::*;
use crate::apps::*;
use crate::gen;
use crate::refmodel::{Ref, HEADING};

pub struct C14;

/// One turn on the reference grid.
fn turned(r: &Ref, h: u64, k: u64, got: u64) -> Result<u64, String> {
    let ccw = k & 1 == 0;
    if k < K_ROTPL {
        let d: Vec<u64> = rm::digits(h)
            .iter()
            .map(|d| match HEADING.iter().position(|x| x == d) {
                Some(i) => HEADING[(i + if ccw { 1 } else { 5 }) % 6],
                None => *d,
            })
            .collect();
        let want = rm::mk(rm::res(h), rm::base(h), &d);
        return if want == got { Ok(got) } else { Err(format!("turning {h:x} by 60 degrees {} gave {got:x}, not {want:x}", side(ccw))) };
    }
    let what = format!("turning {h:x} about its pentagon by 72 degrees {} gave {got:x}", side(ccw));
    if !rm::valid_cell(got) || rm::res(got) != rm::res(h) || rm::base(got) != rm::base(h) {
        return Err(format!("{what}, not a cell of the same resolution and base cell"));
    }
    let (axis, p) = (r.center(rm::mk(0, rm::base(h), &[])), r.center(h));
    let a = if ccw { 72f64.to_radians() } else { -72f64.to_radians() };
    let x = [axis[1] * p[2] - axis[2] * p[1], axis[2] * p[0] - axis[0] * p[2], axis[0] * p[1] - axis[1] * p[0]];
    let dot = axis[0] * p[0] + axis[1] * p[1] + axis[2] * p[2];
    let q = [0, 1, 2].map(|i| p[i] * a.cos() + x[i] * a.sin() + axis[i] * dot * (1.0 - a.cos()));
    let off = r.gap(got, q) / r.spacing(rm::res(h));
    if off > 0.01 {
        return Err(format!("{what}, whose centre is {off:.3} spacings from where the turn leads"));
    }
    Ok(got)
}
fn side(ccw: bool) -> &'static str {
    if ccw {
        "counter-clockwise"
    } else {
        "clockwise"
    }
}

impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C14", run);
        let nw = g.range(1, 4) as usize;
        let nt = g.range(1, nw as i64) as usize;
        for k in 0..nw {
            let r = gen::any_res(g);
            let h = match g.below(3) {
                0 => gen::near_pentagon(g, &mut w.r, r, 8),
                _ => gen::cell_at(g, r),
            };
            let pent = rm::is_pent_base(rm::base(h));
            let mut init = vec![I_EDIT, h, g.below(2)];
            let n = g.range(1, 40);
            let style = g.below(3);
            let mut t = if pent { K_ROTPL } else { K_ROTL } + g.below(2);
            for _ in 0..n {
                match style {
                    0 => t = (t & !1) | g.below(2),
                    1 if g.chance(1, 6) => t ^= 1,
                    _ => {}
                }
                init.extend([t, 0, 0]);
            }
            p.init.push(init);
            crashes(g, &mut p, k, k % nt, n, 40 + 60 * r as u64);
            if g.chance(1, 4) {
                let h = gen::mixed_cell(g, &mut w.r);
                let f = *g.pick(&[ROTL, ROTR, LEADING, PENT, DECODE, NBR]);
                p.push(k % nt, f, vec![h, 2, 1]);
            }
        }
        let tot = p.init.iter().map(|i| 200 * i.len() as u64).sum::<u64>();
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, tot) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        // states[i][j]: the index before edit j, once known
        let mut states: Vec<Vec<u64>> = p.init.iter().map(|i| vec![i[1]]).collect();
        for o in p.ops() {
            let r = vw.rec(o.uid);
            if r.status == PANIC {
                return v("panic", format!("{} panicked", show(o.f, &o.a)));
            }
            if o.f != EDIT || r.status == NOTRUN || r.status == RUNNING {
                continue;
            }
            let k = o.a[0] as usize;
            w.counters[0] += (r.status == KILLED) as u64;
            for c in vw.words(o.uid).chunks(4) {
                if c.len() < 4 {
                    break;
                }
                let j = c[1] as usize;
                match c[0] {
                    E_DO if j < states[k].len() => {
                        let h = states[k][j];
                        let to = match turned(&w.r, h, p.init[k][3 + 3 * j], c[2]) {
                            Ok(to) => to,
                            Err(e) => return v("turn", format!("index {:x}, turn {j}: {e}", p.init[k][1])),
                        };
                        w.counters[1] += 1;
                        if j + 1 == states[k].len() {
                            states[k].push(to);
                        } else if states[k][j + 1] != to {
                            return v("redo", format!("turn {j} of {h:x} led to {:x} and, made again after a crash, to {to:x}", states[k][j + 1]));
                        }
                    }
                    E_UNDO if j < states[k].len() => {
                        w.counters[2] += 1;
                        if c[2] != states[k][j] {
                            return v(
                                "undo",
                                format!("turn {j} of {:x} was undone{} after a crash to {:x}", states[k][j], if o.a[3] & 2 != 0 { " by completing the circle" } else { "" }, c[2]),
                            );
                        }
                    }
                    E_LOOK => {
                        let want = match c[1] {
                            0 | 4 => 0,
                            1 => 1,
                            7 => rm::is_pent(c[2]) as u64,
                            8 => 1,
                            _ => continue,
                        };
                        if c[3] != want {
                            return v("look", format!("{:x}, reached by turns, has {} {}", c[2], LOOKS[c[1] as usize], c[3]));
                        }
                    }
                    _ => {}
                }
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: up to 4 stored indexes are turned in place up to 40 times each, in transactions that are undone (by turning back or by completing the circle) or made again after crashes at random steps, on other threads, up to 5 times, while other callers interleave; every turn about a hexagon is compared with turning each heading on the reference grid, every turn about a pentagon with turning the cell's centre by 72 degrees about the pentagon's, every undone turn with the index before it. Non-trivial: a crash, preemption or stall, or more than 5 turns. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, p: &Plan, vw: &View) -> bool {
        vw.sh.head.kills + vw.sh.head.preempts + vw.sh.head.stalls > 0 || p.init.iter().any(|i| i.len() > 3 + 3 * 5)
    }
    fn probes(&self) -> &'static [&'static str] {
        &["crashes", "turns checked", "turns undone"]
    }
}
/// Incarnations of an editor, all but the last cut short.
pub fn crashes(g: &mut Rng, p: &mut Plan, k: usize, task: usize, n: i64, est: u64) {
    let incs = g.range(0, 5);
    for i in 0..=incs {
        let last = i == incs;
        let quota = if last { 1000 } else { g.range(1, 30) as u64 };
        let uid = p.push(task, EDIT, vec![k as u64, quota, g.range(1, 8) as u64, g.below(4)]);
        if !last && g.chance(4, 5) {
            p.events.push(Ev { uid, s: pos_in(g, est * quota.min(n as u64)), kind: EvKind::Kill });
        } else if g.chance(1, 8) {
            p.events.push(Ev { uid, s: pos_in(g, 3000), kind: EvKind::Stall(g.log(20_000)) });
        }
    }
}
