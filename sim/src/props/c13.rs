//! C13: a position saved as a cell survives crashes and hand-overs without drifting.
use super::*;
use crate::apps::*;
use crate::gen;

pub struct C13;

impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C13", run);
        let nw = g.range(1, 4) as usize;
        let nt = g.range(1, nw as i64) as usize;
        for k in 0..nw {
            let res = gen::any_res(g);
            let mut init = vec![I_TRACK, res as u64];
            let mut near = gen::mixed_cell(g, &mut w.r);
            let n = g.range(1, 30);
            for _ in 0..n {
                let (mut la, mut ln) = match g.below(9) {
                    8 => {
                        // next to a pole, the date line or the middle of a face
                        let s = 10f64.powf(-g.f() * 9.0);
                        let (a, b) = match g.below(4) {
                            0 => (std::f64::consts::FRAC_PI_2 * *g.pick(&[1.0, -1.0]), 0.0),
                            1 => (g.f() * 3.0 - 1.5, std::f64::consts::PI),
                            2 => (0.0, *g.pick(&[0.0, 1.5707963267948966])),
                            _ => w.r.face_center(g.below(20) as usize),
                        };
                        if a.abs() > 1.57 {
                            (a - a.signum() * g.f() * s, (g.f() * 2.0 - 1.0) * std::f64::consts::PI)
                        } else {
                            (a + (g.f() - 0.5) * s, b + (g.f() - 0.5) * s)
                        }
                    }
                    0 => {
                        let (a, b) = gen::latlng(g, &mut w.r);
                        (f64::from_bits(a), f64::from_bits(b))
                    }
                    1 | 2 => {
                        // between two neighbours
                        let o = *g.pick(&w.r.neighbors(near));
                        let (a, b) = (w.r.center(near), w.r.center(o));
                        let t = g.f();
                        let mut q = [0.0; 3];
                        for i in 0..3 {
                            q[i] = a[i] + (b[i] - a[i]) * t;
                        }
                        let l = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2]).sqrt();
                        ((q[2] / l).asin(), q[1].atan2(q[0]))
                    }
                    3 => {
                        let h = gen::near_pentagon(g, &mut w.r, res, 4);
                        w.r.latlng(h)
                    }
                    4 => {
                        near = gen::mixed_cell(g, &mut w.r);
                        w.r.latlng(near)
                    }
                    5 => {
                        // close to a cell's centre, at any scale
                        let (a, b) = w.r.latlng(near);
                        let s = 10f64.powf(-g.f() * 9.0);
                        (a + (g.f() - 0.5) * s, b + (g.f() - 0.5) * s)
                    }
                    6 => {
                        near = gen::relative(g, &mut w.r, near);
                        w.r.latlng(near)
                    }
                    _ => {
                        let z = g.f() * 2.0 - 1.0;
                        (z.asin(), (g.f() * 2.0 - 1.0) * std::f64::consts::PI)
                    }
                };
                // another device counts its turns differently
                if g.chance(1, 6) {
                    ln += 2.0 * std::f64::consts::PI * g.range(-2, 2) as f64;
                }
                let mut dr = 0;
                if g.chance(1, 16) {
                    match g.below(4) {
                        0 => la = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
                        1 => ln = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
                        2 => dr = 1000u64.wrapping_add(*g.pick(&[16, 17, -1i64 as u64, 1 << 30])),
                        _ => {
                            dr = 1016;
                            la = f64::NAN
                        }
                    }
                } else if g.chance(1, 4) {
                    dr = 1000 + g.below(16);
                }
                init.extend([la.to_bits(), ln.to_bits(), dr]);
            }
            p.init.push(init);
            let task = k % nt;
            let incs = g.range(0, 5);
            for i in 0..=incs {
                let last = i == incs;
                let quota = if last { 1000 } else { g.range(1, 12) as u64 };
                let relays = if g.chance(1, 2) { 1 } else { g.below(5) };
                let uid = p.push(task, TRACK, vec![k as u64, quota, relays]);
                if !last && g.chance(4, 5) {
                    p.events.push(Ev { uid, s: pos_in(g, 1200 * quota.min(n as u64) * (1 + relays)), kind: EvKind::Kill });
                } else if g.chance(1, 8) {
                    p.events.push(Ev { uid, s: pos_in(g, 10_000), kind: EvKind::Stall(g.log(40_000)) });
                }
                if g.chance(1, 10) {
                    p.op_mut(uid).fault = Fault::From(1);
                }
            }
        }
        let tot = 400 * p.init.iter().map(|i| i.len() as u64).sum::<u64>();
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, tot) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        for o in p.ops() {
            let r = vw.rec(o.uid);
            if r.status == PANIC {
                return v("panic", format!("{} panicked", show(o.f, &o.a)));
            }
            if o.f != TRACK || r.status == NOTRUN || r.status == RUNNING {
                continue;
            }
            w.counters[0] += (r.status == KILLED) as u64;
            let init = &p.init[o.a[0] as usize];
            for c in vw.words(o.uid).chunks(4) {
                if c.len() < 4 {
                    break;
                }
                match c[0] {
                    P_SAVE | P_REFUSE => {
                        let i = 2 + 3 * c[1] as usize;
                        let (la, ln) = (f64::from_bits(init[i]), f64::from_bits(init[i + 1]));
                        let res = c[3] as i32;
                        let name = format!("report ({la:?}, {ln:?}) at resolution {res}");
                        let bad_res = !(0..=15).contains(&res);
                        let bad_pos = !la.is_finite() || !ln.is_finite();
                        if bad_res || bad_pos {
                            // two faults at once: either may be named
                            let ok = c[0] == P_REFUSE && (bad_res && c[2] == 4 || bad_pos && c[2] == 3);
                            if !ok {
                                return v("accepted", format!("{name} gave {}", if c[0] == P_SAVE { format!("{:x}", c[2]) } else { ename(c[2]).into() }));
                            }
                            w.counters[1] += 1;
                            continue;
                        }
                        if c[0] == P_REFUSE {
                            return v("refused", format!("{name} was refused with {}", ename(c[2])));
                        }
                        if !rm::valid_cell(c[2]) || rm::res(c[2]) != res {
                            return v("invalid", format!("{name} was saved as {:x}, not a cell of that resolution", c[2]));
                        }
                        // far beyond a turn, rounding of the angle itself matters
                        if la.abs() > 10.0 || ln.abs() > 30.0 {
                            continue;
                        }
                        if let Some((centre, spacing)) = w.r.containing(la, ln, res) {
                            let off = w.r.gap(c[2], centre) / spacing;
                            if off > 0.01 {
                                return v("elsewhere", format!("{name} was saved as {:x}, whose centre is {off:.3} spacings from that of the cell containing it", c[2]));
                            }
                            w.counters[2] += 1;
                        }
                    }
                    P_RESTORE => {
                        let (la, ln) = (f64::from_bits(c[2]), f64::from_bits(c[3]));
                        let q = [la.cos() * ln.cos(), la.cos() * ln.sin(), la.sin()];
                        let off = w.r.gap(c[1], q);
                        // the latitude is recovered from its sine: close to a
                        // pole that keeps only half of the digits
                        let tol = 1e-11 + (1e-14 / la.cos().abs().max(1e-9)).min(6e-8).min(0.3 * w.r.spacing(rm::res(c[1])));
                        let range = la.abs() <= 1.5707963267949 && ln.abs() <= 3.1415926535898;
                        if !(off < tol) || !range {
                            return v("restored", format!("{:x} was restored to ({la:?}, {ln:?}), {off:e} from its centre", c[1]));
                        }
                        w.counters[3] += 1;
                    }
                    P_AGAIN => {
                        if c[1] != c[2] {
                            return v("drift", format!("{:x} was restored and saved again as {:x}", c[1], c[2]));
                        }
                    }
                    P_ADDR => {
                        if c[1] != c[2] {
                            return v("address", format!("{:x} was passed on as an address on an icosahedron face, which names {:x}", c[1], c[2]));
                        }
                        w.counters[4] += 1;
                    }
                    _ => return v("error", format!("the saved cell {:x} could not be {}: {}", c[1], ["restored", "saved again", "passed on by address"][c[3] as usize % 3], ename(c[2]))),
                }
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: up to 4 trackers receive up to 30 position reports each (some damaged), save them as cells, pass them through other nodes as coordinates or face addresses and back, crash at random steps up to 5 times and restart from the saved cell; every saved cell is compared with the cell containing the position on a reference icosahedron, every restored position with the cell's centre, every re-saved cell with itself. Non-trivial: a tracker crashed, was preempted or stalled. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, _p: &Plan, vw: &View) -> bool {
        vw.sh.head.kills + vw.sh.head.preempts + vw.sh.head.stalls > 0
    }
    fn probes(&self) -> &'static [&'static str] {
        &["crashes", "damaged reports refused", "saved cells compared with the containing cell", "positions restored", "cells passed on by face address"]
    }
}
