//! C16: a dead-reckoned position is right after any legs, crashes and hand-overs.
use super::*;
use crate::apps::*;
use crate::gen;
use std::f64::consts::{FRAC_PI_2, PI};

pub struct C16;
const TAU: f64 = 2.0 * PI;

fn vec(la: f64, ln: f64) -> [f64; 3] {
    [la.cos() * ln.cos(), la.cos() * ln.sin(), la.sin()]
}
/// The unit vectors north and east of a position.
fn frame(la: f64, ln: f64) -> ([f64; 3], [f64; 3]) {
    ([-la.sin() * ln.cos(), -la.sin() * ln.sin(), la.cos()], [-ln.sin(), ln.cos(), 0.0])
}
fn go(la: f64, ln: f64, az: f64, d: f64) -> [f64; 3] {
    let (p, (n, e)) = (vec(la, ln), frame(la, ln));
    [0, 1, 2].map(|i| p[i] * d.cos() + d.sin() * (n[i] * az.cos() + e[i] * az.sin()))
}
fn dist(a: [f64; 3], b: [f64; 3]) -> f64 {
    (0..3).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum::<f64>().sqrt()
}
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
/// A latitude is recovered from its sine: close to a pole that keeps half of the digits.
fn tol(v: [f64; 3]) -> f64 {
    let c = (v[0] * v[0] + v[1] * v[1]).sqrt();
    1e-12 + (1e-14 / c.max(1e-9)).min(1e-7)
}
fn turns(x: f64) -> f64 {
    let r = x.rem_euclid(TAU);
    r.min(TAU - r)
}

impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C16", run);
        let nw = g.range(1, 4) as usize;
        let nt = g.range(1, nw as i64) as usize;
        let sign = |g: &mut Rng| if g.chance(1, 2) { 1.0 } else { -1.0 };
        for k in 0..nw {
            let small = |g: &mut Rng| 10f64.powf(-17.0 * g.f());
            let place = |g: &mut Rng, w: &mut W| -> (f64, f64) {
                match g.below(8) {
                    0 => (FRAC_PI_2 * sign(g), g.f() * 6.0 - 3.0),
                    1 => ((FRAC_PI_2 - small(g)) * sign(g), g.f() * 6.0 - 3.0),
                    2 => (g.f() * 3.0 - 1.5, PI * sign(g)),
                    3 => (small(g) * sign(g), *g.pick(&[0.0, -0.0, FRAC_PI_2, PI, -PI])),
                    4 => w.r.face_center(g.below(20) as usize),
                    5 => {
                        let h = gen::mixed_cell(g, &mut w.r);
                        w.r.latlng(h)
                    }
                    _ => ((g.f() * 2.0 - 1.0).asin(), (g.f() * 2.0 - 1.0) * PI),
                }
            };
            let (la, ln) = place(g, w);
            let mut init = vec![I_SAIL, la.to_bits(), ln.to_bits()];
            let n = g.range(1, 40);
            for _ in 0..n {
                let (k, x, y) = match g.below(24) {
                    0..=11 => {
                        let az = match g.below(8) {
                            0 => *g.pick(&[0.0, PI, FRAC_PI_2, -FRAC_PI_2, TAU, -PI, 1.5 * PI, -0.0, 3.0 * PI, -TAU]),
                            1 => *g.pick(&[0.0, PI, FRAC_PI_2, TAU]) + small(g) * sign(g),
                            2 => g.f() * 3.0 * TAU - TAU,
                            _ => g.f() * TAU,
                        };
                        let d = match g.below(8) {
                            0 => *g.pick(&[0.0, FRAC_PI_2, PI, 1e-17, 1e-15, TAU]),
                            1 => g.f() * 7.0,
                            2 => small(g),
                            _ => 10f64.powf(-8.0 * g.f()) * PI,
                        };
                        (if g.chance(1, 3) { L_HOME } else { L_LEG }, az, d)
                    }
                    12 | 13 => (L_POLE, sign(g), 0.0),
                    14 => (L_WRAP, TAU * g.range(-4, 4) as f64, 0.0),
                    15 => (L_WRAP, (g.f() - 0.5) * 10f64.powf(8.0 * g.f()), 0.0),
                    16 => {
                        let e = |g: &mut Rng| {
                            let base = *g.pick(&[1e-3, 1e-9, 0.5, 1e-9 * PI / 180.0, 0.0]);
                            base * *g.pick(&[0.0, 0.5, 0.999, 1.001, 1.0, 2.0, 1e3]) * if g.chance(1, 2) { 1.0 } else { -1.0 }
                        };
                        (L_ARRIVED, e(g), e(g))
                    }
                    17 => (L_DEG, g.f() * 180.0 - 90.0, g.f() * 360.0 - 180.0),
                    18 => {
                        let (a, b) = place(g, w);
                        (L_RAD, a, b)
                    }
                    19 | 20 => {
                        let (a, b) = place(g, w);
                        (L_VEC, a, b)
                    }
                    21 => (L_POS, if g.chance(1, 4) { *g.pick(&[0.0, TAU, -TAU, PI, -PI, -1e-17]) } else { g.f() * 2.999 * TAU - TAU }, 0.0),
                    22 => (L_LAT, if g.chance(1, 4) { *g.pick(&[FRAC_PI_2, -FRAC_PI_2, PI, 0.0, 1.6, -1.6]) } else { (g.f() - 0.3) * 10f64.powf(6.0 * g.f()) }, 0.0),
                    _ => (L_MAG, (g.f() - 0.5) * 10f64.powf(8.0 * g.f() - 4.0), (g.f() - 0.5) * 10f64.powf(8.0 * g.f() - 4.0)),
                };
                init.extend([k, x.to_bits(), y.to_bits()]);
            }
            p.init.push(init);
            let incs = g.range(0, 5);
            for i in 0..=incs {
                let last = i == incs;
                let quota = if last { 1000 } else { g.range(1, 20) as u64 };
                let uid = p.push(k % nt, SAIL, vec![k as u64, quota, g.range(1, 6) as u64]);
                if !last && g.chance(4, 5) {
                    p.events.push(Ev { uid, s: pos_in(g, 60 * quota.min(n as u64)), kind: EvKind::Kill });
                } else if g.chance(1, 8) {
                    p.events.push(Ev { uid, s: pos_in(g, 1000), kind: EvKind::Stall(g.log(20_000)) });
                }
            }
        }
        let tot = p.init.iter().map(|i| 25 * i.len() as u64).sum::<u64>();
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, tot) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        // where a leg starts: must be the same in every incarnation
        let mut starts: Vec<Vec<Option<(u64, u64)>>> = p.init.iter().map(|i| vec![None; i.len() / 3 + 1]).collect();
        for o in p.ops() {
            let r = vw.rec(o.uid);
            if r.status == PANIC {
                return v("panic", format!("{} panicked", show(o.f, &o.a)));
            }
            if o.f != SAIL || r.status == NOTRUN || r.status == RUNNING {
                continue;
            }
            let k = o.a[0] as usize;
            w.counters[0] += (r.status == KILLED) as u64;
            for c in vw.words(o.uid).chunks(7) {
                if c.len() < 7 {
                    break;
                }
                let f = f64::from_bits;
                let j = c[1] as usize;
                let (la, ln) = (f(c[2]), f(c[3]));
                let (a, b, e) = (f(c[4]), f(c[5]), f(c[6]));
                let (x, y) = (f(p.init[k][3 + 3 * j + 1]), f(p.init[k][3 + 3 * j + 2]));
                w.counters[1] += 1;
                if c[0] != L_BEARING {
                    let s = &mut starts[k][j];
                    if s.is_some_and(|s| s != (c[2], c[3])) {
                        let (u, z) = s.unwrap();
                        return v("history", format!("leg {j} was sailed from ({la:?}, {ln:?}) and, in another incarnation, from ({:?}, {:?})", f(u), f(z)));
                    }
                    *s = Some((c[2], c[3]));
                }
                match c[0] {
                    L_LEG | L_POLE => {
                        let (az, d) = match (c[0], e < 0.0) {
                            (L_LEG, _) => (x, y),
                            (_, true) => (PI, la + FRAC_PI_2),
                            _ => (0.0, FRAC_PI_2 - la),
                        };
                        let want = go(la, ln, az, d);
                        let off = dist(vec(a, b), want);
                        if !(off <= tol(want)) || !(b.abs() < 20.0) {
                            return v("leg", format!("leg {j} from ({la:?}, {ln:?}), azimuth {az:?}, distance {d:?}, ended at ({a:?}, {b:?}), {off:e} away"));
                        }
                    }
                    L_BEARING => {
                        // c: from (la, ln), to (a, b), the azimuth
                        let (n, ea) = frame(la, ln);
                        let t = vec(a, b);
                        let h = (dot(n, t).powi(2) + dot(ea, t).powi(2)).sqrt();
                        let off = dist([h * e.cos(), h * e.sin(), 0.0], [dot(n, t), dot(ea, t), 0.0]);
                        if !(off <= 1e-12) || !(e.abs() <= PI + 1e-12) {
                            return v("bearing", format!("the azimuth from ({la:?}, {ln:?}) to ({a:?}, {b:?}) was {e:?}, {off:e} beside it"));
                        }
                        w.counters[2] += 1;
                    }
                    L_BACK => {
                        // home again, except where the way back is anyone's guess
                        if (y % PI).sin().abs() > 1e-3 && y < PI || y < 1e-3 {
                            let off = dist(vec(a, b), vec(la, ln));
                            let lost = tol(vec(e, 0.0)) + tol(vec(la, ln));
                            if !(off <= 10.0 * lost + 1e-11) {
                                return v("home", format!("from ({la:?}, {ln:?}) out by azimuth {x:?}, distance {y:?}, and straight back, ended at ({a:?}, {b:?}), {off:e} away"));
                            }
                            w.counters[3] += 1;
                        }
                    }
                    L_WRAP => {
                        let off = turns(b - (ln + x));
                        if !(off <= 1e-12 + 1e-15 * x.abs()) || !(b.abs() <= PI + 1e-12) || a.to_bits() != c[2] {
                            return v("wrap", format!("longitude {:?} was wrapped to {b:?}", ln + x));
                        }
                    }
                    L_ARRIVED | 110..=112 => {
                        let t = if c[0] == L_ARRIVED { 1e-9 * PI / 180.0 } else { REACH[(c[0] - 110) as usize] };
                        let m = (la - a).abs().max((ln - b).abs());
                        let said = e != 0.0;
                        if (m - t).abs() > 1e-12 * t && (m < t) != said {
                            return v("arrived", format!("({la:?}, {ln:?}) and ({a:?}, {b:?}) were {} to be within {t:?} of each other", if said { "said" } else { "said not" }));
                        }
                    }
                    L_DEG | L_RAD => {
                        let s = if c[0] == L_DEG { PI / 180.0 } else { 1.0 };
                        let near = |a: f64, b: f64| (a - b).abs() <= 1e-14 * b.abs();
                        if !near(a, x * s) || !near(b, y * s) {
                            return v("set", format!("setting the position to ({x:?}, {y:?}) {} gave ({a:?}, {b:?})", if s == 1.0 { "radians" } else { "degrees" }));
                        }
                    }
                    L_VEC => {
                        let off = dist([a, b, e], vec(la, ln));
                        if !(off <= 1e-14) {
                            return v("vector", format!("({la:?}, {ln:?}) was placed at ({a:?}, {b:?}, {e:?})"));
                        }
                    }
                    101 => {
                        let d = dist(vec(la, ln), vec(a, b));
                        if !((e - d * d).abs() <= 1e-13) {
                            return v("chord", format!("the squared distance between ({la:?}, {ln:?}) and ({a:?}, {b:?}) was {e:?}, not {:?}", d * d));
                        }
                    }
                    L_POS => {
                        if !(turns(b - a) <= 1e-14) || !(0.0..=TAU + 1e-14).contains(&b) {
                            return v("angle", format!("{a:?} was brought into one turn as {b:?}"));
                        }
                    }
                    L_LAT => {
                        let off = ((b - a) / PI - ((b - a) / PI).round()).abs() * PI;
                        let ok = if a <= FRAC_PI_2 { a.to_bits() == b.to_bits() } else { off <= 1e-12 + 1e-15 * a && b <= FRAC_PI_2 + 1e-12 && b >= -FRAC_PI_2 - 1e-9 };
                        if !ok {
                            return v("angle", format!("latitude {a:?} was brought into range as {b:?}"));
                        }
                    }
                    _ => {
                        let m = a.hypot(b);
                        if !((e - m).abs() <= 1e-14 * m) {
                            return v("length", format!("the length of ({a:?}, {b:?}) was {e:?}, not {m:?}"));
                        }
                    }
                }
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: up to 4 navigators each sail up to 40 legs by azimuth and distance (to and over the poles, from the poles, along the date line, out and straight home), wrap angles, take fixes in degrees and ask whether they have arrived, crash at random steps up to 5 times and resume from their last durable position on another thread, while the others interleave; every position, azimuth, angle and distance is compared with vector geometry from the position the leg started at, and every leg must start at the same position in all incarnations. Non-trivial: a crash, preemption or stall, or more than 5 legs. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, p: &Plan, vw: &View) -> bool {
        vw.sh.head.kills + vw.sh.head.preempts + vw.sh.head.stalls > 0 || p.init.iter().any(|i| i.len() > 3 + 3 * 5)
    }
    fn probes(&self) -> &'static [&'static str] {
        &["crashes", "legs and helpers checked", "azimuths checked", "homecomings checked"]
    }
}
