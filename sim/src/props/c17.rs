//! C17: every refusal names its cause, so that a client can decide from the error alone.
use super::*;
use crate::gen;
use crate::refmodel::HEADING;

pub struct C17;

const FAILED: u64 = 1;
const DOMAIN: u64 = 2;
const LATLNG: u64 = 3;
const RESDOMAIN: u64 = 4;
const CELL: u64 = 5;
const DIREDGE: u64 = 6;
const PENTAGON: u64 = 9;
const NOTNEIGHBORS: u64 = 11;
const RESMISMATCH: u64 = 12;

/// What may become of a request when memory suffices: served, or refused with one of these.
struct Fate {
    served: bool,
    refused: Vec<u64>,
}
fn served() -> Fate {
    Fate { served: true, refused: vec![] }
}
fn refused(c: &[u64]) -> Fate {
    Fate { served: false, refused: c.to_vec() }
}
fn either(c: &[u64]) -> Fate {
    Fate { served: true, refused: c.to_vec() }
}
fn finite(b: u64) -> bool {
    f64::from_bits(b).is_finite()
}
/// Base cells 122 to 127 do not exist.
fn nowhere(h: u64) -> bool {
    rm::base(h) > 121
}

/// More cells than a sixth of the grid has.
fn beyond(h: u64, k: u64) -> bool {
    3 * k as u128 * (k as u128 + 1) + 1 > (2 + 120 * 7u128.pow(rm::res(h) as u32)) / 6
}

fn fate(w: &mut W, f: u8, a: &[u64]) -> Fate {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    let r = |i: usize| g(i) as i32;
    let (h, own) = (g(0), rm::res(g(0)));
    match f {
        NCHILD => {
            if r(1) < own || r(1) > 15 {
                refused(&[RESDOMAIN])
            } else {
                served()
            }
        }
        CHILDREN | ITER => {
            if r(1) < own || r(1) > 15 {
                either(&[RESDOMAIN])
            } else {
                served()
            }
        }
        CHILDAT => {
            let (pos, h, cr) = (g(0) as i64, g(1), r(2));
            let mut c = vec![];
            if cr < 0 || cr > 15 {
                c.push(RESDOMAIN);
            } else if cr < rm::res(h) {
                c.push(RESMISMATCH);
            }
            if pos < 0 || (c.is_empty() && pos >= rm::child_count(h, cr)) {
                c.push(DOMAIN);
            }
            if c.is_empty() {
                served()
            } else {
                refused(&c)
            }
        }
        ENCODE => {
            let mut c = vec![];
            if r(2) < 0 || r(2) > 15 {
                c.push(RESDOMAIN);
            }
            if !finite(g(0)) || !finite(g(1)) {
                c.push(LATLNG);
            }
            if c.is_empty() {
                served()
            } else {
                refused(&c)
            }
        }
        DECODE if nowhere(h) => refused(&[CELL]),
        NBR if nowhere(h) => refused(&if g(1) == 7 { vec![CELL, FAILED, DOMAIN] } else { vec![CELL] }),
        NBR if g(1) == 7 => refused(&[FAILED, DOMAIN]),
        NBR => {
            // the direction after the turns carried along
            let d = HEADING.iter().position(|x| *x == g(1)).map(|i| HEADING[(i + g(2) as usize % 6) % 6]);
            if rm::is_pent(h) && d == Some(1) {
                // between base cells the step is led around the missing side
                if own == 0 { either(&[PENTAGON]) } else { refused(&[PENTAGON]) }
            } else {
                served()
            }
        }
        DISK if nowhere(h) => {
            if g(1) == 0 {
                either(&[CELL])
            } else {
                refused(&[CELL])
            }
        }
        FASTDISK | RING if nowhere(h) => {
            // so large a ring may be refused before the cell is looked at
            let mut c = vec![CELL];
            if f == RING && g(1) > 0 {
                c.push(PENTAGON);
            }
            if g(1) == 0 {
                either(&c)
            } else {
                refused(&c)
            }
        }
        // such a ring goes round pentagons, seen or not
        RING if beyond(h, g(1)) => refused(&[PENTAGON]),
        FASTDISK | RING => {
            if w.disk(h, g(1) as u32).iter().any(|x| rm::is_pent(x.0)) {
                either(&[PENTAGON])
            } else {
                served()
            }
        }
        EDGE => {
            if nowhere(h) || nowhere(g(1)) {
                refused(&[NOTNEIGHBORS, CELL])
            } else if rm::res(h) != rm::res(g(1)) {
                refused(&[NOTNEIGHBORS, RESMISMATCH])
            } else if w.r.neighbors(h).contains(&g(1)) {
                served()
            } else {
                refused(&[NOTNEIGHBORS])
            }
        }
        EORIGIN | EDEST | ECELLS => {
            let (mode, d) = (h >> 59 & 15, h >> 56 & 7);
            let o = rm::edge_origin(h);
            if mode != 2 {
                refused(&[DIREDGE])
            } else if rm::valid_edge(h) || f == EORIGIN {
                served()
            } else if nowhere(o) {
                refused(&[CELL, DIREDGE, FAILED])
            } else if d == 7 {
                refused(&[DIREDGE, FAILED, DOMAIN])
            } else if rm::is_pent(o) && d == 1 && own > 0 {
                refused(&[PENTAGON, DIREDGE])
            } else {
                either(&[DIREDGE, FAILED, PENTAGON])
            }
        }
        _ => served(),
    }
}

/// A request and now and then what makes it impossible.
fn request(g: &mut Rng, w: &mut W) -> (u8, Vec<u64>) {
    let mut h = gen::mixed_cell(g, &mut w.r);
    if g.chance(1, 4) {
        let r = gen::any_res(g);
        h = gen::pentagon(g, r);
    }
    let own = rm::res(h) as i64;
    let lost = g.chance(1, 8);
    let bad = |g: &mut Rng, h: u64| h & !(127 << 45) | (122 + g.below(6)) << 45;
    let h1 = if lost { bad(g, h) } else { h };
    let anyres = |g: &mut Rng| match g.below(8) {
        0 => -1,
        1 => 16,
        2 => *g.pick(&[i32::MIN, i32::MAX, -7, 17, 255, 256]) as i64,
        3 => own - g.range(1, 3),
        4 => g.range(0, 15),
        _ => own + g.range(0, 3),
    };
    match g.below(16) {
        0 => (NCHILD, vec![h, anyres(g) as u64]),
        1 => {
            let r = anyres(g);
            let n = if r >= own && r <= 15 { rm::child_count(h, r as i32) } else { 7 };
            let pos = match g.below(6) {
                0 => n,
                1 => -1,
                2 => *g.pick(&[i64::MIN, i64::MAX, n + 1, -n]),
                3 => n - 1,
                _ => g.below(n as u64) as i64,
            };
            (CHILDAT, vec![pos as u64, h, r as u64])
        }
        2 | 3 => {
            let (mut la, mut ln) = gen::latlng(g, &mut w.r);
            if g.chance(1, 3) {
                let x = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                if g.chance(1, 2) {
                    la = x.to_bits()
                } else {
                    ln = x.to_bits()
                }
            }
            (ENCODE, vec![la, ln, anyres(g) as u64])
        }
        4 => (DECODE, vec![h1]),
        5 | 6 => (NBR, vec![h1, if g.chance(1, 8) { 7 } else { g.below(7) }, g.below(6)]),
        7 => (DISK, vec![h1, g.below(4)]),
        8 => (FASTDISK, vec![h1, g.below(6)]),
        9 => {
            let k = g.log(100_000);
            (RING, vec![h1, if beyond(h1, k) && g.chance(1, 2) { k } else { g.below(6) }])
        }
        10 | 11 => {
            let n = w.r.neighbors(h);
            let mut d = match g.below(6) {
                0 => h,
                1 => gen::relative(g, &mut w.r, h),
                2 => {
                    let far = w.disk(h, 2);
                    g.pick(&far).0
                }
                _ => *g.pick(&n),
            };
            let mut o = h;
            if g.chance(1, 8) {
                if g.chance(1, 2) {
                    o = bad(g, o)
                } else {
                    d = bad(g, d)
                }
            }
            if g.chance(1, 2) {
                std::mem::swap(&mut o, &mut d);
            }
            (EDGE, vec![o, d])
        }
        12 => (CHILDREN, vec![h, (own + g.range(-2, 3)).min(16) as u64]),
        13 => (RES0, vec![]),
        _ => {
            let d = if g.chance(1, 8) { *g.pick(&[0, 7]) } else { 1 + g.below(6) };
            let mut e = gen::edge_bits(h1, d);
            if g.chance(1, 4) {
                e = e & !(15 << 59) | g.below(16) << 59;
            }
            (*g.pick(&[EORIGIN, EDEST, ECELLS]), vec![e])
        }
    }
}

impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C17", run);
        let nt = g.range(1, 3) as usize;
        let mut tot = 0;
        for _ in 0..g.range(2, 14) {
            let (f, a) = request(g, w);
            let mut args = vec![g.range(1, 6) as u64, f as u64];
            args.extend(&a);
            let e = est(f, &a);
            tot += e;
            let times = if g.chance(1, 8) { 2 } else { 1 };
            for _ in 0..times {
                let t = g.below(nt as u64) as usize;
                let uid = p.push(t, CLERK, args.clone());
                p.op_mut(uid).fault = match g.below(6) {
                    0 => Fault::From(1 + g.below(4) as u32),
                    1 => Fault::Nth(1 + g.log(40) as u32),
                    2 => Fault::Rand(g.next(), *g.pick(&[20_000, 200_000, 600_000])),
                    _ => Fault::None,
                };
                match g.below(30) {
                    0 => p.events.push(Ev { uid, s: pos_in(g, e), kind: EvKind::Kill }),
                    1 | 2 => p.events.push(Ev { uid, s: pos_in(g, e), kind: EvKind::Stall(g.log(5000)) }),
                    _ => {}
                }
            }
        }
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, tot) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        for o in p.ops() {
            let r = *vw.rec(o.uid);
            let (f, a) = (o.a[1] as u8, &o.a[2..]);
            if r.status == PANIC {
                return v("panic", format!("{} panicked", show(f, a)));
            }
            if r.status != DONE {
                continue;
            }
            let ws = vw.words(o.uid);
            let n = ws[0] as usize;
            let (codes, last) = (&ws[1..n + 1], &ws[n + 1..]);
            let ft = fate(w, f, a);
            let (mut now, mut starved) = (f, 0);
            for (i, c) in codes.iter().enumerate() {
                match *c {
                    0 => {
                        w.counters[0] += 1;
                        let ok = ft.served || now != f;
                        if !ok {
                            return v("served", format!("{} was served ({}), it should be refused as {}", show(f, a), show_words(last), list(&ft.refused)));
                        }
                        let key = a.iter().fold(now as u64, |x, y| crate::prng::mix(x ^ y));
                        if key % 8 == 0 {
                            let s = w.solo(now, a);
                            if s.outcome == Outcome::Finished && s.capfail == 0 && last != &s.words[..] {
                                return v("answer", format!("{} was served {} after {} attempts, alone it returns {}", show(f, a), show_words(last), i + 1, show_words(&s.words)));
                            }
                        }
                    }
                    13 => {
                        starved += 1;
                        if starved > (r.failed + r.capfail) as usize {
                            return v("memory", format!("{} was refused for lack of memory {starved} times, but only {} allocations failed", show(f, a), r.failed + r.capfail));
                        }
                        w.counters[1] += 1;
                    }
                    c => {
                        let ok = if now == f { ft.refused.contains(&c) } else { false };
                        if !ok {
                            let want = if ft.served && ft.refused.is_empty() { "it should be served".into() } else { format!("the cause is {}", list(&ft.refused)) };
                            return v("cause", format!("{} was refused as {} (attempt {}, {} failed allocations); {want}", show(now, a), ename(c), i + 1, r.failed));
                        }
                        w.counters[2] += 1;
                        if c == PENTAGON && now == FASTDISK {
                            now = DISK;
                            w.counters[3] += 1;
                        }
                    }
                }
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: 1-3 threads of clerks who work off up to 28 requests, possible and impossible ones (resolutions, positions, coordinates, pairs, edges and cells that do not exist), under failing allocations, stalls, deaths and preemptions, and decide from the error alone whether to ask again, take the safe route or give up; each error is compared with the causes present. Non-trivial: a request was refused or an allocation failed. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, p: &Plan, vw: &View) -> bool {
        vw.sh.head.failed > 0 || p.ops().any(|o| vw.words(o.uid).get(1).is_some_and(|c| *c != 0))
    }
    fn probes(&self) -> &'static [&'static str] {
        &["requests served", "asked again for lack of memory", "refusals with their cause", "safe route taken after the pentagon error"]
    }
}
fn list(c: &[u64]) -> String {
    c.iter().map(|c| ename(*c)).collect::<Vec<_>>().join(" or ")
}
