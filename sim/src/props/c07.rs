//! C07: a corrupted stored index is contained.
use super::c01::one_call;
use super::c03::{peak_bound, stack_bound};
use super::*;
use crate::apps::I_STORE;
use crate::gen;
use crate::prng::mix;

pub struct C07;

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C07", run);
        p.heapcap = 300 << 10;
        let mut eg = Rng::new(mix(w.seed ^ 0xc07) ^ (run / 32));
        let good: Vec<u64> = (0..4).map(|_| gen::mixed_cell(&mut eg, &mut w.r)).collect();
        let mut intact: Vec<(u8, Vec<u64>)> = vec![];
        for _ in 0..8 {
            let f = eg.below(STREAM as u64) as u8;
            let (f, a) = one_call(&mut eg, w, f, &good);
            intact.push((f, a));
        }
        let nt = *g.pick(&[1, 1, 2, 3]);
        let n = g.range(6, 60) as usize;
        let ns = 3;
        for _ in 0..ns {
            let v = *g.pick(&good);
            p.init.push(vec![I_STORE, v]);
        }
        for i in 0..n {
            let t = if i < nt { i } else { g.below(nt as u64) as usize };
            if g.chance(1, 6) {
                let (f, a) = g.pick(&intact).clone();
                if !a.is_empty() && g.chance(1, 2) {
                    // the same call, first on a damaged copy of one of its values
                    let mut b = a.clone();
                    let stored: &[usize] = match f {
                        MKINDEX => &[],
                        NBR => &[0, 2],
                        CHILDAT | ENCODE | DIRFOR | EDGE => &[0, 1],
                        AZDIST | AZIMUTH => &[0, 1, 2, 3],
                        ANGLE => &[1, 2],
                        _ => &[0],
                    };
                    let j = if stored.is_empty() { 0 } else { *g.pick(stored) };
                    b[j] = if g.chance(1, 3) { b[j] ^ 1 << g.below(64) } else { gen::corrupt(g, b[j]) };
                    // (not what sets the size of the answer)
                    if !stored.is_empty() && !(f == CHILDREN && rm::res(b[0]) != rm::res(a[0])) && f != MAXDISK {
                        p.push(t, f, b);
                    }
                }
                p.push(t, f, a);
                continue;
            }
            let h0 = if g.chance(1, 2) { *g.pick(&good) } else { gen::mixed_cell(g, &mut w.r) };
            let d = g.below(8);
            let e0 = gen::edge_bits(h0, d);
            let src = if g.chance(1, 6) { e0 } else { h0 };
            let h = gen::corrupt(g, src);
            let e = if g.chance(1, 3) { e0 } else { gen::corrupt(g, e0) };
            let small = |g: &mut Rng| g.below(6);
            let int = |g: &mut Rng| -> u64 {
                match g.below(4) {
                    0 => (1u64 << g.below(64)).wrapping_neg(),
                    1 => 1u64 << g.below(64),
                    2 => g.below(20),
                    _ => g.next(),
                }
            };
            // a stored coordinate, damaged
            let coord = |g: &mut Rng| -> u64 {
                let x = ((g.f() * 2.0 - 1.0) * *g.pick(&[1.5, 3.2, 0.001])).to_bits();
                match g.below(6) {
                    0 => x,
                    1..=3 => gen::corrupt(g, x),
                    4 => x ^ 1 << g.range(52, 63),
                    _ => g.next(),
                }
            };
            let f = *g.pick(&[
                DISK, DISK, FASTDISK, RING, NBR, NBR, DIRFOR, VALID, PENT, RES, NCHILD, CHILDREN, CHILDAT, CHILDAT, DECODE, DECODE,
                EDGE, EORIGIN, EDEST, EVALID, ECELLS, EDGES, ITER, SKIP, ROTL, ROTR, ROTPL, ROTPR, LEADING, STORE, READ, ENCODE, ENCODE, AZDIST, AZIMUTH, ANGLE,
            ]);
            let rr = |g: &mut Rng, h: u64| if g.chance(1, 4) { g.below(17) } else { (rm::res(h) as u64 + g.below(4)).min(15) };
            let a = match f {
                DISK | FASTDISK => vec![h, small(g)],
                RING => vec![h, g.below(20)],
                NBR => {
                    let hh = if g.chance(1, 2) { h } else { h0 };
                    // the low 32 bits are the stored rotation count
                    vec![hh, g.below(8), if g.chance(1, 2) { int(g) & 0xffff_ffff } else { g.below(6) }]
                }
                DIRFOR | EDGE => {
                    let o = gen::corrupt(g, h0);
                    if g.chance(1, 2) {
                        vec![h, o]
                    } else {
                        vec![h0, o]
                    }
                }
                NCHILD | CHILDREN => vec![h, rr(g, h)],
                CHILDAT => {
                    let hh = if g.chance(1, 2) { h } else { h0 };
                    vec![int(g), hh, rr(g, hh)]
                }
                EORIGIN | EDEST | EVALID | ECELLS => vec![e],
                ITER => vec![h, rr(g, h), g.below(80)],
                SKIP => vec![h, rr(g, h), g.below(200), g.below(20)],
                STORE => vec![g.below(ns), if g.chance(1, 2) { h } else { h0 }, g.below(6), g.below(8)],
                READ => {
                    let (slot, flip, mode) = (g.below(ns), if g.chance(1, 2) { 1 << g.below(64) } else { 0 }, g.below(3));
                    let f2 = *g.pick(&[DISK, NBR, DECODE, VALID, EVALID, ECELLS, CHILDAT, NCHILD, ITER]);
                    let rest = match f2 {
                        DISK => vec![g.below(4)],
                        NBR => vec![g.below(8), g.below(6)],
                        CHILDAT => vec![g.below(50), g.below(16)],
                        NCHILD => vec![g.below(16)],
                        ITER => vec![g.below(16), g.below(20)],
                        _ => vec![],
                    };
                    let mut a = vec![slot, flip, mode, f2 as u64];
                    a.extend(rest);
                    a
                }
                ENCODE => vec![coord(g), coord(g), g.below(17)],
                AZDIST | AZIMUTH => vec![coord(g), coord(g), coord(g), coord(g)],
                ANGLE => vec![g.below(5), coord(g), coord(g)],
                _ => vec![h],
            };
            p.push(t, f, a);
        }
        let tot = est_plan(&p);
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, tot) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        for o in p.ops() {
            let r = *vw.rec(o.uid);
            if r.status == PANIC {
                return v("panic", format!("{} panicked", show(o.f, &o.a)));
            }
            if r.status != DONE || o.f >= STREAM {
                continue;
            }
            let b = peak_bound(o.f, &o.a);
            if r.peak > b {
                return v("peak", format!("{} held {} bytes at once; its largest answer allows {}", show(o.f, &o.a), r.peak, b));
            }
            let b = stack_bound(o.f, &o.a);
            if r.stack > b {
                return v("stack", format!("{} used {} bytes of stack; its largest answer allows {}", show(o.f, &o.a), r.stack, b));
            }
            let ws = vw.words(o.uid);
            if ws == [ERR, MEMORY] && r.failed + r.capfail == 0 {
                return v("memory", format!("{} reported the memory error though no allocation failed", show(o.f, &o.a)));
            }
            // calls on undamaged values are unaffected
            let cell = match o.f {
                CHILDAT => o.a[1],
                ENCODE | RES0 | RES0N | MAXDISK | MKINDEX | AZDIST | AZIMUTH | ANGLE => continue,
                EORIGIN | EDEST | EVALID | ECELLS => rm::edge_origin(o.a[0]),
                _ => o.a[0],
            };
            let again = p.ops().filter(|x| x.f == o.f && x.a == o.a).count() > 1;
            let key = o.a.iter().fold(o.f as u64, |x, &y| mix(x ^ y));
            if rm::valid_cell(cell) && (again || key % 6 == 0) {
                let s = w.solo(o.f, &o.a);
                if s.outcome == Outcome::Finished && s.capfail == 0 && r.capfail == 0 && (r.status != s.status || ws != &s.words[..]) {
                    return v(
                        "affected",
                        format!("{} returned {} among calls on damaged values, alone it returns {}", show(o.f, &o.a), show_words(ws), show_words(&s.words)),
                    );
                }
                w.counters[0] += 1;
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: 1-3 threads make 6-60 calls, most of them on cell indexes, edge indexes, rotation counts, child positions and coordinates damaged by bit flips, torn, mixed and overwritten bytes, some read from a store while it is being rewritten; nothing may panic, abort, exceed its step or memory bound, and calls on undamaged values are compared with the same call alone. Non-trivial: at least one call was given a damaged value. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, p: &Plan, _vw: &View) -> bool {
        p.ops().any(|o| o.f < AZDIST && !o.a.is_empty() && !rm::valid_cell(o.a[0]))
    }
    fn probes(&self) -> &'static [&'static str] {
        &["undamaged calls compared with a pristine process"]
    }
}
