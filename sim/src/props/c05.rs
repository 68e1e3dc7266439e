//! C05: a grid disk is exact even when its fast path is cut short.
use super::*;
use crate::gen;

pub struct C05;

pub fn check_disk(w: &mut W, f: u8, h: u64, k: u32, status: u32, ws: &[u64], refused: bool) -> Option<String> {
    let name = show(f, &[h, k as u64]);
    if status == PANIC {
        return Some(format!("{name} panicked"));
    }
    if ws == [ERR, MEMORY] {
        return if refused { None } else { Some(format!("{name} reported the memory error though no allocation failed")) };
    }
    if f == RING && k > 120 {
        return check_ring(w, h, k, ws);
    }
    let d = w.disk(h, k);
    let pent = d.iter().any(|c| rm::is_pent(c.0));
    if ws.first() == Some(&ERR) {
        if f == DISK {
            return Some(format!("{name} returned {}", show_words(ws)));
        }
        return if pent { None } else { Some(format!("{name} returned {} but no pentagon lies within {k} of the origin", show_words(ws))) };
    }
    let exp: Vec<u64> = if f == RING {
        std::iter::once(OK).chain(d.iter().filter(|c| c.1 == k).map(|c| c.0)).collect()
    } else {
        std::iter::once(OK).chain(d.iter().flat_map(|c| [c.0, c.1 as u64])).collect()
    };
    if ws == exp {
        return None;
    }
    if f == FASTDISK && ws.last() == Some(&DISORDER) && ws.len() == exp.len() + 1 {
        return Some(format!("{name} does not list its cells in the order of increasing distance"));
    }
    // say what is wrong
    let st = if f == RING { 1 } else { 2 };
    let got: Vec<(u64, u64)> = ws[1..].chunks(st).map(|c| (c[0], if st == 2 { *c.get(1).unwrap_or(&0) } else { k as u64 })).collect();
    let want: Vec<(u64, u64)> = exp[1..].chunks(st).map(|c| (c[0], if st == 2 { c[1] } else { k as u64 })).collect();
    let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(3).map(|x| format!("{:x}@{}", x.0, x.1)).collect();
    let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(3).map(|x| format!("{:x}@{}", x.0, x.1)).collect();
    Some(format!(
        "{name} returned {} entries, expected {}; missing {:?}, unexpected {:?}",
        got.len(),
        want.len(),
        missing,
        extra
    ))
}

/// The nearest pentagon, in steps of the grid (of ordinary length).
fn pent_gap(w: &W, h: u64) -> f64 {
    let c = w.r.center(h);
    (0..12).map(|i| w.r.gap(rm::mk(0, gen::PENTS[i] as usize, &[]), c)).fold(9.0, f64::min) / w.r.spacing(rm::res(h))
}
/// A very large ring, against a walk along it.
fn check_ring(w: &mut W, h: u64, k: u32, ws: &[u64]) -> Option<String> {
    let name = show(RING, &[h, k as u64]);
    let gap = pent_gap(w, h);
    if ws.first() == Some(&ERR) {
        return if gap > 1.3 * k as f64 { Some(format!("{name} returned {} but no pentagon lies within {k} of the origin", show_words(ws))) } else { None };
    }
    if gap < 0.5 * k as f64 {
        return Some(format!("{name} returned {} cells though a pentagon lies within", ws.len() - 1));
    }
    if gap < 1.3 * k as f64 {
        return None;
    }
    let mut t = rm::Turtle::new(&mut w.r, h);
    for _ in 0..k {
        t.step(&mut w.r, 0)?;
    }
    let mut want = vec![];
    for side in 0..6 {
        for _ in 0..k {
            want.push(t.cell);
            t.step(&mut w.r, (side + 2) % 6)?;
        }
    }
    want.sort();
    if want == ws[1..] {
        return None;
    }
    let miss: Vec<_> = want.iter().filter(|c| ws[1..].binary_search(c).is_err()).take(3).collect();
    let extra: Vec<_> = ws[1..].iter().filter(|c| want.binary_search(c).is_err()).take(3).collect();
    Some(format!("{name} returned {} cells, expected {}; missing {miss:x?}, unexpected {extra:x?}", ws.len() - 1, want.len()))
}

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C05", run);
        let nt = *g.pick(&[1, 1, 2, 3]);
        let n = g.range(1, 9) as usize;
        let near = g.chance(3, 4);
        let rr = gen::any_res(g);
        let same_res = g.chance(1, 2);
        for i in 0..n {
            let r = if same_res { rr } else { gen::any_res(g) };
            let k = match g.below(24) {
                0..=13 => g.below(4),
                14..=20 => g.range(2, 8) as u64,
                21 | 22 => g.range(6, 14) as u64,
                _ => g.range(10, 26) as u64,
            };
            let h = if near { gen::near_pentagon(g, &mut w.r, r, k + 2) } else { gen::mixed_cell(g, &mut w.r) };
            let f = *g.pick(&[DISK, DISK, DISK, FASTDISK, RING]);
            let (mut h, mut k) = (h, k);
            if g.chance(1, 150) {
                // a large one; pentagon-free surroundings are found by trial
                k = match f {
                    DISK => g.range(20, 30) as u64,
                    FASTDISK => g.range(20, 80) as u64,
                    _ => g.range(20, 90) as u64,
                };
                p.budget = 400_000_000;
                if r > 3 {
                    h = gen::cell_at(g, r);
                }
            }
            if g.chance(1, 4000) {
                // beyond what a byte counts
                k = *g.pick(&[126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300]);
                h = gen::cell_at(g, g.clone().range(6, 15) as i32);
                p.budget = 400_000_000;
                let c = w.r.center(h);
                let free = (0..12).all(|i| w.r.gap(rm::mk(0, gen::PENTS[i] as usize, &[]), c) > 2.2 * k as f64 * w.r.spacing(rm::res(h)));
                // the fallback's work grows much faster than its answer
                if free && f == DISK {
                    p.push(0, f, vec![h, k]);
                    continue;
                }
                if f == DISK {
                    k = 5;
                }
            }
            if g.chance(1, 2500) {
                // a ring of thousands of cells
                let most = if g.chance(1, 6) { 70_000 } else { 3_000 };
                k = 300 + g.log(most);
                if g.chance(1, 3) {
                    k = *g.pick(&[512, 1023, 1024, 2048, 4096, 5461, 5462, 8192, 10_923]);
                }
                let least = (1..16).find(|r| 4.0 * k as f64 * w.r.spacing(*r) < 0.7).unwrap_or(15);
                h = gen::cell_at(g, g.clone().range(least as i64, 15) as i32);
                p.budget = 2_000_000_000;
                p.push(0, RING, vec![h, k]);
                continue;
            }
            let t = if i < nt { i } else { g.below(nt as u64) as usize };
            let uid = p.push(t, f, vec![h, k]);
            if g.chance(2, 5) {
                p.op_mut(uid).fault = match g.below(4) {
                    0 => Fault::From(1 + g.below(3) as u32),
                    _ => Fault::Nth(g.range(1, 9) as u32),
                };
            }
            let e = est(f, &[h, k]);
            match g.below(16) {
                0 => p.events.push(Ev { uid, s: pos_in(g, e), kind: EvKind::Stall(g.log(100_000)) }),
                1 => p.events.push(Ev { uid, s: pos_in(g, e), kind: EvKind::Kill }),
                _ => {}
            }
        }
        let tot = est_plan(&p);
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, tot) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        for o in p.ops() {
            let r = *vw.rec(o.uid);
            if r.status != DONE && r.status != PANIC {
                continue;
            }
            let refused = r.failed + r.capfail > 0;
            if let Some(m) = check_disk(w, o.f, o.a[0], o.a[1] as u32, r.status, vw.words(o.uid), refused) {
                return v("disk", format!("{m} ({} of {} allocations refused)", r.failed + r.capfail, r.allocs));
            }
            let ws = vw.words(o.uid);
            if o.f == DISK && ws.first() == Some(&OK) {
                w.counters[0] += (refused) as u64;
                w.counters[1] += w.disk(o.a[0], o.a[1] as u32).iter().any(|c| rm::is_pent(c.0)) as u64;
            }
            if o.f != DISK && ws.first() == Some(&OK) {
                w.counters[2] += 1;
            }
            if o.f != DISK && ws.first() == Some(&ERR) {
                w.counters[3] += 1;
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: 1-3 threads compute up to 9 disks and rings, mostly around pentagons, with allocations refused at random positions (which cuts the fast traversal short and forces the fallback), stalls and killed callers; each answer is compared with breadth-first search over a reference grid built from cell centres. Non-trivial: an allocation was refused, a caller was preempted, stalled or killed, or a pentagon cut the fast path short. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, p: &Plan, vw: &View) -> bool {
        let h = &vw.sh.head;
        h.failed + h.preempts + h.kills + h.stalls > 0 || p.ops().any(|o| rm::is_pent(o.a[0]))
    }
    fn probes(&self) -> &'static [&'static str] {
        &["disk exact though an allocation was refused", "disk exact with a pentagon inside", "fast disk or ring completed", "fast disk or ring gave up"]
    }
}
