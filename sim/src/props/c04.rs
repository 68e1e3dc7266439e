//! C04: child enumeration delivers every child exactly once, however it is consumed.
use super::*;
use crate::apps::*;
use crate::gen;

pub struct C04;

fn total(parent: u64, cres: i64) -> i64 {
    if parent == 0 || cres < rm::res(parent) as i64 || cres > 15 {
        0
    } else {
        rm::child_count(parent, cres as i32)
    }
}

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C04", run);
        let nt = *g.pick(&[1, 1, 2, 3, 4]);
        let ns = g.range(1, 5) as usize;
        let mut cells = vec![gen::mixed_cell(g, &mut w.r)];
        for _ in 0..3 {
            let h = *g.pick(&cells);
            let c = if g.chance(1, 2) { gen::relative(g, &mut w.r, h) } else { gen::mixed_cell(g, &mut w.r) };
            cells.push(c);
        }
        if g.chance(1, 3) {
            let r = gen::any_res(g);
            cells.push(gen::pentagon(g, r));
        }
        let mut tot = 0;
        if g.chance(1, 400) {
            // a very long one: carries through many digits
            let r = g.range(0, 7);
            let h = match g.below(3) {
                0 => gen::pentagon(g, r as i32),
                1 => gen::cell_at(g, r as i32),
                _ => gen::near_pentagon(g, &mut w.r, r as i32, 3),
            };
            let deep = if g.chance(1, if w.thorough { 10 } else { 30 }) { 9 } else { 8 };
            let gap = g.range(7, 15 - r).max(7);
            let n = 7u64.pow(deep - g.chance(1, 4) as u32) + g.below(100);
            p.push(g.below(nt as u64) as usize, LONG, vec![h, (r + gap) as u64, n]);
        }
        for _ in 0..ns {
            let h = *g.pick(&cells);
            let r = rm::res(h) as i64;
            let gap = match g.below(12) {
                0 => -1 - g.below(3) as i64,
                1 => 16 - r + g.below(3) as i64,
                2 => g.range(4, 15),
                3 | 4 => 4,
                _ => g.range(0, 3),
            };
            let mut cres = r + gap;
            if gap >= 0 && gap < 16 - r && cres > 15 {
                cres = 15;
            }
            if g.chance(1, 40) {
                cres = *g.pick(&[-1, 16, i32::MAX as i64, i32::MIN as i64, 255]);
            }
            p.init.push(vec![I_SLOT, if g.chance(1, 60) { 0 } else { h }, cres as u64]);
        }
        // the generator follows the cursor of each slot in the simple case (one user)
        // to place searches; the oracle does not rely on that
        let mut cur = vec![0i64; ns];
        let mut exact = nt == 1;
        let n = g.range(3, 40) as usize;
        for i in 0..n {
            let t = if i < nt { i } else { g.below(nt as u64) as usize };
            let s = g.below(ns as u64) as usize;
            let (parent, cres) = (p.init[s][1], p.init[s][2] as i64);
            let tt = total(parent, cres);
            let left = (tt - cur[s]).max(0);
            // with several users an advance may find the enumeration in use; a user who
            // dies may not have advanced it
            let small = if exact { left } else { tt } <= 3000;
            let (action, m, extra) = loop {
                let a = match g.below(29) {
                    0..=3 => A_NEXT,
                    4 | 5 => A_NTH,
                    6 | 7 => A_TAKE,
                    8 => A_PANIC,
                    9 => A_COUNT,
                    10 => A_LAST,
                    11 => A_HINT,
                    12 | 13 => A_REST,
                    14 => A_DROP,
                    15 => A_STEPBY,
                    16 => A_FIND,
                    17 => A_SKIP,
                    18 => A_FOLD,
                    19 => A_MAX,
                    20 => A_PEEK,
                    21 => A_OFOLD,
                    22 => A_OEACH,
                    23 => A_OREST,
                    24 => A_TRY,
                    25 => A_CMP,
                    _ => A_FOR,
                };
                if matches!(a, A_COUNT | A_LAST | A_REST | A_MAX | A_OFOLD | A_OEACH | A_OREST | A_CMP) && (!small || g.chance(2, 3)) {
                    continue;
                }
                let m = if small && g.chance(1, 6) {
                    // right at the end
                    (left + g.range(-2, 2)).max(0) as u64
                } else if g.chance(1, 12) {
                    g.log(400)
                } else {
                    g.below(20)
                };
                if a == A_NTH && exact && !small && left < 900_000 && g.chance(1, if left < 150_000 { 8 } else { 40 }) {
                    break (A_NTH, (left + g.range(-12, 2)).max(0) as u64, 0);
                }
                if matches!(a, A_NTH | A_SKIP | A_STEPBY) && tt > 3000 && m > 400 {
                    continue;
                }
                let tgt = cur[s] + g.below(12) as i64;
                let extra = if tt > 0 { rm::child_at(parent, cres as i32, tgt.min(tt - 1)) } else { 1 };
                if a == A_FIND && (!small && tgt >= tt) {
                    continue;
                }
                if a == A_FIND && !small {
                    // never search a huge enumeration for something already passed
                    break (A_FOR, g.below(10), 0);
                }
                break (a, m, extra);
            };
            let m = if action == A_PANIC || action == A_OEACH { m.max(1) } else { m };
            cur[s] = match action {
                A_NEXT | A_TAKE | A_PANIC | A_FOR | A_FOLD | A_PEEK | A_TRY => cur[s] + m as i64,
                A_NTH | A_SKIP => cur[s] + m as i64 + 1,
                A_STEPBY => cur[s] + 3 * m.max(1) as i64 + 1,
                A_FIND => cur[s] + 6,
                A_HINT => cur[s],
                _ => tt,
            }
            .min(tt);
            if action == A_NEXT {
                tot += 50 * m;
            }
            let uid = p.push(t, STREAM, vec![s as u64, action, m, extra]);
            match g.below(60) {
                0 => {
                    exact = false;
                    p.events.push(Ev { uid, s: pos_in(g, 300), kind: EvKind::Kill })
                }
                1 | 2 => p.events.push(Ev { uid, s: pos_in(g, 300), kind: EvKind::Stall(g.log(5000)) }),
                _ => {}
            }
            // a complete list now and then, or the documented count
            if g.chance(1, 12) && tt <= 3000 {
                p.push(t, CHILDREN, vec![parent, cres as u64]);
            }
        }
        // most runs end with every slot drained or looked at once more
        for s in 0..ns {
            let tt = total(p.init[s][1], p.init[s][2] as i64);
            if tt <= 3000 && g.chance(2, 3) {
                p.push(0, STREAM, vec![s as u64, A_REST, 0, 0]);
            }
            p.push(0, STREAM, vec![s as u64, A_NEXT, 3, 0]);
        }
        p.sched = if nt == 1 && g.chance(1, 2) { Sched::Trace(vec![]) } else { sched(g, tot + 100 * n as u64) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        let slots: Vec<(u64, i64)> = p.init.iter().map(|i| (i[1], i[2] as i32 as i64)).collect();
        let mut uses: Vec<(u64, u32)> = vec![];
        for o in p.ops() {
            let r = vw.rec(o.uid);
            if r.status == PANIC {
                return v("panic", format!("{} panicked", show(o.f, &o.a)));
            }
            if r.status != DONE {
                continue;
            }
            if o.f == LONG {
                let (h, cr, n) = (o.a[0], o.a[1] as i32, o.a[2]);
                let ws = vw.words(o.uid);
                let t = rm::child_count(h, cr) as u64;
                if ws.last() != Some(&n.min(t)) {
                    return v("long", format!("asked for {n} of the {t} children of {h:x} at resolution {cr}, the enumeration delivered {}", ws.last().unwrap_or(&0)));
                }
                let pent = rm::is_pent(h);
                let mut next = Some(rm::child_at(h, cr, 0));
                for (i, got) in ws[..ws.len() - 1].iter().enumerate() {
                    let mut x = 0;
                    for _ in 0..STRIDE.min(n - i as u64 * STRIDE) {
                        match next {
                            Some(c) => {
                                x = roll(x, c);
                                next = rm::child_after(h, pent, c);
                            }
                            None => break,
                        }
                    }
                    if x != *got {
                        let a = i as u64 * STRIDE;
                        return v("long", format!("the enumeration of {h:x} at resolution {cr} delivers wrong children between number {a} and number {}", (a + STRIDE).min(n)));
                    }
                }
                w.counters[3] += 1;
                continue;
            }
            if o.f == CHILDREN {
                let (h, cr) = (o.a[0], o.a[1] as i64);
                let ws = vw.words(o.uid);
                let t = total(h, cr);
                let ok = if t == 0 {
                    ws.len() == 1 || ws.first() == Some(&ERR)
                } else {
                    ws.len() as i64 == t + 1 && (0..t).all(|i| ws[i as usize + 1] == rm::child_at(h, cr as i32, i))
                };
                if !ok {
                    return v("list", format!("{} returned {}, expected the {} children in order", show(o.f, &o.a), show_words(ws), t));
                }
            } else {
                uses.push((vw.words(o.uid)[0], o.uid));
            }
        }
        uses.sort();
        let mut cur = vec![0i64; slots.len()];
        for (_, uid) in uses {
            let o = p.op(uid).unwrap();
            let ws = &vw.words(uid)[1..];
            let s = o.a[0] as usize;
            if ws[0] != 1 {
                w.counters[0] += 1;
                continue;
            }
            let ws = &ws[1..];
            let (h, cr) = slots[s];
            let t = total(h, cr);
            let n = o.a[2] as i64;
            let at = |i: i64| -> Option<u64> {
                if i < t {
                    Some(rm::child_at(h, cr as i32, i))
                } else {
                    None
                }
            };
            let c0 = cur[s];
            let left = t - c0;
            let mut exp: Vec<u64> = vec![];
            let opt = |e: &mut Vec<u64>, x: Option<u64>| match x {
                Some(h) => e.extend([1, h]),
                None => e.push(0),
            };
            let act = o.a[1];
            match act {
                A_NEXT => {
                    for i in 0..n {
                        opt(&mut exp, at(c0 + i));
                    }
                    cur[s] = (c0 + n).min(t);
                }
                A_NTH | A_SKIP => {
                    opt(&mut exp, at(c0.saturating_add(n)));
                    cur[s] = c0.saturating_add(n + 1).min(t);
                }
                A_TAKE | A_PANIC | A_PEEK | A_OEACH | A_TRY => {
                    let m = if act == A_PANIC || act == A_OEACH { n.max(1) } else { n }.min(left);
                    exp.push(m as u64);
                    exp.extend((0..m).map(|i| at(c0 + i).unwrap()));
                    cur[s] = c0 + m;
                }
                A_FOR => {
                    let m = n.min(left);
                    exp.extend((0..m).map(|i| at(c0 + i).unwrap()));
                    cur[s] = c0 + m;
                }
                A_FOLD => {
                    let m = n.min(left);
                    exp.push((0..m).fold(0u64, |x, i| x.rotate_left(9) ^ at(c0 + i).unwrap()));
                    cur[s] = c0 + m;
                }
                A_OFOLD => {
                    exp.push((0..left).fold(0u64, |x, i| x.rotate_left(9) ^ at(c0 + i).unwrap()));
                    cur[s] = t;
                }
                A_CMP => {
                    let m = n.min(3000);
                    exp.push(1);
                    let a1 = (c0 + m).min(t);
                    opt(&mut exp, if m > 0 { at(a1) } else { None });
                    let a2 = (a1 + m).min(t);
                    let a3 = (a2 + m).min(t);
                    opt(&mut exp, if a3 > a2 { at(a3 - 1) } else { None });
                    let mut i = a3;
                    while i < t && at(i) != Some(o.a[3]) {
                        i += 1;
                    }
                    opt(&mut exp, if i < t { Some((i - a3) as u64) } else { None });
                    cur[s] = t;
                }
                A_COUNT => {
                    exp.push(left as u64);
                    cur[s] = t;
                }
                A_LAST | A_MAX => {
                    opt(&mut exp, if left > 0 { at(t - 1) } else { None });
                    cur[s] = t;
                }
                A_HINT => {
                    let lo = ws[0] as i64;
                    let hi_ok = ws[1] == 0 || ws[2] >= left as u64;
                    if ws[0] > left as u64 || lo < 0 || !hi_ok {
                        return v("hint", format!("enumeration of {h:x} at resolution {cr}, {c0} delivered: size hint {ws:?} but {left} remain"));
                    }
                    continue;
                }
                A_REST | A_OREST => {
                    exp.push(left as u64);
                    exp.extend((0..left).map(|i| at(c0 + i).unwrap()));
                    cur[s] = t;
                }
                A_DROP => {
                    continue;
                }
                A_STEPBY => {
                    let st = n.max(1);
                    let got: Vec<u64> = (0..4).filter_map(|i| at(c0 + i * st)).collect();
                    let m = got.len() as i64;
                    exp.push(m as u64);
                    exp.extend(got);
                    cur[s] = if m == 4 { c0 + 3 * st + 1 } else { t };
                }
                A_FIND => {
                    let mut i = c0;
                    while i < t && at(i) != Some(o.a[3]) {
                        i += 1;
                    }
                    opt(&mut exp, at(i));
                    cur[s] = (i + 1).min(t);
                }
                _ => {}
            }
            w.counters[1] += (cur[s] == t) as u64;
            w.counters[2] += (act == A_PANIC) as u64;
            if ws != &exp[..] {
                let names = ["next", "nth", "take", "for_each with a panicking consumer", "count", "last", "size_hint", "collect", "drop", "step_by", "find", "skip", "fold", "for", "max", "peekable", "owned fold", "owned for_each with a panicking consumer", "owned collect", "try_for_each", "is_sorted, min, reduce, position"];
                return v(
                    "sequence",
                    format!(
                        "enumeration of {h:x} at resolution {cr} ({t} children), {c0} delivered: {}({n}) gave {:x?}, expected {:x?}",
                        names[act as usize],
                        &ws[..ws.len().min(12)],
                        &exp[..exp.len().min(12)]
                    ),
                );
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: up to 5 enumerations are consumed by 1-4 threads through next, nth, take, step_by, skip, find, position, fold, count, last, collect, try_for_each (by reference and by value), panicking consumers, early drops and killed callers, now and then millions of children on end, interleaved and handed from thread to thread; what each use delivers is compared with digit arithmetic. Non-trivial: an enumeration delivered something and was used more than once. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, p: &Plan, _vw: &View) -> bool {
        p.nops() >= 3 && p.init.iter().any(|i| total(i[1], i[2] as i32 as i64) > 0)
    }
    fn probes(&self) -> &'static [&'static str] {
        &["uses of an enumeration that was gone or in use", "uses that reached the end", "panicking consumers", "enumerations of over 800 000 children"]
    }
}
