//! C01: answers do not depend on history or on other callers.
use super::*;
use crate::apps::{crowd_call, ANY_CALL, B_OTHER};
use crate::gen;
use crate::prng::mix;

pub struct C01;

/// A set of calls on related cells, so that whatever one call might leave behind has
/// a good chance of being picked up by another.
pub fn universe(g: &mut Rng, w: &mut W, n: usize) -> Vec<(u8, Vec<u64>)> {
    let mut cells = vec![gen::mixed_cell(g, &mut w.r)];
    for _ in 0..g.range(2, 6) {
        let h = *g.pick(&cells);
        cells.push(gen::relative(g, &mut w.r, h));
    }
    if g.chance(1, 3) {
        cells.push(gen::mixed_cell(g, &mut w.r));
    }
    let kinds: Vec<u8> = if g.chance(1, 2) {
        // few functions, many arguments
        let all = [DISK, FASTDISK, RING, NBR, DIRFOR, VALID, NCHILD, CHILDREN, CHILDAT, ENCODE, DECODE, EDGE, EDEST, EVALID, ECELLS, EDGES, ITER, SKIP, PENT];
        (0..3).map(|_| *g.pick(&all)).collect()
    } else {
        (0..STREAM).collect()
    };
    (0..n).map(|_| one_call(g, w, *g.clone().pick(&kinds), &cells)).collect()
}
pub fn one_call(g: &mut Rng, w: &mut W, f: u8, cells: &[u64]) -> (u8, Vec<u64>) {
    g.next();
    let mut h = *g.pick(cells);
    if g.chance(1, 12) {
        h = gen::corrupt(g, h);
    }
    let r = rm::res(h);
    let f = if g.chance(1, 4) { *g.pick(&[DISK, FASTDISK, RING, NBR, CHILDREN, CHILDAT, ENCODE, DECODE, EDGE, ITER]) } else { f };
    let k = match g.below(16) {
        0..=9 => g.below(4),
        10..=14 => g.below(8),
        _ => g.below(14),
    };
    let cres = |g: &mut Rng| -> u64 {
        match g.below(14) {
            0 => (r - 1) as i64 as u64,
            1 => 16,
            _ => (r + g.below(4) as i32).min(15) as u64,
        }
    };
    let a = match f {
        MAXDISK => vec![g.log(u32::MAX as u64)],
        DISK | FASTDISK | RING => vec![h, k],
        NBR => {
            let d = if g.chance(1, 10) { g.below(8) } else { g.range(1, 6) as u64 };
            vec![h, d, g.below(6)]
        }
        DIRFOR | EDGE => {
            let o = if rm::valid_cell(h) && g.chance(3, 4) { *g.pick(&w.r.neighbors(h)) } else { *g.pick(cells) };
            vec![h, o]
        }
        NCHILD => {
            let c = if g.chance(1, 2) { g.below(16) } else { cres(g) };
            vec![h, c]
        }
        CHILDREN => vec![h, cres(g)],
        CHILDAT => {
            let c = if g.chance(1, 2) { g.range(r as i64, 15) as u64 } else { cres(g) };
            let n = if rm::valid_cell(h) && (c as i64) >= r as i64 && c < 16 { rm::child_count(h, c as i32) } else { 7 };
            let pos = match g.below(8) {
                0 => -1,
                1 => n,
                2 => n - 1,
                3 => 0,
                _ => g.below(n as u64) as i64,
            };
            vec![pos as u64, h, c]
        }
        ENCODE => {
            let (la, ln) = if g.chance(2, 3) && rm::valid_cell(h) {
                // the same place, or one that is easily mistaken for it
                let (a, b) = w.r.latlng(h);
                let tau = 2.0 * std::f64::consts::PI;
                let (a, b) = match g.below(14) {
                    0 | 1 => (b, a),
                    2 => (-a, -b),
                    3 => (-a, b),
                    4 => (a, -b),
                    5 => (f64::from_bits(a.to_bits() ^ 1 << g.below(40)), b),
                    6 => (a, f64::from_bits(b.to_bits() ^ 1 << g.below(40))),
                    7 => (a, b + tau),
                    8 => (b, b),
                    _ => (a, b),
                };
                (a.to_bits(), b.to_bits())
            } else {
                gen::latlng(g, &mut w.r)
            };
            let rr = if g.chance(1, 12) { *g.pick(&[16, -1i64 as u64, 99]) } else { g.below(16) };
            vec![la, ln, rr]
        }
        EORIGIN | EDEST | EVALID | ECELLS => {
            let d = if g.chance(1, 8) { g.below(8) } else { g.range(1, 6) as u64 };
            let e = gen::edge_bits(h, d);
            vec![if g.chance(1, 12) { h } else { e }]
        }
        RES0 | RES0N => vec![],
        ITER => vec![h, cres(g), g.below(60)],
        SKIP => vec![h, cres(g), g.below(60), g.below(10)],
        MKINDEX => vec![g.below(16), g.below(122), g.below(7)],
        AZDIST => {
            let (la, ln) = w.r.latlng(*g.pick(cells));
            let la = if rm::valid_cell(h) { la } else { 0.5 };
            vec![la.to_bits(), ln.to_bits(), (g.f() * 6.0).to_bits(), (g.f() * 2.0).to_bits()]
        }
        AZIMUTH => {
            let (p, q) = (w.r.latlng(*g.pick(cells)), w.r.latlng(*g.pick(cells)));
            vec![p.0.to_bits(), p.1.to_bits(), q.0.to_bits(), q.1.to_bits()]
        }
        ANGLE => vec![g.below(5), (g.f() * 40.0 - 20.0).to_bits(), (g.f() * 40.0 - 20.0).to_bits()],
        _ => vec![h],
    };
    (f, a)
}

/// Signal handlers that make calls of their own in the middle of some of these.
pub fn interrupts(g: &mut Rng, w: &mut W, p: &mut Plan, u: &[(u8, Vec<u64>)]) {
    let ops: Vec<(u32, u8, Vec<u64>)> = p.ops().filter(|o| o.f < STREAM).map(|o| (o.uid, o.f, o.a.clone())).collect();
    for _ in 0..g.range(1, 6) {
        if ops.is_empty() {
            return;
        }
        let (uid, of, oa) = g.pick(&ops).clone();
        let steps = w.solo(of, &oa).steps.max(2);
        let same: Vec<&(u8, Vec<u64>)> = u.iter().filter(|x| fixed_size(x.0) && (x.0 == of || !g.chance(1, 2))).collect();
        if same.is_empty() {
            continue;
        }
        let (f, a) = (*g.pick(&same)).clone();
        // the lone execution it will be compared with
        w.solo(f, &a);
        p.interrupt(uid, pos_in(g, steps), f, a);
    }
}

/// Threads that end, and make their last calls from a thread-local destructor.
pub fn exits(g: &mut Rng, p: &mut Plan, u: &[(u8, Vec<u64>)]) {
    for t in 0..p.tasks.len() {
        if g.chance(1, 3) {
            continue;
        }
        let before: Vec<(u8, Vec<u64>)> = p.tasks[t].iter().map(|o| (o.f, o.a.clone())).filter(|o| o.0 < STREAM).collect();
        p.push(t, EXIT, vec![]);
        for _ in 0..g.range(1, 4) {
            let (f, a) = if before.is_empty() || g.chance(1, 3) { g.pick(u).clone() } else { g.pick(&before).clone() };
            p.push(t, f, a);
        }
    }
}

impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C01", run);
        p.keep = true;
        // runs of one epoch share their calls, so that the lone executions they are
        // compared with are made once
        let mut eg = Rng::new(mix(w.seed ^ 0xc01) ^ (run / 24));
        let size = *eg.pick(&[6usize, 16, 40]);
        let u = universe(&mut eg, w, size);
        let long = g.chance(1, 30);
        let nt = g.range(1, 4) as usize;
        let total = if long { g.range(200, 1500) } else { g.range(2, 24) } as usize;
        let faulty = g.chance(1, 2);
        for i in 0..total {
            let t = if i < nt { i } else { g.below(nt as u64) as usize };
            let (f, a) = g.pick(&u).clone();
            if long && matches!(f, DISK | CHILDREN) && est(f, &a) > 40_000 {
                continue;
            }
            let e = w.solo(f, &a);
            let uid = p.push(t, f, a);
            if faulty {
                let steps = e.steps.max(2);
                match g.below(if long { 60 } else { 10 }) {
                    0 if e.allocs > 0 => {
                        p.op_mut(uid).fault = if g.chance(2, 3) {
                            Fault::Nth(1 + g.below(e.allocs as u64) as u32)
                        } else {
                            Fault::From(1 + g.below(e.allocs as u64) as u32)
                        }
                    }
                    1 => p.events.push(Ev { uid, s: pos_in(g, steps), kind: EvKind::Stall(g.log(200_000)) }),
                    2 if p.events.len() < 40 => p.events.push(Ev { uid, s: pos_in(g, steps), kind: EvKind::Kill }),
                    _ => {}
                }
            }
        }
        if g.chance(1, 80) && !long {
            p.tasks.clear();
            p.events.clear();
            super::c06::mass(g, w, &mut p, &u);
            if p.nops() == 0 {
                let (f, a) = g.pick(&u).clone();
                p.push(0, f, a);
            }
        }
        if g.chance(1, 12) {
            exits(g, &mut p, &u);
        }
        if g.chance(1, 3) {
            interrupts(g, w, &mut p, &u);
        }
        if g.chance(1, 40) {
            // one call, another one again and again, the first one again: counters wrap
            let f = *g.pick(&[NBR, VALID, PENT, NCHILD, CHILDAT, ENCODE, DECODE, EDGE, EVALID, ECELLS, EORIGIN, EDEST, DIRFOR, EDGES, ITER, RES, ANGLE, DISK, DISK, DISK, DISK, RING, FASTDISK, CHILDREN]);
            let mut c: Vec<(u8, Vec<u64>)> = u.iter().filter(|x| x.0 == f).cloned().collect();
            if c.len() < 2 || g.chance(1, 2) {
                // close relatives at one pentagon, or anywhere
                let r = gen::any_res(g);
                let near = g.chance(2, 3);
                for _ in 0..3 {
                    let h = if near { gen::near_pentagon(g, &mut w.r, r, 3) } else { gen::cell_at(g, r) };
                    let mut x = one_call(g, w, f, &[h]);
                    if matches!(x.0, DISK | FASTDISK | RING) {
                        x.1[1] = 1 + g.below(3);
                    }
                    c.push(x);
                }
            }
            let (x, y) = (g.pick(&c).clone(), g.pick(&c).clone());
            let n = (1u64 << *g.pick(&[4, 6, 7, 8, 8, 8, 8, 9, 10, 12, 16, 16])) + g.below(4) - 2;
            let n = n.min(30_000_000 / est(y.0, &y.1)).max(1);
            p.budget = 300_000_000;
            let t = g.below(nt as u64) as usize;
            let mut b = vec![n, y.0 as u64];
            b.extend(y.1);
            p.push(t, x.0, x.1.clone());
            p.push(t, BURST, b);
            p.push(t, x.0, x.1);
            for _ in 0..g.below(3) {
                let (f, a) = g.pick(&u).clone();
                p.push(t, f, a);
            }
        }
        if g.chance(1, 60) {
            // a crowd of different calls, made in another order than the lone crowd it is
            // compared with: full caches, colliding keys, evictions
            let cell = gen::mixed_cell(g, &mut w.r);
            let all = [NBR, VALID, PENT, NCHILD, CHILDAT, ENCODE, DECODE, EDGE, DIRFOR, EDEST, EVALID, ECELLS, EDGES, DISK, CHILDREN, RING, FASTDISK];
            let f = if g.chance(1, 4) { ANY_CALL } else { *g.pick(&all) as u64 };
            let mut a = vec![f, 0, cell, g.below(6), g.below(2), *g.pick(&[1, 1, 2, 3])];
            a[1] = 64;
            let each = (est(CROWD, &a) / 64 / a[5]).max(1);
            a[1] = (1u64 << g.range(5, 13)).min(8_000_000 / each / a[5]).max(8);
            p.budget = 300_000_000;
            for _ in 0..g.range(1, 2) {
                let t = g.below(nt as u64) as usize;
                p.push(t, CROWD, a.clone());
                a[4] ^= 1;
            }
        }
        if g.chance(1, 10) {
            p.tasks.clear();
            p.events.clear();
            p.handlers.clear();
            super::c06::contend(g, w, &mut p, &u);
            if p.nops() > 0 {
                return p;
            }
            let (f, a) = g.pick(&u).clone();
            p.push(0, f, a);
        }
        let tot: u64 = p.ops().map(|o| est(o.f, &o.a)).sum();
        p.sched = sched(g, tot);
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            // unless it does the same alone
            for o in p.all_ops().filter(|o| o.f != EXIT) {
                let (f, a) = if o.f == BURST { (o.a[1] as u8, &o.a[2..]) } else { (o.f, &o.a[..]) };
                let s = w.solo(f, a);
                if s.outcome != Outcome::Finished || s.status == BUDGET {
                    return None;
                }
            }
            return Some(x);
        }
        for o in p.all_ops() {
            let r = *vw.rec(o.uid);
            if r.status != DONE && r.status != PANIC {
                continue;
            }
            if o.f == BURST {
                let s = w.solo(o.a[1] as u8, &o.a[2..]);
                let ws = vw.words(o.uid);
                if s.outcome == Outcome::Finished && s.capfail == 0 && ws != &s.words[..] && s.status == DONE {
                    let call = show(o.a[1] as u8, &o.a[2..]);
                    let (at, ws) = if ws.first() == Some(&B_OTHER) { (ws[1], &ws[2..]) } else { (0, ws) };
                    return v("answer", format!("{call} returned {} when made {} times before, but alone it returns {}", show_words(ws), at, show_words(&s.words)));
                }
                continue;
            }
            if o.f == CROWD {
                // the same calls in the opposite order
                let mut a = o.a.clone();
                a[4] ^= 1;
                a[5] = 1;
                let s = w.solo(CROWD, &a);
                let ws = vw.words(o.uid);
                if s.outcome != Outcome::Finished || s.capfail > 0 || s.status != DONE || r.status != DONE {
                    continue;
                }
                if let Some(i) = (0..ws.len().min(s.words.len())).find(|i| ws[*i] != s.words[*i]) {
                    let (f, b) = crowd_call(&o.a, i as u64);
                    let t = w.solo(f, &b);
                    return v(
                        "answer",
                        format!(
                            "{} answers differently among {} other calls made in one order and in the opposite order; alone it returns {}",
                            show(f, &b),
                            o.a[1] - 1,
                            show_words(&t.words)
                        ),
                    );
                }
                continue;
            }
            if o.f == EXIT {
                continue;
            }
            let s = w.solo(o.f, &o.a);
            if s.outcome != Outcome::Finished {
                continue;
            }
            let ws = vw.words(o.uid);
            if r.status == s.status && ws == &s.words[..] {
                continue;
            }
            if r.failed + r.capfail > 0 && (ws == [ERR, MEMORY] || null_disk(o)) {
                continue;
            }
            if s.capfail > 0 {
                continue;
            }
            return v(
                "answer",
                format!(
                    "{} returned {}{} but alone it returns {}{}",
                    show(o.f, &o.a),
                    show_words(ws),
                    if r.status == PANIC { " (panic)" } else { "" },
                    show_words(&s.words),
                    if s.status == PANIC { " (panic)" } else { "" }
                ),
            );
        }
        if vw.sh.head.mutated > 0 {
            let o = p.op(vw.sh.head.mutated_uid);
            return v(
                "mutated",
                format!("the result of {} changed after it had been returned", o.map(|o| show(o.f, &o.a)).unwrap_or_default()),
            );
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: a fresh process in which 1-4 threads make 2-1500 calls drawn from a family of related cells and functions (in one run of 60 also a crowd of up to 8192 different calls, compared with the same crowd in the opposite order), under a seeded schedule with stalls, killed callers and failed allocations; every answer is compared with the same call made alone in a pristine process. Non-trivial: at least two calls, and at least one preemption inside a call, fault, or earlier call to the same function. Distinct: by hash of the complete event log (every scheduling decision, fault and result)."
    }
    fn nontrivial(&self, p: &Plan, vw: &View) -> bool {
        p.nops() >= 2 && (vw.sh.head.preempts > 0 || vw.sh.head.interrupts + vw.sh.head.kills + vw.sh.head.failed + vw.sh.head.stalls > 0 || p.nops() > 6)
    }
}
