//! C03: no call keeps or over-uses memory.
use super::c01::one_call;
use super::*;
use crate::apps::*;
use crate::gen;

pub struct C03;

/// What a call may hold at once: a generous constant times its largest possible answer.
pub fn peak_bound(f: u8, a: &[u64]) -> i64 {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    let k = g(1) as u32 as i128;
    let b: i128 = match f {
        DISK | FASTDISK => 256 * (3 * k * (k + 1) + 1),
        RING => 128 * (6 * k).max(1),
        CHILDREN => {
            let n = (g(1) as i32 as i64 - rm::res(g(0)) as i64).clamp(0, 15);
            128 * 7i128.pow(n as u32)
        }
        RES0 => 128 * 122,
        _ => 0,
    };
    (b + 4096).min(i64::MAX as i128) as i64
}
/// And on its stack: callers may run on small ones.
pub fn stack_bound(f: u8, a: &[u64]) -> u64 {
    peak_bound(f, a) as u64 + (60 << 10)
}

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C03", run);
        p.heapcap = 2 << 20;
        let nt = *g.pick(&[1, 1, 2, 3]);
        // few shapes again and again, or many a few times
        let often = g.chance(1, 6);
        let shapes = if often { g.range(1, 3) } else { g.range(1, 10) };
        let mut cells: Vec<u64> = (0..4).map(|_| gen::mixed_cell(g, &mut w.r)).collect();
        let res_of: Vec<i32> = cells.iter().map(|c| rm::res(*c)).collect();
        // pass 1: every kind of call this run will make, once without faults, once with
        let mut list: Vec<(usize, u8, Vec<u64>, Fault, usize)> = vec![];
        let damaged = |l: &(usize, u8, Vec<u64>, Fault, usize)| l.1 != STREAM && l.4 >= 4;
        for _ in 0..shapes {
            let t = g.below(nt) as usize;
            let ci = g.below(4) as usize;
            let (f, a) = if g.chance(1, 4) {
                let action = *g.pick(&[A_NEXT, A_TAKE, A_PANIC, A_REST, A_DROP, A_NTH, A_FOR, A_HINT]);
                (STREAM, vec![0, action, g.range(1, 30) as u64])
            } else {
                let f = *g.pick(&[DISK, DISK, DISK, FASTDISK, RING, CHILDREN, CHILDREN, RES0, NBR, DIRFOR, VALID, NCHILD, CHILDAT, ENCODE, DECODE, EDGE, ITER, SKIP, ECELLS, EDGES]);
                let bad = g.chance(1, 5);
                let f = if bad || !g.chance(1, 5) {
                    f
                } else {
                    *g.pick(&[MAXDISK, PENT, RES, EORIGIN, EDEST, EVALID, RES0N, MKINDEX, ROTL, ROTR, ROTPL, ROTPR, LEADING, AZDIST, AZIMUTH, ANGLE, ANGLE])
                };
                let h = if bad { gen::corrupt(g, cells[ci]) } else { cells[ci] };
                let fa = one_call(g, w, f, &[h]);
                if bad {
                    // a shape that (mostly) fails: it must go on failing later
                    list.push((t, fa.0, fa.1, Fault::None, ci + 4));
                    continue;
                }
                fa
            };
            let fault = match g.below(6) {
                0..=2 => Fault::None,
                3 => Fault::From(1 + g.below(3) as u32),
                4 => Fault::Rand(g.next(), 300_000),
                _ => Fault::Nth(1 + g.below(8) as u32),
            };
            list.push((t, f, a, fault, ci));
        }
        let slots = list.iter().filter(|x| x.1 == STREAM).count() as u64;
        let passes = if often { g.range(6, 20) as u64 } else { 3 };
        for s in 0..slots * (passes + 1) {
            let h = cells[(s % slots.max(1) % 4) as usize];
            let r = (rm::res(h) + g.range(0, 3) as i32).min(15);
            p.init.push(vec![I_SLOT, h, r as u64]);
        }
        let mut slot = 0;
        let mut emit = |p: &mut Plan, l: &(usize, u8, Vec<u64>, Fault, usize), fault: Fault| {
            let mut a = l.2.clone();
            if l.1 == STREAM {
                a[0] = slot;
                slot += 1;
            }
            let uid = p.push(l.0, l.1, a);
            p.op_mut(uid).fault = fault;
        };
        for l in &list {
            emit(&mut p, l, Fault::None);
        }
        for l in &list {
            if l.1 != STREAM {
                emit(&mut p, l, l.3);
            }
        }
        for t in 0..nt as usize {
            p.push(t, BARRIER, vec![1]);
        }
        // later passes: the same shapes on other cells
        for _ in 1..passes {
            for i in 0..4 {
                let r = res_of[i];
                cells[i] = if g.chance(1, 2) { gen::near_pentagon(g, &mut w.r, r, 5) } else { gen::cell_at(g, r) };
            }
            for l in &list {
                let mut l = l.clone();
                if damaged(&l) {
                    if g.chance(1, 2) && matches!(l.1, DISK | FASTDISK | RING | NBR | NCHILD | ITER | SKIP | VALID | DECODE | EDGES) {
                        l.2[0] = gen::corrupt(g, cells[l.4 - 4]);
                    }
                    emit(&mut p, &l, Fault::None);
                    continue;
                }
                match l.1 {
                    DISK | FASTDISK | RING | CHILDREN | NBR | NCHILD | ITER | SKIP | VALID | DECODE | EDGES => l.2[0] = cells[l.4],
                    _ => {}
                }
                // collecting from an enumeration allocates in the caller, infallibly
                let fault = if l.1 == STREAM { Fault::None } else { l.3 };
                emit(&mut p, &l, fault);
            }
        }
        let tot = est_plan(&p);
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, tot) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        let mut base = None;
        for o in p.ops() {
            let r = vw.rec(o.uid);
            if o.f == BARRIER {
                if let Some(x) = vw.words(o.uid).first() {
                    base = Some(*x as i64);
                }
                continue;
            }
            if o.f == STREAM {
                // collecting adaptors run inside; what they gather is bounded by the
                // enumeration (at most 343 children)
                if r.peak > 128 * 343 + 4096 {
                    return v("peak", format!("{} held {} bytes", show(o.f, &o.a), r.peak));
                }
                if r.stack > 128 * 343 + (64 << 10) {
                    return v("stack", format!("{} used {} bytes of stack", show(o.f, &o.a), r.stack));
                }
                continue;
            }
            let b = peak_bound(o.f, &o.a);
            if r.peak > b {
                return v("peak", format!("{} held {} bytes at once; its largest answer allows {}", show(o.f, &o.a), r.peak, b));
            }
            let b = stack_bound(o.f, &o.a);
            if r.stack > b {
                return v("stack", format!("{} used {} bytes of stack; its largest answer allows {}", show(o.f, &o.a), r.stack, b));
            }
        }
        if let Some(b) = base {
            w.counters[0] += 1;
            if vw.sh.head.live_end > b {
                return v(
                    "retained",
                    format!(
                        "every result was dropped, yet the library held {} bytes after one pass over the calls and {} after {} more calls of the same shapes",
                        b,
                        vw.sh.head.live_end,
                        p.nops() / 2
                    ),
                );
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: 1-3 threads make a first pass over up to 10 shapes of calls, then two more passes (in one run of six, with fewer shapes, up to 19) over the same shapes on other cells, with refused allocations, abandoned enumerations and panicking consumers; an accounting allocator measures what each call holds at once and what stays behind. Non-trivial: the library allocated something. Distinct: by hash of the complete event log, which includes the bytes held by every call."
    }
    fn nontrivial(&self, _p: &Plan, vw: &View) -> bool {
        vw.sh.head.allocs > 0
    }
    fn probes(&self) -> &'static [&'static str] {
        &["runs in which memory after the first pass was compared with the end"]
    }
}
