//! C15: an index edited field by field is exactly its edits, across crashes.
use super::c14::crashes;
use super::*;
use crate::apps::*;
use crate::gen;

pub struct C15;

fn put(w: u64, off: u32, bits: u32, v: u64) -> u64 {
    let m = (1u64 << bits) - 1;
    w & !(m << off) | (v & m) << off
}
fn edited(w: u64, k: u64, x: u64, y: u64) -> u64 {
    match k {
        K_HIGH => put(w, 63, 1, x),
        K_MODE => put(w, 59, 4, x),
        K_RESERVED => put(w, 56, 3, x),
        K_RES => put(w, 52, 4, x),
        K_BASE => put(w, 45, 7, x),
        K_DIGIT => put(w, 3 * (15 - x as u32), 3, y),
        K_ZERO => (x..=y).fold(w, |w, r| put(w, 3 * (15 - r as u32), 3, 0)),
        _ => rm::mk((x & 255) as i32, (x >> 8 & 255) as usize, &[x >> 16; 15]),
    }
}
fn words(k: u64, x: u64, y: u64) -> String {
    match k {
        K_HIGH => format!("setting the high bit to {x}"),
        K_MODE => format!("setting the mode to {x}"),
        K_RESERVED => format!("setting the reserved bits to {x}"),
        K_RES => format!("setting the resolution to {x}"),
        K_BASE => format!("setting the base cell to {x}"),
        K_DIGIT => format!("setting digit {x} to {y}"),
        K_ZERO => format!("zeroing digits {x} to {y}"),
        _ => format!("making the index of resolution {}, base cell {}, digits {}", x & 255, x >> 8 & 255, x >> 16),
    }
}

/// [kind, value, value]
pub fn one_edit(g: &mut Rng, fields: bool) -> [u64; 3] {
    match if fields { *g.pick(&[4, 4, 2, 3]) } else { g.below(10) } {
        0 => [K_HIGH, g.below(2), 0],
        1 => [K_MODE, g.below(16), 0],
        2 => [K_BASE, if g.chance(1, 2) { *g.pick(&gen::PENTS) } else { g.below(128) }, 0],
        3 => [K_RES, g.below(16), 0],
        7 => [K_RESERVED, g.below(8), 0],
        8 => {
            let a = g.range(1, 15) as u64;
            [K_ZERO, a, g.range(1, 15) as u64]
        }
        9 => [K_MAKE, g.below(16) | (if g.chance(1, 2) { *g.pick(&gen::PENTS) } else { g.below(122) }) << 8 | g.below(8) << 16, 0],
        _ => [K_DIGIT, g.range(1, 15) as u64, if g.chance(1, 3) { 0 } else { g.below(8) }],
    }
}

impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan {
        let mut p = Plan::new("C15", run);
        let nw = g.range(1, 4) as usize;
        let nt = g.range(1, nw as i64) as usize;
        for k in 0..nw {
            let h = match g.below(5) {
                0 => g.next(),
                1 => {
                    let h = gen::mixed_cell(g, &mut w.r);
                    gen::corrupt(g, h)
                }
                _ => gen::mixed_cell(g, &mut w.r),
            };
            let mut init = vec![I_EDIT, h, g.below(2)];
            let n = g.range(1, 30);
            let style = g.below(3);
            for _ in 0..n {
                let e = one_edit(g, style == 0);
                init.extend(e);
            }
            p.init.push(init);
            crashes(g, &mut p, k, k % nt, n, 150);
        }
        let tot = p.init.iter().map(|i| 100 * i.len() as u64).sum::<u64>();
        p.sched = if nt == 1 { Sched::Trace(vec![]) } else { sched(g, tot) };
        p
    }
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V> {
        if let Some(x) = common(p, vw) {
            return Some(x);
        }
        let states: Vec<Vec<u64>> = p
            .init
            .iter()
            .map(|i| {
                let mut s = vec![i[1]];
                for c in i[3..].chunks(3) {
                    s.push(edited(s[s.len() - 1], c[0], c[1], c[2]));
                }
                s
            })
            .collect();
        for o in p.ops() {
            let r = vw.rec(o.uid);
            if r.status == PANIC {
                return v("panic", format!("{} panicked", show(o.f, &o.a)));
            }
            if o.f != EDIT || r.status == NOTRUN || r.status == RUNNING {
                continue;
            }
            let k = o.a[0] as usize;
            w.counters[0] += (r.status == KILLED) as u64;
            for c in vw.words(o.uid).chunks(4) {
                if c.len() < 4 {
                    break;
                }
                let j = c[1] as usize;
                match c[0] {
                    E_DO => {
                        w.counters[1] += 1;
                        let (a, b) = (states[k][j], states[k][j + 1]);
                        if c[2] != b {
                            let e = &p.init[k][3 + 3 * j..];
                            return v("edit", format!("{} in {a:x} (edit {j}) gave {:x}, not {b:x}", words(e[0], e[1], e[2]), c[2]));
                        }
                    }
                    E_UNDO => {
                        w.counters[2] += 1;
                        if c[2] != states[k][j] {
                            let e = &p.init[k][3 + 3 * j..];
                            return v("undo", format!("{} in {:x} (edit {j}) was undone after a crash to {:x}", words(e[0], e[1], e[2]), states[k][j], c[2]));
                        }
                    }
                    _ => {
                        let h = c[2];
                        let (name, want) = match c[1] {
                            0 => (LOOKS[0].to_string(), h >> 63),
                            1 => (LOOKS[1].into(), h >> 59 & 15),
                            2 => (LOOKS[2].into(), rm::base(h) as u64),
                            3 => (LOOKS[3].into(), rm::res(h) as u64),
                            4 => (LOOKS[4].into(), h >> 56 & 7),
                            5 => (LOOKS[5].into(), rm::res(h) as u64),
                            6 => (LOOKS[6].into(), rm::leading(h)),
                            7 => (LOOKS[7].into(), rm::is_pent(h) as u64),
                            8 => (LOOKS[8].into(), rm::valid_cell(h) as u64),
                            9 => (LOOKS[9].into(), rm::res(h) as u64 % 2),
                            i @ 100..=115 => (format!("digit {}", i - 100), rm::digit(h, (i - 100) as i32)),
                            i => (format!("children at resolution {}", i - 200), (i - 200 >= rm::res(h) as u64 && i - 200 < 16) as u64),
                        };
                        w.counters[3] += 1;
                        if c[3] != want {
                            return v("look", format!("asked for its {name}, {h:x} said {}, not {want}", c[3]));
                        }
                    }
                }
            }
        }
        None
    }
    fn rule(&self) -> &'static str {
        "One evaluation is one simulated run: up to 4 stored words (cells, damaged cells, random words) are edited in place up to 30 times each (a field or digit set, digits zeroed, a fresh index made), in transactions that are undone from remembered field values or made again after crashes at random steps, on other threads, up to 5 times; after every edit and undo the whole word is compared with a model of the bit layout, and at commits everything an index says about itself. Non-trivial: a crash, preemption or stall, or more than 5 edits. Distinct: by hash of the complete event log."
    }
    fn nontrivial(&self, p: &Plan, vw: &View) -> bool {
        vw.sh.head.kills + vw.sh.head.preempts + vw.sh.head.stalls > 0 || p.init.iter().any(|i| i.len() > 3 + 3 * 5)
    }
    fn probes(&self) -> &'static [&'static str] {
        &["crashes", "edits checked", "edits undone", "answers about an index checked"]
    }
}
