//! Generated inputs: biased to where the grid is irregular and to families of related
//! cells (a cell, its siblings, parent, children, neighbours, the same digits elsewhere).
use crate::prng::Rng;
use crate::refmodel::*;

pub const PENTS: [u64; 12] = [4, 14, 24, 38, 49, 58, 63, 72, 83, 97, 107, 117];

pub fn pentagon(g: &mut Rng, r: i32) -> u64 {
    mk(r, *g.pick(&PENTS) as usize, &vec![0; r as usize])
}
pub fn any_res(g: &mut Rng) -> i32 {
    match g.below(10) {
        0 => 0,
        1 => 15,
        2 => 1,
        3 => 14,
        _ => g.range(0, 15) as i32,
    }
}
pub fn cell_at(g: &mut Rng, r: i32) -> u64 {
    loop {
        let b = if g.chance(3, 10) { *g.pick(&PENTS) } else { g.below(122) } as usize;
        let style = g.below(5);
        let c = g.below(7);
        let cut = g.below(r as u64 + 1) as usize;
        let d: Vec<u64> = (0..r as usize)
            .map(|i| match style {
                0 | 1 => g.below(7),
                2 => {
                    if i < cut {
                        0
                    } else {
                        g.below(7)
                    }
                }
                3 => c,
                _ => {
                    if i < cut {
                        c
                    } else if g.chance(1, 3) {
                        g.below(7)
                    } else {
                        0
                    }
                }
            })
            .collect();
        let h = mk(r, b, &d);
        if valid_cell(h) {
            return h;
        }
    }
}
pub fn any_cell(g: &mut Rng) -> u64 {
    let r = any_res(g);
    cell_at(g, r)
}
/// A cell within about `n` hops of a pentagon of resolution r.
pub fn near_pentagon(g: &mut Rng, m: &mut Ref, r: i32, n: u64) -> u64 {
    let mut h = pentagon(g, r);
    for _ in 0..g.below(n + 1) {
        let ns = m.neighbors(h);
        h = *g.pick(&ns);
    }
    h
}
/// A cell of resolution r at the border between two coarser ones, base cells mostly.
pub fn border_cell(g: &mut Rng, m: &mut Ref, r: i32) -> u64 {
    let q = if g.chance(3, 4) { 0 } else { g.range(0, r as i64) as i32 };
    let a = match g.below(5) {
        0 | 1 => pentagon(g, q),
        2 => near_pentagon(g, m, q, 2),
        _ => cell_at(g, q),
    };
    let ns = m.neighbors(a);
    let b = *g.pick(&ns);
    // the two neighbours they have in common stand at the ends of their border
    let nb = m.neighbors(b);
    let both: Vec<u64> = ns.iter().copied().filter(|x| nb.contains(x)).collect();
    if both.is_empty() {
        return m.toward_point(a, m.center(b), r);
    }
    let c = *g.pick(&both);
    let t = g.f() * if g.chance(1, 4) { 0.05 } else { 0.34 };
    let t = if g.chance(1, 4) { 0.334 - t / 10.0 } else { t };
    let p = m.between([m.center(a), m.center(b), m.center(c)], [(1.0 - t) / 2.0, (1.0 - t) / 2.0, t]);
    let h = m.toward_point(if g.chance(1, 2) { a } else { b }, p, r);
    if g.chance(1, 3) {
        let ns = m.neighbors(h);
        return *g.pick(&ns);
    }
    h
}
/// A cell of resolution r on an edge of the icosahedron.
pub fn edge_cell(g: &mut Rng, m: &mut Ref, r: i32) -> u64 {
    let a = pentagon(g, 0);
    let ca = m.center(a);
    let mut others: Vec<u64> = PENTS.iter().map(|b| mk(0, *b as usize, &[])).filter(|b| *b != a).collect();
    others.sort_by(|x, y| m.gap(*x, ca).total_cmp(&m.gap(*y, ca)));
    let b = others[g.below(5) as usize];
    let t = g.f() * if g.chance(1, 4) { 0.1 } else { 1.0 };
    let p = m.between([ca, m.center(b), ca], [1.0 - t, t, 0.0]);
    let top = (0..122).map(|b| mk(0, b, &[])).min_by(|x, y| m.gap(*x, p).total_cmp(&m.gap(*y, p))).unwrap();
    m.toward_point(top, p, r)
}
/// A mix of everything; pentagon surroundings are where the code branches most.
pub fn mixed_cell(g: &mut Rng, m: &mut Ref) -> u64 {
    let r = any_res(g);
    match g.below(20) {
        0 | 1 => pentagon(g, r),
        2..=7 => near_pentagon(g, m, r, 6),
        8..=11 => border_cell(g, m, r),
        12 | 13 => edge_cell(g, m, r),
        _ => cell_at(g, r),
    }
}
/// Relatives of a cell: what a cache or a leaked working state would confuse it with.
pub fn relative(g: &mut Rng, m: &mut Ref, h: u64) -> u64 {
    let r = res(h);
    for _ in 0..20 {
        let c = match g.below(9) {
            0 if r > 0 => parent(h, r - 1),
            1 if r < 15 => {
                let d = g.below(7);
                with_digit(h, r + 1, r + 1, d)
            }
            2 | 3 if r > 0 => {
                let i = g.range(1, r as i64) as i32;
                let d = g.below(7);
                with_digit(h, r, i, d)
            }
            4 => (h & !(127u64 << 45)) | g.below(122) << 45,
            5 | 6 => *g.pick(&m.neighbors(h)),
            7 => {
                // same digits, other resolution
                let r2 = g.range(0, 15) as i32;
                let mut d = digits(h);
                d.resize(r2 as usize, 0);
                mk(r2, base(h), &d)
            }
            _ => h,
        };
        if valid_cell(c) {
            return c;
        }
    }
    h
}
pub fn edge_bits(h: u64, d: u64) -> u64 {
    (h & !(15u64 << 59) & !(7u64 << 56)) | 2u64 << 59 | d << 56
}
/// Damage to a stored word.
pub fn corrupt(g: &mut Rng, h: u64) -> u64 {
    match g.below(10) {
        0..=4 => {
            let mut x = h;
            for _ in 0..g.log(6) {
                x ^= 1 << g.below(64);
            }
            x
        }
        5 => {
            // torn: some bytes from elsewhere
            let o = g.next();
            let k = g.range(1, 7);
            let mask = (1u64 << (8 * k)) - 1;
            if g.chance(1, 2) {
                (h & mask) | (o & !mask)
            } else {
                (h & !mask) | (o & mask)
            }
        }
        6 => {
            let k = g.range(1, 7);
            let mask = (1u64 << (8 * k)) - 1;
            match g.below(4) {
                0 => h & mask,
                1 => h & !mask,
                2 => h | mask,
                _ => h | !mask,
            }
        }
        7 => g.next(),
        8 => *g.pick(&[0, u64::MAX, 1, 1 << 63, !(1 << 63), 0x7fff_ffff_ffff_ffff, h.swap_bytes(), !h, h << 8, h >> 8, h.rotate_left(4)]),
        _ => {
            // one digit or field
            let x = g.below(8);
            match g.below(6) {
                0 => (h & !(15 << 52)) | g.below(16) << 52,
                1 => (h & !(127 << 45)) | g.below(128) << 45,
                2 => (h & !(7 << 56)) | x << 56,
                3 => (h & !(15 << 59)) | g.below(16) << 59,
                _ => {
                    let s = 3 * g.below(15);
                    (h & !(7 << s)) | x << s
                }
            }
        }
    }
}
pub fn latlng(g: &mut Rng, m: &mut Ref) -> (u64, u64) {
    use std::f64::consts::*;
    let (la, ln) = match g.below(12) {
        0 => (FRAC_PI_2, g.f() * 6.0 - 3.0),
        1 => (-FRAC_PI_2, 0.0),
        2 => (g.f() * 3.0 - 1.5, PI),
        3 => (g.f() * 3.0 - 1.5, -PI),
        4 => (0.0, 0.0),
        5 => *g.pick(&[(f64::NAN, 0.0), (0.0, f64::INFINITY), (f64::NEG_INFINITY, 1.0), (100.0, 7.0), (1e9, -1e9), (-0.0, -0.0)]),
        6 | 7 => {
            let h = mixed_cell(g, m);
            m.latlng(h)
        }
        _ => {
            let z = g.f() * 2.0 - 1.0;
            (z.asin(), g.f() * 2.0 * PI - PI)
        }
    };
    (la.to_bits(), ln.to_bits())
}
