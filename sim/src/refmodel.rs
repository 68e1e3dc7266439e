//! Executable reference model, written from the grid's definition and sharing no
//! algorithm with the code under test:
//!  * a cell is a path of digits under a base cell; its centre is found by placing
//!    the path on the unfolded icosahedron (pentagons are 300 degree cones);
//!  * two cells are neighbours when their centres are the 6 (pentagon: 5) closest;
//!    candidates come from the parent's neighbourhood, recursively;
//!  * distance is breadth-first search over that relation;
//!  * children, counts and positions are digit arithmetic.
use crate::tables::*;
use std::collections::{HashMap, HashSet};

pub fn res(h: u64) -> i32 {
    ((h >> 52) & 15) as i32
}
pub fn base(h: u64) -> usize {
    ((h >> 45) & 127) as usize
}
pub fn digit(h: u64, r: i32) -> u64 {
    (h >> (3 * (15 - r))) & 7
}
pub fn mk(res: i32, base: usize, digits: &[u64]) -> u64 {
    let mut h = (1u64 << 59) | ((res as u64) << 52) | ((base as u64) << 45);
    for r in 1..=15 {
        let d = if r <= res { digits[(r - 1) as usize] } else { 7 };
        h |= d << (3 * (15 - r));
    }
    h
}
pub fn digits(h: u64) -> Vec<u64> {
    (1..=res(h)).map(|r| digit(h, r)).collect()
}
pub fn is_pent_base(b: usize) -> bool {
    b < 122 && BASE[b].4 == 1
}
pub fn leading(h: u64) -> u64 {
    for r in 1..=res(h) {
        if digit(h, r) != 0 {
            return digit(h, r);
        }
    }
    0
}
pub fn is_pent(h: u64) -> bool {
    is_pent_base(base(h)) && leading(h) == 0
}

/// The grammar of a well-formed cell index.
pub fn valid_cell(h: u64) -> bool {
    if h >> 63 != 0 || (h >> 59) & 15 != 1 || (h >> 56) & 7 != 0 || base(h) >= 122 {
        return false;
    }
    let r = res(h);
    for i in 1..=15 {
        if (digit(h, i) == 7) != (i > r) {
            return false;
        }
    }
    !(is_pent_base(base(h)) && leading(h) == 1)
}

pub fn valid_edge(e: u64) -> bool {
    if e >> 63 != 0 || (e >> 59) & 15 != 2 {
        return false;
    }
    let d = (e >> 56) & 7;
    if d == 0 || d == 7 {
        return false;
    }
    let o = edge_origin(e);
    valid_cell(o) && !(is_pent(o) && d == 1)
}
pub fn edge_origin(e: u64) -> u64 {
    (e & !(15u64 << 59) & !(7u64 << 56)) | (1u64 << 59)
}

pub fn pow7(n: i32) -> i64 {
    7i64.pow(n as u32)
}

pub fn child_count(h: u64, cres: i32) -> i64 {
    let n = cres - res(h);
    if is_pent(h) {
        1 + 5 * (pow7(n) - 1) / 6
    } else {
        pow7(n)
    }
}

pub fn with_digit(h: u64, nres: i32, r: i32, d: u64) -> u64 {
    let sh = 3 * (15 - r);
    ((h & !(15u64 << 52)) | ((nres as u64) << 52)) & !(7u64 << sh) | (d << sh)
}

/// The child after this one, among the children of `parent`.
pub fn child_after(parent: u64, pent: bool, c: u64) -> Option<u64> {
    let top = 3 * (15 - res(parent)); // just above the digits of the children
    let low = 3 * (15 - res(c));
    let mut s = low;
    let mut c = c;
    while s < top {
        let d = (c >> s & 7) + 1;
        if d < 7 {
            let skip = pent && d == 1 && (c & ((1 << top) - 1)) >> (s + 3) == 0;
            return Some(c + ((1 + skip as u64) << s));
        }
        c &= !(7 << s);
        s += 3;
    }
    None
}

/// The child at `pos` in ascending order.
pub fn child_at(h: u64, cres: i32, mut pos: i64) -> u64 {
    let mut c = h;
    for r in res(h) + 1..=cres {
        let below = cres - r;
        let pent = is_pent(c);
        let mut placed = false;
        for d in 0..7u64 {
            if pent && d == 1 {
                continue;
            }
            let cand = with_digit(c, r, r, d);
            let w = if is_pent(cand) { 1 + 5 * (pow7(below) - 1) / 6 } else { pow7(below) };
            if pos < w {
                c = cand;
                placed = true;
                break;
            }
            pos -= w;
        }
        assert!(placed, "child_at out of range");
    }
    c
}

pub fn parent(h: u64, pres: i32) -> u64 {
    let d = digits(h);
    mk(pres, base(h), &d[..pres as usize])
}

type V3 = [f64; 3];
type C = (f64, f64);
fn cmul(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
fn cdiv(a: C, b: C) -> C {
    let n = b.0 * b.0 + b.1 * b.1;
    ((a.0 * b.0 + a.1 * b.1) / n, (a.1 * b.0 - a.0 * b.1) / n)
}
fn cadd(a: C, b: C) -> C {
    (a.0 + b.0, a.1 + b.1)
}
fn csub(a: C, b: C) -> C {
    (a.0 - b.0, a.1 - b.1)
}
fn cis(deg: f64) -> C {
    let r = deg.to_radians();
    (r.cos(), r.sin())
}
fn d2(a: V3, b: V3) -> f64 {
    (0..3).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum()
}

const UNIT: f64 = 0.38196601125010500003;
const AP7: f64 = 0.333473172251832115336090755351601070065900389;

pub struct Ref {
    c: Vec<V3>,
    ux: Vec<V3>,
    uy: Vec<V3>,
    /// across[f][k]: beyond the edge from vertex k to k+1: (face, vertex there that is our k)
    across: Vec<[(usize, usize); 3]>,
    vert: [C; 3],
    rot: [C; 16],
    memo: HashMap<u64, Vec<u64>>,
    centers: HashMap<u64, V3>,
    pub min_gap: f64,
}

impl Ref {
    pub fn new() -> Ref {
        let mut s = Ref {
            c: vec![],
            ux: vec![],
            uy: vec![],
            across: vec![],
            vert: [(2.0, 0.0), { let z = cis(120.0); (2.0 * z.0, 2.0 * z.1) }, { let z = cis(240.0); (2.0 * z.0, 2.0 * z.1) }],
            rot: [(0.0, 0.0); 16],
            memo: HashMap::new(),
            centers: HashMap::new(),
            min_gap: f64::INFINITY,
        };
        for r in 0..16 {
            let sc = 7f64.powf(-(r as f64) / 2.0);
            s.rot[r] = if r % 2 == 1 { (sc * AP7.cos(), sc * AP7.sin()) } else { (sc, 0.0) };
        }
        for f in 0..20 {
            let (lat, lng) = FACE_CENTER[f];
            let (n, e) = (
                [-lat.sin() * lng.cos(), -lat.sin() * lng.sin(), lat.cos()],
                [-lng.sin(), lng.cos(), 0.0],
            );
            let dir = |az: f64| -> V3 {
                let mut o = [0.0; 3];
                for i in 0..3 {
                    o[i] = n[i] * az.cos() + e[i] * az.sin();
                }
                o
            };
            s.c.push([lat.cos() * lng.cos(), lat.cos() * lng.sin(), lat.sin()]);
            s.ux.push(dir(FACE_AZ[f]));
            s.uy.push(dir(FACE_AZ[f] - std::f64::consts::FRAC_PI_2));
        }
        for f in 0..20 {
            let mut a = [(99, 99); 3];
            for k in 0..3 {
                let p = s.point(f, s.vert[k]);
                let q = s.point(f, s.vert[(k + 1) % 3]);
                for g in 0..20 {
                    if g == f {
                        continue;
                    }
                    for m in 0..3 {
                        // the neighbour sees the shared edge the other way round
                        if d2(s.point(g, s.vert[m]), p) < 1e-12 && d2(s.point(g, s.vert[(m + 2) % 3]), q) < 1e-12 {
                            a[k] = (g, m);
                        }
                    }
                }
                assert!(a[k].0 != 99, "reference model: icosahedron does not close");
            }
            s.across.push(a);
        }
        s
    }
    fn point(&self, f: usize, z: C) -> V3 {
        let mut p = [0.0; 3];
        let mut n = 0.0;
        for i in 0..3 {
            p[i] = self.c[f][i] + UNIT * (z.0 * self.ux[f][i] + z.1 * self.uy[f][i]);
            n += p[i] * p[i];
        }
        let n = n.sqrt();
        [p[0] / n, p[1] / n, p[2] / n]
    }
    /// Unit vector to the centre of a valid cell.
    pub fn center(&self, h: u64) -> V3 {
        self.place(h, None)
    }
    /// The centre, or the point one spacing away along digit direction `extra`.
    fn place(&self, h: u64, extra: Option<u64>) -> V3 {
        let (f, i, j, k, pent) = BASE[base(h)];
        let (mut f, i, j, k) = (f as usize, i as f64, j as f64, k as f64);
        // digit unit vectors: i = 0, j = 120, k = 240 degrees
        const S: f64 = 0.8660254037844386467637231707529361834714;
        const DIR: [C; 7] = [(0.0, 0.0), (-0.5, -S), (-0.5, S), (-1.0, 0.0), (1.0, 0.0), (0.5, -S), (0.5, S)];
        let mut w = match extra {
            Some(d) => cmul(DIR[d as usize], self.rot[res(h) as usize]),
            None => (0.0, 0.0),
        };
        for r in (1..=res(h)).rev() {
            w = cadd(w, cmul(DIR[digit(h, r) as usize], self.rot[r as usize]));
        }
        let home = (i - 0.5 * (j + k), S * (j - k));
        let lead = match leading(h) {
            0 => extra.unwrap_or(0),
            d => d,
        };
        if pent == 1 && lead != 0 {
            let nominal = match lead {
                3 => 0.0,
                2 => -60.0,
                6 => -120.0,
                4 => -180.0,
                5 => -240.0,
                _ => f64::NAN,
            };
            let rel = cmul((-w.0, -w.1), cis(-nominal)); // angle from the nominal direction
            let psi = nominal + rel.1.atan2(rel.0).to_degrees();
            let m = (-(psi / 60.0).round()) as i32;
            let rho = psi + 60.0 * m as f64;
            let len = (w.0 * w.0 + w.1 * w.1).sqrt();
            let mut v = 0usize; // pentagon base cells sit on vertex 0 of their home face
            for _ in 0..m.rem_euclid(5) {
                let (g, gv) = self.across[f][v];
                f = g;
                v = gv;
            }
            let vz = self.vert[v];
            let inward = (-vz.0 / 2.0, -vz.1 / 2.0);
            let d = cmul(inward, cis(rho));
            return self.point(f, cadd(vz, (d.0 * len, d.1 * len)));
        }
        self.unfold(f, cadd(home, w))
    }
    /// The point of the sphere at plane position z of face f, which may lie beyond its edges.
    fn unfold(&self, mut f: usize, mut z: C) -> V3 {
        for _ in 0..4 {
            let mut moved = false;
            for e in 0..3 {
                let n = cis(60.0 + 120.0 * e as f64);
                if z.0 * n.0 + z.1 * n.1 > 1.0 + 1e-9 {
                    let (g, m) = self.across[f][e];
                    let (va, vb) = (self.vert[e], self.vert[(e + 1) % 3]);
                    let (wa, wb) = (self.vert[m], self.vert[(m + 2) % 3]);
                    z = cadd(wa, cmul(csub(z, va), cdiv(csub(wb, wa), csub(vb, va))));
                    f = g;
                    moved = true;
                    break;
                }
            }
            if !moved {
                break;
            }
        }
        self.point(f, z)
    }
    /// A descendant of h at resolution r, as near to p as they come (or nearly so).
    pub fn toward_point(&self, mut h: u64, p: V3, r: i32) -> u64 {
        while res(h) < r {
            let q = res(h) + 1;
            let kids = (0..7).filter(|d| !(is_pent(h) && *d == 1)).map(|d| with_digit(h, q, q, d));
            h = kids.min_by(|a, b| d2(self.center(*a), p).total_cmp(&d2(self.center(*b), p))).unwrap();
        }
        h
    }
    /// A point (a, b, c) of the triangle between three others.
    pub fn between(&self, x: [V3; 3], w: [f64; 3]) -> V3 {
        let mut p = [0.0; 3];
        for i in 0..3 {
            for j in 0..3 {
                p[i] += w[j] * x[j][i];
            }
        }
        let n = p.iter().map(|c| c * c).sum::<f64>().sqrt();
        p.map(|c| c / n)
    }
    pub fn latlng(&self, h: u64) -> (f64, f64) {
        let p = self.center(h);
        (p[2].asin(), p[1].atan2(p[0]))
    }
    fn center_m(&mut self, h: u64) -> V3 {
        if let Some(p) = self.centers.get(&h) {
            return *p;
        }
        if self.centers.len() > 400_000 {
            self.centers.clear();
        }
        let p = self.center(h);
        self.centers.insert(h, p);
        p
    }
    pub fn neighbors(&mut self, h: u64) -> Vec<u64> {
        if let Some(v) = self.memo.get(&h) {
            return v.clone();
        }
        let mut cand: Vec<u64> = vec![];
        if res(h) == 0 {
            for b in 0..122 {
                cand.push(mk(0, b, &[]));
            }
        } else {
            let p = parent(h, res(h) - 1);
            let mut ps = self.neighbors(p);
            ps.push(p);
            for q in ps {
                for d in 0..7 {
                    if !(is_pent(q) && d == 1) {
                        cand.push(with_digit(q, res(h), res(h), d));
                    }
                }
            }
        }
        let me = self.center_m(h);
        let mut ds: Vec<(f64, u64)> = vec![];
        for c in cand {
            if c != h {
                let p = self.center_m(c);
                ds.push((d2(me, p), c));
            }
        }
        ds.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let n = if is_pent(h) { 5 } else { 6 };
        let gap = ds[n].0 / ds[n - 1].0;
        if gap < self.min_gap {
            self.min_gap = gap;
        }
        let v: Vec<u64> = ds[..n].iter().map(|x| x.1).collect();
        if self.memo.len() > 400_000 {
            self.memo.clear();
        }
        self.memo.insert(h, v.clone());
        v
    }
    /// Every cell within k hops with its distance, sorted by (cell).
    pub fn disk(&mut self, h: u64, k: u32) -> Vec<(u64, u32)> {
        let mut seen = HashSet::new();
        let mut out = vec![(h, 0)];
        seen.insert(h);
        let mut i = 0;
        while i < out.len() {
            let (c, d) = out[i];
            i += 1;
            if d == k {
                continue;
            }
            for n in self.neighbors(c) {
                if seen.insert(n) {
                    out.push((n, d + 1));
                }
            }
        }
        out.sort();
        out
    }
}

impl Ref {
    /// Neighbours in counter-clockwise order as seen from outside the sphere.
    pub fn ring_ccw(&mut self, h: u64) -> Vec<u64> {
        let p = self.center_m(h);
        let ax = if p[2].abs() < 0.9 { [0.0, 0.0, 1.0] } else { [1.0, 0.0, 0.0] };
        let cross = |a: V3, b: V3| [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
        let dot = |a: V3, b: V3| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
        let u = cross(ax, p);
        let v = cross(p, u);
        let mut ns: Vec<(f64, u64)> = vec![];
        for n in self.neighbors(h) {
            let q = self.center_m(n);
            let e = [q[0] - p[0], q[1] - p[1], q[2] - p[2]];
            ns.push((dot(e, v).atan2(dot(e, u)), n));
        }
        ns.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        ns.into_iter().map(|x| x.1).collect()
    }
    /// The neighbour of h along digit direction d (pentagons: 2 to 6) of h's own frame.
    pub fn toward(&mut self, h: u64, d: u64) -> u64 {
        let t = self.place(h, Some(d));
        let mut best = (9.0, 0);
        for n in self.neighbors(h) {
            let q = d2(self.center_m(n), t);
            if q < best.0 {
                best = (q, n);
            }
        }
        best.1
    }
}
impl Ref {
    /// The centre of the cell of resolution r containing a position, and the spacing of
    /// the grid there; nothing when the position is too close to a border to tell.
    pub fn containing(&self, lat: f64, lng: f64, r: i32) -> Option<(V3, f64)> {
        let p = [lat.cos() * lng.cos(), lat.cos() * lng.sin(), lat.sin()];
        let dot = |a: V3, b: V3| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
        let mut fs: Vec<(f64, usize)> = (0..20).map(|f| (-dot(self.c[f], p), f)).collect();
        fs.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let scale = 7f64.powf(-(r as f64) / 2.0);
        let mut got: Option<V3> = None;
        for (m, f) in fs.iter().copied() {
            if m - fs[0].0 > 1e-9 {
                break;
            }
            let away = (-m).clamp(-1.0, 1.0).acos();
            let t = [p[0] / -m, p[1] / -m, p[2] / -m];
            let z = (dot(t, self.ux[f]) / UNIT, dot(t, self.uy[f]) / UNIT);
            let w = cdiv(z, self.rot[r as usize]);
            // nearest point of the triangular lattice spanned by 1 and cis(60)
            const S: f64 = 0.8660254037844386467637231707529361834714;
            let (b, a) = (w.1 / S, w.0 - 0.5 * w.1 / S);
            let mut ds: Vec<(f64, C)> = vec![];
            for i in -1..=2 {
                for j in -1..=2 {
                    let (x, y) = (a.floor() + i as f64, b.floor() + j as f64);
                    let q = (x + 0.5 * y, S * y);
                    ds.push((((q.0 - w.0).powi(2) + (q.1 - w.1).powi(2)).sqrt(), q));
                }
            }
            ds.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            let err = (2e-15 + 2e-16 / away.max(1e-16)) / (scale * UNIT);
            if ds[1].0 - ds[0].0 < 1e-5 + 10.0 * err {
                return None;
            }
            let c = self.unfold(f, cmul(ds[0].1, self.rot[r as usize]));
            if let Some(o) = got {
                if d2(o, c).sqrt() > 0.01 * scale * UNIT {
                    return None;
                }
            }
            got = Some(c);
        }
        Some((got?, scale * UNIT))
    }
    pub fn face_center(&self, f: usize) -> (f64, f64) {
        let c = self.c[f];
        (c[2].asin(), c[1].atan2(c[0]))
    }
    pub fn spacing(&self, r: i32) -> f64 {
        7f64.powf(-(r as f64) / 2.0) * UNIT
    }
    pub fn gap(&self, h: u64, c: V3) -> f64 {
        d2(self.center(h), c).sqrt()
    }
    pub fn edge_cells(&mut self, e: u64) -> (u64, u64) {
        let o = edge_origin(e);
        (o, self.toward(o, (e >> 56) & 7))
    }
}
/// Digits in counter-clockwise order of heading: heading i is i*60 degrees.
pub const HEADING: [u64; 6] = [4, 6, 2, 3, 1, 5];

/// A walker on the reference grid: knows its cell and which neighbour lies along heading 0.
#[derive(Clone)]
pub struct Turtle {
    pub cell: u64,
    ahead: Vec<u64>, // neighbour per heading
}
impl Turtle {
    pub fn new(r: &mut Ref, h: u64) -> Turtle {
        let ring = r.ring_ccw(h);
        let first = r.toward(h, HEADING[0]);
        let i = ring.iter().position(|x| *x == first).unwrap();
        Turtle { cell: h, ahead: (0..6).map(|k| ring[(i + k) % 6]).collect() }
    }
    /// None when the step leads to a pentagon (headings are undefined there).
    pub fn step(&mut self, r: &mut Ref, heading: usize) -> Option<u64> {
        let to = self.ahead[heading];
        if is_pent(to) {
            return None;
        }
        let ring = r.ring_ccw(to);
        let back = ring.iter().position(|x| *x == self.cell).unwrap();
        self.cell = to;
        self.ahead = (0..6).map(|k| ring[(back + 6 + k - (heading + 3) % 6) % 6]).collect();
        Some(to)
    }
}
