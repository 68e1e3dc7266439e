//! What a simulated task can do. Everything marked `lib` is the real code.
use crate::sim::{emit, keep, lib, Kept};
use crate::internals::{
    _geoAzDistanceRads, _geoAzimuthRads, _h3Rotate60ccw, _h3Rotate60cw, _h3RotatePent60ccw, _h3RotatePent60cw, _posAngleRads, leading,
};
use h3_rs::{algos::*, base_cells::*, directed_edge::*, error::Error, h3_index::*, iterators::*, lat_lng::*};

pub const MAXDISK: u8 = 0;
pub const DISK: u8 = 1;
pub const FASTDISK: u8 = 2;
pub const RING: u8 = 3;
pub const NBR: u8 = 4;
pub const DIRFOR: u8 = 5;
pub const VALID: u8 = 6;
pub const PENT: u8 = 7;
pub const RES: u8 = 8;
pub const NCHILD: u8 = 9;
pub const CHILDREN: u8 = 10;
pub const CHILDAT: u8 = 11;
pub const ENCODE: u8 = 12;
pub const DECODE: u8 = 13;
pub const EDGE: u8 = 14;
pub const EORIGIN: u8 = 15;
pub const EDEST: u8 = 16;
pub const EVALID: u8 = 17;
pub const ECELLS: u8 = 18;
pub const EDGES: u8 = 19;
pub const RES0: u8 = 20;
pub const RES0N: u8 = 21;
pub const ITER: u8 = 22;
pub const MKINDEX: u8 = 23;
pub const ROTL: u8 = 24;
pub const ROTR: u8 = 25;
pub const ROTPL: u8 = 26;
pub const ROTPR: u8 = 27;
pub const LEADING: u8 = 28;
pub const AZDIST: u8 = 29;
pub const AZIMUTH: u8 = 30;
pub const SKIP: u8 = 31;
/// The small coordinate helpers, by selector.
pub const ANGLE: u8 = 32;
pub const STREAM: u8 = 33;
pub const JOB: u8 = 34;
pub const WALK: u8 = 35;
pub const STORE: u8 = 36;
pub const READ: u8 = 37;
pub const BARRIER: u8 = 38;
pub const TRAVEL: u8 = 39;
pub const ROT: u8 = 40;
pub const SWEEP: u8 = 41;
pub const TRACK: u8 = 42;
/// The same call, over and over.
pub const BURST: u8 = 43;
pub const EDIT: u8 = 44;
pub const SAIL: u8 = 45;
pub const CROWD: u8 = 46;
pub const LONG: u8 = 47;
pub const CLERK: u8 = 48;
/// The thread ends; the rest of its task runs from its last thread-local destructor.
pub const EXIT: u8 = 49;
/// The same few calls again and again: each must go on giving its own answer.
pub const AGAIN: u8 = 50;
/// Everything an index says about itself, and one edit of it; for AGAIN only.
pub const LOOK: u8 = 51;
pub const FIELD: u8 = 52;
pub const NAMES: [&str; 53] = [
    "maxGridDiskSize", "gridDiskDistances", "gridDiskDistancesUnsafe", "gridRingUnsafe", "h3NeighborRotations",
    "directionForNeighbor", "isValidCell", "isPentagon", "getResolution", "cellToChildrenSize", "cellToChildren",
    "childPosToCell", "latLngToCell", "cellToLatLng", "cellsToDirectedEdge", "getDirectedEdgeOrigin",
    "getDirectedEdgeDestination", "isValidDirectedEdge", "directedEdgeToCells", "originToDirectedEdges",
    "getRes0Cells", "res0CellCount", "iterateChildren", "setH3Index", "rotate60ccw", "rotate60cw",
    "rotatePent60ccw", "rotatePent60cw", "leadingDigit", "pointAtAzimuth", "azimuth", "skipChildren",
    "angle", "stream", "job", "walk", "store", "read", "barrier", "travel", "rot", "sweep", "track", "burst", "edit", "sail", "crowd", "long", "clerk", "exit", "again", "fields", "edited",
];
/// Ops whose answer has a fixed size and which therefore need no memory.
pub fn fixed_size(f: u8) -> bool {
    f < STREAM && !matches!(f, DISK | FASTDISK | RING | CHILDREN | RES0)
}

pub const OK: u64 = 0;
pub const ERR: u64 = 1;
pub const MEMORY: u64 = 13;

pub fn ecode(e: &Error) -> u64 {
    match e {
        Error::Failed => 1,
        Error::Domain => 2,
        Error::LatLngDomain => 3,
        Error::ResDomain => 4,
        Error::CellInvalid => 5,
        Error::DirectedEdgeInvalid => 6,
        Error::UndirectedEdgeInvalid => 7,
        Error::VertexInvalid => 8,
        Error::Pentagon => 9,
        Error::DuplicateInput => 10,
        Error::NotNeighbors => 11,
        Error::ResMismatch => 12,
        Error::Memory => 13,
        Error::MemoryBounds => 14,
        Error::OptionInvalid => 15,
        #[allow(unreachable_patterns)]
        _ => 99,
    }
}
pub fn ename(c: u64) -> &'static str {
    [
        "?", "Failed", "Domain", "LatLngDomain", "ResDomain", "CellInvalid", "DirectedEdgeInvalid",
        "UndirectedEdgeInvalid", "VertexInvalid", "Pentagon", "DuplicateInput", "NotNeighbors", "ResMismatch",
        "Memory", "MemoryBounds", "OptionInvalid",
    ]
    .get(c as usize)
    .unwrap_or(&"?")
}
fn ok1(w: u64) {
    emit(OK);
    emit(w);
}
fn bad(e: &Error) {
    emit(ERR);
    emit(ecode(e));
}
fn idx(r: Result<u64, Error>) {
    match r {
        Ok(h) => ok1(h),
        Err(e) => bad(&e),
    }
}
/// Follows a fast disk that is not in the order of increasing distance.
pub const DISORDER: u64 = 0xd150_7de7;
pub fn pairs_words(v: &[(u64, u32)]) -> Vec<u64> {
    let mut s: Vec<(u64, u32)> = v.to_vec();
    s.sort_unstable();
    let mut o = Vec::with_capacity(2 * s.len() + 1);
    o.push(OK);
    for (h, d) in s {
        o.push(h);
        o.push(d as u64);
    }
    o
}
pub fn cells_words(v: &[u64], sorted: bool) -> Vec<u64> {
    let mut s = v.to_vec();
    if sorted {
        s.sort_unstable();
    }
    s.insert(0, OK);
    s
}
fn pairs(r: Result<Vec<(u64, u32)>, Error>) {
    match r {
        Ok(v) => {
            crate::sim::emit_all(&pairs_words(&v));
            keep(Kept::Pairs(v));
        }
        Err(e) => bad(&e),
    }
}
fn cells(r: Result<Vec<u64>, Error>, sorted: bool) {
    match r {
        Ok(v) => {
            crate::sim::emit_all(&cells_words(&v, sorted));
            keep(Kept::Cells(v));
        }
        Err(e) => bad(&e),
    }
}
fn ll(la: u64, ln: u64) -> LatLng {
    LatLng { lat: f64::from_bits(la), lng: f64::from_bits(ln) }
}
pub fn call(f: u8, a: &[u64]) {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    match f {
        MAXDISK => {
            let k = g(0) as u32;
            ok1(lib(|| maxGridDiskSize(k)) as u64)
        }
        DISK => {
            let (h, k) = (g(0), g(1) as u32);
            pairs(lib(|| gridDiskDistances(h, k)))
        }
        FASTDISK => {
            let (h, k) = (g(0), g(1) as u32);
            let r = lib(|| gridDiskDistancesUnsafe(h, k));
            let straight = r.as_ref().map_or(true, |v| v.windows(2).all(|x| x[0].1 <= x[1].1));
            pairs(r);
            if !straight {
                emit(DISORDER);
            }
        }
        RING => {
            let (h, k) = (g(0), g(1) as u32);
            cells(lib(|| gridRingUnsafe(h, k)), true)
        }
        NBR => {
            let d = H3_GET_INDEX_DIGIT(g(1) & 7, 15);
            let mut rot = g(2) as i32;
            match lib(|| h3NeighborRotations(g(0), d, &mut rot)) {
                Ok(h) => {
                    ok1(h);
                    emit(rot as i64 as u64);
                }
                Err(e) => bad(&e),
            }
        }
        DIRFOR => ok1(lib(|| directionForNeighbor(g(0), g(1))) as u64),
        VALID => ok1(lib(|| isValidCell(g(0))) as u64),
        PENT => ok1(lib(|| isPentagon(g(0))) as u64),
        RES => ok1(lib(|| getResolution(g(0))) as u64),
        NCHILD => match lib(|| cellToChildrenSize(g(0), g(1) as i32)) {
            Ok(n) => ok1(n as u64),
            Err(e) => bad(&e),
        },
        CHILDREN => cells(lib(|| cellToChildren(g(0), g(1) as i32)), false),
        CHILDAT => idx(lib(|| childPosToCell(g(0) as i64, g(1), g(2) as i32))),
        ENCODE => {
            let p = ll(g(0), g(1));
            idx(lib(|| latLngToCell(&p, g(2) as i32)))
        }
        DECODE => match lib(|| cellToLatLng(g(0))) {
            Ok(p) => {
                ok1(p.lat.to_bits());
                emit(p.lng.to_bits());
            }
            Err(e) => bad(&e),
        },
        EDGE => idx(lib(|| cellsToDirectedEdge(g(0), g(1)))),
        EORIGIN => idx(lib(|| getDirectedEdgeOrigin(g(0)))),
        EDEST => idx(lib(|| getDirectedEdgeDestination(g(0)))),
        EVALID => ok1(lib(|| isValidDirectedEdge(g(0))) as u64),
        ECELLS => match lib(|| directedEdgeToCells(g(0))) {
            Ok((a, b)) => {
                ok1(a);
                emit(b);
            }
            Err(e) => bad(&e),
        },
        EDGES => {
            let v = lib(|| originToDirectedEdges(g(0)));
            emit(OK);
            crate::sim::emit_all(&v);
        }
        RES0 => cells(lib(|| getRes0Cells()), false),
        RES0N => ok1(lib(|| res0CellCount()) as u64),
        ITER | SKIP => {
            let mut it = lib(|| IterCellsChildren::from_parent(g(0), g(1) as i32));
            emit(OK);
            let mut n = g(2);
            if f == SKIP {
                match lib(|| it.nth(g(2) as usize)) {
                    Some(h) => emit(h),
                    None => {
                        emit(0);
                        return;
                    }
                }
                n = g(3);
            }
            for _ in 0..n {
                crate::sim::point();
                match lib(|| it.next()) {
                    Some(h) => emit(h),
                    None => {
                        emit(0);
                        break;
                    }
                }
            }
        }
        MKINDEX => {
            let mut h = 0;
            lib(|| setH3Index(&mut h, g(0) as i32, g(1) as i32, g(2) as i32));
            ok1(h)
        }
        ROTL => ok1(lib(|| _h3Rotate60ccw(g(0)))),
        ROTR => ok1(lib(|| _h3Rotate60cw(g(0)))),
        ROTPL => ok1(lib(|| _h3RotatePent60ccw(g(0)))),
        ROTPR => ok1(lib(|| _h3RotatePent60cw(g(0)))),
        LEADING => ok1(lib(|| leading(g(0)))),
        AZDIST => {
            let p = ll(g(0), g(1));
            let q = lib(|| _geoAzDistanceRads(&p, f64::from_bits(g(2)), f64::from_bits(g(3))));
            ok1(q.lat.to_bits());
            emit(q.lng.to_bits());
        }
        AZIMUTH => {
            let (p, q) = (ll(g(0), g(1)), ll(g(2), g(3)));
            ok1(lib(|| _geoAzimuthRads(&p, &q)).to_bits())
        }
        ANGLE => {
            let (x, y) = (f64::from_bits(g(1)), f64::from_bits(g(2)));
            match g(0) {
                0 => ok1(lib(|| constrainLng(x)).to_bits()),
                1 => ok1(lib(|| constrainLat(x)).to_bits()),
                2 => ok1(lib(|| _posAngleRads(x)).to_bits()),
                3 => ok1(lib(|| geoAlmostEqual(&LatLng { lat: x, lng: y }, &LatLng { lat: y, lng: x })) as u64),
                _ => {
                    let mut p = LatLng { lat: 0.0, lng: 0.0 };
                    lib(|| setGeoDegs(&mut p, x, y));
                    ok1(p.lat.to_bits());
                    emit(p.lng.to_bits());
                }
            }
        }
        LOOK => {
            ok1(g(0));
            crate::apps::look(g(0), |_, x| emit(x));
        }
        FIELD => ok1(crate::apps::apply(g(1), g(2), g(3), g(0))),
        _ => unreachable!(),
    }
}

/// The call in words, for messages.
pub fn show(f: u8, a: &[u64]) -> String {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    let n = NAMES[f as usize];
    match f {
        MAXDISK => format!("{n}({})", g(0) as u32),
        DISK | FASTDISK | RING | NCHILD | CHILDREN => format!("{n}({:x}, {})", g(0), g(1) as i32),
        NBR => format!("{n}({:x}, {}, rot {})", g(0), g(1), g(2) as i32),
        CHILDAT => format!("{n}({}, {:x}, {})", g(0) as i64, g(1), g(2) as i32),
        ENCODE => format!("{n}({:?}, {:?}, {})", f64::from_bits(g(0)), f64::from_bits(g(1)), g(2) as i32),
        ITER => format!("{n}({:x}, {}) x{}", g(0), g(1) as i32, g(2)),
        SKIP => format!("{n}({:x}, {}) +{} x{}", g(0), g(1) as i32, g(2), g(3)),
        ANGLE => format!(
            "{}({:?}, {:?})",
            ["constrainLng", "constrainLat", "_posAngleRads", "geoAlmostEqual", "setGeoDegs"][(g(0) as usize).min(4)],
            f64::from_bits(g(1)),
            f64::from_bits(g(2))
        ),
        AZDIST | AZIMUTH => format!("{n}({:?})", a.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>()),
        _ => format!("{n}({})", a.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(", ")),
    }
}
pub fn show_words(w: &[u64]) -> String {
    if w.is_empty() {
        return "nothing".into();
    }
    if w[0] == ERR {
        return format!("Err({})", ename(w.get(1).copied().unwrap_or(0)));
    }
    let mut s = String::from("Ok[");
    for (i, x) in w[1..].iter().take(12).enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s += &format!("{x:x}");
    }
    if w.len() > 13 {
        s += &format!(" ... {} words", w.len() - 1);
    }
    s + "]"
}
