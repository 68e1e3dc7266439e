//! Stateful workloads around the library: shared child enumerations, crash-and-resume
//! enumeration jobs, walkers, and a small store of indexes. The workload code and the
//! simulated disk are harness; every `lib(..)` is the real code.
use crate::ops::*;
use crate::plan::{Op, Plan};
use crate::sim::{emit, emit_all, lib, outside, point, seq, sim};
use h3_rs::{algos::*, base_cells::{getRes0Cells, res0CellCount}, directed_edge::*, h3_index::*, iterators::*, lat_lng::*};
use crate::internals::{
    _geoAzDistanceRads, _geoAzimuthRads, _geoToVec3d, _h3Rotate60ccw, _h3Rotate60cw, _h3RotatePent60ccw, _h3RotatePent60cw,
    _hasChildAtRes, _pointSquareDist, _posAngleRads, _setGeoRads, _v2dMag, _zeroIndexDigits, by_face, leading, no_children, Vec2d,
    Vec3d,
};

pub struct Apps {
    slots: Vec<Slot>,
    jobs: Vec<Job>,
    walkers: Vec<Walker>,
    store: Vec<[u8; 8]>,
    travellers: Vec<Traveller>,
    sweeps: Vec<Sweep>,
    trackers: Vec<Tracker>,
    edits: Vec<Edit>,
    sailors: Vec<Sailor>,
}
pub const I_EDIT: u64 = 8;
pub const I_SAIL: u64 = 9;
pub const I_TRAVEL: u64 = 5;
pub const I_SWEEP: u64 = 6;
pub const I_TRACK: u64 = 7;
pub const I_SLOT: u64 = 1;
pub const I_JOB: u64 = 2;
pub const I_WALK: u64 = 3;
pub const I_STORE: u64 = 4;

struct Slot {
    parent: u64,
    res: i32,
    it: Option<IterCellsChildren>,
    /// 0 not created, 1 here, 2 in use, 3 gone
    state: u8,
}
/// What the simulated disk holds for a job; the worker's own memory dies with it.
struct Job {
    parent: u64,
    res: i32,
    hi: i64,
    durable: i64,
}
struct Walker {
    moves: Vec<u64>,
    durable: (u64, i32, usize),
}
struct Traveller {
    start: u64,
    log: Vec<[u8; 8]>,
    cmds: Vec<u64>,
    /// where the network is; what a crashed traveller had taken is lost
    next: usize,
}
struct Shard {
    cell: u64,
    /// 0 free, 1 leased, 2 done
    state: u8,
    until: u64,
    lease: u64,
}
struct Sweep {
    res: i32,
    lo: usize,
    hi: usize,
    split: i64,
    shards: Vec<Shard>,
    made: bool,
    clock: u64,
    leases: u64,
}
struct Tracker {
    res: i32,
    reports: Vec<(u64, u64, u64)>,
    next: usize,
    durable: u64,
}
/// A stored index edited in place. `old` is its undo log; all of this is durable.
struct Edit {
    word: u64,
    undo: bool,
    edits: Vec<(u64, u64, u64)>,
    applied: usize,
    committed: usize,
    old: Vec<u64>,
}
struct Sailor {
    at: (u64, u64),
    legs: Vec<(u64, u64, u64)>,
    next: usize,
}
impl Apps {
    pub fn new(p: &Plan) -> Apps {
        let mut a = Apps { slots: vec![], jobs: vec![], walkers: vec![], store: vec![], travellers: vec![], sweeps: vec![], trackers: vec![], edits: vec![], sailors: vec![] };
        for i in &p.init {
            match i[0] {
                I_SLOT => a.slots.push(Slot { parent: i[1], res: i[2] as i32, it: None, state: 0 }),
                I_JOB => a.jobs.push(Job { parent: i[1], res: i[2] as i32, durable: i[3] as i64, hi: i[4] as i64 }),
                I_WALK => a.walkers.push(Walker { moves: i[2..].to_vec(), durable: (i[1], 0, 0) }),
                I_STORE => a.store.push(i[1].to_le_bytes()),
                I_TRAVEL => {
                    let n = i[2] as usize;
                    a.travellers.push(Traveller {
                        start: i[1],
                        log: i[3..3 + n].iter().map(|x| x.to_le_bytes()).collect(),
                        cmds: i[3 + n..].to_vec(),
                        next: 0,
                    })
                }
                I_SWEEP => a.sweeps.push(Sweep {
                    res: i[1] as i32,
                    lo: i[2] as usize,
                    hi: i[3] as usize,
                    split: i[4] as i64,
                    shards: vec![],
                    made: false,
                    clock: 0,
                    leases: 0,
                }),
                I_TRACK => a.trackers.push(Tracker {
                    res: i[1] as i32,
                    reports: i[2..].chunks(3).map(|c| (c[0], c[1], c[2])).collect(),
                    next: 0,
                    durable: 0,
                }),
                I_EDIT => a.edits.push(Edit {
                    word: i[1],
                    undo: i[2] != 0,
                    edits: i[3..].chunks(3).map(|c| (c[0], c[1], c[2])).collect(),
                    applied: 0,
                    committed: 0,
                    old: vec![],
                }),
                I_SAIL => a.sailors.push(Sailor {
                    at: (i[1], i[2]),
                    legs: i[3..].chunks(3).map(|c| (c[0], c[1], c[2])).collect(),
                    next: 0,
                }),
                _ => {}
            }
        }
        a
    }
}
fn apps() -> &'static mut Apps {
    &mut sim().apps
}

pub fn run(op: &Op) {
    match op.f {
        STREAM => stream(&op.a),
        JOB => job(&op.a),
        WALK => walk(&op.a),
        STORE => store(&op.a),
        READ => read(&op.a),
        BARRIER => crate::sim::barrier(op.a[0]),
        TRAVEL => travel(&op.a),
        ROT => rot(&op.a),
        SWEEP => sweep(&op.a),
        TRACK => track(&op.a),
        BURST => burst(&op.a),
        CROWD => crowd(&op.a),
        LONG => long(&op.a),
        CLERK => clerk(&op.a),
        EXIT => {}
        AGAIN => again(&op.a),
        EDIT => edit(&op.a),
        SAIL => sail(&op.a),
        _ => unreachable!(),
    }
}

// ---- child enumerations shared between tasks (C04)
pub const A_NEXT: u64 = 0;
pub const A_NTH: u64 = 1;
pub const A_TAKE: u64 = 2;
pub const A_PANIC: u64 = 3;
pub const A_COUNT: u64 = 4;
pub const A_LAST: u64 = 5;
pub const A_HINT: u64 = 6;
pub const A_REST: u64 = 7;
pub const A_DROP: u64 = 8;
pub const A_STEPBY: u64 = 9;
pub const A_FIND: u64 = 10;
pub const A_SKIP: u64 = 11;
pub const A_FOLD: u64 = 12;
pub const A_FOR: u64 = 13;
pub const A_MAX: u64 = 14;
pub const A_PEEK: u64 = 15;
/// By value, so that an overridden `fold` and its kin run, not the by-reference ones.
pub const A_OFOLD: u64 = 16;
pub const A_OEACH: u64 = 17;
pub const A_OREST: u64 = 18;
pub const A_TRY: u64 = 19;
pub const A_CMP: u64 = 20;
fn opt(x: Option<u64>) {
    match x {
        Some(h) => {
            emit(1);
            emit(h)
        }
        None => emit(0),
    }
}
struct Stop;
fn stream(a: &[u64]) {
    let (i, action, n) = (a[0] as usize, a[1], a[2] as usize);
    let s = &mut apps().slots[i];
    emit(seq());
    match s.state {
        2 => return emit(0),
        3 => return emit(2),
        _ => {}
    }
    let fresh = s.state == 0;
    s.state = 2;
    emit(1);
    let (p, r) = (s.parent, s.res);
    let mut it = if fresh { lib(|| IterCellsChildren::from_parent(p, r)) } else { s.it.take().unwrap() };
    let mut gone = false;
    match action {
        A_NEXT => {
            for _ in 0..n {
                point();
                opt(lib(|| it.next()));
            }
        }
        A_NTH => opt(lib(|| it.nth(n))),
        A_TAKE => {
            let v: Vec<u64> = lib(|| it.by_ref().take(n).collect());
            emit(v.len() as u64);
            emit_all(&v);
        }
        A_PANIC => {
            let mut got: Vec<u64> = vec![];
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                lib(|| {
                    it.by_ref().for_each(|h| {
                        outside(|| {
                            got.push(h);
                            if got.len() >= n {
                                std::panic::resume_unwind(Box::new(Stop));
                            }
                        })
                    })
                })
            }));
            crate::sim::not_in_lib();
            if let Err(e) = res {
                if !e.is::<Stop>() {
                    std::panic::resume_unwind(e);
                }
            }
            emit(got.len() as u64);
            emit_all(&got);
        }
        A_COUNT => {
            gone = true;
            emit(lib(|| it.count()) as u64);
            it = lib(|| no_children());
        }
        A_LAST => {
            gone = true;
            opt(lib(|| it.last()));
            it = lib(|| no_children());
        }
        A_MAX => {
            gone = true;
            opt(lib(|| it.max()));
            it = lib(|| no_children());
        }
        A_OFOLD => {
            gone = true;
            emit(lib(|| it.fold(0u64, |x, h| x.rotate_left(9) ^ h)));
            it = lib(|| no_children());
        }
        A_OEACH => {
            // the consumer gives up by panicking; the enumeration goes down with it
            gone = true;
            let mut got: Vec<u64> = vec![];
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                lib(|| {
                    it.for_each(|h| {
                        outside(|| {
                            got.push(h);
                            if got.len() >= n {
                                std::panic::resume_unwind(Box::new(Stop));
                            }
                        })
                    })
                })
            }));
            crate::sim::not_in_lib();
            if let Err(e) = res {
                if !e.is::<Stop>() {
                    std::panic::resume_unwind(e);
                }
            }
            emit(got.len() as u64);
            emit_all(&got);
            it = lib(|| no_children());
        }
        A_OREST => {
            gone = true;
            let v: Vec<u64> = lib(|| it.collect());
            emit(v.len() as u64);
            emit_all(&v);
            it = lib(|| no_children());
        }
        A_TRY => {
            // stops after n by an early exit
            let mut v: Vec<u64> = vec![];
            if n > 0 {
                let _ = lib(|| {
                    it.try_for_each(|h| {
                        outside(|| v.push(h));
                        if v.len() == n {
                            Err(())
                        } else {
                            Ok(())
                        }
                    })
                });
            }
            emit(v.len() as u64);
            emit_all(&v);
        }
        A_CMP => {
            // ascending, smallest first: asked of the enumeration itself
            gone = true;
            let lim = n.min(3000);
            emit(lib(|| it.by_ref().take(lim).is_sorted()) as u64);
            opt(lib(|| it.by_ref().take(lim).min()));
            opt(lib(|| it.by_ref().take(lim).reduce(|a, b| a.max(b))));
            opt(lib(|| it.position(|x| x == a[3])).map(|x| x as u64));
            it = lib(|| no_children());
        }
        A_HINT => {
            let (lo, hi) = lib(|| it.size_hint());
            emit(lo as u64);
            opt(hi.map(|x| x as u64));
        }
        A_REST => {
            let v: Vec<u64> = lib(|| it.by_ref().collect());
            emit(v.len() as u64);
            emit_all(&v);
        }
        A_DROP => {
            gone = true;
        }
        A_STEPBY => {
            let v: Vec<u64> = lib(|| it.by_ref().step_by(n.max(1)).take(4).collect());
            emit(v.len() as u64);
            emit_all(&v);
        }
        A_FIND => {
            let t = a[3];
            opt(lib(|| it.by_ref().find(|x| *x == t)));
        }
        A_SKIP => opt(lib(|| it.by_ref().skip(n).next())),
        A_FOLD => emit(lib(|| it.by_ref().take(n).fold(0u64, |x, h| x.rotate_left(9) ^ h))),
        A_FOR => {
            let mut c = 0;
            loop {
                if c == n {
                    break;
                }
                let Some(h) = lib(|| it.next()) else { break };
                c += 1;
                emit(h);
                if c % 3 == 0 {
                    point();
                }
            }
        }
        A_PEEK => {
            let v: Vec<u64> = lib(|| {
                let mut p = it.by_ref().peekable();
                let mut v = vec![];
                while v.len() < n {
                    // at most n are peeked, so nothing is lost with the adaptor
                    if p.peek().is_none() {
                        break;
                    }
                    v.push(p.next().unwrap_or(0));
                }
                v
            });
            emit(v.len() as u64);
            emit_all(&v);
        }
        _ => unreachable!(),
    }
    let s = &mut apps().slots[i];
    if gone {
        drop(it);
        s.state = 3;
    } else {
        s.it = Some(it);
        s.state = 1;
    }
}

// ---- a job that processes a window of a cell's children in order (C09)
pub const M_POS: u64 = 0;
pub const M_ITER: u64 = 1;
pub const M_LIST: u64 = 2;
pub const M_CHUNK: u64 = 3;
pub const T_DID: u64 = 1;
pub const T_COUNT: u64 = 2;
pub const T_END: u64 = 3;
pub const T_ERR: u64 = 4;
pub const T_PROBE: u64 = 5;
fn job(a: &[u64]) {
    let (j, mode, quota, batch) = (a[0] as usize, a[1], a[2] as i64, a[3].max(1) as i64);
    // what survived the last crash
    let (parent, res, hi, start) = {
        let j = &apps().jobs[j];
        (j.parent, j.res, j.hi, j.durable)
    };
    point();
    match lib(|| cellToChildrenSize(parent, res)) {
        Ok(n) => emit_all(&[T_COUNT, n as u64, 0]),
        Err(e) => return emit_all(&[T_ERR, ecode(&e), 0]),
    }
    // a damaged copy of the position must be refused, or give its own child
    if let Some(bad) = a.get(4) {
        match lib(|| childPosToCell(*bad as i64, parent, res)) {
            Ok(h) => emit_all(&[T_PROBE, *bad, h]),
            Err(_) => emit_all(&[T_PROBE, *bad, 0]),
        }
    }
    let mut pos = start;
    let stop = hi.min(start.saturating_add(quota));
    let did = |pos: i64, h: u64| {
        emit_all(&[T_DID, pos as u64, h]);
        point();
        if (pos + 1 - start) % batch == 0 || pos + 1 == hi {
            // write and sync: from here on a crash resumes behind this child
            apps().jobs[j].durable = pos + 1;
            point();
        }
    };
    match mode {
        M_POS => {
            while pos < stop {
                match lib(|| childPosToCell(pos, parent, res)) {
                    Ok(h) => did(pos, h),
                    Err(e) => return emit_all(&[T_ERR, ecode(&e), pos as u64]),
                }
                pos += 1;
            }
        }
        M_ITER => {
            let mut it = lib(|| IterCellsChildren::from_parent(parent, res));
            if pos > 0 && lib(|| it.nth(pos as usize - 1)).is_none() {
                return emit_all(&[T_END, pos as u64, 1]);
            }
            while pos < stop {
                match lib(|| it.next()) {
                    Some(h) => did(pos, h),
                    None => return emit_all(&[T_END, pos as u64, 1]),
                }
                pos += 1;
            }
            if pos == hi {
                emit_all(&[T_END, pos as u64, lib(|| it.next()).is_none() as u64]);
            }
        }
        M_LIST => match lib(|| cellToChildren(parent, res)) {
            Ok(v) => {
                emit_all(&[T_COUNT, v.len() as u64, 0]);
                while pos < stop {
                    match v.get(pos as usize) {
                        Some(h) => did(pos, *h),
                        None => return emit_all(&[T_END, pos as u64, 1]),
                    }
                    pos += 1;
                }
            }
            Err(e) => return emit_all(&[T_ERR, ecode(&e), pos as u64]),
        },
        M_CHUNK => {
            // two levels: find the intermediate cell the position falls into, then
            // enumerate inside it
            let mid = (getRes(parent) + res + 1) / 2;
            let nmid = match lib(|| cellToChildrenSize(parent, mid)) {
                Ok(n) => n,
                Err(e) => return emit_all(&[T_ERR, ecode(&e), pos as u64]),
            };
            let mut base = 0i64;
            let mut m = 0i64;
            // binary jump: every chunk but the first has the same size
            let sizes = |m: i64| -> Option<(u64, i64)> {
                let c = lib(|| childPosToCell(m, parent, mid)).ok()?;
                let n = lib(|| cellToChildrenSize(c, res)).ok()?;
                Some((c, n))
            };
            if let (Some((_, n0)), true) = (sizes(0), nmid > 1) {
                if pos >= n0 {
                    // all other chunks are hexagons' worth, except below a pentagon,
                    // where the centre chunk is smaller; walk from the front when few
                    let Some((_, n1)) = sizes(1) else { return emit_all(&[T_ERR, 99, pos as u64]) };
                    m = 1 + (pos - n0) / n1;
                    base = n0 + (m - 1) * n1;
                }
            }
            'outer: while pos < stop && m < nmid {
                let Some((c, n)) = sizes(m) else { return emit_all(&[T_ERR, 98, pos as u64]) };
                if pos < base + n {
                    // resume inside the chunk by position, then go on by enumeration
                    let mut it = lib(|| IterCellsChildren::from_parent(c, res));
                    let skip = (pos - base) as usize;
                    let mut by_pos = skip > 4000;
                    if !by_pos && skip > 0 {
                        lib(|| it.nth(skip - 1));
                    }
                    while pos < base + n {
                        if pos >= stop {
                            break 'outer;
                        }
                        let h = if by_pos {
                            lib(|| childPosToCell(pos - base, c, res)).ok()
                        } else {
                            lib(|| it.next())
                        };
                        by_pos = by_pos && h.is_some();
                        match h {
                            Some(h) => did(pos, h),
                            None => return emit_all(&[T_END, pos as u64, 1]),
                        }
                        pos += 1;
                    }
                }
                base += n;
                m += 1;
            }
        }
        _ => unreachable!(),
    }
}
fn getRes(h: u64) -> i32 {
    crate::refmodel::res(h)
}

// ---- walkers (C10)
fn walk(a: &[u64]) {
    let (w, quota, every) = (a[0] as usize, a[1] as usize, a[2].max(1) as usize);
    let (mut cell, mut rot, from) = apps().walkers[w].durable;
    let n = apps().walkers[w].moves.len();
    let mut i = from;
    while i < n && i < from + quota {
        let d = H3_GET_INDEX_DIGIT(apps().walkers[w].moves[i], 15);
        point();
        match lib(|| h3NeighborRotations(cell, d, &mut rot)) {
            Ok(h) => cell = h,
            Err(e) => return emit_all(&[i as u64, 0, ecode(&e)]),
        }
        emit_all(&[i as u64, 1, cell]);
        i += 1;
        point();
        if (i - from) % every == 0 || i == n {
            apps().walkers[w].durable = (cell, rot, i);
            point();
        }
    }
}

// ---- a store of indexes whose writes can tear and whose bits can rot (C07, C08)
fn store(a: &[u64]) {
    let (i, v, mode) = (a[0] as usize, a[1], a[2]);
    let b = v.to_le_bytes();
    match mode {
        0 => apps().store[i] = b,
        1 => {
            // two halves
            apps().store[i][..4].copy_from_slice(&b[..4]);
            point();
            apps().store[i][4..].copy_from_slice(&b[4..]);
        }
        2 => {
            for k in 0..8 {
                apps().store[i][k] = b[k];
                point();
            }
        }
        // torn for good: only the first bytes arrive
        3 => {
            let k = (a[3] % 8) as usize;
            apps().store[i][..k].copy_from_slice(&b[..k]);
        }
        4 => {
            let k = (a[3] % 8) as usize;
            apps().store[i][k..].copy_from_slice(&b[k..]);
        }
        // lost
        _ => {}
    }
}
fn read(a: &[u64]) {
    let (i, flip, mode, f) = (a[0] as usize, a[1], a[2], a[3] as u8);
    let mut b = [0u8; 8];
    if mode == 0 {
        b = apps().store[i];
    } else {
        for k in 0..8 {
            b[k] = apps().store[i][k];
            if mode == 2 || k == 3 {
                point();
            }
        }
    }
    let v = u64::from_le_bytes(b) ^ flip;
    emit(v);
    let mut args = a[4..].to_vec();
    args.insert(if f == CHILDAT { 1.min(args.len()) } else { 0 }, v);
    call(f, &args);
}

// ---- a traveller whose log holds one directed edge per move (C11)
pub const T_SLOT: u64 = 1;
pub const T_CELLS: u64 = 2;
pub const T_MOVE: u64 = 3;
pub const T_REFUSE: u64 = 4;
pub const T_LAND: u64 = 5;
pub const T_EDGES: u64 = 6;
pub const T_BAD: u64 = 7;
/// Commands below this name one of the cells around, not a cell.
pub const AROUND: u64 = 32;
fn travel(a: &[u64]) {
    let (t, quota, how, tear) = (a[0] as usize, a[1], a[2], a[3]);
    let tr = &mut apps().travellers[t];
    let mut cur = tr.start;
    let mut at = 0;
    // recover from the log
    while at < tr.log.len() {
        point();
        let word = u64::from_le_bytes(tr.log[at]);
        let ok = lib(|| isValidDirectedEdge(word));
        emit_all(&[T_SLOT, word, ok as u64, 0]);
        if !ok {
            break;
        }
        let cells = if how & 1 == 0 {
            lib(|| directedEdgeToCells(word))
        } else {
            match (lib(|| getDirectedEdgeDestination(word)), lib(|| getDirectedEdgeOrigin(word))) {
                (Ok(d), Ok(o)) => Ok((o, d)),
                (Err(e), _) | (_, Err(e)) => Err(e),
            }
        };
        match cells {
            Ok((o, d)) => {
                emit_all(&[T_CELLS, word, o, d]);
                if o != cur {
                    break;
                }
                cur = d;
            }
            Err(e) => {
                emit_all(&[T_BAD, word, ecode(&e), 0]);
                break;
            }
        }
        at += 1;
    }
    if how & 2 != 0 {
        let es = lib(|| originToDirectedEdges(cur));
        for e in es {
            emit_all(&[T_EDGES, cur, e, lib(|| isValidDirectedEdge(e)) as u64]);
        }
    }
    for _ in 0..quota {
        if at >= tr.log.len() || tr.next >= tr.cmds.len() {
            break;
        }
        let cmd = tr.cmds[tr.next];
        tr.next += 1;
        point();
        let target = if cmd < AROUND {
            match lib(|| gridDiskDistances(cur, if cmd >= 16 { 2 } else { 1 })) {
                Ok(mut v) => {
                    v.sort_unstable();
                    v[cmd as usize % v.len()].0
                }
                Err(_) => continue,
            }
        } else {
            cmd
        };
        let e = match lib(|| cellsToDirectedEdge(cur, target)) {
            Ok(e) => e,
            Err(e) => {
                emit_all(&[T_REFUSE, cur, target, ecode(&e)]);
                continue;
            }
        };
        emit_all(&[T_MOVE, cur, target, e]);
        let b = e.to_le_bytes();
        match tear {
            0 => tr.log[at] = b,
            1 => {
                for k in 0..8 {
                    tr.log[at][k] = b[k];
                    point();
                }
            }
            _ => {
                for k in (0..8).rev() {
                    tr.log[at][k] = b[k];
                    point();
                }
            }
        }
        at += 1;
        match lib(|| getDirectedEdgeDestination(e)) {
            Ok(d) => {
                emit_all(&[T_LAND, cur, e, d]);
                cur = d;
            }
            Err(x) => return emit_all(&[T_BAD, e, ecode(&x), 0]),
        }
    }
}
fn rot(a: &[u64]) {
    let tr = &mut apps().travellers[a[0] as usize];
    point();
    let n = tr.log.len();
    let s = &mut tr.log[a[1] as usize % n];
    *s = (u64::from_le_bytes(*s) ^ a[2]).to_le_bytes();
}

// ---- workers sharing a sweep over the grid, with leases (C12)
pub const S_LIST: u64 = 1;
pub const S_SIZE: u64 = 2;
pub const S_DONE: u64 = 3;
pub const S_SPLIT: u64 = 4;
pub const S_ERR: u64 = 5;
pub const S_BASES: u64 = 6;
const LEASE: u64 = 40;
fn sweep(a: &[u64]) {
    let (s, quota, mode, offset, skew) = (a[0] as usize, a[1], a[2], a[3] as usize, a[4] as i64);
    let sw = &mut apps().sweeps[s];
    let (res, window) = (sw.res, sw.lo..sw.hi);
    if !sw.made {
        point();
        let v = match lib(|| getRes0Cells()) {
            Ok(v) => v,
            Err(e) => return emit_all(&[S_ERR, 0, 1, ecode(&e)]),
        };
        emit_all(&[S_LIST, 0, v.len() as u64]);
        emit_all(&v);
        emit_all(&[S_BASES, 0, lib(|| res0CellCount()) as i64 as u64]);
        point();
        if !sw.made {
            sw.made = true;
            let cells: Vec<u64> = v.get(window).map(|x| x.to_vec()).unwrap_or_default();
            sw.shards = cells.iter().map(|c| Shard { cell: *c, state: 0, until: 0, lease: 0 }).collect();
        }
    }
    let mut shards_done = 0;
    while shards_done < quota {
        point();
        sw.clock += 1;
        let now = (sw.clock as i64 + skew).max(0) as u64;
        let n = sw.shards.len();
        let Some(i) = (0..n)
            .map(|k| (k + offset) % n)
            .find(|i| sw.shards[*i].state == 0 || sw.shards[*i].state == 1 && sw.shards[*i].until < now)
        else {
            // only unexpired leases are left: wait for them when asked to finish
            if quota >= 1 << 40 && sw.shards.iter().any(|x| x.state == 1) {
                sw.clock += LEASE;
                continue;
            }
            break;
        };
        shards_done += 1;
        sw.leases += 1;
        let me = sw.leases;
        let cell = sw.shards[i].cell;
        sw.shards[i].state = 1;
        sw.shards[i].until = now + LEASE;
        sw.shards[i].lease = me;
        point();
        let size = match lib(|| cellToChildrenSize(cell, res)) {
            Ok(n) => n,
            Err(e) => return emit_all(&[S_ERR, cell, 2, ecode(&e)]),
        };
        emit_all(&[S_SIZE, cell, size as u64]);
        if size > sw.split && crate::refmodel::res(cell) < res {
            let v = match lib(|| cellToChildren(cell, crate::refmodel::res(cell) + 1)) {
                Ok(v) => v,
                Err(e) => {
                    emit_all(&[S_ERR, cell, 3, ecode(&e)]);
                    continue;
                }
            };
            point();
            // replace the shard by its parts, if it is still open
            if let Some(i) = sw.shards.iter().position(|x| x.cell == cell && x.state == 1) {
                emit_all(&[S_SPLIT, cell, v.len() as u64]);
                emit_all(&v);
                sw.shards.remove(i);
                sw.shards.extend(v.iter().map(|c| Shard { cell: *c, state: 0, until: 0, lease: 0 }));
            }
            continue;
        }
        let mut got: Vec<u64> = vec![];
        match mode {
            0 => {
                let mut it = lib(|| IterCellsChildren::from_parent(cell, res));
                while let Some(h) = lib(|| it.next()) {
                    got.push(h);
                    if got.len() % 5 == 0 {
                        point();
                    }
                    if got.len() as i64 > size + 3 {
                        break;
                    }
                }
            }
            1 => {
                for p in (0..size).rev() {
                    match lib(|| childPosToCell(p, cell, res)) {
                        Ok(h) => got.push(h),
                        Err(e) => return emit_all(&[S_ERR, cell, 4, ecode(&e)]),
                    }
                    if p % 5 == 0 {
                        point();
                    }
                }
            }
            _ => match lib(|| cellToChildren(cell, res)) {
                Ok(v) => got = v,
                Err(e) => {
                    emit_all(&[S_ERR, cell, 3, ecode(&e)]);
                    continue;
                }
            },
        }
        point();
        // commit, unless the shard was finished or divided by someone else meanwhile
        if let Some(x) = sw.shards.iter_mut().find(|x| x.cell == cell && x.state != 2) {
            x.state = 2;
            emit_all(&[S_DONE, cell, got.len() as u64]);
            emit_all(&got);
        }
        sw.clock += got.len() as u64 / 4;
    }
}

// ---- positions saved as cells, restored, and passed on (C13)
pub const P_SAVE: u64 = 1;
pub const P_REFUSE: u64 = 2;
pub const P_RESTORE: u64 = 3;
pub const P_AGAIN: u64 = 4;
pub const P_BAD: u64 = 5;
pub const P_ADDR: u64 = 6;
fn track(a: &[u64]) {
    let (t, quota, relays) = (a[0] as usize, a[1], a[2]);
    let tr = &mut apps().trackers[t];
    let res = tr.res;
    // there and back, as often as asked
    let pass_on = |cell: u64, n: u64| -> Option<u64> {
        let mut c = cell;
        for _ in 0..n {
            point();
            let p = match lib(|| cellToLatLng(c)) {
                Ok(p) => p,
                Err(e) => {
                    emit_all(&[P_BAD, c, ecode(&e), 0]);
                    return None;
                }
            };
            emit_all(&[P_RESTORE, c, p.lat.to_bits(), p.lng.to_bits()]);
            point();
            // the same by way of the address on an icosahedron face
            if n > 1 || c % 3 == 0 {
                match by_face(c) {
                    None => {}
                    Some(Ok(h)) => emit_all(&[P_ADDR, c, h, 0]),
                    Some(Err(e)) => {
                        emit_all(&[P_BAD, c, ecode(&e), 2]);
                        return None;
                    }
                }
                point();
            }
            match lib(|| latLngToCell(&p, crate::refmodel::res(c))) {
                Ok(h) => {
                    emit_all(&[P_AGAIN, c, h, 0]);
                    c = h;
                }
                Err(e) => {
                    emit_all(&[P_BAD, c, ecode(&e), 1]);
                    return None;
                }
            }
        }
        Some(c)
    };
    if tr.durable != 0 {
        let Some(c) = pass_on(tr.durable, 1) else { return };
        tr.durable = c;
    }
    for _ in 0..quota {
        if tr.next >= tr.reports.len() {
            break;
        }
        let (la, ln, dr) = tr.reports[tr.next];
        tr.next += 1;
        point();
        let p = LatLng { lat: f64::from_bits(la), lng: f64::from_bits(ln) };
        let r = if dr == 0 { res } else { dr as i32 - 1000 };
        match lib(|| latLngToCell(&p, r)) {
            Ok(c) => {
                emit_all(&[P_SAVE, tr.next as u64 - 1, c, r as u64]);
                point();
                tr.durable = c;
                point();
                if relays > 0 {
                    let Some(c) = pass_on(c, relays) else { return };
                    tr.durable = c;
                }
            }
            Err(e) => emit_all(&[P_REFUSE, tr.next as u64 - 1, ecode(&e), r as u64]),
        }
    }
}

// ---- one call repeated (C01): what depends on how often it was made?
pub const B_OTHER: u64 = u64::MAX - 7;
fn burst(a: &[u64]) {
    let mut first = vec![];
    for i in 0..a[0] {
        let m = crate::sim::reported();
        crate::ops::call(a[1] as u8, &a[2..]);
        let w = crate::sim::take_back(m);
        if i == 0 {
            first = w;
        } else if w != first {
            emit_all(&[B_OTHER, i]);
            emit_all(&w);
            return;
        }
    }
    emit_all(&first);
}

/// The calls of an AGAIN op [rounds, then for each call how often in a row and its function,
/// its number of arguments, and those].
pub fn again_calls(a: &[u64]) -> Vec<(u8, u64, &[u64])> {
    let mut v = vec![];
    let mut i = 1;
    while i + 1 < a.len() {
        let n = a[i + 1] as usize;
        let Some(args) = a.get(i + 2..i + 2 + n) else { break };
        let f = a[i] as u8;
        if f < STREAM || f == LOOK || f == FIELD {
            v.push((f, (a[i] >> 8).max(1), args));
        }
        i += 2 + n;
    }
    v
}
fn again(a: &[u64]) {
    let calls = again_calls(a);
    let limit = (sim().plan.budget / 2).min(30_000_000);
    let mut first: Vec<Option<Vec<u64>>> = vec![None; calls.len()];
    let mut made = 0;
    for _ in 0..a[0] {
        for (j, (f, times, args)) in calls.iter().enumerate() {
            for _ in 0..*times {
                if crate::sim::steps() > limit {
                    break;
                }
                made += 1;
                let m = crate::sim::reported();
                crate::ops::call(*f, args);
                let w = crate::sim::take_back(m);
                if w == [ERR, MEMORY] {
                    continue;
                }
                match &first[j] {
                    None => first[j] = Some(w),
                    Some(x) if *x != w => {
                        emit_all(&[B_OTHER, j as u64, made, x.len() as u64]);
                        emit_all(x);
                        emit_all(&w);
                        return;
                    }
                    _ => {}
                }
            }
        }
    }
    emit_all(&[0, made]);
}

// ---- very many different calls (C01): what is left of one for another?
pub const ANY_CALL: u64 = 255;
/// The i-th call of the crowd [function, size, cell, family, order, rounds].
pub fn crowd_call(a: &[u64], i: u64) -> (u8, Vec<u64>) {
    use crate::prng::mix;
    use crate::refmodel as rm;
    let (cell, family) = (a[2], a[3]);
    let r = rm::res(cell);
    let x = mix(mix(cell) ^ i);
    // a cell of the crowd
    let random = |mut x: u64, r: i32, b: u64| {
        let mut d = vec![];
        for _ in 0..r {
            x = mix(x);
            d.push(x % 7);
        }
        let h = rm::mk(r, b as usize, &d);
        if rm::valid_cell(h) { h } else { rm::with_digit(h, r, (1..=r).find(|q| rm::digit(h, *q) == 1).unwrap_or(1), 2) }
    };
    let (h, same) = match family {
        // anywhere
        0 => (random(x, r, x >> 40 & 127), false),
        // close together
        1 => {
            let top = (r - 4).max(0);
            let p = rm::parent(cell, top);
            (rm::child_at(p, r, (i as i64) % rm::child_count(p, r)), false)
        }
        // the same digits elsewhere, at other resolutions
        2 => {
            let r2 = (i / 122 % 16) as i32;
            let mut d = rm::digits(cell);
            d.resize(r2 as usize, 0);
            (rm::mk(r2, (i % 122) as usize, &d), false)
        }
        // one base cell, every resolution
        3 => (random(x, (x >> 50) as i32 & 15, rm::base(cell) as u64), false),
        // one cell, other arguments
        4 => (cell, true),
        // cells far apart whose words differ little
        _ => (random(i, r, (i * 5) % 122), false),
    };
    let h = if rm::valid_cell(h) { h } else { cell };
    let r = rm::res(h);
    let all = [NBR, VALID, PENT, NCHILD, CHILDAT, ENCODE, DECODE, EDGE, DIRFOR, EDEST, EVALID, ECELLS, EDGES, DISK, CHILDREN, RING, FASTDISK, ITER];
    let f = if a[0] == ANY_CALL { all[(x >> 33) as usize % all.len()] } else { a[0] as u8 };
    let up = |n: u64| ((r as u64) + x % (n + 1)).min(15);
    let args = match f {
        NBR => vec![h, 1 + x % 6, x / 6 % 6],
        NCHILD => vec![h, if same { i % 18 } else { up(15) }],
        CHILDAT => {
            let c = up(15);
            let n = rm::child_count(h, c as i32) as u64;
            vec![if same { i % (n + 1) } else { x / 16 % n }, h, c]
        }
        ENCODE => {
            // a lattice of positions, and resolutions
            let (u, v) = if same { (i % 41, i / 41 % 41) } else { (x % 1801, x / 1801 % 3601) };
            let (la, ln) = if same { ((cell % 89) as f64 + u as f64 * 1e-3, v as f64 * 1e-3) } else { (u as f64 / 10.0 - 90.0, v as f64 / 10.0 - 180.0) };
            vec![la.to_radians().to_bits(), ln.to_radians().to_bits(), if family == 3 { x >> 60 } else { r as u64 }]
        }
        EDGE | DIRFOR => {
            // a centre child and one of its siblings are neighbours
            if r == 0 {
                vec![h, random(x, 0, x % 122)]
            } else {
                let c = rm::with_digit(h, r, r, 0);
                let d = rm::with_digit(h, r, r, 2 + x % 5);
                if x >> 20 & 1 == 0 { vec![c, d] } else { vec![d, c] }
            }
        }
        EORIGIN | EDEST | EVALID | ECELLS => vec![h & !(15 << 59) | 2 << 59 | (1 + x % 6) << 56],
        DISK | FASTDISK | RING => vec![h, if same { i % 8 } else { x % 3 }],
        CHILDREN => vec![h, up(2)],
        ITER => vec![h, up(3), x % 9],
        MKINDEX => vec![i % 16, i / 16 % 122, x % 7],
        _ => vec![h],
    };
    (f, args)
}
fn crowd(a: &[u64]) {
    let (n, order, rounds) = (a[1], a[4], a[5].max(1));
    let mut got = vec![0u64; n as usize];
    for _ in 0..rounds {
        for j in 0..n {
            let i = if order & 1 == 0 { j } else { n - 1 - j };
            let (f, args) = crowd_call(a, i);
            let m = crate::sim::reported();
            crate::ops::call(f, &args);
            let w = crate::sim::take_back(m);
            got[i as usize] = w.iter().fold(0xcbf2, |h, x| crate::prng::fnv(h, *x)) >> 1;
        }
    }
    emit_all(&got);
}

// ---- a clerk who decides from the error alone (C17)
/// [patience, function, arguments...]: on the memory error ask again, up to `patience` times; on the
/// pentagon error from a fast route take the safe one; on any other error give up.
/// Reports how often it asked, each answer's error (0: served), and the last answer.
fn clerk(a: &[u64]) {
    let (patience, mut f, args) = (a[0], a[1] as u8, &a[2..]);
    let (mut codes, mut last) = (vec![], vec![]);
    for _ in 0..patience {
        crate::sim::point();
        let m = crate::sim::reported();
        crate::ops::call(f, args);
        last = crate::sim::take_back(m);
        let e = if last[0] == crate::ops::ERR { last[1] } else { 0 };
        codes.push(e);
        match (e, f) {
            (13, _) => {}
            (9, FASTDISK) => f = DISK,
            _ => break,
        }
    }
    emit(codes.len() as u64);
    emit_all(&codes);
    emit_all(&last);
}

// ---- a very long enumeration (C04): millions of children, in strides
pub const STRIDE: u64 = 1 << 16;
pub fn roll(h: u64, x: u64) -> u64 {
    (h.rotate_left(7) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}
/// [parent, resolution, how many]: a hash per stride, then how many were delivered.
fn long(a: &[u64]) {
    let mut it = h3_rs::iterators::IterCellsChildren::from_parent(a[0], a[1] as i32);
    let (mut left, mut done) = (a[2], 0);
    while left > 0 {
        crate::sim::point();
        let n = left.min(STRIDE);
        let (mut h, mut m) = (0, 0);
        for _ in 0..n {
            match it.next() {
                Some(x) => {
                    h = roll(h, x);
                    m += 1;
                }
                None => break,
            }
        }
        left -= n;
        done += m;
        emit(h);
        if m < n {
            break;
        }
    }
    emit(done);
}

// ---- a stored index edited in place: turns (C14) and fields (C15)
pub const K_ROTL: u64 = 0;
pub const K_ROTR: u64 = 1;
pub const K_ROTPL: u64 = 2;
pub const K_ROTPR: u64 = 3;
pub const K_HIGH: u64 = 4;
pub const K_MODE: u64 = 5;
pub const K_BASE: u64 = 6;
pub const K_RES: u64 = 7;
pub const K_DIGIT: u64 = 8;
pub const K_RESERVED: u64 = 9;
pub const K_ZERO: u64 = 10;
pub const K_MAKE: u64 = 11;
pub const E_DO: u64 = 1;
pub const E_UNDO: u64 = 2;
pub const E_LOOK: u64 = 3;
pub const LOOKS: [&str; 10] = [
    "high bit", "mode", "base cell", "resolution", "reserved bits", "resolution (getResolution)", "first non-zero digit",
    "isPentagon", "validity", "class III",
];
fn turn(k: u64, w: u64) -> u64 {
    match k {
        K_ROTL => lib(|| _h3Rotate60ccw(w)),
        K_ROTR => lib(|| _h3Rotate60cw(w)),
        K_ROTPL => lib(|| _h3RotatePent60ccw(w)),
        _ => lib(|| _h3RotatePent60cw(w)),
    }
}
/// What has to be remembered to undo an edit of fields.
fn field(k: u64, x: u64, w: u64) -> u64 {
    match k {
        K_HIGH => lib(|| H3_GET_HIGH_BIT(w)) as u64,
        K_MODE => lib(|| H3_GET_MODE(w)) as u64,
        K_BASE => lib(|| H3_GET_BASE_CELL(w)) as u64,
        K_RES => lib(|| H3_GET_RESOLUTION(w)) as u64,
        K_DIGIT => lib(|| H3_GET_INDEX_DIGIT(w, x as i32)) as u64,
        K_RESERVED => lib(|| H3_GET_RESERVED_BITS(w)) as u64,
        _ => w,
    }
}
pub fn apply(k: u64, x: u64, y: u64, mut w: u64) -> u64 {
    match k {
        K_ROTL..=K_ROTPR => return turn(k, w),
        K_HIGH => lib(|| H3_SET_HIGH_BIT(&mut w, x as i32)),
        K_MODE => lib(|| H3_SET_MODE(&mut w, x as i32)),
        K_BASE => lib(|| H3_SET_BASE_CELL(&mut w, x as i32)),
        K_RES => lib(|| H3_SET_RESOLUTION(&mut w, x as i32)),
        K_DIGIT => lib(|| H3_SET_INDEX_DIGIT(&mut w, x as i32, y as i32)),
        K_RESERVED => lib(|| H3_SET_RESERVED_BITS(&mut w, x as i32)),
        K_ZERO => return lib(|| _zeroIndexDigits(w, x as i32, y as i32)),
        _ => lib(|| setH3Index(&mut w, (x & 255) as i32, (x >> 8 & 255) as i32, (x >> 16) as i32)),
    }
    w
}
/// `circle`: undo a turn by completing the circle instead of turning back.
fn unapply(k: u64, x: u64, old: u64, w: u64, circle: bool) -> u64 {
    match k {
        K_ROTL..=K_ROTPR if circle => (1..if k < K_ROTPL { 6 } else { 5 }).fold(w, |w, _| {
            point();
            turn(k, w)
        }),
        K_ROTL..=K_ROTPR => turn(k ^ 1, w),
        K_ZERO | K_MAKE => old,
        K_DIGIT => apply(k, x, old, w),
        _ => apply(k, old, 0, w),
    }
}
/// Everything an index says about itself.
pub fn look(w: u64, mut say: impl FnMut(u64, u64)) {
    let v = [
        lib(|| H3_GET_HIGH_BIT(w)) as u64,
        lib(|| H3_GET_MODE(w)) as u64,
        lib(|| H3_GET_BASE_CELL(w)) as u64,
        lib(|| H3_GET_RESOLUTION(w)) as u64,
        lib(|| H3_GET_RESERVED_BITS(w)) as u64,
        lib(|| getResolution(w)) as u64,
        lib(|| leading(w)),
        lib(|| isPentagon(w)) as u64,
        lib(|| isValidCell(w)) as u64,
        lib(|| isResolutionClassIII(H3_GET_RESOLUTION(w))) as u64,
    ];
    for (k, x) in v.iter().enumerate() {
        say(k as u64, *x);
    }
    for r in 1..=15 {
        say(100 + r, lib(|| H3_GET_INDEX_DIGIT(w, r as i32)) as u64);
    }
    for r in 0..=16 {
        say(200 + r, lib(|| _hasChildAtRes(w, r as i32)) as u64);
    }
}
fn edit(a: &[u64]) {
    let (i, quota, every, how) = (a[0] as usize, a[1] as usize, a[2].max(1) as usize, a[3]);
    let look = |w: u64| {
        point();
        look(w, |k, x| emit_all(&[E_LOOK, k, w, x]));
    };
    let e = &mut apps().edits[i];
    point();
    if e.undo {
        // what the last incarnation left half done is undone, last edit first
        while e.applied > e.committed {
            let j = e.applied - 1;
            let (k, x, _) = e.edits[j];
            let w = unapply(k, x, e.old[j], e.word, how & 2 != 0);
            emit_all(&[E_UNDO, j as u64, w, 0]);
            e.word = w;
            e.applied = j;
            point();
        }
    }
    e.old.truncate(e.committed);
    let mut w = e.word;
    let mut j = e.committed;
    let from = j;
    while j < e.edits.len() && j < from + quota {
        let (k, x, y) = e.edits[j];
        point();
        let old = if e.undo && k > K_ROTPR { field(k, x, w) } else { 0 };
        w = apply(k, x, y, w);
        emit_all(&[E_DO, j as u64, w, 0]);
        j += 1;
        if e.undo {
            e.old.push(old);
            e.word = w;
            e.applied = j;
            point();
        }
        if (j - from) % every == 0 || j == e.edits.len() {
            e.word = w;
            e.applied = j;
            e.committed = j;
            point();
            if how & 1 != 0 {
                look(w);
            }
        }
    }
}

// ---- dead reckoning (C16)
pub const L_LEG: u64 = 0;
/// out along a leg and straight home again
pub const L_HOME: u64 = 1;
pub const L_WRAP: u64 = 2;
pub const L_ARRIVED: u64 = 3;
pub const L_DEG: u64 = 4;
pub const L_VEC: u64 = 5;
pub const L_POS: u64 = 6;
pub const L_LAT: u64 = 7;
pub const L_RAD: u64 = 8;
pub const L_MAG: u64 = 9;
pub const L_POLE: u64 = 10;
pub const L_BACK: u64 = 11;
pub const L_BEARING: u64 = 12;
pub const REACH: [f64; 3] = [1e-3, 1e-9, 0.5];
fn sail(a: &[u64]) {
    let (i, quota, every) = (a[0] as usize, a[1] as usize, a[2].max(1) as usize);
    let s = &mut apps().sailors[i];
    let mut p = LatLng { lat: f64::from_bits(s.at.0), lng: f64::from_bits(s.at.1) };
    let from = s.next;
    let mut j = from;
    let say = |k: u64, j: usize, p: &LatLng, o: [f64; 3]| {
        emit_all(&[k, j as u64, p.lat.to_bits(), p.lng.to_bits(), o[0].to_bits(), o[1].to_bits(), o[2].to_bits()])
    };
    while j < s.legs.len() && j < from + quota {
        let (k, x, y) = s.legs[j];
        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
        point();
        let mut q = p;
        match k {
            L_LEG => {
                q = lib(|| _geoAzDistanceRads(&p, x, y));
                say(k, j, &p, [q.lat, q.lng, 0.0]);
            }
            L_POLE => {
                // exactly to a pole, by this node's reckoning
                let (az, d) = if x < 0.0 {
                    (std::f64::consts::PI, p.lat + std::f64::consts::FRAC_PI_2)
                } else {
                    (0.0, std::f64::consts::FRAC_PI_2 - p.lat)
                };
                q = lib(|| _geoAzDistanceRads(&p, az, d));
                say(k, j, &p, [q.lat, q.lng, x]);
            }
            L_HOME => {
                let t = lib(|| _geoAzDistanceRads(&p, x, y));
                say(L_LEG, j, &p, [t.lat, t.lng, 0.0]);
                point();
                let b = lib(|| _geoAzimuthRads(&t, &p));
                say(L_BEARING, j, &t, [p.lat, p.lng, b]);
                point();
                let h = lib(|| _geoAzDistanceRads(&t, b, y));
                say(L_BACK, j, &p, [h.lat, h.lng, t.lat]);
            }
            L_WRAP => {
                q.lng = lib(|| constrainLng(p.lng + x));
                say(k, j, &p, [q.lat, q.lng, x]);
            }
            L_ARRIVED => {
                let w = LatLng { lat: p.lat + x, lng: p.lng + y };
                say(k, j, &p, [w.lat, w.lng, lib(|| geoAlmostEqual(&p, &w)) as u64 as f64]);
                for (n, t) in REACH.into_iter().enumerate() {
                    say(110 + n as u64, j, &p, [w.lat, w.lng, lib(|| geoAlmostEqualThreshold(&p, &w, t)) as u64 as f64]);
                }
            }
            L_DEG => {
                lib(|| setGeoDegs(&mut q, x, y));
                say(k, j, &p, [q.lat, q.lng, 0.0]);
            }
            L_RAD => {
                lib(|| _setGeoRads(&mut q, x, y));
                say(k, j, &p, [q.lat, q.lng, 0.0]);
            }
            L_VEC => {
                let mut u = Vec3d { x: 7.0, y: 7.0, z: 7.0 };
                let mut v = u;
                let w = LatLng { lat: x, lng: y };
                lib(|| _geoToVec3d(&p, &mut u));
                say(k, j, &p, [u.x, u.y, u.z]);
                lib(|| _geoToVec3d(&w, &mut v));
                say(101, j, &p, [x, y, lib(|| _pointSquareDist(u, v))]);
            }
            L_POS => say(k, j, &p, [x, lib(|| _posAngleRads(x)), 0.0]),
            L_LAT => say(k, j, &p, [x, lib(|| constrainLat(x)), 0.0]),
            _ => say(k, j, &p, [x, y, lib(|| _v2dMag(&Vec2d { x, y }))]),
        }
        // the log keeps latitudes between the poles
        if q.lat.abs() > std::f64::consts::FRAC_PI_2 {
            use std::f64::consts::PI;
            q.lat -= 2.0 * PI * (q.lat / (2.0 * PI)).round();
            if q.lat.abs() > std::f64::consts::FRAC_PI_2 {
                q.lat = q.lat.signum() * PI - q.lat;
                q.lng += PI;
            }
        }
        p = q;
        j += 1;
        if (j - from) % every == 0 || j == s.legs.len() {
            s.at = (p.lat.to_bits(), p.lng.to_bits());
            s.next = j;
            point();
        }
    }
}
