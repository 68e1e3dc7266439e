use crate::exec::*;
use crate::ops::*;
use crate::plan::*;
use crate::prng::Rng;
use crate::refmodel as rm;
pub use crate::sim::{BUDGET, DONE, KILLED, NOTRUN, PANIC, RUNNING};

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;

pub trait Prop {
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn gen(&self, g: &mut Rng, w: &mut W, run: u64) -> Plan;
    fn check(&self, p: &Plan, vw: &View, w: &mut W) -> Option<V>;
    fn rule(&self) -> &'static str;
    /// Did the run contain what the property is about?
    fn nontrivial(&self, p: &Plan, vw: &View) -> bool;
    fn probes(&self) -> &'static [&'static str] {
        &[]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[]
    }
}
pub fn get(id: &str) -> Option<Box<dyn Prop>> {
    Some(match id {
        "C01" => Box::new(c01::C01),
        "C02" => Box::new(c02::C02),
        "C03" => Box::new(c03::C03),
        "C04" => Box::new(c04::C04),
        "C05" => Box::new(c05::C05),
        "C06" => Box::new(c06::C06),
        "C07" => Box::new(c07::C07),
        "C08" => Box::new(c08::C08),
        "C09" => Box::new(c09::C09),
        "C10" => Box::new(c10::C10),
        "C11" => Box::new(c11::C11),
        "C12" => Box::new(c12::C12),
        "C13" => Box::new(c13::C13),
        "C14" => Box::new(c14::C14),
        "C15" => Box::new(c15::C15),
        "C16" => Box::new(c16::C16),
        "C17" => Box::new(c17::C17),
        _ => return None,
    })
}

/// Rough number of steps, for placing faults and choosing preemption rates. A wrong
/// guess costs reach, never soundness.
pub fn est(f: u8, a: &[u64]) -> u64 {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    let gap = |h: u64, r: u64| (r as i64 - rm::res(h) as i64).clamp(0, 7) as u32;
    match f {
        DISK | FASTDISK => 300 + 600 * (3 * g(1).min(60) * (g(1).min(60) + 1)),
        RING => 300 + 3000 * g(1).min(1000),
        NBR => 400,
        DIRFOR | EDGE => 2500,
        CHILDREN => 200 + 60 * 7u64.pow(gap(g(0), g(1))),
        ITER => 100 + 50 * g(2).min(1 << 30),
        SKIP => 100 + 50 * (g(2).min(100_000) + g(3).min(1 << 30)),
        ENCODE | DECODE => 1500,
        RES0 => 6000,
        CROWD => {
            let n = g(1).min(64).max(1);
            (0..n).map(|i| { let (f, a) = crate::apps::crowd_call(a, i); est(f, &a) }).sum::<u64>() / n * g(1) * g(5).max(1)
        }
        CLERK => 200 + est(g(1) as u8, &a[2.min(a.len())..]),
        BURST => g(0) * est(g(1) as u8, &a[2.min(a.len())..]),
        _ => 300,
    }
}
pub fn est_plan(p: &Plan) -> u64 {
    p.ops().map(|o| est(o.f, &o.a)).sum()
}
/// A scheduling strategy for this run, swarm style.
pub fn sched(g: &mut Rng, total: u64) -> Sched {
    let mean = match g.below(8) {
        0 => 0,
        1 => 3,
        2 => 10,
        3 | 4 => 60,
        5 => 400,
        _ => 4000,
    };
    let pct = g.chance(1, 5);
    let mean = if pct { (total / g.range(1, 6) as u64).max(20) } else { mean };
    let mean = if mean == 0 { 0 } else { mean.max(total / 1500) };
    Sched::Seeded {
        seed: g.next(),
        mean,
        hot_ppm: *g.pick(&[0, 100_000, 500_000]),
        pct,
        end_ppm: *g.pick(&[0, 200_000, 500_000, 1_000_000]),
    }
}
/// A position inside an op: uniform over its estimated length, or near its start.
pub fn pos_in(g: &mut Rng, est: u64) -> u64 {
    if g.chance(1, 2) {
        1 + g.below(est)
    } else {
        g.log(est)
    }
}
/// A disk that may contain the null index, which is no cell and marks an empty slot of
/// the fallback's table: the origin is zero but for its base cell.
pub fn null_disk(o: &Op) -> bool {
    o.f == DISK && o.a[0] & !(127 << 45) == 0
}
