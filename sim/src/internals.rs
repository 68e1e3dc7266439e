//! The helpers of the library that are public but not part of its documented surface. A change
//! may reshape them (a result returned instead of an out parameter, say) without changing what
//! the library does; build.sh then rebuilds without that group, and these stand-ins keep the
//! rest of the workload running. A property about such a helper itself is then not decided.
#![allow(unused)]
use h3_rs::{iterators::IterCellsChildren, lat_lng::LatLng};

pub fn missing() -> Vec<&'static str> {
    let mut v = vec![];
    if !cfg!(feature = "turns") {
        v.push("turns")
    }
    if !cfg!(feature = "geo") {
        v.push("geo")
    }
    if !cfg!(feature = "vectors") {
        v.push("vectors")
    }
    if !cfg!(feature = "faces") {
        v.push("faces")
    }
    if !cfg!(feature = "bits") {
        v.push("bits")
    }
    v
}

#[cfg(feature = "turns")]
pub use h3_rs::h3_index::{_h3Rotate60ccw, _h3Rotate60cw, _h3RotatePent60ccw, _h3RotatePent60cw};
#[cfg(not(feature = "turns"))]
mod turns {
    fn turn(w: u64, map: [u64; 8]) -> u64 {
        (1..=crate::refmodel::res(w)).fold(w, |w, r| {
            let s = 3 * (15 - r);
            w & !(7 << s) | map[(w >> s & 7) as usize] << s
        })
    }
    fn lead(w: u64) -> u64 {
        (1..=crate::refmodel::res(w)).map(|r| w >> (3 * (15 - r)) & 7).find(|d| *d != 0).unwrap_or(0)
    }
    pub fn _h3Rotate60ccw(w: u64) -> u64 {
        turn(w, [0, 5, 3, 1, 6, 4, 2, 7])
    }
    pub fn _h3Rotate60cw(w: u64) -> u64 {
        turn(w, [0, 3, 6, 2, 5, 1, 4, 7])
    }
    pub fn _h3RotatePent60ccw(w: u64) -> u64 {
        let t = _h3Rotate60ccw(w);
        if lead(t) == 1 { _h3Rotate60ccw(t) } else { t }
    }
    pub fn _h3RotatePent60cw(w: u64) -> u64 {
        let t = _h3Rotate60cw(w);
        if lead(t) == 1 { _h3Rotate60cw(t) } else { t }
    }
}
#[cfg(not(feature = "turns"))]
pub use turns::*;

#[cfg(feature = "geo")]
pub use h3_rs::lat_lng::{_geoAzDistanceRads, _geoAzimuthRads, _posAngleRads, _setGeoRads};
#[cfg(not(feature = "geo"))]
mod geo {
    use super::LatLng;
    use std::f64::consts::PI;
    pub fn _posAngleRads(x: f64) -> f64 {
        if x < 0.0 { x + 2.0 * PI } else if x >= 2.0 * PI { x - 2.0 * PI } else { x }
    }
    pub fn _setGeoRads(p: &mut LatLng, lat: f64, lng: f64) {
        p.lat = lat;
        p.lng = lng;
    }
    pub fn _geoAzimuthRads(p: &LatLng, q: &LatLng) -> f64 {
        let d = q.lng - p.lng;
        (q.lat.cos() * d.sin()).atan2(p.lat.cos() * q.lat.sin() - p.lat.sin() * q.lat.cos() * d.cos())
    }
    pub fn _geoAzDistanceRads(p: &LatLng, az: f64, d: f64) -> LatLng {
        let s = (p.lat.sin() * d.cos() + p.lat.cos() * d.sin() * az.cos()).clamp(-1.0, 1.0);
        let l = (az.sin() * d.sin()).atan2(p.lat.cos() * d.cos() - p.lat.sin() * d.sin() * az.cos());
        LatLng { lat: s.asin(), lng: h3_rs::lat_lng::constrainLng(p.lng + l) }
    }
}
#[cfg(not(feature = "geo"))]
pub use geo::*;

#[cfg(feature = "vectors")]
pub use h3_rs::{
    vec2d::{Vec2d, _v2dMag},
    vec3d::{Vec3d, _geoToVec3d, _pointSquareDist},
};
#[cfg(not(feature = "vectors"))]
mod vectors {
    use super::LatLng;
    #[derive(Clone, Copy)]
    pub struct Vec2d {
        pub x: f64,
        pub y: f64,
    }
    #[derive(Clone, Copy)]
    pub struct Vec3d {
        pub x: f64,
        pub y: f64,
        pub z: f64,
    }
    pub fn _v2dMag(v: &Vec2d) -> f64 {
        (v.x * v.x + v.y * v.y).sqrt()
    }
    pub fn _geoToVec3d(p: &LatLng, v: &mut Vec3d) {
        let r = p.lat.cos();
        *v = Vec3d { x: p.lng.cos() * r, y: p.lng.sin() * r, z: p.lat.sin() };
    }
    pub fn _pointSquareDist(a: Vec3d, b: Vec3d) -> f64 {
        (a.x - b.x).powi(2) + (a.y - b.y).powi(2) + (a.z - b.z).powi(2)
    }
}
#[cfg(not(feature = "vectors"))]
pub use vectors::*;

/// From a cell to its address on a face of the icosahedron and back.
#[cfg(feature = "faces")]
pub fn by_face(c: u64) -> Option<Result<u64, h3_rs::error::Error>> {
    use h3_rs::h3_index::{_faceIjkToH3, _h3ToFaceIjk};
    Some(match crate::sim::lib(|| _h3ToFaceIjk(c)) {
        Ok(f) => Ok(crate::sim::lib(|| _faceIjkToH3(&f, crate::refmodel::res(c)))),
        Err(e) => Err(e),
    })
}
#[cfg(not(feature = "faces"))]
pub fn by_face(_: u64) -> Option<Result<u64, h3_rs::error::Error>> {
    None
}

#[cfg(feature = "bits")]
pub use h3_rs::h3_index::{_hasChildAtRes, _zeroIndexDigits};
#[cfg(feature = "bits")]
pub fn leading(w: u64) -> u64 {
    h3_rs::h3_index::_h3LeadingNonZeroDigit(w) as u64
}
#[cfg(feature = "bits")]
pub fn no_children() -> IterCellsChildren {
    IterCellsChildren::_null_iter()
}
#[cfg(not(feature = "bits"))]
mod bits {
    use super::*;
    pub fn _hasChildAtRes(w: u64, r: i32) -> bool {
        crate::refmodel::res(w) <= r && r <= 15
    }
    pub fn _zeroIndexDigits(w: u64, a: i32, b: i32) -> u64 {
        (a..=b).fold(w, |w, r| w & !(7 << (3 * (15 - r))))
    }
    pub fn leading(w: u64) -> u64 {
        (1..=crate::refmodel::res(w)).map(|r| w >> (3 * (15 - r)) & 7).find(|d| *d != 0).unwrap_or(0)
    }
    pub fn no_children() -> IterCellsChildren {
        IterCellsChildren::from_parent(0, 0)
    }
}
#[cfg(not(feature = "bits"))]
pub use bits::*;
