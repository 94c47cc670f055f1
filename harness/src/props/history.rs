//! Histories of operations on a topology.
use std::collections::HashMap;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use topogeo::clip::{clip_topology, ClipMask};
use topogeo::topology::Topology;
use topogeo::{normalize, simplify};

use super::build::{build, MapCase};
use crate::geom::*;
use crate::maps::*;
use crate::topo::*;

/// A half-plane: kind 0 MinX, 1 MaxX, 2 MinY, 3 MaxY.
#[derive(Clone, Copy, Debug, PartialEq, Hash, Serialize, Deserialize)]
pub struct Mask {
    pub kind: u8,
    pub at: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loc {
    In,
    On,
    Out,
}

impl Mask {
    pub fn clip_mask(&self) -> ClipMask {
        match self.kind % 4 {
            0 => ClipMask::MinX(self.at),
            1 => ClipMask::MaxX(self.at),
            2 => ClipMask::MinY(self.at),
            _ => ClipMask::MaxY(self.at),
        }
    }
    pub fn is_x(&self) -> bool {
        self.kind % 4 < 2
    }
    /// coordinate across the mask line
    pub fn across(&self, p: &Pt) -> u32 {
        if self.is_x() { p.0 } else { p.1 }
    }
    /// coordinate along the mask line
    pub fn along(&self, p: &Pt) -> u32 {
        if self.is_x() { p.1 } else { p.0 }
    }
    /// distance inside the mask; negative outside
    pub fn depth(&self, p: &Pt) -> i128 {
        let d = self.across(p) as i128 - self.at as i128;
        if self.kind % 2 == 0 { d } else { -d }
    }
    pub fn loc(&self, p: &Pt) -> Loc {
        match self.depth(p) {
            0 => Loc::On,
            d if d > 0 => Loc::In,
            _ => Loc::Out,
        }
    }
    /// What this mask leaves out
    pub fn opposite(&self) -> Mask {
        Mask { kind: self.kind ^ 1, at: self.at }
    }
    /// floor of the true crossing, and whether it is whole. The segment must
    /// cross the line.
    pub fn crossing(&self, a: &Pt, b: &Pt) -> (u32, bool) {
        let i = |u: u32| u as i128;
        let (a1, a2, b1, b2) = (i(self.across(a)), i(self.along(a)), i(self.across(b)), i(self.along(b)));
        let (mut num, mut den) = ((i(self.at) - a1) * (b2 - a2), b1 - a1);
        if den < 0 {
            num = -num;
            den = -den;
        }
        ((a2 + num.div_euclid(den)) as u32, num.rem_euclid(den) == 0)
    }
    pub fn point(&self, along: u32) -> Pt {
        if self.is_x() { p(self.at, along) } else { p(along, self.at) }
    }
}

/// Where to cut a map.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum At {
    /// near the coordinate of the i-th vertex
    Vertex(u16, i8),
    /// between the smallest and largest coordinate, in 1/65535
    Between(u16),
    /// nothing / everything / the ends of the range
    Fixed(u32),
    /// just beyond the map
    Beyond(bool),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct MaskSpec {
    pub kind: u8,
    pub at: At,
}

impl MaskSpec {
    pub fn strategy() -> BoxedStrategy<MaskSpec> {
        (
            0u8..4,
            prop_oneof![
                6 => (any::<u16>(), prop_oneof![3 => Just(0i8), 2 => -2i8..=2]).prop_map(|(i, d)| At::Vertex(i, d)),
                5 => any::<u16>().prop_map(At::Between),
                1 => prop_oneof![Just(0u32), Just(u32::max_value()), any::<u32>()].prop_map(At::Fixed),
                1 => any::<bool>().prop_map(At::Beyond),
            ],
        )
            .prop_map(|(kind, at)| MaskSpec { kind, at })
            .boxed()
    }

    pub fn of_points(&self, pts: &[Pt]) -> Mask {
        let m = Mask { kind: self.kind, at: 0 };
        let cs = || pts.iter().map(|q| m.across(q));
        let (lo, hi) = (cs().min().unwrap_or(0), cs().max().unwrap_or(0));
        let at = match self.at {
            At::Vertex(i, d) => {
                if pts.is_empty() { 7 } else {
                    let c = m.across(&pts[i as usize % pts.len()]) as i64 + d as i64;
                    c.max(0).min(u32::max_value() as i64) as u32
                }
            }
            At::Between(f) => lo + ((hi - lo) as u64 * f as u64 / 65535) as u32,
            At::Fixed(v) => v,
            At::Beyond(low) => if low { lo.saturating_sub(1) } else { hi.saturating_add(1) },
        };
        Mask { kind: self.kind, at }
    }

    pub fn of_map(&self, m: &PlanarMap) -> Mask {
        let pts: Vec<Pt> = m.faces.iter().flat_map(|f| f.outer.iter().chain(f.holes.iter().flat_map(|h| h.iter())).cloned()).collect();
        self.of_points(&pts)
    }

    pub fn mask(&self, m: &PlanarMap) -> ClipMask {
        self.of_map(m).clip_mask()
    }

    pub fn of_topology<D>(&self, t: &Topology<D>) -> Mask {
        let pts: Vec<Pt> = t.edges.iter().flat_map(|e| e.points.iter().cloned()).collect();
        self.of_points(&pts)
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    Normalize,
    Simplify(u64),
    /// threshold such that about this share (in 1/255) of the points goes
    SimplifyShare(u8),
    Clip(MaskSpec),
    /// move it to another place in memory
    Move,
}

pub fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => Just(Op::Normalize),
        1 => prop_oneof![Just(0u64), Just(u64::max_value()), any::<u64>(), 0u64..5000, (0u32..64).prop_map(|b| 1u64 << b)].prop_map(Op::Simplify),
        2 => any::<u8>().prop_map(Op::SimplifyShare),
        3 => MaskSpec::strategy().prop_map(Op::Clip),
        1 => Just(Op::Move),
    ]
    .boxed()
}

pub fn ops(max: usize) -> BoxedStrategy<Vec<Op>> {
    prop_oneof![2 => Just(vec![]), 3 => vec(op(), 1..=max)].boxed()
}

/// Whether normalizing this is defined: no ring runs along another one twice
/// on the same side, as outlines closed along a mask line, or simplified so
/// far that they overlap, can.
pub fn normalizable<D: Clone>(s: &Snap<D>) -> bool {
    let mut n: HashMap<Vec<Pt>, Vec<(usize, bool)>> = HashMap::new();
    for (ri, r) in s.regions.iter().enumerate() {
        for (inner, ring) in r.outer.iter().map(|x| (false, x)).chain(r.inner.iter().map(|x| (true, x))) {
            let w = match s.walk(ring) {
                Ok(w) => w,
                Err(_) => return false,
            };
            // as wound by role
            let flip = (area2(&w) >= 0) == inner;
            for p in ring.edge_paths(s) {
                let p = if flip { reversed(&p) } else { p };
                let r = reversed(&p);
                let fwd = p <= r;
                n.entry(if fwd { p } else { r }).or_insert_with(Vec::new).push((ri, fwd));
            }
        }
    }
    n.values().all(|u| u.len() < 2 || (u.len() == 2 && (u[0].0 != u[1].0 || u[0].1 != u[1].1)))
}

/// A doubled area such that about `share`/255 of all inner points have smaller
/// triangles.
pub fn share_threshold<D>(s: &Snap<D>, share: u8) -> u64 {
    let mut a: Vec<u128> = s.edges.iter().flat_map(|e| e.windows(3).map(|w| tri2(w[0], w[1], w[2]))).collect();
    if a.is_empty() {
        return 1000;
    }
    a.sort();
    a[share as usize * (a.len() - 1) / 255].min(u64::max_value() as u128) as u64
}

/// Applies one operation. The flag says whether it was applied.
pub fn apply(t: Topology<String>, op: &Op) -> Result<(Topology<String>, bool), String> {
    Ok(match *op {
        Op::Normalize => {
            if normalizable(&snap(&t)?) { (normalize(&t), true) } else { (t, false) }
        }
        Op::Simplify(v) => (simplify(t, v), true),
        Op::SimplifyShare(share) => {
            let v = share_threshold(&snap(&t)?, share);
            (simplify(t, v), true)
        }
        Op::Clip(ref m) => {
            let m = m.of_topology(&t);
            (clip_topology(&t, &m.clip_mask()), true)
        }
        Op::Move => {
            let b = Box::new(t);
            (*b, true)
        }
    })
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HistCase {
    pub map: MapCase,
    pub ops: Vec<Op>,
}

impl HistCase {
    pub fn start(&self) -> (PlanarMap, Topology<String>) {
        let m = self.map.map.build();
        let t = build(to_regions(&m.describe(&self.map.desc), self.map.desc.repr));
        (m, t)
    }
    pub fn run(&self) -> Result<(PlanarMap, Topology<String>), String> {
        let (m, mut t) = self.start();
        for o in self.ops.iter() {
            t = apply(t, o)?.0;
        }
        Ok((m, t))
    }
}
