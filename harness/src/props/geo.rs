//! C09, C10: areas, winding, and the two views of a ring.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use topogeo::geo::{self, Edge, Ring, WindingOrder};

use crate::geom::*;
use crate::run::*;

/// Coordinates over the whole u32 range, with the extremes and small values
/// well represented.
pub fn coord() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 0u32..12,
        2 => any::<u32>(),
        1 => Just(0u32),
        2 => Just(u32::max_value()),
        1 => (u32::max_value() - 12)..=u32::max_value(),
        1 => (0u32..32, -2i64..=2).prop_map(|(b, d)| ((1i64 << b) + d).max(0) as u32),
    ]
    .boxed()
}

/// A path whose points come from a small pool, so that repetitions, collinear
/// runs and self-touching happen.
pub fn path(max: usize) -> BoxedStrategy<Vec<(u32, u32)>> {
    prop_oneof![
        3 => vec((coord(), coord()), 0..max),
        2 => vec((0u32..6, 0u32..6), 0..max),
        2 => (any::<u32>(), any::<u32>(), vec((0u32..9, 0u32..9), 0..max)).prop_map(|(x, y, v)| {
            v.into_iter().map(|(a, b)| (x.saturating_add(a * 1000), y.saturating_add(b * 1000))).collect()
        }),
        1 => vec((any::<u32>(), any::<u32>()), max..4 * max),
    ]
    .boxed()
}

/// Makes a path long, without a long description.
#[derive(Clone, Debug, Default, Hash, Serialize, Deserialize)]
pub struct Long {
    pub n: u32,
    pub kind: u8,
    pub seed: u64,
}

impl Long {
    /// The path with n more points between its first and second half.
    pub fn extend(&self, path: &[(u32, u32)]) -> Vec<(u32, u32)> {
        let k = path.len() / 2;
        let mut v = path[..k].to_vec();
        let mut s = self.seed | 1;
        for i in 0..self.n {
            // splitmix
            s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^= z >> 31;
            let (a, b) = (z as u32, (z >> 32) as u32);
            v.push(match self.kind % 3 {
                0 => (a, b),
                1 => (i * 20_000 + a % 20_000, b % 100_000),
                _ => (a % 6, b % 6),
            });
        }
        v.extend_from_slice(&path[k..]);
        v
    }
}

pub fn long() -> BoxedStrategy<Long> {
    (crate::files::size(), 0u8..3, any::<u64>()).prop_map(|(n, kind, seed)| Long { n, kind, seed }).boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct RingCase {
    pub open: Vec<(u32, u32)>,
    /// where to cut the closed path into edges
    pub cuts: Vec<u16>,
    pub rot: u16,
    pub dx: u32,
    pub dy: u32,
    #[serde(default)]
    pub long: Long,
}

pub fn ring_case(max: usize) -> BoxedStrategy<RingCase> {
    (path(max), vec(any::<u16>(), 0..6), any::<u16>(), coord(), coord())
        .prop_map(|(open, cuts, rot, dx, dy)| RingCase { open, cuts, rot, dx, dy, long: Long::default() })
        .boxed()
}

impl RingCase {
    pub fn closed(&self) -> Vec<Pt> {
        let mut v: Vec<Pt> = self.long.extend(&self.open).iter().map(pt).collect();
        if !v.is_empty() {
            let f = v[0];
            v.push(f);
        }
        v
    }
    /// The closed path in pieces that overlap in one point each.
    pub fn pieces(&self, path: &[Pt]) -> Vec<Vec<Pt>> {
        if path.len() < 2 {
            return vec![path.to_vec()];
        }
        let mut at: Vec<usize> = self.cuts.iter().map(|&c| c as usize % path.len()).collect();
        at.push(path.len() - 1);
        at.sort();
        at.dedup();
        let mut from = 0;
        let mut out = vec![];
        for a in at {
            if a > from {
                out.push(path[from..=a].to_vec());
                from = a;
            }
        }
        out
    }
}

fn order(a: i128) -> WindingOrder {
    if a >= 0 { WindingOrder::Clockwise } else { WindingOrder::CounterClockwise }
}

fn expect<T: PartialEq + std::fmt::Debug>(what: &str, have: T, want: T) -> Res {
    if have == want { Ok(()) } else { Err(format!("{} is {:?}, expected {:?}", what, have, want)) }
}

pub struct C09;
impl Prop for C09 {
    type Case = RingCase;
    const ID: &'static str = "C09";
    const RULE: &'static str = "closed paths of 0 to 80 points over the whole u32 range (extremes, powers of two, small grids, random), cut into edges, rotated, reversed and translated; oracle: 128-bit shoelace sum. Non-trivial: non-zero area";
    const QUICK: u64 = 4_000_000;
    fn strategy(_: Tier) -> BoxedStrategy<RingCase> {
        ring_case(20)
    }
    const LARGE: u64 = 10;
    fn large(t: Tier) -> Option<BoxedStrategy<RingCase>> {
        Some((Self::strategy(t), long()).prop_map(|(c, long)| RingCase { long, ..c }).boxed())
    }
    fn check(c: &RingCase, ctx: &mut Ctx) -> Res {
        let p = c.closed();
        let a = area2(&p);
        ctx.nontrivial = a != 0;
        ctx.label_if(a.abs() > i64::max_value() as i128, "area2 beyond i64");
        ctx.label_if(a.abs() > u64::max_value() as i128, "area2 beyond u64");
        ctx.label_if(a == 0, "zero area");
        expect("signed_area2", geo::signed_area2(p.iter()) as i128, a)?;
        expect("area2", geo::area2(p.iter()) as u128, a.unsigned_abs())?;
        expect("winding_order", geo::winding_order(p.iter()), order(a))?;
        let (x, w) = geo::area2_and_winding_order(p.iter());
        expect("area2_and_winding_order", (x as u128, w), (a.unsigned_abs(), order(a)))?;

        // pieces
        let pieces = c.pieces(&p);
        let sum: i128 = pieces.iter().map(|q| geo::signed_area2(q.iter()) as i128).sum();
        expect("the sum of signed_area2 over the pieces", sum, a)?;
        for q in pieces.iter() {
            expect("signed_area2 of an open path", geo::signed_area2(q.iter()) as i128, area2(q))?;
        }
        // reversal
        expect("signed_area2 of the reversed ring", geo::signed_area2(p.iter().rev()) as i128, -a)?;
        // starting vertex
        if p.len() > 1 {
            let mut o = p[..p.len() - 1].to_vec();
            let n = o.len();
            o.rotate_left(c.rot as usize % n);
            let f = o[0];
            o.push(f);
            expect("signed_area2 from another vertex", geo::signed_area2(o.iter()) as i128, a)?;
            let t: Option<Vec<Pt>> = p.iter().map(|q| Some(geo::Point(q.0.checked_add(c.dx)?, q.1.checked_add(c.dy)?))).collect();
            if let Some(t) = t {
                expect("signed_area2 of the translated ring", geo::signed_area2(t.iter()) as i128, a)?;
            }
        }
        // rings
        let r = Ring::Points(p.clone().into_boxed_slice());
        let e = Ring::Edges(pieces.iter().map(|q| Edge(q.clone().into_boxed_slice())).collect::<Vec<_>>().into_boxed_slice());
        for (name, ring) in vec![("points", &r), ("edges", &e)] {
            expect(&format!("area2() of a ring of {}", name), ring.area2() as u128, a.unsigned_abs())?;
            expect(&format!("winding_order() of a ring of {}", name), ring.winding_order(), order(a))?;
            let (x, w) = ring.area2_and_winding_order();
            expect(&format!("area2_and_winding_order() of a ring of {}", name), (x as u128, w), (a.unsigned_abs(), order(a)))?;
        }
        Ok(())
    }
}

pub struct C10;
impl Prop for C10 {
    type Case = RingCase;
    const ID: &'static str = "C10";
    const RULE: &'static str = "closed paths as in C09 (with repeated points), cut into edges of any length; oracle: the path itself. Non-trivial: at least three points and two edges";
    const QUICK: u64 = 3_000_000;
    fn strategy(_: Tier) -> BoxedStrategy<RingCase> {
        ring_case(20)
    }
    const LARGE: u64 = 10;
    fn large(t: Tier) -> Option<BoxedStrategy<RingCase>> {
        Some((Self::strategy(t), long()).prop_map(|(c, long)| RingCase { long, ..c }).boxed())
    }
    fn check(c: &RingCase, ctx: &mut Ctx) -> Res {
        let p = c.closed();
        let pieces = if p.len() < 2 { vec![] } else { c.pieces(&p) };
        ctx.nontrivial = p.len() >= 4 && pieces.len() >= 2;
        ctx.label_if(dedup(&p).len() < p.len(), "repeated points");
        ctx.label_if(pieces.iter().any(|q| q[0] == q[q.len() - 1]), "closed edge");
        let r = Ring::Points(p.clone().into_boxed_slice());
        let e = Ring::Edges(pieces.iter().map(|q| Edge(q.clone().into_boxed_slice())).collect::<Vec<_>>().into_boxed_slice());
        expect("points() of a ring of points", r.points().to_vec(), p.clone())?;
        let edges: Vec<Vec<Pt>> = r.edges().iter().map(|e| e.0.to_vec()).collect();
        let want: Vec<Vec<Pt>> = p.windows(2).map(|w| w.to_vec()).collect();
        expect("edges() of a ring of points", edges, want)?;
        let edges: Vec<Vec<Pt>> = e.edges().iter().map(|e| e.0.to_vec()).collect();
        expect("edges() of a ring of edges", edges, pieces.clone())?;
        if p.len() >= 2 {
            expect("points() of a ring of edges", e.points().to_vec(), p.clone())?;
            // there and back
            expect("points() of edges()", Ring::Edges(r.edges()).points().to_vec(), p.clone())?;
            let back: Vec<Vec<Pt>> = Ring::Points(e.points()).edges().iter().map(|e| e.0.to_vec()).collect();
            expect("edges() of points()", back, p.windows(2).map(|w| w.to_vec()).collect())?;
        } else {
            expect("points() of a ring without edges", e.points().len(), 0)?;
        }
        Ok(())
    }
}
