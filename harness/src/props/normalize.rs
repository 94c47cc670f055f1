//! C14-C17: normalizing.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use topogeo::normalize;

use super::build::{build, large_map_case, map_case, MapCase};
use crate::geom::*;
use crate::maps::*;
use crate::run::*;
use crate::topo::*;

/// Raw directed segments of a region's rings as they are, not cancelled and
/// not reoriented.
fn raw_segments<D>(s: &Snap<D>, region: usize) -> Result<BTreeMap<Seg, i32>, String> {
    let (o, i) = s.walks_of(region)?;
    let mut m = BTreeMap::new();
    for w in o.iter().chain(i.iter()) {
        for x in w.windows(2) {
            *m.entry((x[0], x[1])).or_insert(0) += 1;
        }
    }
    Ok(m)
}

fn classify(m: &PlanarMap, c: &MapCase, ctx: &mut Ctx) {
    ctx.label(format!("scale {}", c.map.scale));
    ctx.label(format!("description mode {}", c.desc.mode));
    ctx.label_if(c.desc.repr > 0, "rings as edges");
    let mut pinch = false;
    let mut holes = false;
    for l in m.labels() {
        let b = m.boundary(l);
        let mut outs: HashMap<Pt, u32> = HashMap::new();
        for s in b.keys() {
            *outs.entry(s.0).or_insert(0) += 1;
        }
        pinch |= outs.values().any(|&n| n > 1);
        holes |= trace(&b).iter().any(|r| area2(r) < 0);
    }
    ctx.label_if(pinch, "region touching itself at a point");
    ctx.label_if(holes, "holes");
}

pub struct C14;
impl Prop for C14 {
    type Case = MapCase;
    const ID: &'static str = "C14";
    const RULE: &'static str = "planar maps and descriptions as in C11, normalized; oracle: each region's boundary obtained by cancelling the directed segments of the generated faces. Non-trivial: at least one segment lies between two parts of one region";
    const ASSUMPTIONS: &'static [&'static str] = &["regions do not overlap and share boundary vertices (planar map)"];
    const QUICK: u64 = 200_000;
    fn strategy(_: Tier) -> BoxedStrategy<MapCase> {
        map_case(false, 12)
    }
    const LARGE: u64 = 2;
    fn large(_: Tier) -> Option<BoxedStrategy<MapCase>> {
        Some(large_map_case(false, false))
    }
    fn check(c: &MapCase, ctx: &mut Ctx) -> Res {
        let m = c.map.build();
        let described = m.describe(&c.desc);
        let n_segs: usize = described.iter().flat_map(|r| r.outer.iter().chain(r.inner.iter())).filter(|w| area2(w) != 0).map(|w| dedup(w).len() - 1).sum();
        let t = build(to_regions(&described, c.desc.repr));
        let n = normalize(&t);
        let s = snap(&n)?;
        classify(&m, c, ctx);
        let labels = m.labels();
        let want: Vec<String> = labels.iter().map(|l| format!("r{}", l)).collect();
        let have: Vec<String> = s.regions.iter().map(|r| r.data.clone()).collect();
        if want != have {
            return Err(format!("regions are {:?}, expected {:?}", have, want));
        }
        let mut total = 0;
        for (i, l) in labels.iter().enumerate() {
            let b = m.boundary(*l);
            total += b.len();
            // Rings as they stand: interior on the right, nothing redundant.
            let have = raw_segments(&s, i)?;
            if let Some(e) = diff_boundaries(&b, &have) {
                return Err(format!("boundary of region r{}: {}", l, e));
            }
            let (o, inn) = s.walks_of(i)?;
            let a: i128 = o.iter().map(|w| area2(w).abs()).sum::<i128>() - inn.iter().map(|w| area2(w).abs()).sum::<i128>();
            if a != m.area2_of(*l) {
                return Err(format!("region r{} has doubled area {}, expected {}", l, a, m.area2_of(*l)));
            }
        }
        ctx.nontrivial = total < n_segs;
        Ok(())
    }
}

pub struct C15;
impl Prop for C15 {
    type Case = MapCase;
    const ID: &'static str = "C15";
    const RULE: &'static str = "maps as in C14; every rule of the normal form is tested on the normalized topology, node degrees being counted from the boundary segments. Non-trivial: at least one node where three or more boundary segments meet and an edge of more than one segment";
    const ASSUMPTIONS: &'static [&'static str] = &["regions do not overlap and share boundary vertices (planar map)"];
    const QUICK: u64 = 200_000;
    fn strategy(_: Tier) -> BoxedStrategy<MapCase> {
        map_case(false, 12)
    }
    const LARGE: u64 = 2;
    fn large(_: Tier) -> Option<BoxedStrategy<MapCase>> {
        Some(large_map_case(false, false))
    }
    fn check(c: &MapCase, ctx: &mut Ctx) -> Res {
        let m = c.map.build();
        let t = build(to_regions(&m.describe(&c.desc), c.desc.repr));
        let n = normalize(&t);
        let s = snap(&n)?;
        classify(&m, c, ctx);
        // degree: boundary segments of the map that meet at a point
        let mut segs: HashSet<Seg> = HashSet::new();
        for l in m.labels() {
            for (a, b) in m.boundary(l).into_keys() {
                segs.insert(if a < b { (a, b) } else { (b, a) });
            }
        }
        let mut degree: HashMap<Pt, u32> = HashMap::new();
        for s in segs {
            *degree.entry(s.0).or_insert(0) += 1;
            *degree.entry(s.1).or_insert(0) += 1;
        }
        let is_node = |p: &Pt| degree.get(p).cloned().unwrap_or(0) != 2;
        ctx.nontrivial = degree.values().any(|&d| d > 2) && s.edges.iter().any(|e| e.len() > 2);

        for (e, u) in s.uses().iter().enumerate() {
            if u.len() > 1 && u[0].0 == u[1].0 {
                return Err(format!("edge {} has region {} on both sides", show(&s.edges[e]), s.regions[u[0].0].data));
            }
            let pts = &s.edges[e];
            for q in pts[1..pts.len() - 1].iter() {
                if is_node(q) {
                    return Err(format!("edge {} runs through {}, where {} boundary segments meet", show(pts), q, degree.get(q).unwrap_or(&0)));
                }
            }
            let closed = pts[0] == pts[pts.len() - 1];
            for q in vec![pts[0], pts[pts.len() - 1]] {
                if !is_node(&q) && !closed {
                    return Err(format!("edge {} ends at {}, where only two boundary segments meet", show(pts), q));
                }
            }
        }
        for r in s.regions.iter() {
            for (inner, rings) in vec![(false, &r.outer), (true, &r.inner)] {
                let mut prev: Option<Pt> = None;
                for ring in rings.iter() {
                    let w = s.walk(ring)?;
                    let a = area2(&w);
                    if inner && a >= 0 || !inner && a <= 0 {
                        return Err(format!("{} ring {} of region {} has doubled area {}", if inner { "inner" } else { "outer" }, show(&w), r.data, a));
                    }
                    let paths = ring.edge_paths(&s);
                    let start = w[0];
                    if paths.len() == 1 && !is_node(&start) {
                        let min = *w.iter().min().unwrap();
                        if start != min {
                            return Err(format!("island ring {} does not start at its leftmost point {}", show(&w), min));
                        }
                    } else {
                        let min = paths.iter().map(|p| p[0]).min().unwrap();
                        if start != min {
                            return Err(format!("ring {} does not start at its leftmost node {}", show(&w), min));
                        }
                    }
                    if let Some(p) = prev {
                        if p > start {
                            return Err(format!("region {}: a ring starting at {} is listed after one starting at {}", r.data, start, p));
                        }
                    }
                    prev = Some(start);
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TwoDescs {
    pub map: MapSpec,
    pub a: DescSpec,
    pub b: DescSpec,
}

type Rings = Vec<Vec<Vec<Pt>>>;

/// A topology without edge numbers: edges sorted, rings as lists of paths.
fn plain<D: Clone>(s: &Snap<D>) -> (Vec<Vec<Pt>>, Vec<(D, Rings, Rings)>) {
    let mut edges = s.edges.clone();
    edges.sort();
    let f = |rs: &Vec<SnapRing>| -> Rings { rs.iter().map(|r| r.edge_paths(s)).collect() };
    (edges, s.regions.iter().map(|r| (r.data.clone(), f(&r.outer), f(&r.inner))).collect())
}

pub struct C16;
impl Prop for C16 {
    type Case = TwoDescs;
    const ID: &'static str = "C16";
    const RULE: &'static str = "two descriptions (ring starts, directions, order, merged or in pieces, points or edges) of one generated map are normalized and compared; then normalized again. Non-trivial: the two built topologies differ in their rings";
    const ASSUMPTIONS: &'static [&'static str] = &["regions do not overlap and share boundary vertices (planar map)"];
    const QUICK: u64 = 120_000;
    fn strategy(_: Tier) -> BoxedStrategy<TwoDescs> {
        (map_strategy(false, 12), desc_strategy(), desc_strategy()).prop_map(|(map, a, b)| TwoDescs { map, a, b }).boxed()
    }
    const LARGE: u64 = 2;
    fn large(_: Tier) -> Option<BoxedStrategy<TwoDescs>> {
        Some((large_map_strategy(false, false), desc_strategy(), desc_strategy()).prop_map(|(map, a, b)| TwoDescs { map, a, b }).boxed())
    }
    fn check(c: &TwoDescs, ctx: &mut Ctx) -> Res {
        let m = c.map.build();
        let ta = build(to_regions(&m.describe(&c.a), c.a.repr));
        let tb = build(to_regions(&m.describe(&c.b), c.b.repr));
        let na = normalize(&ta);
        let nb = normalize(&tb);
        let (sa, sb) = (snap(&na)?, snap(&nb)?);
        let (pa, pb) = (plain(&sa), plain(&sb));
        ctx.nontrivial = plain(&snap(&ta)?).1 != plain(&snap(&tb)?).1;
        if pa.0 != pb.0 {
            let (x, y): (BTreeSet<_>, BTreeSet<_>) = (pa.0.iter().cloned().collect(), pb.0.iter().cloned().collect());
            let only: Vec<String> = x.symmetric_difference(&y).take(3).map(|e| show(e)).collect();
            return Err(format!("the two descriptions give different edges ({} and {}), e.g. {}", pa.0.len(), pb.0.len(), only.join(" ")));
        }
        let labels = m.labels();
        if sa.regions.len() != labels.len() || sb.regions.len() != labels.len() {
            return Err(format!("{} and {} regions, expected {}", sa.regions.len(), sb.regions.len(), labels.len()));
        }
        for i in 0..labels.len() {
            let (ra, rb) = (&pa.1[i], &pb.1[i]);
            if ra.0 != rb.0 {
                return Err(format!("region {} is {} in one and {} in the other", i, ra.0, rb.0));
            }
            let (x, y) = (raw_segments(&sa, i)?, raw_segments(&sb, i)?);
            if let Some(e) = diff_boundaries(&x, &y) {
                return Err(format!("region {}: the boundaries differ: {}", ra.0, e));
            }
            let mut outs: HashMap<Pt, i32> = HashMap::new();
            for (s, n) in m.boundary(labels[i]) {
                *outs.entry(s.0).or_insert(0) += n;
            }
            if outs.values().all(|&n| n == 1) {
                ctx.label("regions with unique rings");
                if ra != rb {
                    return Err(format!("region {}: the rings differ: {:?} and {:?}", ra.0, (&ra.1, &ra.2), (&rb.1, &rb.2)));
                }
            } else {
                ctx.label("regions touching themselves");
            }
        }
        for (n, p) in vec![(&na, &pa), (&nb, &pb)] {
            let again = plain(&snap(&normalize(n))?);
            if again.0 != p.0 {
                return Err(format!("normalizing again changes the edges: {} instead of {}", again.0.len(), p.0.len()));
            }
            if again.1 != p.1 {
                return Err("normalizing again changes the rings".into());
            }
        }
        Ok(())
    }
}

pub struct C17;
impl Prop for C17 {
    type Case = MapCase;
    const ID: &'static str = "C17";
    const RULE: &'static str = "maps as in C14; oracle: which two regions each boundary segment separates, from the generated faces. Non-trivial: a boundary between two regions consists of at least two segments";
    const ASSUMPTIONS: &'static [&'static str] = &["regions do not overlap and share boundary vertices (planar map)"];
    const QUICK: u64 = 200_000;
    fn strategy(_: Tier) -> BoxedStrategy<MapCase> {
        map_case(false, 12)
    }
    const LARGE: u64 = 2;
    fn large(_: Tier) -> Option<BoxedStrategy<MapCase>> {
        Some(large_map_case(false, false))
    }
    fn check(c: &MapCase, ctx: &mut Ctx) -> Res {
        let m = c.map.build();
        let t = build(to_regions(&m.describe(&c.desc), c.desc.repr));
        let n = normalize(&t);
        let s = snap(&n)?;
        classify(&m, c, ctx);
        // directed segment -> region that has it on its boundary that way round
        let mut owner: HashMap<Seg, String> = HashMap::new();
        for l in m.labels() {
            for seg in m.boundary(l).into_keys() {
                owner.insert(seg, format!("r{}", l));
            }
        }
        let uses = s.uses();
        let mut seen: HashSet<Seg> = HashSet::new();
        let mut inner_pts: HashSet<Pt> = HashSet::new();
        let mut end_pts: HashSet<Pt> = HashSet::new();
        let mut shared = 0;
        let mut shared_closed = false;
        for (e, pts) in s.edges.iter().enumerate() {
            end_pts.insert(pts[0]);
            end_pts.insert(pts[pts.len() - 1]);
            for q in pts[1..pts.len() - 1].iter() {
                if !inner_pts.insert(*q) {
                    return Err(format!("{} lies inside two edges (or twice inside {})", q, show(pts)));
                }
            }
            for w in pts.windows(2) {
                let key = if w[0] < w[1] { (w[0], w[1]) } else { (w[1], w[0]) };
                if !seen.insert(key) {
                    return Err(format!("segment {}-{} lies on more than one edge", w[0], w[1]));
                }
                let mut want: Vec<(String, bool)> = vec![];
                if let Some(r) = owner.get(&(w[0], w[1])) {
                    want.push((r.clone(), true));
                }
                if let Some(r) = owner.get(&(w[1], w[0])) {
                    want.push((r.clone(), false));
                }
                if want.is_empty() {
                    return Err(format!("segment {}-{} of edge {} is on no boundary", w[0], w[1], show(pts)));
                }
                if want.len() == 2 {
                    shared += 1;
                    shared_closed |= pts[0] == pts[pts.len() - 1];
                }
                let mut have: Vec<(String, bool)> = uses[e].iter().map(|u| (s.regions[u.0].data.clone(), u.3)).collect();
                want.sort();
                have.sort();
                if want != have {
                    return Err(format!("segment {}-{} separates {:?}, but its edge is used by {:?} (true: in edge direction)", w[0], w[1], want, have));
                }
            }
        }
        if let Some(q) = inner_pts.intersection(&end_pts).next() {
            return Err(format!("{} is inside one edge and at the end of another", q));
        }
        for seg in owner.keys() {
            let key = if seg.0 < seg.1 { *seg } else { (seg.1, seg.0) };
            if !seen.contains(&key) {
                return Err(format!("boundary segment {}-{} lies on no edge", seg.0, seg.1));
            }
        }
        ctx.label_if(shared_closed, "shared closed edge");
        ctx.nontrivial = shared >= 2;
        Ok(())
    }
}
