//! C11, C12: building a topology.
use std::collections::{HashMap, HashSet};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use topogeo::geo::{Region, Ring};
use topogeo::topology::{Topology, TopologyBuilder};

use crate::geom::*;
use crate::maps::*;
use crate::run::*;
use crate::topo::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct MapCase {
    pub map: MapSpec,
    pub desc: DescSpec,
}

pub fn map_case(exact: bool, big: u8) -> BoxedStrategy<MapCase> {
    (map_strategy(exact, big), desc_strategy()).prop_map(move |x| case(exact, x)).boxed()
}

pub fn large_map_case(exact: bool, few: bool) -> BoxedStrategy<MapCase> {
    (large_map_strategy(exact, few), desc_strategy()).prop_map(move |x| case(exact, x)).boxed()
}

/// The segments of an `exact` map cross every mask at whole coordinates; slits
/// would not.
fn case(exact: bool, (map, mut desc): (MapSpec, DescSpec)) -> MapCase {
    if exact {
        desc.slits.clear();
    }
    MapCase { map, desc }
}

pub fn build(regions: Vec<Region<String>>) -> Topology<String> {
    let mut b = TopologyBuilder::new();
    for r in regions {
        b.add_region(r);
    }
    b.into_topology()
}

/// What a ring's walk must be: its points with zero-length steps removed,
/// starting where it was given to start.
fn ring_path(r: &Ring) -> Vec<Pt> {
    match *r {
        Ring::Points(ref p) => dedup(p),
        Ring::Edges(ref es) => {
            let mut v = vec![];
            for e in es.iter() {
                v.extend_from_slice(&e.0);
            }
            dedup(&v)
        }
    }
}

pub struct C11;
impl Prop for C11 {
    type Case = MapCase;
    const ID: &'static str = "C11";
    const RULE: &'static str = "random planar maps (jittered grids, diagonals, islands, lakes, corner contacts, whole u32 range) described as regions (faces / merged / grouped, any rotation, winding and order, points or edges, zero-length steps, zero-area rings and regions); non-trivial: at least two rings and a shared segment or a degenerate ring";
    const ASSUMPTIONS: &'static [&'static str] = &["each undirected edge path occurs at most twice in the input (non-overlapping polygons)"];
    const QUICK: u64 = 320_000;
    fn strategy(_: Tier) -> BoxedStrategy<MapCase> {
        map_case(false, 12)
    }
    const LARGE: u64 = 2;
    fn large(_: Tier) -> Option<BoxedStrategy<MapCase>> {
        Some(large_map_case(false, false))
    }
    fn check(c: &MapCase, ctx: &mut Ctx) -> Res {
        let m = c.map.build();
        let described = m.describe(&c.desc);
        let regions = to_regions(&described, c.desc.repr);
        // expectation
        let mut want: Vec<(String, Vec<Vec<Pt>>, Vec<Vec<Pt>>)> = vec![];
        let mut dropped_rings = 0;
        let mut n_rings = 0;
        for r in regions.iter() {
            let mut f = |rs: &Box<[Ring]>| -> Vec<Vec<Pt>> {
                let v: Vec<Vec<Pt>> = rs.iter().map(ring_path).collect();
                let n = v.len();
                let v: Vec<Vec<Pt>> = v.into_iter().filter(|p| area2(p) != 0).collect();
                dropped_rings += n - v.len();
                n_rings += v.len();
                v
            };
            let (o, i) = (f(&r.outer_rings), f(&r.inner_rings));
            if !o.is_empty() {
                want.push((r.data.clone(), o, i));
            }
        }
        let dropped_regions = regions.len() - want.len();
        let t = build(regions);
        let s = snap(&t)?;
        ctx.label_if(dropped_rings > 0, "zero-area rings");
        ctx.label_if(dropped_regions > 0, "dropped regions");
        ctx.label_if(c.desc.repr > 0, "rings as edges");
        ctx.label(format!("scale {}", c.map.scale));
        let shared = t.edges.iter().any(|e| !e.rings[1].is_null());
        ctx.label_if(shared, "shared edges");
        ctx.nontrivial = n_rings >= 2 && (shared || dropped_rings > 0);

        let data: Vec<&String> = s.regions.iter().map(|r| &r.data).collect();
        let wdata: Vec<&String> = want.iter().map(|r| &r.0).collect();
        if data != wdata {
            return Err(format!("regions {:?}, expected {:?}", data, wdata));
        }
        for (i, w) in want.iter().enumerate() {
            let (o, n) = s.walks_of(i)?;
            for (what, have, exp) in vec![("outer", &o, &w.1), ("inner", &n, &w.2)] {
                if have.len() != exp.len() {
                    return Err(format!("region {} has {} {} rings, expected {}", w.0, have.len(), what, exp.len()));
                }
                for (a, b) in have.iter().zip(exp.iter()) {
                    if a != b {
                        return Err(format!("region {}: {} ring is {}, expected {}", w.0, what, show(a), show(b)));
                    }
                }
            }
        }
        Ok(())
    }
}

pub struct C12;
impl Prop for C12 {
    type Case = MapCase;
    const ID: &'static str = "C12";
    const RULE: &'static str = "maps as in C11; non-trivial: at least one edge path occurs in two rings";
    const ASSUMPTIONS: &'static [&'static str] = &["each undirected edge path occurs at most twice in the input (non-overlapping polygons)"];
    const QUICK: u64 = 280_000;
    fn strategy(_: Tier) -> BoxedStrategy<MapCase> {
        map_case(false, 12)
    }
    const LARGE: u64 = 2;
    fn large(_: Tier) -> Option<BoxedStrategy<MapCase>> {
        Some(large_map_case(false, false))
    }
    fn check(c: &MapCase, ctx: &mut Ctx) -> Res {
        let m = c.map.build();
        let described = m.describe(&c.desc);
        let regions = to_regions(&described, c.desc.repr);
        // Undirected edge paths of the input rings that survive
        let mut paths: HashMap<Vec<Pt>, u32> = HashMap::new();
        let mut n = 0u32;
        for r in regions.iter() {
            let live = |x: &&Ring| area2(&ring_path(x)) != 0;
            if !r.outer_rings.iter().any(|x| live(&x)) {
                continue;
            }
            for ring in r.outer_rings.iter().chain(r.inner_rings.iter()).filter(live) {
                let es: Vec<Vec<Pt>> = match *ring {
                    Ring::Points(ref p) => p.windows(2).map(|w| w.to_vec()).collect(),
                    Ring::Edges(ref es) => es.iter().map(|e| e.0.to_vec()).collect(),
                };
                for e in es {
                    if e.len() == 2 && e[0] == e[1] {
                        continue;
                    }
                    let r = reversed(&e);
                    *paths.entry(if e < r { e } else { r }).or_insert(0) += 1;
                    n += 1;
                }
            }
        }
        let t = build(regions);
        let s = snap(&t)?;
        ctx.nontrivial = paths.values().any(|&v| v == 2);
        ctx.label_if(c.desc.repr > 0, "rings as edges");
        ctx.label_if(paths.len() > 200, "over 200 edges");

        let mut seen: HashSet<Vec<Pt>> = HashSet::new();
        for e in s.edges.iter() {
            let r = reversed(e);
            let key = if *e < r { e.clone() } else { r };
            if !paths.contains_key(&key) {
                return Err(format!("edge {} is no edge of the input", show(e)));
            }
            if !seen.insert(key) {
                return Err(format!("edge {} is stored twice", show(e)));
            }
            let (a, b) = (e[0], e[e.len() - 1]);
            if a > b || (a == b && area2(e) < 0) {
                return Err(format!("edge {} does not run in the canonical direction", show(e)));
            }
        }
        if seen.len() != paths.len() {
            return Err(format!("{} edges stored, {} distinct edge paths in the input", seen.len(), paths.len()));
        }
        let uses = s.uses();
        let mut total = 0;
        for (e, u) in uses.iter().enumerate() {
            let p = &s.edges[e];
            let r = reversed(p);
            let want = paths[if *p < r { p } else { &r }];
            total += u.len() as u32;
            if u.len() as u32 != want {
                return Err(format!("edge {} is used {} times, but occurs {} times in the input", show(p), u.len(), want));
            }
        }
        if total != n {
            return Err(format!("{} edge uses, expected {}", total, n));
        }
        // directions: each ring must reproduce its own order
        for i in 0..s.regions.len() {
            s.walks_of(i)?;
        }
        Ok(())
    }
}
