//! Reading a Topology back, without trusting any of its pointers.
use std::collections::{BTreeMap, HashMap};
use std::mem;

use topogeo::geo::Point;
use topogeo::topology::{Direction, TopoEdge, TopoRing, Topology};

use crate::geom::*;

/// A topology as plain values. Edges are named by index.
#[derive(Clone, Debug, PartialEq)]
pub struct Snap<D> {
    pub edges: Vec<Vec<Pt>>,
    pub regions: Vec<SnapRegion<D>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SnapRegion<D> {
    pub data: D,
    pub outer: Vec<SnapRing>,
    pub inner: Vec<SnapRing>,
}

/// Directed edges: (edge index, forward?)
#[derive(Clone, Debug, PartialEq)]
pub struct SnapRing(pub Vec<(usize, bool)>);

pub fn edge_index<D>(t: &Topology<D>, p: *const TopoEdge<D>) -> Result<usize, String> {
    let base = t.edges.as_ptr() as usize;
    let size = mem::size_of::<TopoEdge<D>>();
    let a = p as usize;
    if a < base || a >= base + size * t.edges.len() || (a - base) % size != 0 {
        return Err(format!("a ring refers to an edge that is not in the topology ({} edges)", t.edges.len()));
    }
    Ok((a - base) / size)
}

/// Takes the topology apart. Fails if a ring refers to an edge outside it.
pub fn snap<D: Clone>(t: &Topology<D>) -> Result<Snap<D>, String> {
    let ring = |r: &TopoRing<D>| -> Result<SnapRing, String> {
        let mut v = vec![];
        for de in r.directed_edges.iter() {
            v.push((edge_index(t, de.edge)?, de.direction == Direction::Forward));
        }
        Ok(SnapRing(v))
    };
    let mut regions = vec![];
    for r in t.regions.iter() {
        let outer = r.outer_rings.iter().map(&ring).collect::<Result<Vec<_>, _>>()?;
        let inner = r.inner_rings.iter().map(&ring).collect::<Result<Vec<_>, _>>()?;
        regions.push(SnapRegion { data: r.data.clone(), outer, inner });
    }
    Ok(Snap { edges: t.edges.iter().map(|e| e.points.to_vec()).collect(), regions })
}

impl<D> SnapRegion<D> {
    pub fn rings(&self) -> impl Iterator<Item = &SnapRing> {
        self.outer.iter().chain(self.inner.iter())
    }
}

impl SnapRing {
    /// The points of each directed edge, in ring order.
    pub fn edge_paths<D>(&self, s: &Snap<D>) -> Vec<Vec<Pt>> {
        self.0.iter().map(|&(e, fwd)| if fwd { s.edges[e].clone() } else { reversed(&s.edges[e]) }).collect()
    }
}

impl<D> Snap<D> {
    /// Walks a ring: its points, joints given once, closed. Fails if
    /// consecutive edges do not meet or it does not close.
    pub fn walk(&self, r: &SnapRing) -> Result<Vec<Pt>, String> {
        let mut out: Vec<Pt> = vec![];
        if r.0.is_empty() {
            return Err("a ring has no edges".into());
        }
        for path in r.edge_paths(self) {
            if path.len() < 2 {
                return Err(format!("a ring uses an edge of {} point(s)", path.len()));
            }
            match out.last() {
                None => out.extend_from_slice(&path),
                Some(l) if *l == path[0] => out.extend_from_slice(&path[1..]),
                Some(l) => return Err(format!("ring is broken: one edge ends at {} and the next starts at {}", l, path[0])),
            }
        }
        if out[0] != out[out.len() - 1] {
            return Err(format!("ring is not closed: starts at {}, ends at {}", out[0], out[out.len() - 1]));
        }
        Ok(out)
    }

    pub fn walks_of(&self, i: usize) -> Result<(Vec<Vec<Pt>>, Vec<Vec<Pt>>), String> {
        let r = &self.regions[i];
        Ok((
            r.outer.iter().map(|x| self.walk(x)).collect::<Result<Vec<_>, _>>()?,
            r.inner.iter().map(|x| self.walk(x)).collect::<Result<Vec<_>, _>>()?,
        ))
    }

    /// How often rings use each edge: (region, inner?, ring, forward) per use.
    pub fn uses(&self) -> Vec<Vec<(usize, bool, usize, bool)>> {
        let mut u = vec![vec![]; self.edges.len()];
        for (ri, r) in self.regions.iter().enumerate() {
            for (inner, rings) in vec![(false, &r.outer), (true, &r.inner)] {
                for (k, ring) in rings.iter().enumerate() {
                    for &(e, f) in ring.0.iter() {
                        u[e].push((ri, inner, k, f));
                    }
                }
            }
        }
        u
    }
}

/// Checks every reference in a topology (C13).
pub fn integrity<D: Clone>(t: &Topology<D>) -> Result<(), String> {
    let s = snap(t)?;
    let mut uses: HashMap<usize, Vec<*const TopoRing<D>>> = HashMap::new();
    for (ri, region) in t.regions.iter().enumerate() {
        for (k, ring) in region.outer_rings.iter().chain(region.inner_rings.iter()).enumerate() {
            if ring.region != region as *const _ {
                return Err(format!("ring {} of region {} does not name that region as its owner", k, ri));
            }
            for de in ring.directed_edges.iter() {
                uses.entry(edge_index(t, de.edge)?).or_insert_with(Vec::new).push(ring as *const _);
            }
        }
    }
    for (ri, r) in s.regions.iter().enumerate() {
        for ring in r.rings() {
            s.walk(ring).map_err(|e| format!("region {}: {}", ri, e))?;
        }
    }
    for (i, e) in t.edges.iter().enumerate() {
        let mut want = uses.remove(&i).unwrap_or_default();
        if want.is_empty() {
            return Err(format!("edge {} {} is used by no ring", i, show(&e.points)));
        }
        if want.len() > 2 {
            return Err(format!("edge {} {} is used {} times", i, show(&e.points), want.len()));
        }
        let mut have: Vec<*const TopoRing<D>> = vec![e.rings[0]];
        if want.len() == 2 {
            have.push(e.rings[1]);
        } else if !e.rings[1].is_null() {
            return Err(format!("edge {} {} is used by one ring but names two", i, show(&e.points)));
        }
        want.sort();
        have.sort();
        if want != have {
            return Err(format!("edge {} {} does not name the {} ring(s) that use it", i, show(&e.points), want.len()));
        }
    }
    Ok(())
}

/// The directed boundary of a region, from its walks: outer rings taken
/// clockwise, inner ones counter-clockwise, opposite pairs cancelled.
pub fn oriented_boundary(outer: &[Vec<Pt>], inner: &[Vec<Pt>]) -> BTreeMap<Seg, i32> {
    let mut w: Vec<Vec<Pt>> = vec![];
    for r in outer {
        w.push(if area2(r) >= 0 { r.clone() } else { reversed(r) });
    }
    for r in inner {
        w.push(if area2(r) <= 0 { r.clone() } else { reversed(r) });
    }
    cancel(&w)
}

pub fn diff_boundaries(want: &BTreeMap<Seg, i32>, have: &BTreeMap<Seg, i32>) -> Option<String> {
    for (s, n) in want {
        if have.get(s) != Some(n) {
            return Some(format!("segment {}->{} expected {} time(s), found {}", s.0, s.1, n, have.get(s).unwrap_or(&0)));
        }
    }
    for (s, n) in have {
        if !want.contains_key(s) {
            return Some(format!("segment {}->{} found {} time(s), not expected", s.0, s.1, n));
        }
    }
    None
}

pub fn p(x: u32, y: u32) -> Pt {
    Point(x, y)
}
