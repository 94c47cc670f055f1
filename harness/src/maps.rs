//! Generated planar maps: faces that tile (part of) the plane without
//! overlapping, and many ways of describing them as regions made of rings.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use topogeo::geo::{Edge, Point, Region, Ring};

use crate::geom::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Cell {
    pub diag: u8,
    pub la: u8,
    pub lb: u8,
    pub isl: u8,
    pub li: u8,
}

/// Recipe for a planar map: a w x h grid of cells with jittered corners, each
/// optionally cut along a diagonal, each face labelled (0 = nothing there),
/// with islands, lakes, donuts and corner-touching triangles inside faces and
/// extra points along cell edges.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct MapSpec {
    pub w: u8,
    pub h: u8,
    pub nlab: u8,
    pub scale: u8,
    pub step: u32,
    pub offx: u32,
    pub offy: u32,
    pub cells: Vec<Cell>,
    pub jit: Vec<(i8, i8)>,
    pub mids: Vec<u8>,
    /// how much of the map belongs to the first region
    #[serde(default)]
    pub bias: u8,
    /// every face is a region of its own
    #[serde(default)]
    pub uniq: bool,
    /// extra points on every cell edge (scale LARGE only)
    #[serde(default)]
    pub long: u16,
}

#[derive(Clone, Debug)]
pub struct Face {
    pub label: u32,
    /// closed, clockwise
    pub outer: Vec<Pt>,
    /// outlines of what is cut out; closed, clockwise
    pub holes: Vec<Vec<Pt>>,
}

#[derive(Clone, Debug)]
pub struct PlanarMap {
    pub faces: Vec<Face>,
    by_label: BTreeMap<u32, Vec<usize>>,
    /// every crossing of an axis-parallel line through whole coordinates with
    /// any segment is at whole coordinates
    pub exact: bool,
    pub min: Pt,
    pub max: Pt,
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub const SMALL: u8 = 0;
pub const MEDIUM: u8 = 1;
pub const LARGE: u8 = 2;
pub const EXACT: u8 = 3;
pub const EXACT_LARGE: u8 = 4;

fn closed(mut v: Vec<Pt>) -> Vec<Pt> {
    let f = v[0];
    v.push(f);
    v
}

impl MapSpec {
    fn get<'a, T>(v: &'a [T], i: usize) -> Option<&'a T> {
        if v.is_empty() { None } else { v.get(i % v.len()) }
    }

    pub fn build(&self) -> PlanarMap {
        let w = self.w.max(1) as usize;
        let h = self.h.max(1) as usize;
        let m = w.max(h) as u32;
        let nlab = self.nlab.max(1) as u32;
        let exact = self.scale >= EXACT;
        let (step, jitmax): (u32, u32) = match self.scale {
            SMALL => {
                let s = 4 + self.step % 13;
                (s, s / 5)
            }
            MEDIUM => {
                let s = 640 + self.step % 4000;
                (s, s / 10)
            }
            LARGE => {
                let top = u32::max_value() / (m + 1);
                let s = top - self.step % (top / 2);
                (s, s / 10)
            }
            EXACT => (32 * (1 + self.step % 4), 0),
            _ => {
                let top = u32::max_value() / m / 32;
                if self.step % 3 == 0 {
                    // a power of two
                    let k = (32 * top).leading_zeros() + self.step / 3 % 4;
                    (32.max((1u32 << 31) >> k), 0)
                } else {
                    (32 * (top - self.step % (top / 2)), 0)
                }
            }
        };
        let ext = |n: usize| 2 * jitmax as u64 + step as u64 * n as u64;
        let off = |o: u32, n: usize| -> u64 {
            let room = u32::max_value() as u64 - ext(n);
            match o {
                0 => 0,
                1 => room,
                o => o as u64 % (room + 1),
            }
        };
        let (ox, oy) = (off(self.offx, w), off(self.offy, h));
        let vert = |i: usize, j: usize| -> Pt {
            let (jx, jy) = Self::get(&self.jit, j * (w + 1) + i).cloned().unwrap_or((0, 0));
            let jj = |v: i8| jitmax as i64 + v.max(-100).min(100) as i64 * jitmax as i64 / 100;
            Point((ox as i64 + (step as u64 * i as u64) as i64 + jj(jx)) as u32, (oy as i64 + (step as u64 * j as u64) as i64 + jj(jy)) as u32)
        };
        let mids_ok = exact || step >= 256;
        // Path from a to b, without b.
        let path = |a: Pt, b: Pt| -> Vec<Pt> {
            let (lo, hi) = if a < b { (a, b) } else { (b, a) };
            let hv = h64(&(lo, hi));
            let m = Self::get(&self.mids, hv as usize % 8191).cloned().unwrap_or(0);
            let n: i64 = if !mids_ok { 0 } else if exact {
                match m % 4 { 2 => 1, 3 => 3, _ => 0 }
            } else {
                if self.long > 0 && self.scale == LARGE { self.long as i64 } else { match m { 255 => 40, m => match m % 5 { 2 => 1, 3 => 2, 4 => 5, _ => 0 } } }
            };
            let mut v = vec![lo];
            let (dx, dy) = (hi.0 as i64 - lo.0 as i64, hi.1 as i64 - lo.1 as i64);
            for k in 1..=n {
                let (num, den) = if exact { (k, n + 1) } else { ((n + 1) + k, 3 * (n + 1)) };
                let mut x = lo.0 as i64 + (dx as i128 * num as i128 / den as i128) as i64;
                let mut y = lo.1 as i64 + (dy as i128 * num as i128 / den as i128) as i64;
                if !exact {
                    let mj = step as i64 / 64;
                    let d = (h64(&(m, k, lo, hi)) % (2 * mj as u64 + 1)) as i64 - mj;
                    let d = if m % 3 == 0 { 0 } else { d };
                    if dx.abs() >= dy.abs() { y += d } else { x += d }
                    let lim = u32::max_value() as i64;
                    x = x.max(0).min(lim);
                    y = y.max(0).min(lim);
                }
                v.push(Point(x as u32, y as u32));
            }
            v.push(hi);
            if a != lo { v.reverse(); }
            v.pop();
            v
        };
        let ring = |corners: &[Pt]| -> Vec<Pt> {
            let mut v = vec![];
            for i in 0..corners.len() {
                v.extend(path(corners[i], corners[(i + 1) % corners.len()]));
            }
            closed(v)
        };
        let isl_ok = exact || step >= 256;

        let mut faces: Vec<Face> = vec![];
        for j in 0..h {
            for i in 0..w {
                let c = Self::get(&self.cells, j * w + i).cloned().unwrap_or(Cell { diag: 0, la: 1, lb: 1, isl: 0, li: 0 });
                let (tl, tr, br, bl) = (vert(i, j), vert(i + 1, j), vert(i + 1, j + 1), vert(i, j + 1));
                let lab = |l: u8| if (l as u32) * 21 < self.bias as u32 { 1 } else { l as u32 % (nlab + 1) };
                // (corners, label, centre)
                let mut fs: Vec<(Vec<Pt>, u32)> = vec![];
                match c.diag % 3 {
                    1 => {
                        fs.push((vec![tl, tr, br], lab(c.la)));
                        fs.push((vec![tl, br, bl], lab(c.lb)));
                    }
                    2 => {
                        fs.push((vec![tl, tr, bl], lab(c.la)));
                        fs.push((vec![tr, br, bl], lab(c.lb)));
                    }
                    _ => fs.push((vec![tl, tr, br, bl], lab(c.la))),
                }
                for (fi, (corners, label)) in fs.into_iter().enumerate() {
                    let mut face = Face { label, outer: ring(&corners), holes: vec![] };
                    if isl_ok && (fi == 0 || c.isl >= 128) {
                        self.island(&c, &corners, label, nlab, step, exact, &mut face, &mut faces);
                    }
                    faces.push(face);
                }
            }
        }
        let mut min = Point(u32::max_value(), u32::max_value());
        let mut max = Point(0, 0);
        for f in faces.iter() {
            for p in f.outer.iter() {
                min = Point(min.0.min(p.0), min.1.min(p.1));
                max = Point(max.0.max(p.0), max.1.max(p.1));
            }
        }
        if self.uniq {
            for (i, f) in faces.iter_mut().enumerate() {
                if f.label > 0 {
                    f.label = i as u32 + 1;
                }
            }
        }
        let mut by_label: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
        for (i, f) in faces.iter().enumerate() {
            by_label.entry(f.label).or_insert_with(Vec::new).push(i);
        }
        PlanarMap { faces, by_label, exact, min, max }
    }

    fn island(&self, c: &Cell, corners: &[Pt], label: u32, nlab: u32, step: u32, exact: bool, face: &mut Face, faces: &mut Vec<Face>) {
        let n = corners.len() as i64;
        let (cx, cy) = if exact && n == 3 {
            // the right-angled corner is the one whose neighbours are axis-parallel to it
            let k = (0..3).find(|&k| {
                let (a, b, d) = (corners[k], corners[(k + 1) % 3], corners[(k + 2) % 3]);
                (a.0 == b.0 && a.1 == d.1) || (a.1 == b.1 && a.0 == d.0)
            }).unwrap();
            let (a, b, d) = (corners[k], corners[(k + 1) % 3], corners[(k + 2) % 3]);
            let q = step as i64 / 16 * 5;
            let sx = if b.0 != a.0 { b.0 > a.0 } else { d.0 > a.0 };
            let sy = if b.1 != a.1 { b.1 > a.1 } else { d.1 > a.1 };
            (a.0 as i64 + if sx { q } else { -q }, a.1 as i64 + if sy { q } else { -q })
        } else {
            (corners.iter().map(|p| p.0 as i64).sum::<i64>() / n, corners.iter().map(|p| p.1 as i64).sum::<i64>() / n)
        };
        let r = step as i64 / 16;
        let hr = r / 2;
        let at = |dx: i64, dy: i64| Point((cx + dx) as u32, (cy + dy) as u32);
        let poly = |k: u8, ox: i64, r: i64| -> Vec<Pt> {
            closed(match k % 4 {
                0 => vec![at(ox - r, -r), at(ox + r, -r), at(ox + r, r), at(ox - r, r)],
                1 => vec![at(ox, -r), at(ox + r, 0), at(ox, r), at(ox - r, 0)],
                2 => vec![at(ox - r, -r), at(ox + r, -r), at(ox - r, r)],
                _ => vec![at(ox - hr.min(r / 2), -r), at(ox + hr.min(r / 2), -r), at(ox + r, 0), at(ox + hr.min(r / 2), r), at(ox - hr.min(r / 2), r), at(ox - r, 0)],
            })
        };
        let shape = if exact { c.li / 16 % 3 } else { c.li / 16 % 4 };
        let l1 = c.li as u32 % (nlab + 1);
        let l2 = (c.li as u32 + 1) % (nlab + 1);
        match c.isl % 16 {
            1 => {
                let o = poly(shape, 0, r);
                faces.push(Face { label: l1, outer: o.clone(), holes: vec![] });
                face.holes.push(o);
            }
            2 => {
                let o = poly(0, 0, r);
                let i = poly(shape, 0, hr);
                faces.push(Face { label: l1, outer: o.clone(), holes: vec![i.clone()] });
                faces.push(Face { label: if c.li & 128 != 0 { label } else { l2 }, outer: i, holes: vec![] });
                face.holes.push(o);
            }
            3 => {
                faces.push(Face { label: l1, outer: closed(vec![at(-r, -r), at(0, -r), at(0, r), at(-r, r)]), holes: vec![] });
                faces.push(Face { label: l2, outer: closed(vec![at(0, -r), at(r, -r), at(r, r), at(0, r)]), holes: vec![] });
                face.holes.push(closed(vec![at(-r, -r), at(0, -r), at(r, -r), at(r, r), at(0, r), at(-r, r)]));
            }
            4 if !exact => {
                // a triangle touching a corner of the face
                let v = corners[c.li as usize / 8 % corners.len()];
                let (dx, dy) = (cx - v.0 as i64, cy - v.1 as i64);
                let mk = |s: i64| Point(
                    (v.0 as i64 + (dx as i128 * 40 / 100) as i64 - (s as i128 * dy as i128 * 2 / 100) as i64) as u32,
                    (v.1 as i64 + (dy as i128 * 40 / 100) as i64 + (s as i128 * dx as i128 * 2 / 100) as i64) as u32);
                let mut o = closed(vec![v, mk(1), mk(-1)]);
                if area2(&o) < 0 { o.reverse(); }
                faces.push(Face { label: l1, outer: o.clone(), holes: vec![] });
                face.holes.push(o);
            }
            5 => {
                let o = poly(shape, 0, r);
                faces.push(Face { label, outer: o.clone(), holes: vec![] });
                face.holes.push(o);
            }
            6 => {
                for (ox, l) in vec![(-r, l1), (r, l2)] {
                    let o = poly(shape, ox, hr);
                    faces.push(Face { label: l, outer: o.clone(), holes: vec![] });
                    face.holes.push(o);
                }
            }
            7 | 8 => {
                // an annulus in two C-shaped parts
                let hh = hr;
                faces.push(Face { label: l1, outer: closed(vec![at(-r, -r), at(r, -r), at(r, 0), at(hh, 0), at(hh, -hh), at(-hh, -hh), at(-hh, 0), at(-r, 0)]), holes: vec![] });
                faces.push(Face { label: if c.isl % 16 == 7 { l1 } else { l2 }, outer: closed(vec![at(-r, 0), at(-hh, 0), at(-hh, hh), at(hh, hh), at(hh, 0), at(r, 0), at(r, r), at(-r, r)]), holes: vec![] });
                let centre = match c.li / 16 % 4 { 0 => 0, 1 => label, 2 => l1, _ => l2 };
                faces.push(Face { label: centre, outer: closed(vec![at(-hh, -hh), at(hh, -hh), at(hh, 0), at(hh, hh), at(-hh, hh), at(-hh, 0)]), holes: vec![] });
                face.holes.push(closed(vec![at(-r, -r), at(r, -r), at(r, 0), at(r, r), at(-r, r), at(-r, 0)]));
            }
            _ => {}
        }
    }
}

/// How a map is described as regions.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DescSpec {
    /// 0: every face is a part of its own; 1: each region fully merged;
    /// 2: merged in groups
    pub mode: u8,
    pub groups: Vec<u8>,
    pub rot: Vec<u16>,
    pub flags: Vec<u8>,
    pub order: Vec<u16>,
    /// 0: rings as points; otherwise as edges, split at nodes and at about
    /// every `repr`-th other point
    pub repr: u8,
    /// bit set: extra zero-area rings / regions
    pub degenerate: u8,
    /// slits: stretches a ring runs along there and back, to a hole (which it
    /// then goes around) or to a dead end; one byte per slit
    #[serde(default)]
    pub slits: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct InRegion {
    pub data: String,
    /// closed rings, consecutive duplicates possible
    pub outer: Vec<Vec<Pt>>,
    pub inner: Vec<Vec<Pt>>,
}

impl PlanarMap {
    pub fn labels(&self) -> Vec<u32> {
        self.by_label.keys().cloned().filter(|&l| l > 0).collect()
    }

    /// Faces with this label, and their numbers.
    fn faces_of<'a>(&'a self, label: u32) -> Box<dyn Iterator<Item = (usize, &'a Face)> + 'a> {
        match self.by_label.get(&label) {
            None => Box::new(std::iter::empty()),
            Some(v) => Box::new(v.iter().map(move |&i| (i, &self.faces[i]))),
        }
    }

    fn face_walks(f: &Face) -> Vec<Vec<Pt>> {
        let mut v = vec![f.outer.clone()];
        v.extend(f.holes.iter().map(|h| reversed(h)));
        v
    }

    /// The exact directed boundary of a region (interior on the right-hand
    /// side as drawn).
    pub fn boundary(&self, label: u32) -> BTreeMap<Seg, i32> {
        let w: Vec<Vec<Pt>> = self.faces_of(label).map(|x| x.1).flat_map(Self::face_walks).collect();
        cancel(&w)
    }

    /// Boundary of everything that is covered.
    pub fn outline(&self) -> BTreeMap<Seg, i32> {
        let w: Vec<Vec<Pt>> = self.faces.iter().filter(|f| f.label > 0).flat_map(Self::face_walks).collect();
        cancel(&w)
    }

    pub fn area2_of(&self, label: u32) -> i128 {
        self.faces_of(label).map(|x| x.1).map(|f| area2(&f.outer) - f.holes.iter().map(|h| area2(h)).sum::<i128>()).sum()
    }

    pub fn describe(&self, d: &DescSpec) -> Vec<InRegion> {
        let pick = |v: &Vec<u16>, i: usize| if v.is_empty() { 0 } else { v[i % v.len()] };
        let mut regions = vec![];
        let mut k = 0usize; // ring counter
        let mut slits = d.slits.iter().cloned().collect::<std::collections::VecDeque<u8>>();
        for label in self.labels() {
            let mut groups: BTreeMap<u32, Vec<Vec<Pt>>> = BTreeMap::new();
            for (fi, f) in self.faces_of(label) {
                let g = match d.mode % 3 {
                    0 => fi as u32,
                    1 => 0,
                    _ => if d.groups.is_empty() { 0 } else { d.groups[fi % d.groups.len()] as u32 % 3 },
                };
                groups.entry(g).or_insert_with(Vec::new).extend(Self::face_walks(f));
            }
            let mut outer: Vec<(u16, Vec<Pt>)> = vec![];
            let mut inner: Vec<(u16, Vec<Pt>)> = vec![];
            for walks in groups.values() {
                let boundary = cancel(walks);
                let mut rings = trace(&boundary);
                if !slits.is_empty() && boundary.len() < 600 {
                    let n = (slits[0] % 4) as usize;
                    slits.pop_front();
                    let mut segs: Vec<Seg> = boundary.keys().cloned().collect();
                    for _ in 0..n {
                        if let Some(x) = slits.pop_front() {
                            add_slit(&mut rings, &mut segs, boundary.len(), x);
                        }
                    }
                }
                for mut ring in rings {
                    let is_outer = area2(&ring) > 0;
                    let n = ring.len() - 1;
                    let rot = pick(&d.rot, k) as usize % n;
                    ring.pop();
                    ring.rotate_left(rot);
                    let f = ring[0];
                    ring.push(f);
                    let flags = if d.flags.is_empty() { 0 } else { d.flags[k % d.flags.len()] };
                    if flags & 1 != 0 { ring.reverse(); }
                    if flags & 6 == 6 {
                        let i = (flags as usize >> 3) % ring.len();
                        let q = ring[i];
                        ring.insert(i, q);
                    }
                    let o = pick(&d.order, k);
                    if is_outer { outer.push((o, ring)) } else { inner.push((o, ring)) }
                    k += 1;
                }
            }
            outer.sort_by_key(|x| x.0);
            inner.sort_by_key(|x| x.0);
            regions.push(InRegion {
                data: format!("r{}", label),
                outer: outer.into_iter().map(|x| x.1).collect(),
                inner: inner.into_iter().map(|x| x.1).collect(),
            });
        }
        if d.degenerate != 0 && !regions.is_empty() {
            let first = regions[0].outer[0].clone();
            let (a, b) = (first[0], *first.iter().find(|q| **q != first[0]).unwrap());
            let spike = vec![a, b, a];
            let flat = vec![a, b, b, a, a];
            if d.degenerate & 1 != 0 { regions[0].outer.insert(0, spike.clone()); }
            if d.degenerate & 2 != 0 { regions[0].inner.push(flat.clone()); }
            if d.degenerate & 4 != 0 { regions.push(InRegion { data: "zero".into(), outer: vec![flat, spike.clone()], inner: vec![] }); }
            if d.degenerate & 8 != 0 { regions.insert(0, InRegion { data: "zero-with-hole".into(), outer: vec![spike.clone()], inner: vec![first] }); }
            if d.degenerate & 16 != 0 { regions.push(InRegion { data: "none".into(), outer: vec![], inner: vec![] }); }
        }
        regions
    }
}

fn orient(a: Pt, b: Pt, c: Pt) -> i32 {
    let i = |u: u32| u as i128;
    ((i(b.0) - i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1))).signum() as i32
}

fn on(a: Pt, b: Pt, q: Pt) -> bool {
    orient(a, b, q) == 0 && q.0 >= a.0.min(b.0) && q.0 <= a.0.max(b.0) && q.1 >= a.1.min(b.1) && q.1 <= a.1.max(b.1)
}

/// Makes a ring of a part run along a new segment inside the part, there and
/// back. `segs`: the part's boundary (the first `n` of them) and earlier slits.
fn add_slit(rings: &mut Vec<Vec<Pt>>, segs: &mut Vec<Seg>, n: usize, seed: u8) {
    // The segment a-b touches nothing but at its ends, and lies inside the part
    // and inside `ring`.
    let fits = |segs: &[Seg], ring: &[Pt], a: Pt, b: Pt| -> bool {
        for &(c, d) in segs.iter() {
            if (c == a && d == b) || (c == b && d == a) {
                return false;
            }
            for (q, s, t) in [(a, c, d), (b, c, d), (c, a, b), (d, a, b)] {
                if q != s && q != t && on(s, t, q) {
                    return false;
                }
            }
            if orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0 {
                return false;
            }
        }
        // in doubled coordinates
        let (mx, my) = (a.0 as i128 + b.0 as i128, a.1 as i128 + b.1 as i128);
        let within = |segs: &mut dyn Iterator<Item = Seg>| -> bool {
          let mut inside = false;
          for (c, d) in segs {
            let (cx, cy, dx, dy) = (2 * c.0 as i128, 2 * c.1 as i128, 2 * d.0 as i128, 2 * d.1 as i128);
            if (cy > my) != (dy > my) {
                let side = (dx - cx) * (my - cy) - (mx - cx) * (dy - cy);
                if (side > 0) == (dy > cy) {
                    inside = !inside;
                }
            }
          }
          inside
        };
        within(&mut segs[..n].iter().cloned()) && within(&mut ring.windows(2).map(|s| (s[0], s[1])))
    };
    let outer: Vec<usize> = (0..rings.len()).filter(|&i| area2(&rings[i]) > 0).collect();
    let inner: Vec<usize> = (0..rings.len()).filter(|&i| area2(&rings[i]) < 0).collect();
    let o = outer[seed as usize % outer.len()];
    for attempt in 0..6usize {
        let h = h64(&(seed, attempt)) as usize;
        let v = h % (rings[o].len() - 1);
        let a = rings[o][v];
        if !inner.is_empty() && seed & 64 != 0 {
            // around a hole, joined at the vertex next to `a`
            let i = inner[h / 8191 % inner.len()];
            let d = |q: &Pt| (q.0 as i128 - a.0 as i128).pow(2) + (q.1 as i128 - a.1 as i128).pow(2);
            let u = (0..rings[i].len() - 1).min_by_key(|&u| d(&rings[i][u])).unwrap();
            let b = rings[i][u];
            // the hole lies inside this ring, not in another one touching both
            let holds = rings[i].iter().all(|q| {
                let ring = &rings[o];
                let mut inside = false;
                for s in ring.windows(2) {
                    if on(s[0], s[1], *q) {
                        return true;
                    }
                    if (s[0].1 > q.1) != (s[1].1 > q.1) && (orient(s[0], s[1], *q) > 0) == (s[1].1 > s[0].1) {
                        inside = !inside;
                    }
                }
                inside
            });
            if a != b && holds && area2(&rings[o]) + area2(&rings[i]) > 0 && fits(segs, &rings[o], a, b) {
                let m = rings[i].len() - 1;
                let mut new: Vec<Pt> = rings[o][..v + 1].to_vec();
                new.extend((0..m + 1).map(|k| rings[i][(u + k) % m]));
                new.extend_from_slice(&rings[o][v..]);
                rings[o] = new;
                rings.remove(i);
                segs.push((a, b));
                return;
            }
        } else {
            let all: Vec<Pt> = rings.iter().flat_map(|r| r.iter().cloned()).collect();
            let w = all[h / 8191 % all.len()];
            let f = 1 + (h / 77777 % 7) as i128;
            let at = |x: u32, y: u32| (x as i128 + (y as i128 - x as i128) * f / 8) as u32;
            let b = Point(at(a.0, w.0), at(a.1, w.1));
            if a != b && !all.contains(&b) && fits(segs, &rings[o], a, b) {
                let mut new: Vec<Pt> = rings[o][..v + 1].to_vec();
                new.push(b);
                new.extend_from_slice(&rings[o][v..]);
                rings[o] = new;
                segs.push((a, b));
                return;
            }
        }
    }
}

/// Turns described regions into library input. With `repr` > 0 rings become
/// lists of multi-point edges; all rings are split at the same points, so
/// that shared boundaries are the same edge paths from both sides.
pub fn to_regions(rs: &[InRegion], repr: u8) -> Vec<Region<String>> {
    let mut nbr: HashMap<Pt, BTreeSet<Pt>> = HashMap::new();
    if repr > 0 {
        for r in rs {
            for ring in r.outer.iter().chain(r.inner.iter()) {
                if area2(ring) == 0 { continue; }
                for s in ring.windows(2) {
                    if s[0] != s[1] {
                        nbr.entry(s[0]).or_insert_with(BTreeSet::new).insert(s[1]);
                        nbr.entry(s[1]).or_insert_with(BTreeSet::new).insert(s[0]);
                    }
                }
            }
        }
    }
    let split = |q: &Pt| nbr.get(q).map_or(true, |n| n.len() != 2) || h64(q) % (repr as u64) == 0;
    let conv = |ring: &Vec<Pt>| -> Ring {
        if repr == 0 || area2(ring) == 0 {
            return Ring::Points(ring.clone().into_boxed_slice());
        }
        let open: Vec<Pt> = dedup(ring)[..].to_vec();
        let open = &open[..open.len() - 1];
        let n = open.len();
        let start = (0..n).find(|&i| split(&open[i])).unwrap_or_else(|| (0..n).min_by_key(|&i| open[i]).unwrap());
        let mut edges: Vec<Edge> = vec![];
        let mut cur = vec![open[start]];
        for k in 1..=n {
            let q = open[(start + k) % n];
            cur.push(q);
            if k == n || split(&q) {
                edges.push(Edge(cur.clone().into_boxed_slice()));
                cur = vec![q];
            }
        }
        if dedup(ring).len() != ring.len() {
            edges.push(Edge(vec![open[start], open[start]].into_boxed_slice()));
        }
        Ring::Edges(edges.into_boxed_slice())
    };
    rs.iter().map(|r| Region {
        data: r.data.clone(),
        outer_rings: r.outer.iter().map(&conv).collect::<Vec<_>>().into_boxed_slice(),
        inner_rings: r.inner.iter().map(&conv).collect::<Vec<_>>().into_boxed_slice(),
    }).collect()
}

pub fn cell_strategy() -> impl Strategy<Value = Cell> {
    (prop_oneof![2 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], 0u8..12, 0u8..12, prop_oneof![5 => Just(0u8), 4 => 1u8..9, 1 => 129u8..137], any::<u8>())
        .prop_map(|(diag, la, lb, isl, li)| Cell { diag, la, lb, isl, li })
}

pub fn offset_strategy() -> impl Strategy<Value = u32> {
    prop_oneof![2 => Just(0u32), 2 => Just(1u32), 4 => any::<u32>()]
}

/// `exact_only`: only maps whose crossings with axis-parallel lines are whole.
pub fn map_strategy(exact_only: bool, big: u8) -> BoxedStrategy<MapSpec> {
    let scale = if exact_only {
        prop_oneof![3 => Just(EXACT), 1 => Just(EXACT_LARGE)].boxed()
    } else {
        prop_oneof![3 => Just(SMALL), 3 => Just(MEDIUM), 2 => Just(LARGE), 2 => Just(EXACT), 1 => Just(EXACT_LARGE)].boxed()
    };
    let dim = prop_oneof![1 => Just(1u8), 6 => 2u8..=3, 3 => 4u8..=5, 1 => 4u8..=big];
    let dim2 = prop_oneof![1 => Just(1u8), 6 => 2u8..=3, 3 => 4u8..=5, 1 => 4u8..=big];
    (
        (dim, dim2, prop_oneof![2 => Just(1u8), 4 => Just(2u8), 4 => Just(3u8), 2 => 4u8..12]),
        (scale, any::<u32>(), offset_strategy(), offset_strategy()),
        vec(cell_strategy(), 0..50),
        vec((-100i8..=100, -100i8..=100), 0..36),
        vec(any::<u8>(), 0..30),
        prop_oneof![1 => Just(0u8), 1 => 0u8..240],
    )
        .prop_map(|((w, h, nlab), (scale, step, offx, offy), cells, jit, mids, bias)| MapSpec { w, h, nlab, scale, step, offx, offy, cells, jit, mids, bias, uniq: false, long: 0 })
        .boxed()
}

/// Maps of very many cells, or of few cells with very long edges.
/// `few`: no region of very many rings.
pub fn large_map_strategy(exact_only: bool, few: bool) -> BoxedStrategy<MapSpec> {
    let dim = || prop_oneof![2 => 10u8..40, 2 => 40u8..120, 1 => 180u8..=255];
    let many = (map_strategy(exact_only, 4), dim(), dim(), any::<bool>(), any::<bool>(), any::<u8>()).prop_map(move |(mut m, w, h, uniq, plain, nlab)| {
        m.w = w;
        m.h = h;
        if few {
            m.uniq = uniq;
            if !uniq {
                m.bias = 255;
            }
        } else {
            m.uniq = uniq && m.bias < 120;
            if m.nlab > 3 {
                m.nlab = nlab.max(4);
            }
        }
        if plain || few {
            for c in m.cells.iter_mut() {
                c.isl = 0;
            }
        }
        m
    });
    let long = (map_strategy(false, 4), 1u8..4, 1u8..4, prop_oneof![1 => 250u16..260, 2 => 300u16..6000, 1 => 6000u16..30000, 1 => Just(65535u16)]).prop_map(|(mut m, w, h, long)| {
        m.scale = LARGE;
        m.w = w;
        m.h = h;
        m.long = long;
        m
    });
    if exact_only { many.boxed() } else { prop_oneof![3 => many, 2 => long].boxed() }
}

pub fn desc_strategy() -> BoxedStrategy<DescSpec> {
    (
        0u8..3,
        vec(0u8..3, 0..8),
        vec(any::<u16>(), 0..8),
        vec(any::<u8>(), 0..8),
        vec(any::<u16>(), 0..8),
        prop_oneof![3 => Just(0u8), 2 => 1u8..6],
        prop_oneof![3 => Just(0u8), 1 => 0u8..32],
        prop_oneof![3 => Just(vec![]).boxed(), 1 => vec(any::<u8>(), 0..24).boxed()],
    )
        .prop_map(|(mode, groups, rot, flags, order, repr, degenerate, slits)| DescSpec { mode, groups, rot, flags, order, repr, degenerate, slits })
        .boxed()
}

/// Exact test that no two segments of the map meet except at common end
/// points, and every face is simple. Used to validate the generator itself.
pub fn validate(m: &PlanarMap) -> Result<(), String> {
    let mut segs: HashSet<Seg> = HashSet::new();
    for f in m.faces.iter() {
        if area2(&f.outer) <= 0 {
            return Err(format!("face not clockwise {}", show(&f.outer)));
        }
        for w in PlanarMap::face_walks(f) {
            let open: BTreeSet<Pt> = w[..w.len() - 1].iter().cloned().collect();
            if open.len() != w.len() - 1 {
                return Err(format!("repeated vertex {}", show(&w)));
            }
            for s in w.windows(2) {
                segs.insert(if s[0] < s[1] { (s[0], s[1]) } else { (s[1], s[0]) });
            }
        }
    }
    let all: Vec<Vec<Pt>> = m.faces.iter().flat_map(PlanarMap::face_walks).collect();
    for (s, n) in cancel(&all) {
        if n != 1 {
            return Err(format!("segment {}->{} used {} times", s.0, s.1, n));
        }
    }
    let v: Vec<Seg> = segs.into_iter().collect();
    for i in 0..v.len() {
        for j in 0..i {
            let ((a, b), (c, d)) = (v[i], v[j]);
            for (q, s, t) in vec![(a, c, d), (b, c, d), (c, a, b), (d, a, b)] {
                if q != s && q != t && on(s, t, q) {
                    return Err(format!("point {} on segment {}-{}", q, s, t));
                }
            }
            let (o1, o2, o3, o4) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
            if o1 * o2 < 0 && o3 * o4 < 0 {
                return Err(format!("segments {}-{} and {}-{} cross", a, b, c, d));
            }
        }
    }
    Ok(())
}
