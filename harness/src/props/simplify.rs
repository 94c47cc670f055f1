//! C18-C20: simplifying.
use std::collections::{BTreeSet, HashSet};
use std::ptr;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use topogeo::topology::{TopoEdge, Topology};
use topogeo::{normalize, simplify};

use super::build::{build, large_map_case, map_case, MapCase};
use super::history::MaskSpec;
use super::geo::{coord, long, path, Long};
use crate::geom::*;
use crate::maps::*;
use crate::run::*;
use crate::topo::*;

/// Simplifies bare paths.
pub fn simplify_paths(paths: &[Vec<Pt>], t: u64) -> Vec<Vec<Pt>> {
    let edges: Vec<TopoEdge<()>> = paths.iter().map(|p| TopoEdge { points: p.clone().into_boxed_slice(), rings: [ptr::null(), ptr::null()] }).collect();
    let top = Topology { regions: vec![].into_boxed_slice(), edges: edges.into_boxed_slice() };
    simplify(top, t).edges.iter().map(|e| e.points.to_vec()).collect()
}

fn is_closed(p: &[Pt]) -> bool {
    p[0] == p[p.len() - 1]
}

fn is_subsequence(small: &[Pt], big: &[Pt]) -> bool {
    let mut it = big.iter();
    small.iter().all(|s| it.any(|b| b == s))
}

/// Which threshold to use: one of the areas met while simplifying (so that
/// ties with the threshold happen), nudged, or a fixed value.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Th {
    Fixed(u64),
    Met(u16, i8),
}

pub fn threshold() -> BoxedStrategy<Th> {
    prop_oneof![
        1 => Just(Th::Fixed(0)),
        1 => Just(Th::Fixed(u64::max_value())),
        2 => (0u64..200).prop_map(Th::Fixed),
        2 => any::<u64>().prop_map(Th::Fixed),
        1 => (0u32..64).prop_map(|b| Th::Fixed(1u64 << b)),
        6 => (any::<u16>(), prop_oneof![3 => Just(0i8), 1 => Just(-1i8), 1 => Just(1i8)]).prop_map(|(i, d)| Th::Met(i, d)),
    ]
    .boxed()
}

/// Removal areas of one full run (lowest index first among equals).
fn areas_met(p: &[Pt]) -> Vec<u64> {
    let mut left: Vec<usize> = (0..p.len()).collect();
    let mut out = vec![];
    let cap = 400;
    while left.len() > 2 && out.len() < cap {
        let (k, a) = (1..left.len() - 1).map(|k| (k, tri2(p[left[k - 1]], p[left[k]], p[left[k + 1]]))).min_by_key(|x| x.1).unwrap();
        out.push(a as u64);
        left.remove(k);
    }
    out
}

impl Th {
    pub fn get(&self, p: &[Pt]) -> u64 {
        match *self {
            Th::Fixed(v) => v,
            Th::Met(i, d) => {
                let a = if p.len() < 2 { vec![] } else { areas_met(p) };
                if a.is_empty() {
                    return 5;
                }
                let v = a[i as usize % a.len()] as i128 + d as i128;
                v.max(0).min(u64::max_value() as i128) as u64
            }
        }
    }
}

/// Edges of two or more points; `open` picks closed ones.
fn edge_path(max: usize) -> BoxedStrategy<Vec<(u32, u32)>> {
    let wiggle = (any::<u32>(), any::<u32>(), 1u32..2000, vec((0u32..1000, 0u32..100), 2..3 * max)).prop_map(|(x, y, s, v)| {
        let x = x / 2;
        let y = y / 2;
        v.into_iter().enumerate().map(|(i, (a, b))| (x + i as u32 * s + a, y + b * s)).collect::<Vec<_>>()
    });
    (prop_oneof![4 => path(max), 2 => wiggle, 1 => vec((coord(), coord()), 2..5)], any::<bool>(), coord(), coord())
        .prop_map(|(mut v, close, x, y)| {
            while v.len() < 2 {
                v.push((x, y.wrapping_add(v.len() as u32)));
            }
            if close {
                let f = v[0];
                v.push(f);
            }
            v
        })
        .boxed()
}

fn to_pts(v: &[(u32, u32)]) -> Vec<Pt> {
    v.iter().map(pt).collect()
}

// ------------------------------------------------------------------- C18

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FrameCase {
    pub map: MapCase,
    pub norm: bool,
    pub clip: Option<MaskSpec>,
    pub t1: Th,
    pub t2: Option<u64>,
    pub paths: Vec<Vec<(u32, u32)>>,
}

fn frame_of_edge(before: &[Pt], after: &[Pt]) -> Res {
    let closed = is_closed(before);
    if after.len() < 2 || after[0] != before[0] || after[after.len() - 1] != before[before.len() - 1] {
        return Err(format!("edge {} becomes {}: its ends changed", show(before), show(after)));
    }
    if !is_subsequence(&after[1..after.len() - 1], &before[1..before.len() - 1]) {
        return Err(format!("edge {} becomes {}: its inner points are not among the old ones in order", show(before), show(after)));
    }
    if closed && before.len() < 4 && before != after {
        return Err(format!("closed edge {} becomes {}", show(before), show(after)));
    }
    if closed && before.len() >= 4 && after.len() < 4 {
        return Err(format!("closed edge {} is left with {} points", show(before), after.len()));
    }
    Ok(())
}

pub struct C18;
impl Prop for C18 {
    type Case = FrameCase;
    const ID: &'static str = "C18";
    const RULE: &'static str = "topologies built from generated maps, optionally normalized and clipped, plus arbitrary bare edges (2..200 points, whole u32 range, closed or open), simplified once or twice with thresholds from 0 to 2^64-1 including exactly met areas; oracle: the topology before, edge by edge. Non-trivial: some edge loses a point and some keeps an inner one";
    const QUICK: u64 = 220_000;
    fn strategy(_: Tier) -> BoxedStrategy<FrameCase> {
        (map_case(false, 8), any::<bool>(), proptest::option::weighted(0.4, MaskSpec::strategy()), threshold(), proptest::option::weighted(0.3, any::<u64>()), vec(edge_path(20), 0..3))
            .prop_map(|(map, norm, clip, t1, t2, paths)| FrameCase { map, norm, clip, t1, t2, paths })
            .boxed()
    }
    const LARGE: u64 = 2;
    fn large(t: Tier) -> Option<BoxedStrategy<FrameCase>> {
        Some((Self::strategy(t), large_map_case(false, false)).prop_map(|(c, map)| FrameCase { map, ..c }).boxed())
    }
    fn check(c: &FrameCase, ctx: &mut Ctx) -> Res {
        let m = c.map.map.build();
        let t = build(to_regions(&m.describe(&c.map.desc), c.map.desc.repr));
        let t = if c.norm { normalize(&t) } else { t };
        let t = match c.clip {
            Some(ref k) => topogeo::clip::clip_topology(&t, &k.mask(&m)),
            None => t,
        };
        let before = snap(&t)?;
        let longest = before.edges.iter().max_by_key(|e| e.len()).cloned().unwrap_or_default();
        let t1 = c.t1.get(&longest);
        let mut cur = simplify(t, t1);
        let mut prev = before.clone();
        let mut ts = vec![t1];
        ts.extend(c.t2);
        let (mut lost, mut kept) = (false, false);
        for (k, _) in ts.iter().enumerate() {
            if k > 0 {
                cur = simplify(cur, ts[k]);
            }
            let s = snap(&cur)?;
            if s.regions != prev.regions {
                return Err("simplifying changed regions, rings or which edges they use".into());
            }
            if s.edges.len() != prev.edges.len() {
                return Err(format!("{} edges instead of {}", s.edges.len(), prev.edges.len()));
            }
            for (a, b) in prev.edges.iter().zip(s.edges.iter()) {
                frame_of_edge(a, b)?;
                lost |= b.len() < a.len();
                kept |= b.len() > 2;
            }
            integrity(&cur)?;
            prev = s;
        }
        let paths: Vec<Vec<Pt>> = c.paths.iter().map(|p| to_pts(p)).collect();
        for p in paths.iter() {
            let th = c.t1.get(p);
            let out = simplify_paths(&[p.clone()], th);
            if out.len() != 1 {
                return Err(format!("{} edges from one", out.len()));
            }
            frame_of_edge(p, &out[0])?;
            lost |= out[0].len() < p.len();
            kept |= out[0].len() > 2;
        }
        ctx.nontrivial = lost && kept;
        ctx.label_if(c.norm, "normalized");
        ctx.label_if(c.clip.is_some(), "clipped");
        Ok(())
    }
}

// ------------------------------------------------------------------- C19

/// Reachability of a result under Visvalingam-Whyatt, any order among ties.
struct Vw<'a> {
    p: &'a [Pt],
    t: u128,
    steps: u32,
}

enum Verdict {
    Yes,
    No,
    Unknown,
}

const STEPS: u32 = 60_000;

impl<'a> Vw<'a> {
    fn mins(&self, left: &[usize]) -> (u128, Vec<usize>) {
        let mut min = u128::max_value();
        let mut at = vec![];
        for k in 1..left.len() - 1 {
            let a = tri2(self.p[left[k - 1]], self.p[left[k]], self.p[left[k + 1]]);
            if a < min {
                min = a;
                at.clear();
            }
            if a == min {
                at.push(k);
            }
        }
        (min, at)
    }

    /// All sets of points that can be left over.
    fn finals(&mut self) -> (HashSet<Vec<usize>>, bool) {
        let mut seen: HashSet<Vec<usize>> = HashSet::new();
        let mut out = HashSet::new();
        let mut todo = vec![(0..self.p.len()).collect::<Vec<usize>>()];
        while let Some(mut left) = todo.pop() {
            // unique minima need no branching
            loop {
                self.steps += 1;
                if self.steps > STEPS {
                    return (out, false);
                }
                if left.len() <= 2 {
                    out.insert(left);
                    break;
                }
                let (min, at) = self.mins(&left);
                if min > self.t {
                    out.insert(left);
                    break;
                }
                if at.len() == 1 {
                    left.remove(at[0]);
                    continue;
                }
                for k in at {
                    let mut n = left.clone();
                    n.remove(k);
                    if seen.insert(n.clone()) {
                        todo.push(n);
                    }
                }
                break;
            }
        }
        (out, true)
    }

    /// Can i and j be the two most significant inner points? Effective
    /// weights never go down along the removal order, so once the first of
    /// the two has gone, everything else must go at that same weight.
    fn top_two(&mut self, i: usize, j: usize) -> Verdict {
        let mut seen: HashSet<(Vec<usize>, Option<u128>, u128)> = HashSet::new();
        let mut todo: Vec<(Vec<usize>, Option<u128>, u128)> = vec![((0..self.p.len()).collect(), None, 0)];
        while let Some((left, gone, last)) = todo.pop() {
            self.steps += 1;
            if self.steps > STEPS {
                return Verdict::Unknown;
            }
            if !left.contains(&i) && !left.contains(&j) || left.len() <= 4 && left[1..left.len() - 1].iter().all(|k| *k == i || *k == j) {
                // whatever else is left must not weigh more
                if left[1..left.len() - 1].iter().all(|k| *k == i || *k == j) {
                    return Verdict::Yes;
                }
            }
            let (min, at) = self.mins(&left);
            let eff = min.max(last);
            for k in at {
                let chosen = left[k] == i || left[k] == j;
                let g = match gone {
                    None => if chosen { Some(eff) } else { None },
                    Some(w) => {
                        if !chosen && eff > w {
                            continue;
                        }
                        Some(w)
                    }
                };
                let mut n = left.clone();
                n.remove(k);
                let st = (n, g, eff);
                if seen.insert(st.clone()) {
                    todo.push(st);
                }
            }
        }
        Verdict::No
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct VwCase {
    pub path: Vec<(u32, u32)>,
    pub t: Th,
    #[serde(default)]
    pub long: Long,
    /// of a long path: points to be removed, in 1/65535
    #[serde(default)]
    pub share: u16,
}

/// Visvalingam-Whyatt with a sorted set, for long edges. None: a tie made the
/// outcome depend on an order that is left open. The areas of the removals in
/// order come with it; `stop`: threshold.
fn fast_vw(p: &[Pt], stop: u128) -> Option<(Vec<usize>, Vec<u128>)> {
    let n = p.len();
    let mut prev: Vec<usize> = (0..n).map(|i| i.wrapping_sub(1)).collect();
    let mut next: Vec<usize> = (1..=n).collect();
    let mut area: Vec<u128> = vec![0; n];
    let mut set: BTreeSet<(u128, usize)> = BTreeSet::new();
    for i in 1..n - 1 {
        area[i] = tri2(p[i - 1], p[i], p[i + 1]);
        set.insert((area[i], i));
    }
    let mut gone = vec![false; n];
    let mut order = vec![];
    while let Some(&(a, i)) = set.iter().next() {
        if a > stop {
            break;
        }
        if let Some(&(b, _)) = set.iter().nth(1) {
            if a == b {
                return None;
            }
        }
        set.remove(&(a, i));
        order.push(a);
        gone[i] = true;
        let (l, r) = (prev[i], next[i]);
        next[l] = r;
        prev[r] = l;
        for &k in [l, r].iter() {
            if k > 0 && k < n - 1 {
                set.remove(&(area[k], k));
                area[k] = tri2(p[prev[k]], p[k], p[next[k]]);
                set.insert((area[k], k));
            }
        }
    }
    Some(((0..n).filter(|&i| !gone[i]).collect(), order))
}

/// Long edges, no ties.
fn check_long(c: &VwCase, ctx: &mut Ctx) -> Res {
    let mut p: Vec<Pt> = to_pts(&c.long.extend(&c.path));
    p.dedup();
    if is_closed(&p) {
        p.pop();
    }
    let order = match fast_vw(&p, u128::max_value()) {
        Some(o) => o.1,
        None => {
            ctx.label("too many ties");
            return Ok(());
        }
    };
    // effective areas never go down: the running maximum
    let mut eff = order.clone();
    for i in 1..eff.len() {
        eff[i] = eff[i].max(eff[i - 1]);
    }
    let t = if eff.is_empty() { 5 } else { eff[c.share as usize * (eff.len() - 1) / 65535].min(u64::max_value() as u128) as u64 };
    let want: Vec<Pt> = fast_vw(&p, t as u128).unwrap().0.iter().map(|&i| p[i]).collect();
    let out = simplify_paths(&[p.clone()], t).remove(0);
    ctx.nontrivial = want.len() < p.len();
    if out != want {
        let i = (0..out.len().min(want.len())).find(|&i| out[i] != want[i]).unwrap_or(0);
        return Err(format!("an edge of {} points at threshold {} is left with {} points, expected {}; the first difference is at no. {}: {} instead of {}", p.len(), t, out.len(), want.len(), i, out[i], want[i]));
    }
    Ok(())
}

pub struct C19;
impl Prop for C19 {
    type Case = VwCase;
    const ID: &'static str = "C19";
    const RULE: &'static str = "edges of 2..200 points (small grids with many ties, random over the whole u32 range, wiggly lines, repeated and collinear points; open and closed) and thresholds of which most equal an area met on the way, or miss it by one; oracle: a naive Visvalingam-Whyatt that tries every order among equal areas. Non-trivial: three or more removals and a removal whose area had changed since the start, or the closed-edge fallback";
    const ASSUMPTIONS: &'static [&'static str] = &["where exploring all orders among ties exceeds 60000 steps, only the stopping rule is checked (counted as 'too many ties')"];
    const QUICK: u64 = 1_400_000;
    fn strategy(_: Tier) -> BoxedStrategy<VwCase> {
        (prop_oneof![3 => edge_path(14), 1 => edge_path(40)], threshold()).prop_map(|(path, t)| VwCase { path, t, long: Long::default(), share: 0 }).boxed()
    }
    const LARGE: u64 = 10;
    fn large(_: Tier) -> Option<BoxedStrategy<VwCase>> {
        (edge_path(8), long(), any::<bool>(), any::<u16>()).prop_map(|(path, long, k, share)| VwCase { path, t: Th::Fixed(0), long: Long { kind: k as u8, ..long }, share }).boxed().into()
    }
    fn check(c: &VwCase, ctx: &mut Ctx) -> Res {
        if c.long.n > 0 {
            return check_long(c, ctx);
        }
        let p = to_pts(&c.path);
        let t = c.t.get(&p);
        let out = simplify_paths(&[p.clone()], t).remove(0);
        let closed = is_closed(&p);
        if closed && p.len() < 4 {
            if out != p {
                return Err(format!("closed edge {} of fewer than four points becomes {}", show(&p), show(&out)));
            }
            return Ok(());
        }
        let bad = |why: &str| Err(format!("edge {} at threshold {} becomes {}: {}", show(&p), t, show(&out), why));
        if out.is_empty() || !is_subsequence(&out, &p) {
            return bad("not a selection of its points");
        }
        let mut vw = Vw { p: &p, t: t as u128, steps: 0 };
        let (finals, complete) = vw.finals();
        let pts = |ix: &Vec<usize>| -> Vec<Pt> { ix.iter().map(|&i| p[i]).collect() };
        let changed = {
            let first: Vec<u128> = (1..p.len() - 1).map(|i| tri2(p[i - 1], p[i], p[i + 1])).collect();
            let firsts: BTreeSet<u128> = first.into_iter().collect();
            areas_met(&p).iter().take(p.len().saturating_sub(out.len())).any(|a| !firsts.contains(&(*a as u128)))
        };
        ctx.nontrivial = p.len() >= out.len() + 3 && changed;
        ctx.label_if(p.len() > 30, "over 30 points");
        ctx.label_if(out.len() == p.len(), "nothing removed");
        ctx.label_if(finals.len() > 1, "ties leave several results");
        let mut fallback = false;
        for f in finals.iter() {
            if closed && f.len() < 4 {
                fallback = true;
            } else if pts(f) == out {
                return Ok(());
            }
        }
        if fallback {
            ctx.nontrivial = true;
            ctx.label("closed edge held at four points");
            if out.len() == 4 && out[0] == p[0] && out[3] == p[p.len() - 1] {
                let mut unknown = false;
                for i in 1..p.len() - 1 {
                    if p[i] != out[1] { continue; }
                    for j in i + 1..p.len() - 1 {
                        if p[j] != out[2] { continue; }
                        match vw.top_two(i, j) {
                            Verdict::Yes => return Ok(()),
                            Verdict::No => {}
                            Verdict::Unknown => unknown = true,
                        }
                    }
                }
                if unknown {
                    ctx.label("too many ties");
                    return Ok(());
                }
            }
            if complete {
                return bad("not the two most significant inner points");
            }
        }
        if !complete {
            ctx.label("too many ties");
            // only the stopping rule
            for k in 1..out.len() - 1 {
                if tri2(out[k - 1], out[k], out[k + 1]) <= t as u128 && !(closed && out.len() == 4) {
                    return bad(&format!("{} should have gone", out[k]));
                }
            }
            return Ok(());
        }
        let want: Vec<String> = finals.iter().take(3).map(|f| show(&pts(f))).collect();
        bad(&format!("expected {}", want.join(" or ")))
    }
}

// ------------------------------------------------------------------- C20

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct MetaCase {
    pub paths: Vec<Vec<(u32, u32)>>,
    pub t: Th,
    pub t2: Th,
    pub dx: u32,
    pub dy: u32,
    #[serde(default)]
    pub long: Long,
    /// as many edges
    #[serde(default)]
    pub times: u32,
}

pub struct C20;
impl Prop for C20 {
    type Case = MetaCase;
    const ID: &'static str = "C20";
    const RULE: &'static str = "one to four edges as in C19; relations: simplify twice = once; larger threshold keeps a subset; translation and exchange of axes commute; edges together = edges alone. Non-trivial: some edge loses some but not all inner points";
    const QUICK: u64 = 1_000_000;
    fn strategy(_: Tier) -> BoxedStrategy<MetaCase> {
        (vec(edge_path(20), 1..5), threshold(), threshold(), coord(), coord()).prop_map(|(paths, t, t2, dx, dy)| MetaCase { paths, t, t2, dx, dy, long: Long::default(), times: 0 }).boxed()
    }
    const LARGE: u64 = 8;
    fn large(t: Tier) -> Option<BoxedStrategy<MetaCase>> {
        Some((Self::strategy(t), long(), any::<bool>()).prop_map(|(c, long, many)| if many { MetaCase { times: long.n, ..c } } else { MetaCase { long, ..c } }).boxed())
    }
    fn check(c: &MetaCase, ctx: &mut Ctx) -> Res {
        let mut paths: Vec<Vec<Pt>> = c.paths.iter().map(|p| to_pts(p)).collect();
        let k = paths.len() - 1;
        paths[k] = to_pts(&c.long.extend(&c.paths[k]));
        let (first, last) = (paths[0].clone(), paths[k].clone());
        let n = paths.len();
        for i in 0..c.times as usize {
            let q = paths[i % n].clone();
            paths.push(q);
        }
        let t = c.t.get(&first);
        let once = simplify_paths(&paths, t);
        ctx.nontrivial = once.iter().zip(paths.iter()).any(|(a, b)| a.len() < b.len() && a.len() > 2);
        let twice = simplify_paths(&once, t);
        if let Some(i) = (0..once.len()).find(|&i| once[i] != twice[i]) {
            return Err(format!("simplifying {} again at {} changes it from {} to {}", show(&paths[i]), t, show(&once[i]), show(&twice[i])));
        }
        let u = c.t2.get(&last);
        let other = simplify_paths(&paths, u);
        let (small, large, lo, hi) = if t <= u { (&once, &other, t, u) } else { (&other, &once, u, t) };
        for i in 0..paths.len() {
            let held = is_closed(&paths[i]) && large[i].len() <= 4;
            if !held && !is_subsequence(&large[i], &small[i]) {
                return Err(format!("{} becomes {} at {} but {} at {}", show(&paths[i]), show(&small[i]), lo, show(&large[i]), hi));
            }
            if large[i].len() > small[i].len() {
                return Err(format!("{} keeps {} points at {} but {} at {}", show(&paths[i]), small[i].len(), lo, large[i].len(), hi));
            }
        }
        for i in 0..paths.len() {
            let alone = simplify_paths(&paths[i..i + 1], t).remove(0);
            if alone != once[i] {
                return Err(format!("{} at {} alone becomes {}, among others {}", show(&paths[i]), t, show(&alone), show(&once[i])));
            }
        }
        // exchange axes
        let swap = |v: &Vec<Vec<Pt>>| -> Vec<Vec<Pt>> { v.iter().map(|p| p.iter().map(|q| crate::topo::p(q.1, q.0)).collect()).collect() };
        let swapped = simplify_paths(&swap(&paths), t);
        if swapped != swap(&once) {
            return Err(format!("with x and y exchanged, simplifying at {} gives another result for {:?}", t, c.paths));
        }
        // translate, staying inside the range
        let max = |f: &dyn Fn(&Pt) -> u32| paths.iter().flat_map(|p| p.iter()).map(|q| f(q)).max().unwrap();
        let min = |f: &dyn Fn(&Pt) -> u32| paths.iter().flat_map(|p| p.iter()).map(|q| f(q)).min().unwrap();
        let shift = |lo: u32, hi: u32, d: u32| -> i64 {
            let room = lo as u64 + (u32::max_value() - hi) as u64;
            (d as u64 % (room + 1)) as i64 - lo as i64
        };
        let dx = shift(min(&|q| q.0), max(&|q| q.0), c.dx);
        let dy = shift(min(&|q| q.1), max(&|q| q.1), c.dy);
        ctx.label_if(dx != 0 || dy != 0, "translated");
        let mv = |v: &Vec<Vec<Pt>>| -> Vec<Vec<Pt>> { v.iter().map(|p| p.iter().map(|q| crate::topo::p((q.0 as i64 + dx) as u32, (q.1 as i64 + dy) as u32)).collect()).collect() };
        let moved = simplify_paths(&mv(&paths), t);
        if moved != mv(&once) {
            return Err(format!("moved by ({}, {}), simplifying at {} gives another result for {:?}", dx, dy, t, c.paths));
        }
        Ok(())
    }
}
