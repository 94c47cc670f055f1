//! C21-C24: clipping.
use std::collections::{BTreeMap, HashMap};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use topogeo::clip::clip_topology;
use topogeo::clip::edge::clip_edge;
use topogeo::normalize;

use super::build::{build, large_map_case, map_case, MapCase};
use super::geo::{coord, long, path, Long};
pub use super::history::{HistCase, Loc, Mask, MaskSpec};
use super::history::ops;
use crate::geom::*;
use crate::maps::*;
use crate::run::*;
use crate::topo::*;

/// Where a path meets the mask line.
#[derive(Clone, Debug)]
enum Tok {
    /// at a vertex of its own
    Vertex(Pt),
    /// between an inside vertex and an outside one
    Cross { inside: Pt, outside: Pt },
}

impl Tok {
    fn new(m: &Mask, inside: Pt, other: Pt) -> Tok {
        if m.loc(&other) == Loc::On { Tok::Vertex(other) } else { Tok::Cross { inside, outside: other } }
    }
    fn floor(&self, m: &Mask) -> (Pt, bool) {
        match *self {
            Tok::Vertex(q) => (q, true),
            Tok::Cross { inside, outside } => {
                let (f, whole) = m.crossing(&inside, &outside);
                (m.point(f), whole)
            }
        }
    }
    fn ok(&self, m: &Mask, q: &Pt) -> bool {
        let (f, whole) = self.floor(m);
        *q == f || (!whole && m.loc(q) == Loc::On && m.along(q) == m.along(&f) + 1)
    }
    fn show(&self, m: &Mask) -> String {
        let (f, whole) = self.floor(m);
        format!("{}{}", f, if whole { "" } else { "(+1)" })
    }
}

/// What lies between two inside vertices.
#[derive(Clone, Debug, Default)]
struct Gap {
    exit: Option<Tok>,
    entry: Option<Tok>,
    /// the path only touches the line, at one vertex
    touch: bool,
}

impl Gap {
    fn fits(&self, m: &Mask, run: &[Pt], touch_once: bool) -> bool {
        match (&self.exit, &self.entry) {
            (None, None) => run.is_empty(),
            (Some(a), None) | (None, Some(a)) => run.len() == 1 && a.ok(m, &run[0]),
            (Some(a), Some(b)) => match run.len() {
                1 => a.ok(m, &run[0]) && b.ok(m, &run[0]),
                2 => !(self.touch && touch_once) && a.ok(m, &run[0]) && b.ok(m, &run[1]),
                _ => false,
            },
        }
    }
    fn show(&self, m: &Mask) -> String {
        let f = |t: &Option<Tok>| t.as_ref().map_or("-".to_string(), |t| t.show(m));
        format!("{} .. {}", f(&self.exit), f(&self.entry))
    }
}

/// Inside vertices and the gaps before, between and after them.
fn expect_path(m: &Mask, path: &[Pt]) -> (Vec<Pt>, Vec<Gap>) {
    let ins: Vec<usize> = (0..path.len()).filter(|&i| m.loc(&path[i]) == Loc::In).collect();
    if ins.is_empty() {
        return (vec![], vec![Gap::default()]);
    }
    let mut gaps = vec![];
    let entry = |j: usize| Tok::new(m, path[j], path[j - 1]);
    let exit = |i: usize| Tok::new(m, path[i], path[i + 1]);
    gaps.push(Gap { exit: None, entry: if ins[0] > 0 { Some(entry(ins[0])) } else { None }, touch: false });
    for w in ins.windows(2) {
        gaps.push(if w[1] == w[0] + 1 { Gap::default() } else {
            Gap { exit: Some(exit(w[0])), entry: Some(entry(w[1])), touch: w[1] == w[0] + 2 && m.loc(&path[w[0] + 1]) == Loc::On }
        });
    }
    let l = ins[ins.len() - 1];
    gaps.push(Gap { exit: if l + 1 < path.len() { Some(exit(l)) } else { None }, entry: None, touch: false });
    (ins.iter().map(|&i| path[i]).collect(), gaps)
}

/// Splits clipped output into inside vertices and the runs on the line
/// before, between and after them.
fn split_output(m: &Mask, out: &[Pt]) -> Result<(Vec<Pt>, Vec<Vec<Pt>>), String> {
    let mut ins = vec![];
    let mut runs = vec![vec![]];
    for q in out {
        match m.loc(q) {
            Loc::In => {
                ins.push(*q);
                runs.push(vec![]);
            }
            Loc::On => runs.last_mut().unwrap().push(*q),
            Loc::Out => return Err(format!("{} lies outside the mask {:?}", q, m)),
        }
    }
    Ok((ins, runs))
}

fn match_path(m: &Mask, path: &[Pt], out: &[Pt], touch_once: bool) -> Res {
    let bad = |why: String| Err(format!("{} clipped to {:?} gives {}: {}", show(path), m, show(out), why));
    let (ins, gaps) = expect_path(m, path);
    let (oins, runs) = match split_output(m, out) {
        Ok(x) => x,
        Err(e) => return bad(e),
    };
    if ins != oins {
        return bad(format!("its inside vertices are {}, expected {}", show(&oins), show(&ins)));
    }
    for (k, (g, r)) in gaps.iter().zip(runs.iter()).enumerate() {
        if !g.fits(m, r, touch_once) {
            return bad(format!("before inside vertex no. {} it has {}, expected {}", k, show(r), g.show(m)));
        }
    }
    Ok(())
}

fn open_cycle(walk: &[Pt]) -> Vec<Pt> {
    let mut v = dedup(walk);
    while v.len() > 1 && v[0] == v[v.len() - 1] {
        v.pop();
    }
    v
}

/// Expected outline of a ring's inside part: for each inside vertex, the gap
/// that follows it.
fn expect_ring(m: &Mask, walk: &[Pt]) -> Vec<(Pt, Gap)> {
    let v = open_cycle(walk);
    let n = v.len();
    let ins: Vec<usize> = (0..n).filter(|&i| m.loc(&v[i]) == Loc::In).collect();
    let mut out = vec![];
    for (k, &i) in ins.iter().enumerate() {
        let j = ins[(k + 1) % ins.len()];
        let adjacent = (i + 1) % n == j && (n > 1);
        let gap = if adjacent { Gap::default() } else {
            Gap { exit: Some(Tok::new(m, v[i], v[(i + 1) % n])), entry: Some(Tok::new(m, v[j], v[(j + n - 1) % n])), touch: false }
        };
        out.push((v[i], gap));
    }
    out
}

fn match_ring(m: &Mask, walk: &[Pt], out: &[Pt]) -> Res {
    let want = expect_ring(m, walk);
    let o = open_cycle(out);
    let first = o.iter().position(|q| m.loc(q) == Loc::In);
    let bad = |why: &str| Err(format!("ring {} clipped to {:?} gives {}: {}", show(walk), m, show(out), why));
    let first = match first {
        Some(f) => f,
        None => return bad("it does not go inside the mask"),
    };
    let mut rot: Vec<Pt> = o[first..].to_vec();
    rot.extend_from_slice(&o[..first]);
    let (oins, runs) = match split_output(m, &rot) {
        Ok(x) => x,
        Err(e) => return bad(&e),
    };
    if oins.len() != want.len() {
        return bad("other inside vertices");
    }
    let runs = &runs[1..];
    let n = want.len();
    let mut why = "other inside vertices".to_string();
    for r in (0..n).filter(|&r| want[r].0 == oins[0]) {
        if (0..n).any(|k| want[(r + k) % n].0 != oins[k]) {
            continue;
        }
        match (0..n).find(|&k| !want[(r + k) % n].1.fits(m, &runs[k], false)) {
            None => return Ok(()),
            Some(k) => why = format!("after {} it has {}, expected {}", oins[k], show(&runs[k]), want[(r + k) % n].1.show(m)),
        }
    }
    bad(&why)
}

/// Range of the doubled signed area of what is left of a ring, over all ways
/// to round its crossings.
fn area_range(m: &Mask, walk: &[Pt]) -> (i128, i128) {
    let cross = |a: (i128, i128), b: (i128, i128)| a.0 * b.1 - b.0 * a.1;
    let mut pts = vec![];
    let (mut lo, mut hi) = (0i128, 0i128);
    let mut slack = |t: &Tok, sign: i128| {
        let (c, whole) = t.floor(m);
        if let (Tok::Cross { inside, .. }, false) = (t, whole) {
            let e = if m.is_x() { (0, 1) } else { (1, 0) };
            let d = sign * cross((inside.0 as i128 - c.0 as i128, inside.1 as i128 - c.1 as i128), e);
            lo += d.min(0);
            hi += d.max(0);
        }
        c
    };
    for (q, g) in expect_ring(m, walk) {
        pts.push(q);
        if let Some(ref t) = g.exit {
            pts.push(slack(t, 1));
        }
        if let Some(ref t) = g.entry {
            pts.push(slack(t, -1));
        }
    }
    if pts.is_empty() {
        return (0, 0);
    }
    pts.push(pts[0]);
    let a = area2(&pts);
    (a + lo, a + hi)
}

fn must_keep(r: (i128, i128)) -> bool {
    r.0 > 0 || r.1 < 0
}
fn must_drop(r: (i128, i128)) -> bool {
    r == (0, 0)
}

/// Which clipped ring each ring became, and whether there is only one way.
fn assign(m: &Mask, before: &[Vec<Pt>], after: &[Vec<Pt>]) -> Result<(Vec<Option<usize>>, bool), String> {
    let (n, k) = (before.len(), after.len());
    // reached[i][j] = (kept, ways): rings 0..i account for 0..j, the last of
    // them being kept or not, in so many ways
    let mut reached: Vec<BTreeMap<usize, (bool, u64)>> = vec![BTreeMap::new(); n + 1];
    reached[0].insert(0, (false, 1));
    let mut states = 0;
    let mut last_error = String::new();
    for i in 0..n {
        let range = area_range(m, &before[i]);
        let here: Vec<(usize, u64)> = reached[i].iter().map(|(j, x)| (*j, x.1)).collect();
        states += here.len();
        if states > 300_000 {
            return Ok((vec![None; n], false));
        }
        for (j, ways) in here {
            if !must_keep(range) {
                let e = reached[i + 1].entry(j).or_insert((false, 0));
                e.1 = e.1.saturating_add(ways);
            }
            if must_drop(range) {
                continue;
            }
            if j < k {
                match match_ring(m, &before[i], &after[j]) {
                    Ok(()) => {
                        let e = reached[i + 1].entry(j + 1).or_insert((true, 0));
                        e.0 = true;
                        e.1 = e.1.saturating_add(ways);
                    }
                    Err(e) => last_error = e,
                }
            } else {
                last_error = format!("ring {} clipped to {:?} is missing", show(&before[i]), m);
            }
        }
    }
    let ways = match reached[n].get(&k) {
        Some(x) => x.1,
        None => {
            if last_error.is_empty() {
                last_error = format!("{} ring(s) left of {}", k, n);
            }
            return Err(last_error);
        }
    };
    let mut out = vec![None; n];
    let mut j = k;
    for i in (0..n).rev() {
        if reached[i + 1][&j].0 {
            j -= 1;
            out[i] = Some(j);
        }
    }
    Ok((out, ways == 1))
}

/// (region before, region after, ring assignment outer, inner)
struct Matched {
    before: usize,
    after: usize,
    outer: Vec<Option<usize>>,
    inner: Vec<Option<usize>>,
    /// no other assignment is possible
    certain: bool,
}

fn match_regions(m: &Mask, a: &Snap<String>, b: &Snap<String>) -> Result<Vec<Matched>, String> {
    let mut out = vec![];
    let mut j = 0;
    for i in 0..a.regions.len() {
        let (o, inn) = a.walks_of(i)?;
        if j < b.regions.len() && b.regions[j].data == a.regions[i].data {
            let (bo, bi) = b.walks_of(j)?;
            let name = &a.regions[i].data;
            if bo.is_empty() {
                return Err(format!("region {} is kept without an outer ring", name));
            }
            for w in bo.iter().chain(bi.iter()) {
                if area2(w) == 0 {
                    return Err(format!("region {} keeps a ring without area: {}", name, show(w)));
                }
            }
            let (outer, c1) = assign(m, &o, &bo).map_err(|e| format!("region {}, outer rings: {}", name, e))?;
            let (inner, c2) = assign(m, &inn, &bi).map_err(|e| format!("region {}, inner rings: {}", name, e))?;
            out.push(Matched { before: i, after: j, outer, inner, certain: c1 && c2 });
            j += 1;
        } else if let Some(w) = o.iter().find(|w| must_keep(area_range(m, w))) {
            return Err(format!("region {} is missing where it should be, though its outer ring {} has area inside {:?}", a.regions[i].data, show(w), m));
        }
    }
    if j < b.regions.len() {
        return Err(format!("region {} is not a region of the topology that was clipped, or out of order", b.regions[j].data));
    }
    Ok(out)
}

fn on_or_in(m: &Mask, s: &Snap<String>) -> Res {
    for e in s.edges.iter() {
        if let Some(q) = e.iter().find(|q| m.loc(q) == Loc::Out) {
            return Err(format!("edge {} has {} outside the mask {:?}", show(e), q, m));
        }
    }
    Ok(())
}

fn mask_labels(m: &Mask, s: &Snap<String>, ctx: &mut Ctx) {
    let pts = || s.edges.iter().flat_map(|e| e.iter());
    let some = |l: Loc| pts().any(|q| m.loc(q) == l);
    ctx.label_if(some(Loc::On), "vertices on the mask line");
    ctx.label_if(!some(Loc::In), "nothing inside");
    ctx.label_if(!some(Loc::Out), "nothing outside");
    ctx.nontrivial = some(Loc::In) && (some(Loc::Out) || some(Loc::On));
}

// ------------------------------------------------------------------- C21

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PathCase {
    pub path: Vec<(u32, u32)>,
    pub mask: MaskSpec,
    pub more: Vec<MaskSpec>,
    #[serde(default)]
    pub long: Long,
}

pub struct C21;
impl Prop for C21 {
    type Case = PathCase;
    const ID: &'static str = "C21";
    const RULE: &'static str = "paths of 2..40 points over small grids, the whole u32 range and its ends, open and closed, with repeated points and stretches along the mask line; masks at or near a vertex, in between, at the ends of the range, beyond the path; clipped once or several times. Oracle: exact rational crossings. Also the classification of every vertex and the crossing of every segment on its own. Non-trivial: the path has an inside vertex and one that is not";
    const QUICK: u64 = 3_000_000;
    fn strategy(_: Tier) -> BoxedStrategy<PathCase> {
        let tiny = proptest::collection::vec((0u32..6, 0u32..6), 2..20);
        let wide = proptest::collection::vec((coord(), coord()), 2..8);
        (prop_oneof![3 => path(40), 3 => tiny, 2 => wide], MaskSpec::strategy(), proptest::collection::vec(MaskSpec::strategy(), 0..3), any::<bool>())
            .prop_map(|(mut path, mask, more, close)| {
                if close && !path.is_empty() {
                    let f = path[0];
                    path.push(f);
                }
                PathCase { path, mask, more, long: Long::default() }
            })
            .boxed()
    }
    const LARGE: u64 = 10;
    fn large(t: Tier) -> Option<BoxedStrategy<PathCase>> {
        Some((Self::strategy(t), long()).prop_map(|(c, long)| PathCase { long, ..c }).boxed())
    }
    fn check(c: &PathCase, ctx: &mut Ctx) -> Res {
        let mut cur: Vec<Pt> = c.long.extend(&c.path).iter().map(pt).collect();
        let mut masks = vec![c.mask.clone()];
        masks.extend(c.more.iter().cloned());
        for (k, spec) in masks.iter().enumerate() {
            let m = spec.of_points(&cur);
            let cm = m.clip_mask();
            for q in cur.iter() {
                let have = format!("{:?}", cm.test(q));
                let want = match m.loc(q) {
                    Loc::In => "Inside",
                    Loc::On => "OnEdge",
                    Loc::Out => "Outside",
                };
                if have != want {
                    return Err(format!("{} is classified {} of {:?}, expected {}", q, have, m, want));
                }
            }
            for w in cur.windows(2) {
                let tok = match (m.loc(&w[0]), m.loc(&w[1])) {
                    (Loc::In, Loc::Out) => Tok::Cross { inside: w[0], outside: w[1] },
                    (Loc::Out, Loc::In) => Tok::Cross { inside: w[1], outside: w[0] },
                    _ => continue,
                };
                for (a, b) in vec![(w[0], w[1]), (w[1], w[0])] {
                    let q = cm.intersect(&a, &b);
                    if !tok.ok(&m, &q) {
                        return Err(format!("{}-{} crosses {:?} at {}, expected {}", a, b, m, q, tok.show(&m)));
                    }
                }
            }
            let out = clip_edge(&cur, &cm).to_vec();
            if cur.len() < 2 {
                break;
            }
            match_path(&m, &cur, &out, true)?;
            if k == 0 {
                let some = |l: Loc| cur.iter().any(|q| m.loc(q) == l);
                ctx.nontrivial = some(Loc::In) && (some(Loc::Out) || some(Loc::On));
                let (_, gaps) = expect_path(&m, &cur);
                ctx.label_if(gaps.iter().any(|g| g.touch), "touches the line at a vertex");
                ctx.label_if(gaps.iter().filter(|g| g.exit.is_some() && g.entry.is_some()).count() > 1, "leaves and returns more than once");
                ctx.label_if(cur.windows(2).any(|w| m.loc(&w[0]) == Loc::On && m.loc(&w[1]) == Loc::On), "runs along the line");
                ctx.label_if(gaps.iter().any(|g| g.exit.iter().chain(g.entry.iter()).any(|t| !t.floor(&m).1)), "crosses between whole coordinates");
                ctx.label_if(out.is_empty(), "empty result");
            }
            cur = out;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------- C22

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ClipCase {
    pub hist: HistCase,
    pub mask: MaskSpec,
}

fn clip_case(big: u8) -> BoxedStrategy<ClipCase> {
    (map_case(false, big), ops(3), MaskSpec::strategy()).prop_map(|(map, ops, mask)| ClipCase { hist: HistCase { map, ops }, mask }).boxed()
}

pub struct C22;
impl Prop for C22 {
    type Case = ClipCase;
    const ID: &'static str = "C22";
    const RULE: &'static str = "topologies from generated maps, as built or after up to three of normalizing, simplifying and clipping, clipped with a mask at, near or between vertices or beyond the map; oracle: per ring the exact inside vertices and rational crossings, and the range of areas their rounding allows. Non-trivial: something is inside and something is not";
    const QUICK: u64 = 200_000;
    fn strategy(_: Tier) -> BoxedStrategy<ClipCase> {
        clip_case(10)
    }
    const LARGE: u64 = 2;
    fn large(_: Tier) -> Option<BoxedStrategy<ClipCase>> {
        Some((large_map_case(false, true), ops(2), MaskSpec::strategy()).prop_map(|(map, ops, mask)| ClipCase { hist: HistCase { map, ops }, mask }).boxed())
    }
    fn check(c: &ClipCase, ctx: &mut Ctx) -> Res {
        let (_, t) = c.hist.run()?;
        let a = snap(&t)?;
        let m = c.mask.of_topology(&t);
        let clipped = clip_topology(&t, &m.clip_mask());
        let b = snap(&clipped)?;
        mask_labels(&m, &a, ctx);
        ctx.label_if(!c.hist.ops.is_empty(), "after other operations");
        on_or_in(&m, &b)?;
        let matched = match_regions(&m, &a, &b)?;
        ctx.label_if(matched.len() < a.regions.len(), "regions dropped");
        ctx.label_if(matched.iter().any(|x| x.outer.iter().chain(x.inner.iter()).any(|r| r.is_none())), "rings dropped from kept regions");
        let multi = (0..a.regions.len()).any(|i| a.walks_of(i).map_or(false, |(o, n)| o.iter().chain(n.iter()).any(|w| expect_ring(&m, w).iter().filter(|g| g.1.exit.is_some()).count() > 1)));
        ctx.label_if(multi, "a ring leaves the mask more than once");
        Ok(())
    }
}

// ------------------------------------------------------------------- C23

pub struct C23;
impl Prop for C23 {
    type Case = ClipCase;
    const ID: &'static str = "C23";
    const RULE: &'static str = "histories and masks as in C22; oracle: the correspondence between edges with an inside vertex before and after, and the number of new edges per pair of end points. Non-trivial: an edge shared by two surviving rings is cut, or a new edge is shared";
    const QUICK: u64 = 200_000;
    fn strategy(_: Tier) -> BoxedStrategy<ClipCase> {
        clip_case(10)
    }
    const LARGE: u64 = 2;
    fn large(_: Tier) -> Option<BoxedStrategy<ClipCase>> {
        Some((large_map_case(false, true), ops(2), MaskSpec::strategy()).prop_map(|(map, ops, mask)| ClipCase { hist: HistCase { map, ops }, mask }).boxed())
    }
    fn check(c: &ClipCase, ctx: &mut Ctx) -> Res {
        let (_, t) = c.hist.run()?;
        let a = snap(&t)?;
        let m = c.mask.of_topology(&t);
        let clipped = clip_topology(&t, &m.clip_mask());
        let b = snap(&clipped)?;
        mask_labels(&m, &a, ctx);
        ctx.nontrivial = false;
        let matched = match_regions(&m, &a, &b)?;
        if matched.iter().any(|x| !x.certain) {
            // rounding leaves it open which of two coinciding rings is left
            ctx.label("rings cannot be told apart");
            return Ok(());
        }
        let uses = b.uses();
        for (e, u) in uses.iter().enumerate() {
            if u.is_empty() {
                return Err(format!("edge {} is used by no ring", show(&b.edges[e])));
            }
        }
        let goes_in = |path: &[Pt]| path.iter().any(|q| m.loc(q) == Loc::In);
        let strictly_inside = a.edges.iter().all(|e| e.iter().all(|q| m.loc(q) == Loc::In));
        ctx.label_if(strictly_inside, "everything strictly inside");
        let mut became: HashMap<usize, usize> = HashMap::new();
        let mut came: HashMap<usize, usize> = HashMap::new();
        for x in matched.iter() {
            let (ra, rb) = (&a.regions[x.before], &b.regions[x.after]);
            let pairs = x.outer.iter().enumerate().filter_map(|(i, j)| j.map(|j| (&ra.outer[i], &rb.outer[j])))
                .chain(x.inner.iter().enumerate().filter_map(|(i, j)| j.map(|j| (&ra.inner[i], &rb.inner[j]))));
            for (r, q) in pairs {
                let pa = r.edge_paths(&a);
                let pb = q.edge_paths(&b);
                if strictly_inside && pa != pb {
                    return Err(format!("region {}: a ring wholly inside {:?} was {:?} and becomes {:?}", ra.data, m, pa, pb));
                }
                let ia: Vec<usize> = (0..pa.len()).filter(|&i| goes_in(&pa[i])).collect();
                let ib: Vec<usize> = (0..pb.len()).filter(|&i| goes_in(&pb[i])).collect();
                if ia.len() != ib.len() {
                    return Err(format!("region {}: {} edges of a ring go inside {:?}, but {} edges of the clipped ring do", ra.data, ia.len(), m, ib.len()));
                }
                let n = ia.len();
                let mut why = String::new();
                let rot = (0..n).find(|&s| {
                    let bad = (0..n).find(|&k| match_path(&m, &pa[ia[k]], &pb[ib[(k + s) % n]], false).is_err());
                    if let (Some(k), true) = (bad, why.is_empty()) {
                        why = format!("edge {} becomes {}", show(&pa[ia[k]]), show(&pb[ib[(k + s) % n]]));
                    }
                    bad.is_none()
                });
                let s = match rot {
                    Some(s) => s,
                    None => return Err(format!("region {}: the edges of a ring clipped to {:?} do not correspond: {}", ra.data, m, why)),
                };
                for k in 0..n {
                    let ea = r.0[ia[k]].0;
                    let eb = q.0[ib[(k + s) % n]].0;
                    if *became.entry(ea).or_insert(eb) != eb {
                        return Err(format!("edge {} is no longer one edge after clipping to {:?}", show(&a.edges[ea]), m));
                    }
                    if *came.entry(eb).or_insert(ea) != ea {
                        return Err(format!("edge {} after clipping to {:?} stands for two edges", show(&b.edges[eb]), m));
                    }
                    if uses[eb].len() == 2 && b.edges[eb].iter().any(|q| m.loc(q) == Loc::On) {
                        ctx.nontrivial = true;
                        ctx.label("shared edge cut");
                    }
                }
            }
        }
        // new edges
        let mut plugs: BTreeMap<(Pt, Pt), (usize, usize)> = BTreeMap::new();
        for (e, u) in uses.iter().enumerate() {
            let pts = &b.edges[e];
            if goes_in(pts) {
                if !came.contains_key(&e) {
                    return Err(format!("edge {} corresponds to no edge before clipping to {:?}", show(pts), m));
                }
                continue;
            }
            let (p, q) = (pts[0], pts[pts.len() - 1]);
            let x = plugs.entry(if p < q { (p, q) } else { (q, p) }).or_insert((0, 0));
            x.0 += 1;
            x.1 += u.len();
        }
        for ((p, q), (stored, used)) in plugs {
            if used >= 2 {
                ctx.nontrivial = true;
                ctx.label("new edge shared");
            }
            ctx.label_if(used > 2, "new edge used more than twice");
            if stored != (used + 1) / 2 {
                return Err(format!("{}-{} along {:?} closes {} outlines but is stored {} times", p, q, m, used, stored));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------- C24

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TileCase {
    pub map: MapCase,
    pub norm: bool,
    pub line: MaskSpec,
    pub rect: Vec<MaskSpec>,
    pub order1: u8,
    pub order2: u8,
}

fn role_areas(s: &Snap<String>) -> Result<BTreeMap<String, i128>, String> {
    let mut out = BTreeMap::new();
    for (i, r) in s.regions.iter().enumerate() {
        let (o, n) = s.walks_of(i)?;
        let a = o.iter().map(|w| area2(w).abs()).sum::<i128>() - n.iter().map(|w| area2(w).abs()).sum::<i128>();
        out.insert(r.data.clone(), a);
    }
    Ok(out)
}

/// Doubled area of a closed ring inside all masks; crossings must be whole.
fn clipped_area(ring: &[Pt], masks: &[Mask]) -> i128 {
    let mut cur: Vec<Pt> = open_cycle(ring);
    for m in masks {
        let n = cur.len();
        let mut out = vec![];
        for i in 0..n {
            let (a, b) = (cur[i], cur[(i + 1) % n]);
            if m.loc(&a) != Loc::Out {
                out.push(a);
            }
            match (m.loc(&a), m.loc(&b)) {
                (Loc::In, Loc::Out) | (Loc::Out, Loc::In) => {
                    let (f, whole) = m.crossing(&a, &b);
                    assert!(whole, "generator: crossing not whole");
                    out.push(m.point(f));
                }
                _ => {}
            }
        }
        cur = out;
    }
    if cur.is_empty() {
        return 0;
    }
    let f = cur[0];
    cur.push(f);
    area2(&cur)
}

/// The points at which the clipped path crosses the mask line strictly between
/// two of the path's points, in order. None if the result does not have the
/// expected number of points (C21 has more to say about that).
fn crossings(path: &[Pt], m: &Mask) -> Option<Vec<Pt>> {
    let got = clip_edge(path, &m.clip_mask());
    let locs: Vec<Loc> = path.iter().map(|p| m.loc(p)).collect();
    let mut at = 0;
    let mut out = vec![];
    for i in 0..path.len() {
        let near_in = i > 0 && locs[i - 1] == Loc::In || i + 1 < path.len() && locs[i + 1] == Loc::In;
        if locs[i] == Loc::In || locs[i] == Loc::On && near_in {
            at += 1;
        }
        if i + 1 < path.len() {
            match (&locs[i], &locs[i + 1]) {
                (Loc::In, Loc::Out) | (Loc::Out, Loc::In) => {
                    out.push(*got.get(at)?);
                    at += 1;
                }
                _ => {}
            }
        }
    }
    if at == got.len() { Some(out) } else { None }
}

fn signed_total(s: &Snap<String>, i: usize) -> Result<i128, String> {
    let (o, n) = s.walks_of(i)?;
    Ok(o.iter().chain(n.iter()).map(|w| area2(w)).sum())
}

pub fn permutation(n: u8) -> Vec<usize> {
    let mut left = vec![0, 1, 2, 3];
    let mut n = n as usize % 24;
    let mut out = vec![];
    for k in (1..=4).rev() {
        out.push(left.remove(n % k));
        n /= k;
    }
    out
}

pub struct C24;
impl Prop for C24 {
    type Case = TileCase;
    const ID: &'static str = "C24";
    const RULE: &'static str = "generated maps (half of them with every crossing at whole coordinates), as built or normalized, cut at a line into two halves, clipped twice with one mask, and clipped to a rectangle in two orders of the four masks; oracle: the halves' crossing points against each other, areas of the halves against the whole (exactly, with the crossing points put in), both orders against each other and against an independent polygon clipper on the generated faces. Non-trivial: both halves are non-empty and the rectangle cuts something";
    const QUICK: u64 = 160_000;
    fn strategy(_: Tier) -> BoxedStrategy<TileCase> {
        (prop_oneof![map_case(true, 8), map_case(false, 8)], any::<bool>(), MaskSpec::strategy(), (MaskSpec::strategy(), MaskSpec::strategy(), MaskSpec::strategy(), MaskSpec::strategy()), any::<u8>(), any::<u8>())
            .prop_map(|(map, norm, line, r, order1, order2)| {
                let mut rect = vec![r.0, r.1, r.2, r.3];
                for (k, m) in rect.iter_mut().enumerate() {
                    m.kind = k as u8;
                }
                TileCase { map, norm, line, rect, order1, order2 }
            })
            .boxed()
    }
    const LARGE: u64 = 2;
    fn large(t: Tier) -> Option<BoxedStrategy<TileCase>> {
        Some((Self::strategy(t), prop_oneof![large_map_case(true, false), large_map_case(false, false)]).prop_map(|(c, map)| TileCase { map, ..c }).boxed())
    }
    fn check(c: &TileCase, ctx: &mut Ctx) -> Res {
        let m = c.map.map.build();
        let t = build(to_regions(&m.describe(&c.map.desc), c.map.desc.repr));
        let t = if c.norm { normalize(&t) } else { t };
        let s = snap(&t)?;
        let whole = role_areas(&s)?;
        let exact = m.exact && c.map.desc.slits.is_empty();
        ctx.label_if(exact, "whole-coordinate crossings");
        // two halves
        let line = c.line.of_map(&m);
        let (h1, h2) = (line, line.opposite());
        let t1 = clip_topology(&t, &h1.clip_mask());
        let t2 = clip_topology(&t, &h2.clip_mask());
        let (s1, s2) = (snap(&t1)?, snap(&t2)?);
        let (a1, a2) = (role_areas(&s1)?, role_areas(&s2)?);
        for (i, r) in s.regions.iter().enumerate() {
            let (o, n) = s.walks_of(i)?;
            let mut tol = 0i128;
            for w in o.iter().chain(n.iter()) {
                for x in w.windows(2) {
                    if line.depth(&x[0]).signum() * line.depth(&x[1]).signum() < 0 && !line.crossing(&x[0], &x[1]).1 {
                        tol += (line.depth(&x[0]) - line.depth(&x[1])).abs();
                    }
                }
            }
            if exact && tol != 0 {
                panic!("generator: crossing not whole");
            }
            let (x, y) = (a1.get(&r.data).cloned().unwrap_or(0), a2.get(&r.data).cloned().unwrap_or(0));
            let diff = (x + y - whole[&r.data]).abs();
            if diff > tol {
                return Err(format!("region {} has doubled area {}, but {} and {} on the two sides of {:?}; rounding explains at most {}", r.data, whole[&r.data], x, y, line, tol));
            }
        }
        // both halves are cut at the same points
        let mut seams: Vec<Vec<Pt>> = vec![];
        for e in s.edges.iter() {
            match (crossings(e, &h1), crossings(e, &h2)) {
                (Some(x), Some(y)) => {
                    if let Some(k) = (0..x.len()).find(|&k| x.get(k) != y.get(k)) {
                        return Err(format!("edge {} is cut at {} for {:?} but at {:?} for {:?}", show(e), x[k], h1, y.get(k), h2));
                    }
                    seams.push(x);
                }
                _ => return Err(format!("edge {} crosses {:?} other than once per crossing segment", show(e), line)),
            }
        }
        if c.norm {
            // Every ring runs the same way before and after, so the halves add
            // up exactly to the outline with the crossing points put in.
            for r in s.regions.iter() {
                let find = |s: &Snap<String>| s.regions.iter().position(|x| x.data == r.data);
                if let (Some(j1), Some(j2)) = (find(&s1), find(&s2)) {
                    let mut want = 0i128;
                    for ring in r.outer.iter().chain(r.inner.iter()) {
                        for &(e, forward) in ring.0.iter() {
                            let p = &s.edges[e];
                            let mut with = vec![];
                            let mut k = 0;
                            for x in p.windows(2) {
                                with.push(x[0]);
                                if line.depth(&x[0]).signum() * line.depth(&x[1]).signum() < 0 {
                                    with.push(seams[e][k]);
                                    k += 1;
                                }
                            }
                            with.push(p[p.len() - 1]);
                            want += if forward { area2(&with) } else { -area2(&with) };
                        }
                    }
                    let have = signed_total(&s1, j1)? + signed_total(&s2, j2)?;
                    if want != have {
                        return Err(format!("region {} has doubled area {} when cut at {:?}, but its halves add up to {}", r.data, want, line, have));
                    }
                }
            }
        }
        for (h, a) in vec![(&h1, &a1), (&h2, &a2)] {
            if let Some(d) = a.keys().find(|d| !whole.contains_key(*d)) {
                return Err(format!("clipping to {:?} made up region {}", h, d));
            }
        }
        // once more with the same mask
        for (h, t, s) in vec![(&h1, &t1, &s1), (&h2, &t2, &s2)] {
            let again = snap(&clip_topology(t, &h.clip_mask()))?;
            let shape = |s: &Snap<String>| -> Vec<(String, Vec<Vec<Vec<Pt>>>, Vec<Vec<Vec<Pt>>>)> {
                let f = |rs: &Vec<SnapRing>| rs.iter().map(|r| r.edge_paths(s).iter().map(|p| dedup(p)).collect()).collect();
                s.regions.iter().map(|r| (r.data.clone(), f(&r.outer), f(&r.inner))).collect()
            };
            let (x, y) = (shape(s), shape(&again));
            if x != y {
                let d = x.iter().zip(y.iter()).find(|(a, b)| a != b);
                return Err(format!("clipping to {:?} again changes the topology: {:?}", h, d));
            }
        }
        // rectangle
        let mut masks: Vec<Mask> = c.rect.iter().map(|r| r.of_map(&m)).collect();
        for k in 0..2 {
            // nearly always the right way round
            if masks[2 * k].at > masks[2 * k + 1].at && c.order1 % 8 != 0 {
                let t = masks[2 * k].at;
                masks[2 * k].at = masks[2 * k + 1].at;
                masks[2 * k + 1].at = t;
            }
        }
        let mut results = vec![];
        for &order in [c.order1, c.order2].iter() {
            let mut cur = clip_topology(&t, &masks[permutation(order)[0]].clip_mask());
            for &k in permutation(order)[1..].iter() {
                cur = clip_topology(&cur, &masks[k].clip_mask());
            }
            let s = snap(&cur)?;
            for k in masks.iter() {
                on_or_in(k, &s)?;
            }
            results.push(role_areas(&s)?);
        }
        let cut = results[0].values().sum::<i128>();
        ctx.nontrivial = !a1.is_empty() && !a2.is_empty() && cut > 0 && cut < whole.values().sum();
        if exact {
            let mut want = BTreeMap::new();
            for f in m.faces.iter().filter(|f| f.label > 0) {
                let a = clipped_area(&f.outer, &masks) - f.holes.iter().map(|h| clipped_area(h, &masks)).sum::<i128>();
                *want.entry(format!("r{}", f.label)).or_insert(0) += a;
            }
            // A region whose outline and hole both cover the rectangle stays,
            // with no area
            want.retain(|_, a| *a != 0);
            if results[0].keys().ne(results[1].keys()) {
                return Err(format!("rectangle {:?} leaves regions {:?} in order {:?} and {:?} in order {:?}", masks, results[0].keys(), permutation(c.order1), results[1].keys(), permutation(c.order2)));
            }
            for r in results.iter_mut() {
                r.retain(|_, a| *a != 0);
            }
            for (k, order) in [c.order1, c.order2].iter().enumerate() {
                if results[k] != want {
                    return Err(format!("rectangle {:?} in order {:?} gives doubled areas {:?}, expected {:?}", masks, permutation(*order), results[k], want));
                }
            }
        } else {
            for (i, r) in s.regions.iter().enumerate() {
                let (o, n) = s.walks_of(i)?;
                let mut tol = 0i128;
                for w in o.iter().chain(n.iter()) {
                    for x in w.windows(2) {
                        let near = masks.iter().any(|k| k.depth(&x[0]).min(k.depth(&x[1])) <= 4 && k.depth(&x[0]).max(k.depth(&x[1])) >= -4);
                        if near {
                            let d = |a: u32, b: u32| (a as i128 - b as i128).abs();
                            tol += 8 * (d(x[0].0, x[1].0) + d(x[0].1, x[1].1) + 8);
                        }
                    }
                }
                let (x, y) = (results[0].get(&r.data).cloned().unwrap_or(0), results[1].get(&r.data).cloned().unwrap_or(0));
                if (x - y).abs() > tol {
                    return Err(format!("rectangle {:?} gives region {} doubled area {} in order {:?} and {} in order {:?}; rounding explains at most {}", masks, r.data, x, permutation(c.order1), y, permutation(c.order2), tol));
                }
            }
        }
        Ok(())
    }
}
