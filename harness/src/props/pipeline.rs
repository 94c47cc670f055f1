//! C13: consistency through any history. C25: the whole pipeline.
use std::collections::{BTreeMap, HashMap};
use std::fs;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use topogeo::clip::clip_topology;
use topogeo::geo::Region;
use topogeo::read::shapefile::{open_utf8, DbfRecord, ShapefileGeoIterator, ShapefileReader};
use topogeo::topology::{Topology, TopologyBuilder};
use topogeo::{normalize, simplify};

use super::build::{large_map_case, map_case, MapCase};
use super::convert::{numbered_dbf, rec_of, shp_with_bbox};
use super::history::*;
use super::simplify::simplify_paths;
use crate::files::*;
use crate::geom::*;
use crate::maps::*;
use crate::run::*;
use crate::topo::*;

// ------------------------------------------------------------------- C13

/// Everything about a topology, addresses included.
fn imprint(t: &Topology<String>) -> Result<(Snap<String>, Vec<usize>), String> {
    let mut a = vec![t.edges.as_ptr() as usize, t.regions.as_ptr() as usize];
    for e in t.edges.iter() {
        a.push(e.points.as_ptr() as usize);
        a.push(e.rings[0] as usize);
        a.push(e.rings[1] as usize);
    }
    for r in t.regions.iter() {
        for x in r.outer_rings.iter().chain(r.inner_rings.iter()) {
            a.push(x.region as usize);
            a.push(x.directed_edges.as_ptr() as usize);
        }
    }
    Ok((snap(t)?, a))
}

pub struct C13;
impl Prop for C13 {
    type Case = HistCase;
    const ID: &'static str = "C13";
    const RULE: &'static str = "a generated map (1..900 cells) is built and taken through up to eight operations: normalizing, clipping (masks at, near and between vertices, at and beyond the ends), simplifying (0 to 2^64-1) and moving; after each one every reference is followed and compared with the structure, the input of by-reference operations is compared bit for bit and then freed; the allocator of the harness moves every reallocated block and overwrites freed memory. Non-trivial: two or more operations applied to a topology that still has a shared edge";
    const ASSUMPTIONS: &'static [&'static str] = &["normalizing is skipped where rings overlap along an edge (counted as 'normalize skipped'): it is specified for non-overlapping regions"];
    const QUICK: u64 = 180_000;
    fn strategy(_: Tier) -> BoxedStrategy<HistCase> {
        (prop_oneof![60 => map_case(false, 10), 1 => map_case(false, 30)], vec(op(), 0..9)).prop_map(|(map, ops)| HistCase { map, ops }).boxed()
    }
    const LARGE: u64 = 2;
    fn large(_: Tier) -> Option<BoxedStrategy<HistCase>> {
        Some((large_map_case(false, false), vec(op(), 1..6)).prop_map(|(map, ops)| HistCase { map, ops }).boxed())
    }
    fn check(c: &HistCase, ctx: &mut Ctx) -> Res {
        let (_, mut t) = c.start();
        integrity(&t).map_err(|e| format!("after building: {}", e))?;
        let mut n = 0;
        let mut names = vec![];
        for o in c.ops.iter() {
            let shared = t.edges.iter().any(|e| !e.rings[1].is_null());
            let before = imprint(&t)?;
            let mask;
            let next: Option<Topology<String>> = match *o {
                Op::Normalize => {
                    if normalizable(&before.0) {
                        names.push("normalize");
                        Some(normalize(&t))
                    } else {
                        ctx.label("normalize skipped");
                        continue;
                    }
                }
                Op::Clip(ref m) => {
                    mask = m.of_topology(&t);
                    names.push("clip");
                    Some(clip_topology(&t, &mask.clip_mask()))
                }
                _ => None,
            };
            match next {
                Some(next) => {
                    if imprint(&t)? != before {
                        return Err(format!("{:?} changed the topology it was given", names));
                    }
                    drop(t); // the result may not depend on it
                    t = next;
                }
                None => {
                    names.push(if let Op::Move = *o { "move" } else { "simplify" });
                    t = apply(t, o)?.0;
                }
            }
            integrity(&t).map_err(|e| format!("after building and {:?}: {}", names, e))?;
            n += 1;
            ctx.nontrivial |= n >= 2 && shared;
        }
        ctx.label_if(t.edges.len() > 500, "over 500 edges");
        ctx.label_if(t.edges.is_empty(), "ends empty");
        ctx.label(format!("{} operations", n));
        Ok(())
    }
}

// ------------------------------------------------------------------- C25

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PipeCase {
    pub map: MapCase,
    /// bounding box in the file
    pub box_kind: u8,
    pub chunks: Vec<u8>,
    pub from_disk: bool,
    pub share: u8,
    pub masks: Vec<MaskSpec>,
}

fn role_walks<D: Clone>(s: &Snap<D>) -> Result<Vec<Vec<Pt>>, String> {
    let mut out = vec![];
    for i in 0..s.regions.len() {
        let (o, n) = s.walks_of(i)?;
        for w in o {
            out.push(if area2(&w) >= 0 { w } else { reversed(&w) });
        }
        for w in n {
            out.push(if area2(&w) <= 0 { w } else { reversed(&w) });
        }
    }
    Ok(out)
}

fn area_of(segs: &BTreeMap<Seg, i32>) -> i128 {
    segs.iter().map(|(s, n)| *n as i128 * area2(&[s.0, s.1])).sum()
}

fn adds_up(what: &str, s: &Snap<DbfRecord>, want: &BTreeMap<Seg, i32>) -> Res {
    let mut total = 0i128;
    for i in 0..s.regions.len() {
        let (o, n) = s.walks_of(i)?;
        total += o.iter().map(|w| area2(w).abs()).sum::<i128>() - n.iter().map(|w| area2(w).abs()).sum::<i128>();
    }
    if total != area_of(want) {
        return Err(format!("after {} the regions' doubled areas add up to {}, the outline's is {}", what, total, area_of(want)));
    }
    if let Some(e) = diff_boundaries(want, &cancel(&role_walks(s)?)) {
        return Err(format!("after {} the regions do not add up to the outline: {}", what, e));
    }
    Ok(())
}

pub struct C25;
impl Prop for C25 {
    type Case = PipeCase;
    const ID: &'static str = "C25";
    const RULE: &'static str = "generated gap-free maps written as .shp/.dbf (in degrees, metres or other boxes; read from streams that split their reads, or from disk), read, converted, built, normalized, simplified so that 0..100% of the points are candidates, clipped with 0..4 masks; oracle: directed boundary segments of the generated faces, as converted, cancelled against each other. Non-trivial: two or more regions with a common boundary, and simplifying removes a point";
    const QUICK: u64 = 120_000;
    fn strategy(_: Tier) -> BoxedStrategy<PipeCase> {
        (map_case(false, 8), any::<u8>(), chunks_strategy(), proptest::bool::weighted(0.02), any::<u8>(), vec(MaskSpec::strategy(), 0..4))
            .prop_map(|(mut map, box_kind, chunks, from_disk, share, masks)| {
                map.desc.degenerate = 0;
                PipeCase { map, box_kind, chunks, from_disk, share, masks }
            })
            .boxed()
    }
    const LARGE: u64 = 2;
    fn large(t: Tier) -> Option<BoxedStrategy<PipeCase>> {
        Some((Self::strategy(t), large_map_case(false, false)).prop_map(|(c, mut map)| {
            map.desc.degenerate = 0;
            PipeCase { map, ..c }
        }).boxed())
    }
    fn check(c: &PipeCase, ctx: &mut Ctx) -> Res {
        let m = c.map.map.build();
        let described = m.describe(&c.map.desc);
        let (lo, hi) = (m.min, m.max);
        let (x0, x1, y0, y1) = match c.box_kind % 5 {
            0 => (-180.0, 180.0, -90.0, 90.0),
            1 => (0.0, 4294967295.0, 0.0, 4294967295.0),
            2 => (-141.003, -52.617, 41.676, 83.136),
            3 => (3658199.5, 9019157.25, 658873.125, 6083005.0),
            _ => (1e-3, 2e-3, -5.0, -4.999),
        };
        let fx = |v: u32| if v == lo.0 { x0 } else if v == hi.0 { x1 } else { x0 + (x1 - x0) * ((v - lo.0) as f64 / (hi.0 - lo.0) as f64) };
        let fy = |v: u32| if v == lo.1 { y1 } else if v == hi.1 { y0 } else { y1 - (y1 - y0) * ((v - lo.1) as f64 / (hi.1 - lo.1) as f64) };
        let orient = |r: &Vec<Pt>, inner: bool| if (area2(r) > 0) != inner { r.clone() } else { reversed(r) };
        let mut recs = vec![];
        let mut sources: Vec<(Vec<Vec<Pt>>, Vec<Vec<Pt>>)> = vec![];
        for (i, r) in described.iter().enumerate() {
            let o: Vec<Vec<Pt>> = r.outer.iter().map(|x| orient(x, false)).collect();
            let n: Vec<Vec<Pt>> = r.inner.iter().map(|x| orient(x, true)).collect();
            let rings: Vec<Vec<(f64, f64)>> = o.iter().chain(n.iter()).map(|w| w.iter().map(|p| (fx(p.0), fy(p.1))).collect()).collect();
            recs.push(rec_of(i as u32 + 1, &rings));
            sources.push((o, n));
        }
        let n_recs = recs.len();
        let shp = shp_with_bbox(recs, [x0, y0, x1, y1]).bytes();
        let dbf = numbered_dbf(n_recs).bytes();
        let (regions, field): (Vec<Region<DbfRecord>>, _) = if c.from_disk {
            ctx.label("from disk");
            let dir = std::env::temp_dir().join(format!("vh-c25-{}", std::process::id()));
            fs::create_dir_all(&dir).unwrap();
            let path = dir.join("map.shp");
            fs::write(&path, &shp).unwrap();
            fs::write(dir.join("map.dbf"), &dbf).unwrap();
            let r = open_utf8(&path);
            let _ = fs::remove_dir_all(&dir);
            let mut r = r.map_err(|e| format!("cannot open: {}", e))?;
            let f = r.get_field("id").ok_or("no field id")?;
            (ShapefileGeoIterator::new(&mut r).collect::<Result<Vec<_>, _>>().map_err(|e| format!("cannot read: {}", e))?, f)
        } else {
            let plan = Plan { chunks: c.chunks.clone(), ..Plan::default() };
            let mut r = ShapefileReader::new(Src::new(shp, &plan), Src::new(dbf, &plan), enc(0)).map_err(|e| format!("cannot open: {}", e))?;
            let f = r.get_field("id").ok_or("no field id")?;
            (ShapefileGeoIterator::new(&mut r).collect::<Result<Vec<_>, _>>().map_err(|e| format!("cannot read: {}", e))?, f)
        };
        if regions.len() != n_recs {
            return Err(format!("{} regions from {} records", regions.len(), n_recs));
        }
        // The conversion must move each vertex to one place, and no two to the same.
        let mut to: HashMap<Pt, Pt> = HashMap::new();
        let mut from: HashMap<Pt, Pt> = HashMap::new();
        for (i, r) in regions.iter().enumerate() {
            for (have, src) in vec![(&r.outer_rings, &sources[i].0), (&r.inner_rings, &sources[i].1)] {
                if have.len() != src.len() {
                    return Err(format!("region {} has {} rings of a kind, its record has {}", i, have.len(), src.len()));
                }
                for (h, s) in have.iter().zip(src.iter()) {
                    let pts = h.points();
                    if pts.len() != s.len() {
                        return Err(format!("region {}: a ring of {} points became one of {}", i, s.len(), pts.len()));
                    }
                    for (a, b) in s.iter().zip(pts.iter()) {
                        if *to.entry(*a).or_insert(*b) != *b {
                            return Err(format!("the vertex at {} was converted to two places", a));
                        }
                        if *from.entry(*b).or_insert(*a) != *a {
                            return Err(format!("two vertices were converted to {}", b));
                        }
                    }
                }
            }
        }
        let outline: BTreeMap<Seg, i32> = m.outline().into_iter().map(|((a, b), n)| ((to[&a], to[&b]), n)).collect();
        let ids = |s: &Snap<DbfRecord>| -> Result<Vec<usize>, String> {
            s.regions.iter().map(|r| field.read_string(&r.data).map_err(|e| format!("{}", e))?.parse::<usize>().map_err(|e| format!("{}", e))).collect()
        };
        let all: Vec<usize> = (0..n_recs).collect();

        let mut b = TopologyBuilder::new();
        for r in regions {
            b.add_region(r);
        }
        let built = b.into_topology();
        let s = snap(&built)?;
        if ids(&s)? != all {
            return Err(format!("after building, the regions' attributes are {:?}", ids(&s)?));
        }
        adds_up("building", &s, &outline)?;

        let norm = normalize(&built);
        drop(built);
        let s = snap(&norm)?;
        if ids(&s)? != all {
            return Err(format!("after normalizing, the regions' attributes are {:?}", ids(&s)?));
        }
        adds_up("normalizing", &s, &outline)?;
        for (i, l) in m.labels().iter().enumerate() {
            let want: BTreeMap<Seg, i32> = m.boundary(*l).into_iter().map(|((a, b), n)| ((to[&a], to[&b]), n)).collect();
            let (o, n) = s.walks_of(i)?;
            if let Some(e) = diff_boundaries(&want, &oriented_boundary(&o, &n)) {
                return Err(format!("after normalizing, the boundary of region {}: {}", i, e));
            }
        }
        let uses = s.uses();
        let shared = uses.iter().any(|u| u.len() == 2);

        let th = share_threshold(&s, c.share);
        let simple = simplify(norm, th);
        let before = s;
        let s = snap(&simple)?;
        if ids(&s)? != all {
            return Err(format!("after simplifying, the regions' attributes are {:?}", ids(&s)?));
        }
        // the simplified outline: the edges that separate a region from nothing
        let mut border = vec![];
        for (e, u) in uses.iter().enumerate() {
            if u.len() == 1 {
                let alone = simplify_paths(&[before.edges[e].clone()], th).remove(0);
                border.push(if u[0].3 { alone } else { reversed(&alone) });
            }
        }
        // normalized rings keep their direction, so no reorienting here
        let mut walks = vec![];
        for i in 0..s.regions.len() {
            let (o, n) = s.walks_of(i)?;
            walks.extend(o);
            walks.extend(n);
        }
        if let Some(e) = diff_boundaries(&cancel(&border), &cancel(&walks)) {
            return Err(format!("after simplifying at {} the regions do not add up to the simplified outline: {}", th, e));
        }
        integrity(&simple).map_err(|e| format!("after simplifying: {}", e))?;
        let lost = before.edges.iter().zip(s.edges.iter()).any(|(a, b)| a.len() > b.len());

        let mut cur = simple;
        let mut have = all;
        for (k, spec) in c.masks.iter().enumerate() {
            let mask = spec.of_topology(&cur);
            let next = clip_topology(&cur, &mask.clip_mask());
            let s = snap(&next)?;
            let now = ids(&s)?;
            let mut it = have.iter();
            if !now.iter().all(|x| it.any(|y| x == y)) {
                return Err(format!("after clipping to {:?} the regions' attributes are {:?}, before {:?}", mask, now, have));
            }
            for e in s.edges.iter() {
                if let Some(q) = e.iter().find(|q| mask.loc(q) == Loc::Out) {
                    return Err(format!("after clipping to {:?} (no. {}) edge {} has {} outside", mask, k, show(e), q));
                }
            }
            integrity(&next).map_err(|e| format!("after clipping: {}", e))?;
            have = now;
            cur = next;
        }
        ctx.nontrivial = shared && lost;
        ctx.label_if(lost, "points dropped");
        ctx.label_if(shared, "shared edges");
        ctx.label(format!("{} masks", c.masks.len()));
        ctx.label(format!("scale {}", c.map.map.scale));
        Ok(())
    }
}
