//! C27: cost as the input grows.
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use topogeo::clip::{clip_topology, ClipMask};
use topogeo::geo::{Point, Region, Ring};
use topogeo::normalize;
use topogeo::read::shapefile::dbf::DbfReader;
use topogeo::read::shapefile::shapefile::ShapefileReader;
use topogeo::read::shapefile::shp::ShpReader;
use topogeo::read::shapefile::ShapefileGeoIterator;
use topogeo::simplify;
use topogeo::topology::{Topology, TopologyBuilder};

use crate::files::*;
use crate::geom::*;
use crate::maps::h64;
use crate::props::convert::*;
use crate::run::*;

extern "C" {
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
}

/// CPU time used by this thread, in ns.
fn thread_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(3, &mut ts) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ScaleCase {
    /// 0 .shp, 1 .dbf, 2 both to regions, 3 build, 4 normalize, 5 simplify, 6 clip
    pub op: u8,
    pub family: u8,
    /// points in the smaller input
    pub size: u16,
    pub seed: u16,
    /// the topology is normalized before simplifying or clipping
    pub norm: bool,
    pub masks: u8,
    pub threshold: u8,
}

/// How many times larger the larger input is.
const GROWTH: usize = 64;
/// The most its time may be, in times the smaller one's: linear cost is 64,
/// n log n some 100, caches make it up to 150 or so; quadratic cost is 4096.
const LIMIT: u64 = 400;
/// Times below this count as this.
const FLOOR_NS: u64 = 20_000;
const FAMILIES: u8 = 15;

type Shape = (Vec<Vec<Pt>>, Vec<Vec<Pt>>);

fn square(x: u32, y: u32, d: u32) -> Vec<Pt> {
    vec![Point(x, y), Point(x + d, y), Point(x + d, y + d), Point(x, y + d), Point(x, y)]
}

/// A map of about `n` points.
fn shapes(family: u8, n: usize, seed: u16) -> Vec<Shape> {
    let h = |k: usize| h64(&(seed, k)) as usize;
    let side = ((n / 5) as f64).sqrt().ceil() as u32 + 1;
    let mut out: Vec<Shape> = vec![];
    match family % FAMILIES {
        // squares next to each other, each a region
        0 => for y in 0..side { for x in 0..side {
            out.push((vec![square(x * 16, y * 16, 16)], vec![]));
        } },
        // one region of many islands
        1 => {
            let mut v = vec![];
            for y in 0..side { for x in 0..side { v.push(square(x * 16, y * 16, 9)); } }
            out.push((v, vec![]));
        }
        // one region with many lakes
        2 => {
            let mut v = vec![];
            for y in 0..side { for x in 0..side { v.push(reversed(&square(x * 16 + 4, y * 16 + 4, 9))); } }
            out.push((vec![square(0, 0, side * 16 + 4)], v));
        }
        // one long ring: a comb
        3 => {
            let teeth = n as u32 / 4;
            let mut r = vec![Point(0, 0)];
            for k in 0..teeth {
                r.push(Point(k * 8 + 2, 0));
                r.push(Point(k * 8 + 2, 1000 + (h(k as usize) % 100) as u32));
                r.push(Point(k * 8 + 6, 1000 + (h(k as usize + 7) % 100) as u32));
                r.push(Point(k * 8 + 6, 0));
            }
            r.push(Point(teeth * 8 + 2, 0));
            r.push(Point(teeth * 8 + 2, 2000));
            r.push(Point(0, 2000));
            r.push(Point(0, 0));
            out.push((vec![r], vec![]));
        }
        // triangles around one point, each a region
        4 => {
            let per = n as u32 / 16 + 1;
            let r = per * 4;
            let mut rim = vec![];
            for k in 0..2 * per { rim.push(Point(k * 4, 0)); }
            for k in 0..2 * per { rim.push(Point(2 * r, k * 4)); }
            for k in 0..2 * per { rim.push(Point(2 * r - k * 4, 2 * r)); }
            for k in 0..2 * per { rim.push(Point(0, 2 * r - k * 4)); }
            let m = rim.len();
            for k in 0..m {
                out.push((vec![vec![Point(r, r), rim[k], rim[(k + 1) % m], Point(r, r)]], vec![]));
            }
        }
        // a row of strips
        5 => for k in 0..n as u32 / 5 {
            out.push((vec![vec![Point(k * 4, 0), Point(k * 4 + 4, 0), Point(k * 4 + 4, 50_000), Point(k * 4, 50_000), Point(k * 4, 0)]], vec![]));
        },
        // squares next to each other, few regions of many parts
        6 => {
            let labels = 1 + seed as usize % 7;
            out = vec![(vec![], vec![]); labels];
            for y in 0..side { for x in 0..side {
                out[h((y * side + x) as usize) % labels].0.push(square(x * 16, y * 16, 16));
            } }
        }
        // a region with lakes, and one that fills them
        7 => {
            let mut v = vec![];
            for y in 0..side { for x in 0..side { v.push(square(x * 16 + 4, y * 16 + 4, 9)); } }
            out.push((vec![square(0, 0, side * 16 + 4)], v.iter().map(|r| reversed(r)).collect()));
            out.push((v, vec![]));
        }
        // islands, each a region
        8 => for y in 0..side { for x in 0..side {
            out.push((vec![square(x * 16, y * 16, 9)], vec![]));
        } },
        // two regions and a long wiggly boundary between them
        9 => {
            let m = n as u32 / 2;
            let line: Vec<Pt> = (0..m).map(|k| Point(k * 16 + (h(k as usize) % 9) as u32, 20_000 + (h(k as usize + 3) % (1 + seed as usize % 4000)) as u32)).collect();
            let (l, r) = (line[0].0, line[m as usize - 1].0);
            let mut a = line.clone();
            a.extend(vec![Point(r, 0), Point(l, 0), line[0]]);
            let mut b = line.clone();
            b.extend(vec![Point(r, 60_000), Point(l, 60_000), line[0]]);
            out.push((vec![reversed(&a)], vec![]));
            out.push((vec![b], vec![]));
        }
        // a staircase: every point has the same weight
        10 => {
            let mut r = vec![];
            let m = n as u32 / 2;
            for k in 0..m {
                r.push(Point(k * 8, k * 8));
                r.push(Point(k * 8 + 8, k * 8));
            }
            r.push(Point(0, m * 8));
            r.push(Point(0, 0));
            out.push((vec![r], vec![]));
        }
        // triangles around one point, of few regions
        11 => {
            let labels = 1 + seed as usize % 3;
            let v = shapes(4, n, seed);
            out = vec![(vec![], vec![]); labels];
            for (k, x) in v.into_iter().enumerate() {
                out[h(k) % labels].0.extend(x.0);
            }
        }
        // a chessboard of one or two regions
        12 => {
            out = vec![(vec![], vec![]); 2];
            for y in 0..side { for x in 0..side {
                out[((x + y) % 2) as usize].0.push(square(x * 16, y * 16, 16));
            } }
            out.truncate(1 + seed as usize % 2);
        }
        // one ring of many spikes
        13 => {
            let m = n as u32 / 3 + 1;
            let mut r = vec![];
            for k in 0..m {
                r.push(Point(k * 8, 1000));
                r.push(Point(k * 8 + 3, 100 + (h(k as usize) % 800) as u32));
                r.push(Point(k * 8, 1000));
            }
            r.push(Point(m * 8, 1000));
            r.push(Point(m * 8, 0));
            r.push(Point(0, 0));
            r.push(Point(0, 1000));
            out.push((vec![r], vec![]));
        }
        // squares inside each other, each ring a region
        _ => {
            let m = n as u32 / 10 + 1;
            for k in 0..m {
                let o = square(k * 4, k * 4, (m - k) * 8 + 4);
                let i = if k + 1 < m { vec![reversed(&square((k + 1) * 4, (k + 1) * 4, (m - k - 1) * 8 + 4))] } else { vec![] };
                out.push((vec![o], i));
            }
        }
    }
    // in any order
    let keys: Vec<u64> = (0..out.len()).map(|k| if seed % 3 == 0 { k as u64 } else { h64(&(seed, k, 1)) }).collect();
    let mut ix: Vec<usize> = (0..out.len()).collect();
    ix.sort_by_key(|&k| keys[k]);
    ix.into_iter().map(|k| out[k].clone()).collect()
}

fn bounds(s: &[Shape]) -> (Pt, Pt) {
    let (mut lo, mut hi) = (Point(u32::max_value(), u32::max_value()), Point(0, 0));
    for q in s.iter().flat_map(|x| x.0.iter()).flat_map(|r| r.iter()) {
        lo = Point(lo.0.min(q.0), lo.1.min(q.1));
        hi = Point(hi.0.max(q.0), hi.1.max(q.1));
    }
    (lo, hi)
}

fn regions(s: &[Shape]) -> Vec<Region<usize>> {
    let ring = |r: &Vec<Pt>| Ring::Points(r.clone().into_boxed_slice());
    s.iter().enumerate().map(|(i, x)| Region {
        data: i,
        outer_rings: x.0.iter().map(&ring).collect::<Vec<_>>().into_boxed_slice(),
        inner_rings: x.1.iter().map(&ring).collect::<Vec<_>>().into_boxed_slice(),
    }).collect()
}

fn built(r: Vec<Region<usize>>) -> Topology<usize> {
    let mut b = TopologyBuilder::new();
    for x in r { b.add_region(x); }
    b.into_topology()
}

/// .shp and .dbf of the shapes, the latter growing with `n` (0: one row for each).
fn files(s: &[Shape], n: usize, seed: u16) -> (Vec<u8>, Vec<u8>) {
    let recs: Vec<RecSpec> = s.iter().enumerate().map(|(i, x)| {
        let rings: Vec<Vec<(f64, f64)>> = x.0.iter().chain(x.1.iter()).map(|r| r.iter().map(|p| (p.0 as f64, p.1 as f64)).collect()).collect();
        rec_of(i as u32 + 1, &rings)
    }).collect();
    let (_, hi) = bounds(s);
    // many rows of a few fields, or a few rows of many fields
    let (rows, fields) = if n == 0 { (s.len(), 0) } else if seed % 2 == 0 { (n / 2, seed as usize / 2 % 8) } else { (40, n / 128) };
    let mut d = numbered_dbf(rows);
    if n > 0 {
        for k in 0..fields {
            d.fields.push(FieldSpec { name: format!("f{}", k), ty: 'C', len: 8, junk: [0; 14] });
            for (i, r) in d.rows.iter_mut().enumerate() { r.push(Cell::Text(format!("v{}", i % 100_000))); }
        }
    }
    (shp_with_bbox(recs, [0.0, 0.0, hi.0 as f64 + 1.0, hi.1 as f64 + 1.0]).bytes(), d.bytes())
}

/// Time the operation takes on a map of about `n` points, and how much it did.
fn time(c: &ScaleCase, n: usize) -> Result<(u64, usize), String> {
    let s = shapes(c.family, n, c.seed);
    let e = |x: String| format!("cannot read: {}", x);
    match c.op % 7 {
        0 => {
            let (shp, _) = files(&s, 0, c.seed);
            let t = thread_ns();
            let mut r = ShpReader::new(&shp[..]).map_err(|x| e(x.to_string()))?;
            let mut k = 0;
            for x in &mut r { k += x.map_err(|x| e(x.to_string()))?.rings.len(); }
            Ok((thread_ns() - t, k))
        }
        1 => {
            let (_, dbf) = files(&s[..1], n, c.seed);
            let t = thread_ns();
            let mut r = DbfReader::new(&dbf[..], enc(0)).map_err(|x| e(x.to_string()))?;
            let mut k = 0;
            let id = r.get_field("id").ok_or("no field")?;
            for x in &mut r { k += id.read_string(&x.map_err(|x| e(x.to_string()))?).map_err(|x| e(x.to_string()))?.len(); }
            Ok((thread_ns() - t, k))
        }
        2 => {
            let (shp, dbf) = files(&s, 0, c.seed);
            let t = thread_ns();
            let mut r = ShapefileReader::new(&shp[..], &dbf[..], enc(0)).map_err(|x| e(x.to_string()))?;
            let v = ShapefileGeoIterator::new(&mut r).collect::<Result<Vec<_>, _>>().map_err(|x| e(x.to_string()))?;
            let d = thread_ns() - t;
            Ok((d, v.len()))
        }
        3 => {
            let r = regions(&s);
            let t = thread_ns();
            let x = built(r);
            let d = thread_ns() - t;
            Ok((d, x.edges.len()))
        }
        4 => {
            let mut x = built(regions(&s));
            if c.norm { x = normalize(&x); }
            let t = thread_ns();
            let y = normalize(&x);
            let d = thread_ns() - t;
            Ok((d, y.edges.len()))
        }
        op => {
            let mut x = built(regions(&s));
            if c.norm { x = normalize(&x); }
            if op == 5 {
                let min = match c.threshold % 4 { 0 => 0, 1 => 65, 2 => 1 << (c.threshold / 4 % 32), _ => u64::max_value() };
                let t = thread_ns();
                let y = simplify(x, min);
                let d = thread_ns() - t;
                Ok((d, y.edges.iter().map(|e| e.points.len()).sum()))
            } else {
                let (lo, hi) = bounds(&s);
                let at = |a: u32, b: u32| (a as u64 + (b - a) as u64 * (c.threshold as u64) / 255) as u32;
                let m = match c.masks % 4 {
                    0 => ClipMask::MinX(at(lo.0, hi.0)),
                    1 => ClipMask::MaxX(at(lo.0, hi.0)),
                    2 => ClipMask::MinY(at(lo.1, hi.1)),
                    _ => ClipMask::MaxY(at(lo.1, hi.1)),
                };
                let t = thread_ns();
                let y = clip_topology(&x, &m);
                let d = thread_ns() - t;
                Ok((d, y.edges.len()))
            }
        }
    }
}

pub struct C27;
impl Prop for C27 {
    type Case = ScaleCase;
    const ID: &'static str = "C27";
    const RULE: &'static str = "maps of fifteen families (grids of regions or of parts of few regions, islands, lakes, filled lakes, nested rings, strips, fans around one point, chessboards, spikes, long combs, wiggly boundaries and staircases), in two sizes, one 64 times the other (up to 256 000 points), through one operation each. Oracle: CPU time of the thread grows less than 400-fold (linear: 64, quadratic: 4096), judged by the shortest of several runs on the larger and the longest on the smaller input. Non-trivial: the operation had something to do on both";
    const ASSUMPTIONS: &'static [&'static str] = &["the thread's CPU clock is not off by a factor of two in all of six repetitions"];
    const QUICK: u64 = 800;
    fn strategy(_: Tier) -> BoxedStrategy<ScaleCase> {
        (0u8..7, 0u8..FAMILIES, 1000u16..4000, any::<u16>(), any::<bool>(), 0u8..4, any::<u8>())
            .prop_map(|(op, family, size, seed, norm, masks, threshold)| ScaleCase { op, family, size, seed, norm, masks, threshold })
            .boxed()
    }
    fn check(c: &ScaleCase, ctx: &mut Ctx) -> Res {
        let n = c.size.max(500) as usize;
        ctx.label(["read .shp", "read .dbf", "convert", "build", "normalize", "simplify", "clip"][c.op as usize % 7]);
        time(c, n)?; // what is set up on first use does not count
        let (mut small, k) = time(c, n)?;
        let (mut large, l) = time(c, n * GROWTH)?;
        let first = large / small.max(FLOOR_NS);
        ctx.label(if first < 80 { "grew less than 80-fold" } else if first < 160 { "grew 80- to 160-fold" } else { "grew over 160-fold at first" });
        ctx.nontrivial = k > 0 && l > 0;
        let over = |s: u64, l: u64| l > LIMIT * s.max(FLOOR_NS);
        let mut runs = 1;
        while over(small, large) && runs < 6 {
            small = small.max(time(c, n)?.0);
            large = large.min(time(c, n * GROWTH)?.0);
            runs += 1;
        }
        if over(small, large) {
            return Err(format!("{} points take {:.1} ms, and {} times as many {:.1} ms, {} times as long (longest and shortest of {} runs)", n, small as f64 / 1e6, GROWTH, large as f64 / 1e6, large / small.max(1), runs));
        }
        Ok(())
    }
}
