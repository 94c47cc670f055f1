//! C07, C08, C26: from shapefile records to integer regions, and printing.
use std::io::ErrorKind;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use topogeo::geo::{Edge, Point, Region, Ring};
use topogeo::read::shapefile::dbf::DbfReader;
use topogeo::read::shapefile::shapefile::ShapefileReader;
use topogeo::read::shapefile::shp::{ShpPoint, ShpPolygonRing};
use topogeo::read::shapefile::ShapefileGeoIterator;

use crate::files::*;
use crate::geom::*;
use crate::props::geo::coord;
use crate::run::*;

/// A one-column table whose n-th row says n.
pub fn numbered_dbf(n: usize) -> DbfSpec {
    DbfSpec {
        enc: 0, version: 3, date: (1, 1, 1), junk: [0; 20],
        fields: vec![FieldSpec { name: "id".into(), ty: 'N', len: 6, junk: [0; 14] }],
        rows: (0..n).map(|i| vec![Cell::Num(i as i64, None)]).collect(),
        flags: vec![], after: vec![], terminator: true, trailing: vec![], d_records: 0, d_header: 0, d_record_len: 0,
    }
}

pub fn rec_of(number: u32, rings: &[Vec<(f64, f64)>]) -> RecSpec {
    let mut parts = vec![];
    let mut points = vec![];
    for r in rings {
        parts.push(points.len() as u32);
        points.extend(r.iter().map(|p| (p.0.to_bits(), p.1.to_bits())));
    }
    RecSpec { number, shape: 5, bbox: [0; 4], parts, points, d_parts: 0, d_points: 0, pad: 0, d_len: 0 }
}

pub fn shp_with_bbox(recs: Vec<RecSpec>, b: [f64; 4]) -> ShpSpec {
    ShpSpec { magic: 9994, version: 1000, shape: 5, unused: [0; 20], bbox: [b[0].to_bits(), b[1].to_bits(), b[2].to_bits(), b[3].to_bits()], zm: [0; 4], recs, d_file_len: 0, trailing: vec![] }
}

// ------------------------------------------------------------------- C07

/// A position in a range: 0 = low end, 1 = high end, 2 = at a fraction,
/// 3 = a few floats from the low end, 4 = from the high end, 5 = a bit outside,
/// 6 = any float, 7 = a whole number of units from the low end.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Pos(pub u8, pub u64);

fn up(x: f64) -> f64 {
    if x == 0.0 { return f64::from_bits(1); }
    if x > 0.0 { f64::from_bits(x.to_bits() + 1) } else { f64::from_bits(x.to_bits() - 1) }
}
fn down(x: f64) -> f64 {
    -up(-x)
}

impl Pos {
    fn at(&self, lo: f64, hi: f64) -> f64 {
        let w = hi - lo;
        let frac = (self.1 >> 11) as f64 / (1u64 << 53) as f64;
        match self.0 % 8 {
            0 => lo,
            1 => hi,
            2 => lo + w * frac,
            3 => (0..self.1 % 4).fold(lo, |x, _| up(x)),
            4 => (0..self.1 % 4).fold(hi, |x, _| down(x)),
            5 => if self.1 & 1 == 0 { lo - w * frac } else { hi + w * frac },
            6 => {
                let x = f64::from_bits(self.1);
                if x.is_nan() { lo } else { x }
            }
            _ => lo + w * ((self.1 as u32) as f64 / 4294967295.0),
        }
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct QuantCase {
    pub x: (F, F),
    pub y: (F, F),
    pub pts: Vec<(Pos, Pos)>,
    /// points per record
    pub cut: u8,
}

fn range() -> BoxedStrategy<(F, F)> {
    prop_oneof![
        2 => Just((-180.0, 180.0)),
        1 => Just((-90.0, 90.0)),
        2 => (-1e7f64..1e7, 1e-3f64..1e7).prop_map(|(a, w)| (a, a + w)),
        1 => (-1e3f64..1e3, 1e-12f64..1e-3).prop_map(|(a, w)| (a, a + w)),
        1 => Just((0.0, 4294967295.0)),
        1 => Just((0.0, 4294967296.0)),
        1 => Just((-1e300, 1e300)),
        1 => Just((5e-324, 1e-320)),
        1 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| (f64::from_bits(a), f64::from_bits(b))),
    ]
    .prop_map(|(a, b)| {
        let ok = |a: f64, b: f64| a.is_finite() && b.is_finite() && b > a && (b - a).is_finite();
        if ok(a, b) { (a.to_bits(), b.to_bits()) } else if ok(b, a) { (b.to_bits(), a.to_bits()) } else { (0f64.to_bits(), 1f64.to_bits()) }
    })
    .boxed()
}

fn pos() -> BoxedStrategy<Pos> {
    (prop_oneof![1 => Just(0u8), 1 => Just(1u8), 4 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8), 1 => Just(5u8), 1 => Just(6u8), 2 => Just(7u8)], any::<u64>()).prop_map(|(a, b)| Pos(a, b)).boxed()
}

fn one_axis(name: &str, lo: f64, hi: f64, v: &[f64], q: &[u32], flip: bool) -> Res {
    const M: u32 = u32::max_value();
    let q: Vec<u32> = q.iter().map(|&a| if flip { M - a } else { a }).collect();
    for (&x, &a) in v.iter().zip(q.iter()) {
        if x <= lo && a != 0 || x >= hi && a != M {
            return Err(format!("{} = {} in [{}, {}] is mapped {} units from the low end{}", name, x, lo, hi, a, if flip { " (y is flipped)" } else { "" }));
        }
        if x > lo && x < hi {
            let exact = (x - lo) / (hi - lo) * M as f64;
            if (a as f64 - exact).abs() > 1.0 + 1e-4 {
                return Err(format!("{} = {} in [{}, {}] is mapped {} units from the low end, its exact position is {}", name, x, lo, hi, a, exact));
            }
        }
    }
    let mut idx: Vec<usize> = (0..v.len()).collect();
    idx.sort_by(|&i, &j| v[i].partial_cmp(&v[j]).unwrap());
    for w in idx.windows(2) {
        let (i, j) = (w[0], w[1]);
        if v[i] == v[j] && q[i] != q[j] || q[i] > q[j] {
            return Err(format!("{} {} -> {} but {} -> {} (units from the low end)", name, v[i], q[i], v[j], q[j]));
        }
    }
    Ok(())
}

pub struct C07;
impl Prop for C07 {
    type Case = QuantCase;
    const ID: &'static str = "C07";
    const RULE: &'static str = "bounding boxes of all magnitudes (degrees, metres, tiny, huge, subnormal) with points at the bounds, a few floats from them, at whole units, at fractions, and outside, spread over several records, converted through ShapefileGeoIterator; oracle: the exact proportion, order and equality. Non-trivial: three or more points strictly inside";
    const ASSUMPTIONS: &'static [&'static str] = &["width and height of the box are finite and positive, no NaN coordinates"];
    const QUICK: u64 = 900_000;
    fn strategy(_: Tier) -> BoxedStrategy<QuantCase> {
        (range(), range(), vec((pos(), pos()), 4..24), 4u8..12).prop_map(|(x, y, pts, cut)| QuantCase { x, y, pts, cut }).boxed()
    }
    fn check(c: &QuantCase, ctx: &mut Ctx) -> Res {
        let (x0, x1, y0, y1) = (f(c.x.0), f(c.x.1), f(c.y.0), f(c.y.1));
        let pts: Vec<(f64, f64)> = c.pts.iter().map(|p| (p.0.at(x0, x1), p.1.at(y0, y1))).collect();
        let mut recs = vec![];
        let mut flat: Vec<(f64, f64)> = vec![];
        for ch in pts.chunks(c.cut.max(4) as usize) {
            let mut ring = ch.to_vec();
            while ring.len() < 4 {
                ring.push(ring[0]);
            }
            recs.push(rec_of(recs.len() as u32 + 1, &[ring.clone()]));
            flat.extend(ring);
        }
        let inside = flat.iter().filter(|p| p.0 > x0 && p.0 < x1 && p.1 > y0 && p.1 < y1).count();
        ctx.nontrivial = inside >= 3;
        ctx.label_if(inside < flat.len(), "points at or outside the bounds");
        let n = recs.len();
        let s = shp_with_bbox(recs, [x0, y0, x1, y1]);
        let mut r = ShapefileReader::new(Src::whole(s.bytes()), Src::whole(numbered_dbf(n).bytes()), enc(0)).map_err(|e| format!("{}", e))?;
        let mut q: Vec<Pt> = vec![];
        for item in ShapefileGeoIterator::new(&mut r) {
            let reg = item.map_err(|e| format!("{}", e))?;
            let rings: Vec<&Ring> = reg.outer_rings.iter().chain(reg.inner_rings.iter()).collect();
            if rings.len() != 1 {
                return Err(format!("{} rings from a record of one", rings.len()));
            }
            q.extend(rings[0].points().iter());
        }
        if q.len() != flat.len() {
            return Err(format!("{} points from {}", q.len(), flat.len()));
        }
        let col = |f: &dyn Fn(&Pt) -> u32| -> Vec<u32> { q.iter().map(|p| f(p)).collect() };
        one_axis("x", x0, x1, &flat.iter().map(|p| p.0).collect::<Vec<_>>(), &col(&|p| p.0), false)?;
        one_axis("y", y0, y1, &flat.iter().map(|p| p.1).collect::<Vec<_>>(), &col(&|p| p.1), true)
    }
}

// ------------------------------------------------------------------- C08

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct RegionCase {
    /// per record: rings as open lists of grid points, 0..=GRID both ways;
    /// None: a record that the reader rejects
    pub recs: Vec<Option<Vec<GridRing>>>,
    pub rows: u8,
    pub x: (F, F),
    pub y: (F, F),
    #[serde(default)]
    pub grow: Grow,
}

impl RegionCase {
    fn full(&self) -> RegionCase {
        let mut c = self.clone();
        let g = &self.grow;
        if g.n == 0 {
            return c;
        }
        let p = |i: u32| ((i * 7 % 1001) as u16, (i * i % 1001) as u16);
        let tri = |i: u32| GridRing { pts: vec![p(i), p(i + 1), p(i + 2)], rot: 0, rev: i % 3 == 0 };
        if !c.recs.iter().any(|r| r.is_some()) {
            c.recs.push(Some(vec![tri(5)]));
        }
        let k = c.recs.iter().position(|r| r.is_some()).unwrap();
        match g.kind {
            0 => c.recs.extend((0..g.n).map(|i| Some(vec![tri(i % 5000)]))),
            1 => c.recs[k].as_mut().unwrap()[0].pts.extend((0..g.n).map(|i| p(i % 5000))),
            _ => c.recs[k].as_mut().unwrap().extend((0..g.n).map(|i| tri(i % 5000))),
        }
        c
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct GridRing {
    pub pts: Vec<(u16, u16)>,
    pub rot: u8,
    pub rev: bool,
}

const GRID: u16 = 1000;

fn grid_ring() -> BoxedStrategy<GridRing> {
    let g = || prop_oneof![2 => 0u16..=GRID, 1 => Just(0u16), 1 => Just(GRID), 1 => 0u16..6];
    let pts = prop_oneof![
        3 => vec((g(), g()), 3..9),
        // star-shaped around a centre: simple, not self-crossing
        2 => (0u16..=GRID, 0u16..=GRID, 1u16..=GRID, 3usize..30).prop_map(|(x, y, r, n)| {
            (0..n).map(|i| {
                let a = i as f64 * 6.283185307 / n as f64;
                let c = |v: u16, d: f64| (v as f64 + d * r as f64).max(0.0).min(GRID as f64) as u16;
                (c(x, a.cos()), c(y, a.sin()))
            }).collect()
        }),
        2 => Just(vec![(0, 0), (0, GRID), (GRID, GRID), (GRID, 0)]),
        1 => (g(), g(), g(), g()).prop_map(|(a, b, c, d)| vec![(a, b), (a, d), (c, d), (c, b)]),
        1 => (g(), g()).prop_map(|(a, b)| vec![(a, b); 4]),
        1 => (0u16..300, 0u16..300).prop_map(|(a, b)| vec![(a, b), (a * 3, b * 3), (a * 2, b * 2)]),
    ];
    (pts, any::<u8>(), any::<bool>()).prop_map(|(pts, rot, rev)| GridRing { pts, rot, rev }).boxed()
}

impl GridRing {
    fn closed(&self) -> Vec<(u16, u16)> {
        let mut v = self.pts.clone();
        let n = v.len();
        v.rotate_left(self.rot as usize % n);
        if self.rev {
            v.reverse();
        }
        let f = v[0];
        v.push(f);
        v
    }
    /// Doubled area, positive when clockwise with north up.
    fn cw_area2(&self) -> i64 {
        -self.closed().windows(2).map(|w| w[0].0 as i64 * w[1].1 as i64 - w[1].0 as i64 * w[0].1 as i64).sum::<i64>()
    }
}

pub struct C08;
impl Prop for C08 {
    type Case = RegionCase;
    const ID: &'static str = "C08";
    const RULE: &'static str = "shapefiles of 0..6 records with 1..6 rings each (both directions, any start, whole-map rings, zero-area rings, rejected records in between, missing or surplus rows), converted through ShapefileGeoIterator; oracle: direction by exact area on the generating grid, cross-checked with the area of the integer points. Non-trivial: a record with rings of both directions";
    const QUICK: u64 = 800_000;
    fn strategy(_: Tier) -> BoxedStrategy<RegionCase> {
        let rec = prop_oneof![8 => vec(grid_ring(), 1..6).prop_map(Some), 1 => Just(None)];
        (vec(rec, 0..6), prop_oneof![5 => Just(255u8), 1 => 0u8..8], range(), range())
            .prop_map(|(recs, rows, x, y)| {
                // keep grid steps well above float spacing
                let fix = |r: (F, F)| { let (a, b) = (f(r.0), f(r.1)); if b - a > 1e-5 * a.abs().max(b.abs()) && b - a > 1e-300 { r } else { (0f64.to_bits(), 1f64.to_bits()) } };
                RegionCase { recs, rows, x: fix(x), y: fix(y), grow: Grow::default() }
            })
            .boxed()
    }
    const LARGE: u64 = 8;
    fn large(t: Tier) -> Option<BoxedStrategy<RegionCase>> {
        Some((Self::strategy(t), grow(&[0, 1, 2])).prop_map(|(c, grow)| RegionCase { grow, ..c }).boxed())
    }
    fn check(c: &RegionCase, ctx: &mut Ctx) -> Res {
        let c = &c.full();
        let (x0, x1, y0, y1) = (f(c.x.0), f(c.x.1), f(c.y.0), f(c.y.1));
        let place = |p: &(u16, u16)| -> (f64, f64) {
            let l = |a: f64, b: f64, v: u16| if v == 0 { a } else if v == GRID { b } else { a + (b - a) * (v as f64 / GRID as f64) };
            (l(x0, x1, p.0), l(y0, y1, p.1))
        };
        let mut recs = vec![];
        for (i, r) in c.recs.iter().enumerate() {
            recs.push(match *r {
                Some(ref rings) => rec_of(i as u32, &rings.iter().map(|g| g.closed().iter().map(&place).collect::<Vec<_>>()).collect::<Vec<_>>()),
                None => RecSpec { shape: 3, ..rec_of(i as u32, &[vec![(0., 0.); 4]]) },
            });
        }
        let n = recs.len();
        let rows = if c.rows == 255 { n } else { c.rows as usize };
        let s = shp_with_bbox(recs, [x0, y0, x1, y1]);
        let mut r = ShapefileReader::new(Src::whole(s.bytes()), Src::whole(numbered_dbf(rows).bytes()), enc(0)).map_err(|e| format!("{}", e))?;
        let field = r.get_field("id").ok_or("no field")?;
        let mut count = 0;
        for (i, item) in ShapefileGeoIterator::new(&mut r).enumerate() {
            count += 1;
            if count > n.max(rows) {
                return Err(format!("more than {} items", n.max(rows)));
            }
            let rings = match c.recs.get(i) {
                Some(&Some(ref rings)) if i < rows => rings,
                _ => {
                    if item.is_ok() {
                        return Err(format!("item {} should be an error", i));
                    }
                    ctx.label("reader errors passed through");
                    continue;
                }
            };
            let reg = item.map_err(|e| format!("item {}: {}", i, e))?;
            let id = field.read_string(&reg.data).map_err(|e| format!("{}", e))?;
            if id != i.to_string() {
                return Err(format!("region {} has the attributes of row {}", i, id));
            }
            let (mut o, mut h): (Vec<&GridRing>, Vec<&GridRing>) = (vec![], vec![]);
            for g in rings.iter() {
                let a = g.cw_area2();
                if a > 0 {
                    o.push(g);
                } else if a < 0 {
                    h.push(g);
                } else {
                    // zero area before rounding; decided by the integer points below
                    ctx.label("zero-area rings");
                }
            }
            ctx.nontrivial |= !o.is_empty() && !h.is_empty();
            if reg.outer_rings.len() + reg.inner_rings.len() != rings.len() {
                return Err(format!("region {} has {} + {} rings, its record has {}", i, reg.outer_rings.len(), reg.inner_rings.len(), rings.len()));
            }
            // Every ring in order: match each returned ring with the next
            // source ring of its kind.
            let near = |g: &GridRing, pts: &[Pt]| -> bool {
                let src = g.closed();
                src.len() == pts.len() && src.iter().zip(pts.iter()).all(|(a, b)| {
                    let ex = |v: u16| v as f64 / GRID as f64 * 4294967295.0;
                    (b.0 as f64 - ex(a.0)).abs() < 40.0 && (b.1 as f64 - ex(GRID - a.1)).abs() < 40.0
                })
            };
            for (what, have, all) in vec![("outer", &reg.outer_rings, &o), ("inner", &reg.inner_rings, &h)] {
                let mut next_zero = 0;
                let mut next = 0;
                let zero: Vec<&GridRing> = rings.iter().filter(|g| g.cw_area2() == 0).collect();
                for ring in have.iter() {
                    let pts = match *ring {
                        Ring::Points(ref p) => p.to_vec(),
                        Ring::Edges(_) => ring.points().to_vec(),
                    };
                    let a = area2(&pts);
                    if (a >= 0) != (what == "outer") {
                        return Err(format!("region {}: ring {} with doubled area {} is an {} ring", i, show(&pts), a, what));
                    }
                    // position in the record must not go backwards
                    if next < all.len() && near(all[next], &pts) {
                        next += 1;
                        continue;
                    }
                    match zero.iter().skip(next_zero).position(|g| near(g, &pts)) {
                        Some(k) => next_zero += k + 1,
                        None => return Err(format!("region {}: {} ring {} is not the next one of its record", i, what, show(&pts))),
                    }
                }
                if next != all.len() {
                    return Err(format!("region {}: {} of {} {} rings are where they belong", i, next, all.len(), what));
                }
            }
            // rings of no area at all that stay so must be outer, in place
            for g in rings.iter().filter(|g| g.pts.iter().all(|p| p.0 == g.pts[0].0) || g.pts.iter().all(|p| p.1 == g.pts[0].1)) {
                if !reg.outer_rings.iter().any(|r| near(g, &r.points())) {
                    return Err(format!("region {}: a ring without area is not an outer ring", i));
                }
            }
            // relative order over all outer (inner) rings
            for have in vec![&reg.outer_rings, &reg.inner_rings] {
                let mut from = 0;
                for ring in have.iter() {
                    match (from..rings.len()).find(|&k| near(&rings[k], &ring.points())) {
                        Some(k) => from = k + 1,
                        None => return Err(format!("region {}: the order of its rings was changed", i)),
                    }
                }
            }
        }
        if count != n.max(rows) {
            return Err(format!("{} items from {} shapes and {} rows", count, n, rows));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------- C26

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PrintCase {
    pub edges: Vec<Vec<(u32, u32)>>,
    pub more: Vec<Vec<(u32, u32)>>,
    pub n_outer: u8,
    pub shp: Vec<Vec<(F, F)>>,
    pub dbf: DbfSpec,
    #[serde(default)]
    pub grow: Grow,
}

/// Recursive-descent reader of the printed forms.
struct P<'a>(&'a str);
impl<'a> P<'a> {
    fn eat(&mut self, s: &str) -> Result<(), String> {
        if self.0.starts_with(s) {
            self.0 = &self.0[s.len()..];
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", s, self.0.chars().take(60).collect::<String>()))
        }
    }
    fn until(&mut self, stop: &[char]) -> Result<&'a str, String> {
        let i = self.0.find(|c| stop.contains(&c)).ok_or("text ends early")?;
        let (a, b) = self.0.split_at(i);
        self.0 = b;
        Ok(a)
    }
    fn point<T: std::str::FromStr>(&mut self) -> Result<(T, T), String> {
        self.eat("(")?;
        let a = self.until(&[','])?.parse().map_err(|_| "bad number".to_string())?;
        self.eat(",")?;
        let b = self.until(&[')'])?.parse().map_err(|_| "bad number".to_string())?;
        self.eat(")")?;
        Ok((a, b))
    }
    fn list<T, F: FnMut(&mut P<'a>) -> Result<T, String>>(&mut self, open: &str, sep: &str, close: &str, mut f: F) -> Result<Vec<T>, String> {
        self.eat(open)?;
        let mut v = vec![];
        if self.0.starts_with(close) {
            self.eat(close)?;
            return Ok(v);
        }
        loop {
            v.push(f(self)?);
            if self.0.starts_with(close) {
                self.eat(close)?;
                return Ok(v);
            }
            self.eat(sep)?;
        }
    }
    fn end(&self) -> Result<(), String> {
        if self.0.is_empty() { Ok(()) } else { Err(format!("left over: {:?}", self.0)) }
    }
}

fn edge(p: &mut P) -> Result<Vec<(u32, u32)>, String> {
    p.list("Edge(", ",", ")", |p| p.point())
}
fn point_ring(p: &mut P) -> Result<Vec<(u32, u32)>, String> {
    p.list("[", ",", "]", |p| p.point())
}
fn edge_ring(p: &mut P) -> Result<Vec<Vec<(u32, u32)>>, String> {
    p.list("[", ",", "]", edge)
}

fn same<T: PartialEq>(what: &str, text: &str, have: Result<T, String>, want: &T) -> Res {
    match have {
        Ok(ref v) if v == want => Ok(()),
        Ok(_) => Err(format!("{} prints as {}, which reads back differently", what, text)),
        Err(e) => Err(format!("{} prints as {}: {}", what, text, e)),
    }
}

pub struct C26;
impl Prop for C26 {
    type Case = PrintCase;
    const ID: &'static str = "C26";
    const RULE: &'static str = "points, edges, rings of both kinds, regions, attribute records (any fields and values, readable or not) and shapefile records are printed and parsed back; non-trivial: two or more edges, two or more shape rings and two or more fields";
    const ASSUMPTIONS: &'static [&'static str] = &["NaN payloads are not compared"];
    const QUICK: u64 = 250_000;
    fn strategy(_: Tier) -> BoxedStrategy<PrintCase> {
        let e = || vec(vec((coord(), coord()), 0..6), 0..5);
        let fp = || any_f().prop_map(|b| if f(b).is_nan() { 1.5f64.to_bits() } else { b });
        let d = prop_oneof![3 => good_dbf(3), 1 => odd_dbf().prop_map(|mut d| { d.d_records = 0; d.d_header = 0; d.d_record_len = 0; d.date = (1, 1, 1); d })];
        (e(), e(), any::<u8>(), vec(vec((fp(), fp()), 4..8), 1..5), d).prop_map(|(edges, more, n_outer, shp, dbf)| PrintCase { edges, more, n_outer, shp, dbf, grow: Grow::default() }).boxed()
    }
    const LARGE: u64 = 4;
    fn large(t: Tier) -> Option<BoxedStrategy<PrintCase>> {
        Some((Self::strategy(t), grow(&[0, 1, 2, 4])).prop_map(|(c, grow)| PrintCase { grow, ..c }).boxed())
    }
    fn check(c: &PrintCase, ctx: &mut Ctx) -> Res {
        let mut c = c.clone();
        let g = c.grow.clone();
        if g.n > 0 {
            c.dbf.rows.truncate(2);
            g.dbf(&mut c.dbf);
            let fp = |i: u32| ((i as f64 * 0.1).to_bits(), (i as f64).to_bits());
            match g.kind {
                0 => {
                    c.edges.extend((0..g.n).map(|i| vec![(i, 1), (i + 1, 2)]));
                    c.more.extend((0..g.n).map(|i| vec![(i, 1), (i + 1, 2)]));
                }
                1 => {
                    c.edges.push((0..g.n).map(|i| (i, i / 2)).collect());
                    c.shp.push((0..g.n).map(fp).collect());
                }
                2 => c.shp.extend((0..g.n).map(|i| vec![fp(i); 4])),
                _ => {}
            }
        }
        let pts = |v: &Vec<(u32, u32)>| -> Box<[Point]> { v.iter().map(pt).collect::<Vec<_>>().into_boxed_slice() };
        // points and edges
        for e in c.edges.iter() {
            for q in e.iter() {
                let t = format!("{}", pt(q));
                let mut p = P(&t);
                let have = p.point().and_then(|v| p.end().map(|_| v));
                same("a point", &t, have, q)?;
            }
            let t = format!("{}", Edge(pts(e)));
            let mut p = P(&t);
            let have = edge(&mut p).and_then(|v| p.end().map(|_| v));
            same("an edge", &t, have, e)?;
            let t = format!("{}", Ring::Points(pts(e)));
            let mut p = P(&t);
            let have = point_ring(&mut p).and_then(|v| p.end().map(|_| v));
            same("a ring of points", &t, have, e)?;
        }
        let ring_of = |es: &Vec<Vec<(u32, u32)>>| Ring::Edges(es.iter().map(|e| Edge(pts(e))).collect::<Vec<_>>().into_boxed_slice());
        let t = format!("{}", ring_of(&c.edges));
        let mut p = P(&t);
        let have = edge_ring(&mut p).and_then(|v| p.end().map(|_| v));
        same("a ring of edges", &t, have, &c.edges)?;
        // region: rings of points
        let k = if c.more.is_empty() { 0 } else { c.n_outer as usize % (c.more.len() + 1) };
        let reg = Region {
            data: 1,
            outer_rings: c.more[..k].iter().map(|e| Ring::Points(pts(e))).collect::<Vec<_>>().into_boxed_slice(),
            inner_rings: c.more[k..].iter().map(|e| Ring::Points(pts(e))).collect::<Vec<_>>().into_boxed_slice(),
        };
        let t = format!("{}", reg);
        let have = (|| {
            let i = t.find("outer:").ok_or("no outer rings")?;
            let mut p = P(&t[i..]);
            p.eat("outer:")?;
            let o = p.list("[", ", ", "]", point_ring)?;
            p.eat(", inner:")?;
            let n = p.list("[", ", ", "]", point_ring)?;
            p.eat(")")?;
            p.end()?;
            Ok((o, n))
        })();
        same("a region", &t, have, &(c.more[..k].to_vec(), c.more[k..].to_vec()))?;

        // floating-point rings, bit-exact
        let float_ring = |p: &mut P| -> Result<Vec<(u64, u64)>, String> {
            p.list("[", ",", "]", |p| p.point::<f64>().map(|(a, b)| (a.to_bits(), b.to_bits())))
        };
        for r in c.shp.iter() {
            let ring = ShpPolygonRing(r.iter().map(|q| ShpPoint(f(q.0), f(q.1))).collect::<Vec<_>>().into_boxed_slice());
            let t = format!("{}", ring);
            let mut p = P(&t);
            let have = float_ring(&mut p).and_then(|v| p.end().map(|_| v));
            same("a shape ring", &t, have, r)?;
        }

        // attribute records
        let (head, rows) = c.dbf.expected();
        if head.record_len > 65535 || ref_dbf(&c.dbf.bytes(), c.dbf.enc, ErrorKind::UnexpectedEof, CAP).is_err() {
            return Ok(());
        }
        ctx.nontrivial = c.edges.len() > 1 && c.shp.len() > 1 && head.names.len() > 1 && !rows.is_empty();
        let expect = |r: &DbfRow| -> Option<String> {
            if r.invalid { return None; }
            let v: Vec<String> = head.names.iter().zip(r.values.iter()).map(|(n, v)| format!("{}:{}", n, v.as_ref().unwrap())).collect();
            Some(format!("{{{}}}", v.join("; ")))
        };
        let reader = DbfReader::new(Src::whole(c.dbf.bytes()), enc(c.dbf.enc)).map_err(|e| format!("{}", e))?;
        for (rec, row) in reader.zip(rows.iter()) {
            let t = format!("{}", rec.map_err(|e| format!("{}", e))?);
            match expect(row) {
                Some(ref w) => if t != *w { return Err(format!("an attribute record prints as {:?}, expected {:?}", t, w)); },
                None => {
                    ctx.label("invalid record printed");
                    if !t.to_lowercase().contains("invalid") {
                        return Err(format!("an unreadable attribute record prints as {:?}", t));
                    }
                }
            }
        }
        // shapefile records
        let mut pts: Vec<(F, F)> = vec![];
        let mut parts = vec![];
        for r in c.shp.iter() {
            parts.push(pts.len() as u32);
            pts.extend(r.iter().cloned());
        }
        let rec = RecSpec { number: 1, shape: 5, bbox: [0; 4], parts, points: pts, d_parts: 0, d_points: 0, pad: 0, d_len: 0 };
        let s = shp_with_bbox(vec![rec; rows.len()], [0., 0., 1., 1.]);
        let reader = ShapefileReader::new(Src::whole(s.bytes()), Src::whole(c.dbf.bytes()), enc(c.dbf.enc)).map_err(|e| format!("{}", e))?;
        for (rec, row) in reader.zip(rows.iter()) {
            let t = format!("{}", rec.map_err(|e| format!("{}", e))?);
            let have = (|| {
                let mut p = P(&t);
                p.eat("ShapefileRecord(")?;
                match expect(row) {
                    Some(w) => p.eat(&w)?,
                    None => {
                        let i = p.0.rfind("; rings: ").ok_or("no rings")?;
                        if !p.0[..i].to_lowercase().contains("invalid") {
                            return Err("the attributes should be printed as invalid".into());
                        }
                        p.0 = &p.0[i..];
                    }
                }
                p.eat("; rings: ")?;
                let v = p.list("", "; ", ")", float_ring)?;
                p.end()?;
                Ok(v)
            })();
            same("a shapefile record", &t, have, &c.shp)?;
        }
        Ok(())
    }
}
