//! Models of .shp and .dbf files: writers for well-formed and damaged files,
//! independent reference parsers, and sources that hand out bytes in odd ways.
use std::io::{self, ErrorKind, Read};

use encoding::EncodingRef;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use topogeo::read::shapefile::dbf::{DbfError, DbfReader};
use topogeo::read::shapefile::shapefile::ShapefileError;
use topogeo::read::shapefile::shp::{ShpError, ShpReader};

// ---------------------------------------------------------------- sources

pub const KINDS: [ErrorKind; 6] = [
    ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::TimedOut,
    ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::InvalidData,
];

/// How a source splits its bytes, and where it fails.
#[derive(Clone, Debug, Hash, Serialize, Deserialize, Default)]
pub struct Plan {
    /// sizes of successive reads, repeated; 0 = an interrupted call
    pub chunks: Vec<u8>,
    /// fails when this many bytes have been handed out, with KINDS[.1]
    pub fail: Option<(u32, u8)>,
    /// after failing: go on with the remaining bytes instead of failing again
    pub recovers: bool,
    /// the stream simply ends after this many bytes
    pub cut: Option<u32>,
}

pub struct Src {
    pub data: Vec<u8>,
    pos: usize,
    plan: Plan,
    step: usize,
    failed: bool,
    calls: u64,
    max_calls: u64,
}

impl Src {
    pub fn new(data: Vec<u8>, plan: &Plan) -> Src {
        let mut data = data;
        if let Some(c) = plan.cut {
            data.truncate(c as usize);
        }
        let mut plan = plan.clone();
        if plan.chunks.iter().all(|&c| c == 0) {
            plan.chunks.push(255);
        }
        let max_calls = 2000 + (data.len() as u64 + 200) * (plan.chunks.len() as u64 + 2);
        Src { data, pos: 0, plan, step: 0, failed: false, calls: 0, max_calls }
    }
    pub fn whole(data: Vec<u8>) -> Src {
        Src::new(data, &Plan::default())
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > self.max_calls {
            panic!("a source of {} bytes was asked for more {} times", self.data.len(), self.calls);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some((at, k)) = self.plan.fail {
            if self.pos == at as usize && !(self.failed && self.plan.recovers) {
                self.failed = true;
                return Err(io::Error::new(KINDS[k as usize % KINDS.len()], "injected"));
            }
        }
        let c = self.plan.chunks[self.step % self.plan.chunks.len()];
        self.step += 1;
        if c == 0 {
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = if c == 255 { usize::max_value() } else { c as usize };
        n = n.min(buf.len()).min(self.data.len() - self.pos);
        if let (Some((at, _)), false) = (self.plan.fail, self.failed) {
            if at as usize > self.pos {
                n = n.min(at as usize - self.pos);
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn chunks_strategy() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => Just(vec![]),
        2 => vec(prop_oneof![2 => Just(0u8), 3 => 1u8..5, 2 => 1u8..=255], 1..8),
        1 => Just(vec![1u8]),
        1 => Just(vec![0u8, 1u8]),
    ]
    .boxed()
}

// ------------------------------------------------------------------ items

/// What a reader gives for one position.
#[derive(Clone, Debug, PartialEq)]
pub enum Item<R> {
    Rec(R),
    Parse,
    Io(ErrorKind),
    /// an error of either kind (only from the reference)
    AnyErr,
}

impl<R: PartialEq> Item<R> {
    /// Is this, from the code, what the reference wants?
    pub fn meets(&self, want: &Item<R>) -> bool {
        match (self, want) {
            (Item::Rec(a), Item::Rec(b)) => a == b,
            (Item::Rec(_), _) | (_, Item::Rec(_)) => false,
            (_, Item::AnyErr) => true,
            (a, b) => a == b,
        }
    }
    pub fn is_err(&self) -> bool {
        match *self { Item::Rec(_) => false, _ => true }
    }
}

pub fn shp_err<R>(e: &ShpError) -> Item<R> {
    match *e {
        ShpError::IOError(ref e) => Item::Io(e.kind()),
        ShpError::ParseError(_) => Item::Parse,
    }
}
pub fn dbf_err<R>(e: &DbfError) -> Item<R> {
    match *e {
        DbfError::IOError(ref e) => Item::Io(e.kind()),
        DbfError::ParseError(_) => Item::Parse,
    }
}
pub fn join_err<R>(e: &ShapefileError) -> Item<R> {
    match *e {
        ShapefileError::ShpError(ref e) => shp_err(e),
        ShapefileError::DbfError(ref e) => dbf_err(e),
        ShapefileError::JoinError(_) => Item::Parse,
    }
}

// -------------------------------------------------------------------- shp

/// f64s as bits, so that cases can be hashed and saved.
pub type F = u64;
pub fn f(b: F) -> f64 {
    f64::from_bits(b)
}

#[derive(Clone, Debug, PartialEq)]
pub struct ShpRec {
    pub number: u32,
    pub rings: Vec<Vec<(F, F)>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ShpHead {
    pub n_bytes: usize,
    pub bbox: [F; 4],
}

/// One record as it will be written. `parts` are where rings start.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct RecSpec {
    pub number: u32,
    pub shape: u32,
    pub bbox: [F; 4],
    pub parts: Vec<u32>,
    pub points: Vec<(F, F)>,
    pub d_parts: i32,
    pub d_points: i32,
    /// bytes added to (or cut from) the record's content
    pub pad: i16,
    /// added to the declared content length, in 16-bit words
    pub d_len: i32,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ShpSpec {
    pub magic: u32,
    pub version: u32,
    pub shape: u32,
    pub unused: [u8; 20],
    pub bbox: [F; 4],
    pub zm: [F; 4],
    pub recs: Vec<RecSpec>,
    /// added to the declared file length, in words
    pub d_file_len: i32,
    pub trailing: Vec<u8>,
}

pub fn add(v: usize, d: i32) -> u32 {
    (v as i64 + d as i64) as u32
}

impl RecSpec {
    pub fn content(&self) -> Vec<u8> {
        let mut v = vec![];
        v.extend_from_slice(&self.shape.to_le_bytes());
        for b in self.bbox.iter() {
            v.extend_from_slice(&b.to_le_bytes());
        }
        v.extend_from_slice(&add(self.parts.len(), self.d_parts).to_le_bytes());
        v.extend_from_slice(&add(self.points.len(), self.d_points).to_le_bytes());
        for p in self.parts.iter() {
            v.extend_from_slice(&p.to_le_bytes());
        }
        for p in self.points.iter() {
            v.extend_from_slice(&p.0.to_le_bytes());
            v.extend_from_slice(&p.1.to_le_bytes());
        }
        // content lengths are in 16-bit words
        let pad = self.pad & !1;
        if pad < 0 {
            let n = (v.len() as i64 + pad as i64).max(0) as usize;
            v.truncate(n);
        } else {
            v.extend(std::iter::repeat(7u8).take(pad as usize));
        }
        v
    }
    pub fn rings(&self) -> Vec<Vec<(F, F)>> {
        let mut out = vec![];
        for (i, &s) in self.parts.iter().enumerate() {
            let e = self.parts.get(i + 1).map_or(self.points.len(), |&e| e as usize);
            out.push(self.points[s as usize..e].to_vec());
        }
        out
    }
}

impl ShpSpec {
    pub fn bytes(&self) -> Vec<u8> {
        let mut body = vec![];
        for r in self.recs.iter() {
            let c = r.content();
            body.extend_from_slice(&r.number.to_be_bytes());
            body.extend_from_slice(&add(c.len() / 2, r.d_len).to_be_bytes());
            body.extend_from_slice(&c);
        }
        let mut v = vec![];
        v.extend_from_slice(&self.magic.to_be_bytes());
        v.extend_from_slice(&self.unused);
        v.extend_from_slice(&add((100 + body.len()) / 2, self.d_file_len).to_be_bytes());
        v.extend_from_slice(&self.version.to_le_bytes());
        v.extend_from_slice(&self.shape.to_le_bytes());
        for b in self.bbox.iter().chain(self.zm.iter()) {
            v.extend_from_slice(&b.to_le_bytes());
        }
        assert_eq!(v.len(), 100);
        v.extend(body);
        v.extend_from_slice(&self.trailing);
        v
    }
}

/// Makes a case big in one way, without a big description.
#[derive(Clone, Debug, Default, Hash, Serialize, Deserialize)]
pub struct Grow {
    /// 0: records, 1: points of a ring, 2: rings of a record, 3: rows, 4: fields
    pub kind: u8,
    pub n: u32,
    pub at: u8,
}

/// Sizes around the ranges of small integer types.
pub fn size() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => 250u32..262,
        3 => 65_530u32..65_545,
        2 => 300u32..5000,
        1 => 32_760u32..32_775,
        2 => 66_000u32..140_000,
    ]
    .boxed()
}

pub fn grow(kinds: &'static [u8]) -> BoxedStrategy<Grow> {
    (proptest::sample::select(kinds), size(), any::<u8>()).prop_map(|(kind, n, at)| Grow { kind, n, at }).boxed()
}

impl Grow {
    fn pt(i: u32) -> (F, F) {
        ((i as f64 * 0.5).to_bits(), ((i % 977) as f64).to_bits())
    }
    pub fn shp(&self, recs: &mut Vec<RecSpec>) {
        if self.n == 0 || self.kind > 2 {
            return;
        }
        let small = |number: u32| RecSpec { number, shape: 5, bbox: [0; 4], parts: vec![0], points: (number..number + 4).map(Self::pt).collect(), d_parts: 0, d_points: 0, pad: 0, d_len: 0 };
        if recs.is_empty() {
            recs.push(small(1));
        }
        let k = self.at as usize % recs.len();
        match self.kind {
            0 => {
                let tail = recs.split_off(k);
                let n0 = recs.len() as u32;
                recs.extend((0..self.n).map(|i| small(n0 + i + 1)));
                recs.extend(tail);
            }
            1 => {
                let r = &mut recs[k];
                let at = r.points.len().min(2);
                let tail = r.points.split_off(at);
                r.points.extend((0..self.n).map(Self::pt));
                r.points.extend(tail);
                for p in r.parts.iter_mut() {
                    if *p > 0 {
                        *p = p.wrapping_add(self.n);
                    }
                }
            }
            _ => {
                let r = &mut recs[k];
                for i in 0..self.n {
                    r.parts.push(r.points.len() as u32);
                    r.points.extend((0..4).map(|j| Self::pt(i + j)));
                }
            }
        }
    }
    pub fn dbf(&self, d: &mut DbfSpec) {
        match self.kind {
            3 => {
                d.fields.truncate(6);
                for i in 0..self.n {
                    d.rows.push(vec![Cell::Num(i as i64, None), Cell::Long(i)]);
                }
            }
            4 => {
                d.terminator = true;
                d.after.clear();
                d.fields.truncate(4);
                d.rows.truncate(3);
                // as many fields as the header, or as many bytes as the record, has room for
                let n = (self.n as usize).min(2046 - d.fields.len());
                let mut room = 65_534 - d.fields.iter().map(|f| f.len as usize).sum::<usize>();
                for i in 0..n {
                    let len = if self.at % 2 == 0 { 1 + (self.at.wrapping_add(i as u8)) % 29 } else { 255 - (self.at.wrapping_add(i as u8)) % 29 };
                    if len as usize > room {
                        break;
                    }
                    room -= len as usize;
                    d.fields.push(FieldSpec { name: format!("F{}", i), ty: if i % 3 == 0 && len < 30 { 'N' } else { 'C' }, len, junk: [0; 14] });
                }
            }
            _ => {}
        }
    }
}

fn be32(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}
fn le32(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
fn le64(b: &[u8]) -> u64 {
    let mut a = [0u8; 8];
    a.copy_from_slice(&b[..8]);
    u64::from_le_bytes(a)
}

pub type ShpRead = Result<(ShpHead, Vec<Item<ShpRec>>), Item<ShpRec>>;

/// Reference .shp parser. `end`: the error kind met after the last byte.
pub fn ref_shp(d: &[u8], end: ErrorKind) -> ShpRead {
    if d.len() < 100 {
        return Err(Item::Io(end));
    }
    if be32(&d[0..4]) != 9994 || le32(&d[28..32]) != 1000 || le32(&d[32..36]) != 5 {
        return Err(Item::Parse);
    }
    let n_bytes = be32(&d[24..28]) as u64 * 2;
    let head = ShpHead { n_bytes: n_bytes as usize, bbox: [le64(&d[36..]), le64(&d[44..]), le64(&d[52..]), le64(&d[60..])] };
    let mut items = vec![];
    let mut at: u64 = 100;
    while at < n_bytes {
        let have = d.len() as u64;
        let header_ok = at + 8 <= have;
        let len = if header_ok { be32(&d[at as usize + 4..]) as u64 * 2 } else { 0 };
        let declared_ok = at + 8 <= n_bytes && (!header_ok || at + 8 + len <= n_bytes);
        let present = header_ok && at + 8 + len <= have;
        if !declared_ok {
            items.push(Item::AnyErr);
            break;
        }
        if !present {
            items.push(Item::Io(end));
            break;
        }
        let c = &d[at as usize + 8..(at + 8 + len) as usize];
        items.push(ref_polygon(c, be32(&d[at as usize..])).map_or(Item::Parse, Item::Rec));
        at += 8 + len;
    }
    Ok((head, items))
}

fn ref_polygon(c: &[u8], number: u32) -> Option<ShpRec> {
    if c.len() < 44 || le32(c) != 5 {
        return None;
    }
    let np = le32(&c[36..]) as u64;
    let n = le32(&c[40..]) as u64;
    if np == 0 || 44 + 4 * np + 16 * n != c.len() as u64 {
        return None;
    }
    let (np, n) = (np as usize, n as usize);
    let parts: Vec<usize> = (0..np).map(|i| le32(&c[44 + 4 * i..]) as usize).collect();
    let pts = &c[44 + 4 * np..];
    let mut rings = vec![];
    for i in 0..np {
        let s = parts[i];
        let e = if i + 1 < np { parts[i + 1] } else { n };
        if e > n || s > e || e - s < 4 {
            return None;
        }
        rings.push((s..e).map(|k| (le64(&pts[16 * k..]), le64(&pts[16 * k + 8..]))).collect());
    }
    Some(ShpRec { number, rings })
}

pub const CAP: usize = 300_000;

/// Runs the library's reader; at most `CAP` items.
pub fn lib_shp<R: Read>(r: R) -> ShpRead {
    let mut reader = match ShpReader::new(r) {
        Err(e) => return Err(shp_err(&e)),
        Ok(r) => r,
    };
    let b = &reader.header.bounding_box;
    let head = ShpHead { n_bytes: reader.header.file_n_bytes, bbox: [b.0.to_bits(), b.1.to_bits(), b.2.to_bits(), b.3.to_bits()] };
    let mut items = vec![];
    while let Some(x) = reader.next() {
        items.push(match x {
            Err(e) => shp_err(&e),
            Ok(r) => Item::Rec(ShpRec {
                number: r.record_number,
                rings: r.rings.iter().map(|g| g.0.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect()).collect(),
            }),
        });
        if items.len() > CAP {
            break;
        }
    }
    Ok((head, items))
}

fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !c.is_alphanumeric()).collect()
}

/// What errors say: the type of a file that is rejected for its type only, and
/// the number of a rejected record. `want` is the reference's reading of `d`.
pub fn shp_error_texts(d: &[u8], want: &ShpRead) -> Result<u64, String> {
    const TYPES: [(u32, &'static str); 13] = [
        (0, "Null"), (1, "Point"), (3, "PolyLine"), (8, "MultiPoint"), (11, "PointZ"), (13, "PolyLineZ"), (15, "PolygonZ"), (18, "MultiPointZ"),
        (21, "PointM"), (23, "PolyLineM"), (25, "PolygonM"), (28, "MultiPointM"), (31, "MultiPatch"),
    ];
    let mut n = 0;
    match (ShpReader::new(d), want) {
        (Err(e), &Err(_)) => {
            if d.len() >= 100 && be32(&d[0..4]) == 9994 && le32(&d[28..32]) == 1000 {
                let t = le32(&d[32..36]);
                let name = TYPES.iter().find(|x| x.0 == t).map_or(t.to_string(), |x| x.1.to_string());
                let text = e.to_string();
                if !words(&text).contains(&name.as_str()) {
                    return Err(format!("a file of type {} ({}) is rejected with {:?}", t, name, text));
                }
                n += 1;
            }
        }
        (Ok(mut r), &Ok((_, ref items))) => {
            let mut at = 100;
            for w in items.iter() {
                let have = r.next();
                if let Item::Io(_) | Item::AnyErr = *w {
                    break;
                }
                let number = be32(&d[at..]).to_string();
                if let (&Item::Parse, Some(Err(e))) = (w, have) {
                    let text = e.to_string();
                    if !words(&text).contains(&number.as_str()) {
                        return Err(format!("record number {} is rejected with {:?}", number, text));
                    }
                    n += 1;
                }
                at += 8 + be32(&d[at + 4..]) as usize * 2;
            }
        }
        _ => {}
    }
    Ok(n)
}

pub fn describe<R: std::fmt::Debug>(i: Option<&Item<R>>) -> String {
    let s = format!("{:?}", i);
    if s.len() > 400 { format!("{}...", s.chars().take(400).collect::<String>()) } else { s }
}

pub fn compare_items<R: PartialEq + std::fmt::Debug>(what: &str, have: &[Item<R>], want: &[Item<R>]) -> Result<(), String> {
    for i in 0..have.len().max(want.len()) {
        let ok = match (have.get(i), want.get(i)) {
            (Some(h), Some(w)) => h.meets(w),
            _ => false,
        };
        if !ok {
            return Err(format!("{} item {} of {} (expected {}): {} instead of {}", what, i, have.len(), want.len(), describe(have.get(i)), describe(want.get(i))));
        }
    }
    Ok(())
}

// floats of all kinds
pub fn any_f() -> BoxedStrategy<F> {
    prop_oneof![
        4 => (-1000i32..1000).prop_map(|v| (v as f64).to_bits()),
        3 => (-18_000_000i64..18_000_000).prop_map(|v| (v as f64 / 1e5).to_bits()),
        2 => any::<u64>(),
        1 => proptest::sample::select(vec![0.0f64, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324, -1e39, 0.1]).prop_map(|v| v.to_bits()),
    ]
    .boxed()
}

pub fn four_f() -> BoxedStrategy<[F; 4]> {
    (any_f(), any_f(), any_f(), any_f()).prop_map(|(a, b, c, d)| [a, b, c, d]).boxed()
}

/// A valid record: rings of 4..n points.
pub fn good_rec(max_rings: usize, max_pts: usize) -> BoxedStrategy<RecSpec> {
    (
        prop_oneof![3 => (0u32..20), 1 => any::<u32>()],
        vec(prop_oneof![2 => vec((any_f(), any_f()), 4..6), 1 => vec((any_f(), any_f()), 4..max_pts.max(6))], 1..=max_rings.max(1)),
        four_f(),
        any::<u16>(),
    )
        .prop_map(|(number, rings, bbox, close)| {
            let mut parts = vec![];
            let mut points: Vec<(F, F)> = vec![];
            for (i, mut r) in rings.into_iter().enumerate() {
                if close >> (i % 16) & 1 == 0 {
                    let f = r[0];
                    let n = r.len();
                    r[n - 1] = f;
                }
                parts.push(points.len() as u32);
                points.extend(r);
            }
            RecSpec { number, shape: 5, bbox, parts, points, d_parts: 0, d_points: 0, pad: 0, d_len: 0 }
        })
        .boxed()
}

pub fn good_shp(max_recs: usize) -> BoxedStrategy<ShpSpec> {
    let recs = prop_oneof![
        8 => vec(good_rec(3, 8), 0..=max_recs),
        1 => vec(good_rec(8, 40), 0..=2),
        1 => vec(good_rec(1, 4), 0..=4 * max_recs),
    ];
    (recs, four_f(), four_f(), any::<[u8; 20]>(), prop_oneof![2 => Just(vec![]).boxed(), 1 => vec(any::<u8>(), 0..60).boxed()], any::<bool>())
        .prop_map(|(recs, bbox, zm, unused, trailing, seq)| {
            let mut recs = recs;
            if seq {
                for (i, r) in recs.iter_mut().enumerate() {
                    r.number = i as u32 + 1;
                }
            }
            ShpSpec { magic: 9994, version: 1000, shape: 5, unused, bbox, zm, recs, d_file_len: 0, trailing }
        })
        .boxed()
}

fn delta() -> BoxedStrategy<i32> {
    prop_oneof![8 => Just(0i32), 2 => -3i32..=3, 1 => proptest::sample::select(vec![-1000, 8, -8, 16, 1000, 0x1000_0000, 0x2000_0000, 0x4000_0000, 0x7fff_fff0, -0x7fff_fff0])].boxed()
}

/// A record that is often damaged, each time in one or two ways.
pub fn odd_rec() -> BoxedStrategy<RecSpec> {
    let odd_parts = (0u32..16, vec(0u32..18, 0..5), any::<bool>(), (any_f(), any_f()), prop_oneof![6 => Just(None), 1 => (0usize..5, any::<u32>()).prop_map(Some)]).prop_map(|(n, mut parts, sort, p, wild)| {
        if sort {
            parts.sort();
        }
        if let Some((i, v)) = wild {
            if i < parts.len() {
                parts[i] = v;
            }
        }
        let points = (0..n).map(|i| (p.0 ^ i as u64, p.1)).collect();
        RecSpec { number: 9, shape: 5, bbox: [0; 4], parts, points, d_parts: 0, d_points: 0, pad: 0, d_len: 0 }
    });
    // part starts moved by a little
    let nudged = (good_rec(4, 8), vec(-2i32..=2, 1..5)).prop_map(|(mut r, d)| {
        for (i, p) in r.parts.iter_mut().enumerate() {
            *p = (*p as i64 + d[i % d.len()] as i64).max(0) as u32;
        }
        r
    });
    let damaged = (good_rec(2, 8), delta(), delta(), prop_oneof![4 => Just(0i16), 1 => -60i16..60, 1 => -400i16..40], delta(), prop_oneof![5 => Just(5u32), 1 => 0u32..33, 1 => any::<u32>()])
        .prop_map(|(mut r, a, b, pad, d, shape)| {
            r.d_parts = a;
            r.d_points = b;
            r.pad = pad;
            r.d_len = d;
            r.shape = shape;
            r
        });
    // counts changed so that the total length still fits
    let traded = (good_rec(4, 8), -2i32..=2).prop_map(|(mut r, k)| {
        r.d_parts = 4 * k;
        r.d_points = -k;
        r
    });
    prop_oneof![5 => good_rec(2, 6), 3 => odd_parts, 2 => nudged, 2 => damaged, 1 => traded].boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Edit {
    Set(u16, u8),
    Insert(u16, Vec<u8>),
    Delete(u16, u8),
    Truncate(u16),
    Append(Vec<u8>),
}

pub fn edit(d: &mut Vec<u8>, e: &Edit) {
    let n = d.len();
    match *e {
        Edit::Set(p, v) => if n > 0 { d[p as usize % n] = v },
        Edit::Insert(p, ref v) => {
            let p = p as usize % (n + 1);
            let tail = d.split_off(p);
            d.extend_from_slice(v);
            d.extend(tail);
        }
        Edit::Delete(p, k) => if n > 0 {
            let p = p as usize % n;
            let e = (p + k as usize).min(n);
            d.drain(p..e);
        },
        Edit::Truncate(p) => d.truncate(p as usize % (n + 1)),
        Edit::Append(ref v) => d.extend_from_slice(v),
    }
}

pub fn edits() -> BoxedStrategy<Vec<Edit>> {
    let one = prop_oneof![
        3 => (any::<u16>(), any::<u8>()).prop_map(|(p, v)| Edit::Set(p, v)),
        3 => (0u16..160, any::<u8>()).prop_map(|(p, v)| Edit::Set(p, v)),
        1 => (any::<u16>(), vec(any::<u8>(), 0..9)).prop_map(|(p, v)| Edit::Insert(p, v)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(p, v)| Edit::Delete(p, v)),
        2 => any::<u16>().prop_map(Edit::Truncate),
        1 => vec(any::<u8>(), 0..40).prop_map(Edit::Append),
    ];
    prop_oneof![3 => Just(vec![]).boxed(), 2 => vec(one, 0..4).boxed()].boxed()
}

pub fn odd_shp() -> BoxedStrategy<ShpSpec> {
    (
        good_shp(0),
        vec(odd_rec(), 0..7),
        prop_oneof![12 => Just((9994u32, 1000u32, 5u32)), 1 => (any::<u32>(), Just(1000), Just(5)), 1 => (Just(9994), any::<u32>(), Just(5)), 1 => (Just(9994), Just(1000), 0u32..40), 1 => (proptest::sample::select(vec![9993u32, 9995, 9994, 0x0a270000]), proptest::sample::select(vec![1000u32, 999, 1001, 0xe8030000]), proptest::sample::select(vec![5u32, 3, 15, 25, 0x05000000]))],
        prop_oneof![6 => Just(0i32), 3 => -80i32..80, 1 => any::<i32>()],
    )
        .prop_map(|(mut s, recs, (m, v, t), d)| {
            s.recs = recs;
            s.magic = m;
            s.version = v;
            s.shape = t;
            s.d_file_len = d;
            s
        })
        .boxed()
}

// -------------------------------------------------------------------- dbf

pub const ENCODINGS: u8 = 3;
pub fn enc(e: u8) -> EncodingRef {
    match e % ENCODINGS {
        0 => encoding::all::ASCII,
        1 => encoding::all::UTF_8,
        _ => encoding::all::WINDOWS_1252,
    }
}

const W1252: [char; 32] = [
    '\u{20AC}', '\u{81}', '\u{201A}', '\u{192}', '\u{201E}', '\u{2026}', '\u{2020}', '\u{2021}',
    '\u{2C6}', '\u{2030}', '\u{160}', '\u{2039}', '\u{152}', '\u{8D}', '\u{17D}', '\u{8F}',
    '\u{90}', '\u{2018}', '\u{2019}', '\u{201C}', '\u{201D}', '\u{2022}', '\u{2013}', '\u{2014}',
    '\u{2DC}', '\u{2122}', '\u{161}', '\u{203A}', '\u{153}', '\u{9D}', '\u{17E}', '\u{178}',
];

/// Reference decoder.
pub fn decode(e: u8, b: &[u8]) -> Option<String> {
    match e % ENCODINGS {
        0 => if b.iter().all(|&c| c < 128) { Some(b.iter().map(|&c| c as char).collect()) } else { None },
        1 => String::from_utf8(b.to_vec()).ok(),
        _ => Some(b.iter().map(|&c| if c >= 0x80 && c < 0xa0 { W1252[c as usize - 0x80] } else { c as char }).collect()),
    }
}

pub fn encode_char(e: u8, c: char) -> Option<Vec<u8>> {
    match e % ENCODINGS {
        0 => if (c as u32) < 128 { Some(vec![c as u8]) } else { None },
        1 => Some(c.to_string().into_bytes()),
        _ => {
            if (c as u32) < 0x80 || ((c as u32) >= 0xa0 && (c as u32) < 0x100) {
                return Some(vec![c as u32 as u8]);
            }
            W1252.iter().position(|&x| x == c).map(|i| vec![0x80 + i as u8])
        }
    }
}

pub fn encode_fit(e: u8, s: &str, max: usize) -> (String, Vec<u8>) {
    let mut t = String::new();
    let mut b = vec![];
    for c in s.chars() {
        if let Some(x) = encode_char(e, c) {
            if b.len() + x.len() > max {
                break;
            }
            t.push(c);
            b.extend(x);
        }
    }
    (t, b)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FieldSpec {
    /// up to 11 bytes are used
    pub name: String,
    pub ty: char,
    pub len: u8,
    pub junk: [u8; 14],
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Cell {
    Text(String),
    Num(i64, Option<u32>),
    Long(u32),
    Raw(Vec<u8>),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DbfSpec {
    pub enc: u8,
    pub version: u8,
    pub date: (u8, u8, u8),
    pub junk: [u8; 20],
    pub fields: Vec<FieldSpec>,
    pub rows: Vec<Vec<Cell>>,
    /// "deleted" flags of rows
    pub flags: Vec<u8>,
    /// bytes after the field terminator, still in the header
    pub after: Vec<u8>,
    pub terminator: bool,
    pub trailing: Vec<u8>,
    pub d_records: i32,
    pub d_header: i32,
    pub d_record_len: i32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct DbfRow {
    pub bytes: Vec<u8>,
    /// per field; None: error
    pub values: Vec<Option<String>>,
    /// does it print as an invalid record?
    pub invalid: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct DbfHead {
    pub n_records: usize,
    pub record_len: usize,
    pub names: Vec<String>,
}

pub type DbfRead = Result<(DbfHead, Vec<Item<DbfRow>>), Item<DbfRow>>;

impl DbfSpec {
    pub fn name_of(&self, i: usize) -> (String, Vec<u8>) {
        let s: String = self.fields[i].name.chars().filter(|&c| c != '\0').collect();
        let (t, b) = encode_fit(self.enc, &s, 11);
        if b.is_empty() || b[0] == 0x0d {
            return ("f".into(), b"f".to_vec());
        }
        (t, b)
    }
    pub fn field_len(&self, i: usize) -> usize {
        match self.fields[i].ty {
            '+' | '|' => self.fields[i].len.max(4) as usize,
            _ => self.fields[i].len.max(1) as usize,
        }
    }
    /// Value and stored bytes of a cell.
    pub fn cell(&self, row: usize, i: usize) -> (Option<String>, Vec<u8>) {
        let len = self.field_len(i);
        let none = Cell::Text(String::new());
        let r = &self.rows[row];
        let c = if r.is_empty() { &none } else { &r[i % r.len()] };
        match self.fields[i].ty {
            'C' => {
                if let Cell::Raw(ref b) = *c {
                    let mut b = b.clone();
                    b.resize(len, b' ');
                    let n = b.iter().rposition(|&x| x != b' ').map_or(0, |p| p + 1);
                    return (decode(self.enc, &b[..n]), b);
                }
                let s = match *c {
                    Cell::Text(ref s) => s.clone(),
                    Cell::Num(v, _) => v.to_string(),
                    _ => "x".into(),
                };
                let (t, mut b) = encode_fit(self.enc, &s, len);
                b.resize(len, b' ');
                (Some(t.trim_end_matches(' ').to_string()), b)
            }
            'N' => {
                let s = match *c {
                    Cell::Num(v, None) => v.to_string(),
                    Cell::Num(v, Some(d)) => format!("{}.{}", v, d),
                    Cell::Long(v) => v.to_string(),
                    _ => "0".into(),
                };
                let s = if s.len() > len { "1234567890".repeat(26)[..len].to_string() } else { s };
                let mut b = vec![b' '; len - s.len()];
                b.extend_from_slice(s.as_bytes());
                (Some(s), b)
            }
            '+' | '|' => {
                let v = match *c {
                    Cell::Long(v) => v,
                    Cell::Num(v, _) => v as u32,
                    _ => 7,
                };
                let mut b = v.to_le_bytes().to_vec();
                b.resize(len, 0x55);
                (Some(v.to_string()), b)
            }
            _ => (None, vec![b'1'; len]),
        }
    }
    pub fn row_bytes(&self, r: usize) -> Vec<u8> {
        let mut b = vec![if self.flags.is_empty() { b' ' } else { self.flags[r % self.flags.len()] }];
        for i in 0..self.fields.len() {
            b.extend(self.cell(r, i).1);
        }
        b
    }
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.fields.len();
        let rec: usize = 1 + (0..n).map(|i| self.field_len(i)).sum::<usize>();
        let head = 32 + 32 * n + if self.terminator { 1 + self.after.len() } else { 0 };
        let mut v = vec![self.version, self.date.0, self.date.1, self.date.2];
        v.extend_from_slice(&add(self.rows.len(), self.d_records).to_le_bytes());
        v.extend_from_slice(&(add(head, self.d_header) as u16).to_le_bytes());
        v.extend_from_slice(&(add(rec, self.d_record_len) as u16).to_le_bytes());
        v.extend_from_slice(&self.junk);
        for i in 0..n {
            let mut d = [0u8; 32];
            let name = self.name_of(i).1;
            d[..name.len()].copy_from_slice(&name);
            let fs = &self.fields[i];
            if name.len() < 10 {
                // rubbish behind the terminating zero
                d[name.len() + 1] = fs.junk[0];
            }
            d[11] = fs.ty as u32 as u8;
            d[12..16].copy_from_slice(&fs.junk[1..5]);
            d[16] = self.field_len(i) as u8;
            d[17..26].copy_from_slice(&fs.junk[5..14]);
            v.extend_from_slice(&d);
        }
        if self.terminator {
            v.push(0x0d);
            v.extend_from_slice(&self.after);
        }
        for r in 0..self.rows.len() {
            v.extend(self.row_bytes(r));
        }
        v.extend_from_slice(&self.trailing);
        v
    }
    /// What reading it must give, straight from the model.
    pub fn expected(&self) -> (DbfHead, Vec<DbfRow>) {
        let n = self.fields.len();
        let names = (0..n).map(|i| self.name_of(i).0).collect();
        let rows: Vec<DbfRow> = (0..self.rows.len()).map(|r| {
            let values: Vec<Option<String>> = (0..n).map(|i| self.cell(r, i).0).collect();
            let invalid = values.iter().any(|v| v.is_none());
            DbfRow { bytes: self.row_bytes(r), values, invalid }
        }).collect();
        (DbfHead { n_records: rows.len(), record_len: 1 + (0..n).map(|i| self.field_len(i)).sum::<usize>(), names }, rows)
    }
}

fn ref_value(e: u8, ty: u8, off: usize, len: usize, rec: &[u8]) -> Option<String> {
    if off + len > rec.len() {
        return None;
    }
    let b = &rec[off..off + len];
    match ty {
        b'C' => {
            let n = b.iter().rposition(|&x| x != b' ').map_or(0, |p| p + 1);
            decode(e, &b[..n])
        }
        b'N' => {
            let s = b.iter().position(|&x| x != b' ')?;
            let t = &b[s..];
            let digits = |x: &[u8]| !x.is_empty() && x.iter().all(|c| *c >= b'0' && *c <= b'9');
            let u = if t[0] == b'-' { &t[1..] } else { t };
            let ok = match u.iter().position(|&x| x == b'.') {
                None => digits(u),
                Some(p) => digits(&u[..p]) && digits(&u[p + 1..]),
            };
            if ok { String::from_utf8(t.to_vec()).ok() } else { None }
        }
        b'+' | b'|' => if b.len() < 4 { None } else { Some(le32(b).to_string()) },
        _ => None,
    }
}

/// Reference .dbf parser; at most `cap` records.
pub fn ref_dbf(d: &[u8], e: u8, end: ErrorKind, cap: usize) -> DbfRead {
    if d.len() < 32 {
        return Err(Item::Io(end));
    }
    if d[2] > 12 || d[3] > 31 {
        return Err(Item::Parse);
    }
    let n_records = le32(&d[4..]) as usize;
    let head = u16::from_le_bytes([d[8], d[9]]) as usize;
    let rec = u16::from_le_bytes([d[10], d[11]]) as usize;
    if head < 32 {
        return Err(Item::Parse);
    }
    if d.len() < head {
        return Err(Item::Io(end));
    }
    let mut names = vec![];
    let mut layout = vec![];
    let mut off = 1;
    let mut at = 32;
    while at + 32 <= head && d[at] != 0x0d {
        let x = &d[at..at + 32];
        let n = x[..11].iter().position(|&c| c == 0).unwrap_or(11);
        match decode(e, &x[..n]) {
            None => return Err(Item::Parse),
            Some(s) => names.push(s),
        }
        layout.push((x[11], off, x[16] as usize));
        off += x[16] as usize;
        at += 32;
    }
    let mut items = vec![];
    let mut at = head;
    for _ in 0..n_records.min(cap) {
        if at + rec > d.len() {
            items.push(Item::Io(end));
            break;
        }
        let b = &d[at..at + rec];
        let values: Vec<Option<String>> = layout.iter().map(|&(t, o, l)| ref_value(e, t, o, l, b)).collect();
        let invalid = values.iter().any(|v| v.is_none());
        items.push(Item::Rec(DbfRow { bytes: b.to_vec(), values, invalid }));
        at += rec;
    }
    Ok((DbfHead { n_records, record_len: rec, names }, items))
}

pub fn lib_dbf<R: Read>(r: R, e: EncodingRef, cap: usize) -> DbfRead {
    let mut reader = match DbfReader::new(r, e) {
        Err(e) => return Err(dbf_err(&e)),
        Ok(r) => r,
    };
    let meta = reader.meta.clone();
    let head = DbfHead { n_records: meta.n_records, record_len: meta.n_bytes_per_record, names: meta.fields.iter().map(|f| f.name.clone()).collect() };
    let mut items = vec![];
    while items.len() < cap {
        let x = match reader.next() {
            None => break,
            Some(x) => x,
        };
        items.push(match x {
            Err(e) => dbf_err(&e),
            Ok(r) => {
                let values = meta.fields.iter().map(|f| f.read_string(&r).ok()).collect();
                let text = format!("{}", r);
                Item::Rec(DbfRow { bytes: r.bytes.to_vec(), values, invalid: text.starts_with("{Invalid DBF record") })
            }
        });
    }
    Ok((head, items))
}

pub fn compare_dbf(have: &DbfRead, want: &DbfRead) -> Result<(), String> {
    match (have, want) {
        (Err(a), Err(b)) => if a.meets(b) { Ok(()) } else { Err(format!("opening .dbf fails with {:?}, expected {:?}", a, b)) },
        (Err(a), Ok(_)) => Err(format!("a readable .dbf header is rejected ({:?})", a)),
        (Ok(_), Err(b)) => Err(format!("a .dbf header is accepted that should be rejected ({:?})", b)),
        (Ok(a), Ok(b)) => {
            if a.0 != b.0 {
                return Err(format!(".dbf header read as {:?}, expected {:?}", a.0, b.0));
            }
            compare_items(".dbf", &a.1, &b.1)
        }
    }
}

pub fn compare_shp(have: &ShpRead, want: &ShpRead) -> Result<(), String> {
    match (have, want) {
        (Err(a), Err(b)) => if a.meets(b) { Ok(()) } else { Err(format!("opening .shp fails with {:?}, expected {:?}", a, b)) },
        (Err(a), Ok(_)) => Err(format!("a readable .shp header is rejected ({:?})", a)),
        (Ok(_), Err(b)) => Err(format!("a .shp header is accepted that should be rejected ({:?})", b)),
        (Ok(a), Ok(b)) => {
            if a.0 != b.0 {
                return Err(format!(".shp header read as {:?}, expected {:?}", a.0, b.0));
            }
            compare_items(".shp", &a.1, &b.1)
        }
    }
}

/// The longest name that both encodings and the 11-byte limit allow is cut by
/// the writer.
fn name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => proptest::sample::select(vec!["foo", "FOO", "Foo", "name", "name2", "nam", "ELEVENCHARS", "ELEVENCHAR", "é", "Ünï", "日本語名", "a b", " a", "a ", "\t"]).prop_map(|s| s.to_string()),
        2 => vec(prop_oneof![6 => proptest::char::range('A', 'z'), 1 => proptest::char::range('0', '9'), 1 => proptest::char::range('\u{a0}', '\u{ff}'), 1 => any::<char>()], 1..12).prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        1 => Just(String::new()),
        2 => vec(proptest::char::range(' ', '~'), 0..20).prop_map(|v| v.into_iter().collect()),
        2 => vec(prop_oneof![Just(' '), proptest::char::range('a', 'f'), Just('\u{a0}'), Just('é'), Just('€'), Just('œ'), Just('日'), Just('\u{3000}'), Just('\0'), Just('\t'), Just('\u{1f600}')], 0..12).prop_map(|v| v.into_iter().collect()),
        1 => proptest::sample::select(vec!["a; b:c", "{x}", "12", " lead", "mid dle", "end\t", "end\n", "\u{feff}bom", "\u{85}", "\0\0"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}

pub fn cell(raw: bool) -> BoxedStrategy<Cell> {
    let num = (prop_oneof![3 => -1000i64..1000, 1 => any::<i64>(), 1 => Just(0i64)], prop_oneof![2 => Just(None).boxed(), 1 => any::<u32>().prop_map(Some).boxed(), 1 => (0u32..100).prop_map(Some).boxed()]).prop_map(|(a, b)| Cell::Num(a, b));
    let long = prop_oneof![2 => 0u32..300, 2 => any::<u32>(), 1 => Just(u32::max_value())].prop_map(Cell::Long);
    if raw {
        prop_oneof![2 => text().prop_map(Cell::Text), 2 => num, 2 => long, 1 => vec(any::<u8>(), 0..8).prop_map(Cell::Raw)].boxed()
    } else {
        prop_oneof![3 => text().prop_map(Cell::Text), 3 => num, 2 => long].boxed()
    }
}

pub fn field(types: &'static [char]) -> BoxedStrategy<FieldSpec> {
    (name(), proptest::sample::select(types), prop_oneof![5 => 1u8..24, 1 => any::<u8>(), 1 => Just(255u8)], any::<[u8; 14]>())
        .prop_map(|(name, ty, len, junk)| FieldSpec { name, ty, len, junk })
        .boxed()
}

pub fn good_dbf(max_rows: usize) -> BoxedStrategy<DbfSpec> {
    let fields = prop_oneof![8 => vec(field(&['C', 'C', 'N', 'N', '+', '|']), 1..6), 1 => vec(field(&['C', 'N', '+']), 6..40)];
    let rows = prop_oneof![8 => vec(vec(cell(false), 1..6), 0..=max_rows), 1 => vec(vec(cell(false), 1..3), 0..=6 * max_rows)];
    (
        (0u8..ENCODINGS, any::<u8>(), (any::<u8>(), 0u8..=12, 0u8..=31), any::<[u8; 20]>()),
        fields,
        rows,
        prop_oneof![2 => Just(vec![b' ']).boxed(), 1 => vec(prop_oneof![Just(b' '), Just(b'*'), any::<u8>()], 1..4).boxed()],
        (prop_oneof![3 => Just(vec![]).boxed(), 1 => Just(vec![0u8; 263]).boxed(), 1 => vec(any::<u8>(), 0..100).boxed()], proptest::bool::weighted(0.9)),
        prop_oneof![1 => Just(vec![]).boxed(), 2 => Just(vec![0x1au8]).boxed(), 1 => vec(any::<u8>(), 0..50).boxed()],
    )
        .prop_map(|((enc, version, date, junk), fields, rows, flags, (after, terminator), trailing)| DbfSpec {
            enc, version, date, junk, fields, rows, flags, after, terminator, trailing, d_records: 0, d_header: 0, d_record_len: 0,
        })
        .boxed()
}

pub fn odd_dbf() -> BoxedStrategy<DbfSpec> {
    (
        good_dbf(5),
        vec(field(&['C', 'N', '+', 'L', 'D', 'F', '@', 'O', 'B', 'I', '\0']), 0..3),
        vec(vec(cell(true), 1..4), 0..4),
        prop_oneof![10 => Just(None).boxed(), 1 => (any::<u8>(), any::<u8>()).prop_map(Some).boxed(), 1 => proptest::sample::select(vec![(12u8, 31u8), (13, 1), (12, 32), (0, 0)]).prop_map(Some).boxed()],
        prop_oneof![6 => Just(0i32), 2 => -3i32..6, 1 => any::<i32>()],
        prop_oneof![6 => Just(0i32), 2 => -40i32..40, 1 => any::<i32>()],
        prop_oneof![6 => Just(0i32), 2 => -9i32..9, 1 => -300i32..300, 1 => any::<i32>()],
    )
        .prop_map(|(mut s, fields, rows, date, a, b, c)| {
            s.fields.extend(fields);
            s.rows.extend(rows);
            if let Some((m, d)) = date {
                s.date = (1, m, d);
            }
            s.d_records = a;
            s.d_header = b;
            s.d_record_len = c;
            s
        })
        .boxed()
}
