//! C01-C06: reading .shp and .dbf files.
use std::error::Error;
use std::fs;
use std::io::{ErrorKind, Read};
use std::path::{Path, PathBuf};

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use topogeo::read::shapefile;
use topogeo::read::shapefile::dbf::{self, DbfField, DbfReader};
use topogeo::read::shapefile::shapefile::{ShapefileError, ShapefileReader};
use topogeo::read::shapefile::shp;

use crate::alloc;
use crate::files::*;
use crate::run::*;

const EOF: ErrorKind = ErrorKind::UnexpectedEof;

// ------------------------------------------------------------------- C01

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ShpCase {
    pub shp: ShpSpec,
    pub chunks: Vec<u8>,
    #[serde(default)]
    pub grow: Grow,
}

pub struct C01;
impl Prop for C01 {
    type Case = ShpCase;
    const ID: &'static str = "C01";
    const RULE: &'static str = "well-formed polygon .shp streams written by a model (0..24 records, 1..8 rings, 4..40 points, any f64 bits, any record numbers, trailing bytes), read through sources with odd read sizes; oracle: the model. Non-trivial: two or more records and a record of two or more rings";
    const QUICK: u64 = 500_000;
    fn strategy(_: Tier) -> BoxedStrategy<ShpCase> {
        (good_shp(6), chunks_strategy()).prop_map(|(shp, chunks)| ShpCase { shp, chunks, grow: Grow::default() }).boxed()
    }
    const LARGE: u64 = 10;
    fn large(t: Tier) -> Option<BoxedStrategy<ShpCase>> {
        Some((Self::strategy(t), grow(&[0, 1, 1, 2])).prop_map(|(c, grow)| ShpCase { grow, ..c }).boxed())
    }
    fn check(c: &ShpCase, ctx: &mut Ctx) -> Res {
        let mut c = c.clone();
        c.grow.shp(&mut c.shp.recs);
        let bytes = c.shp.bytes();
        let want: Vec<Item<ShpRec>> = c.shp.recs.iter().map(|r| Item::Rec(ShpRec { number: r.number, rings: r.rings() })).collect();
        ctx.nontrivial = want.len() >= 2 && c.shp.recs.iter().any(|r| r.parts.len() >= 2);
        ctx.label_if(!c.shp.trailing.is_empty(), "trailing bytes");
        ctx.label_if(want.is_empty(), "no records");
        ctx.label_if(c.shp.recs.iter().any(|r| r.points.iter().any(|p| f(p.0).is_nan() || f(p.1).is_nan())), "NaN coordinates");
        let head = ShpHead { n_bytes: bytes.len() - c.shp.trailing.len(), bbox: c.shp.bbox };
        let plan = Plan { chunks: c.chunks.clone(), ..Plan::default() };
        let have = lib_shp(Src::new(bytes, &plan));
        compare_shp(&have, &Ok((head, want)))
    }
}

// ------------------------------------------------------------------- C02

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DbfCase {
    pub dbf: DbfSpec,
    pub chunks: Vec<u8>,
    pub probe: String,
    #[serde(default)]
    pub grow: Grow,
}

/// Looks fields up by name and checks that each lookup gives the first field
/// of that name.
fn check_lookup<G: Fn(&str) -> Option<DbfField>>(get: G, names: &[String], probe: &str) -> Result<(), String> {
    let mut probes: Vec<String> = names.to_vec();
    // of very many fields, every 41st is enough
    let step = if names.len() > 200 { 41 } else { 1 };
    if step > 1 {
        probes = names.iter().step_by(7).cloned().collect();
    }
    for n in names.iter().step_by(step) {
        probes.push(n.to_lowercase());
        probes.push(n.to_uppercase());
        probes.push(format!("{} ", n));
        probes.push(format!("{}x", n));
        probes.push(n.trim().to_string());
        let mut s = n.clone();
        s.pop();
        probes.push(s);
    }
    probes.push(String::new());
    probes.push(probe.to_string());
    for p in probes {
        let want = names.iter().position(|n| *n == p);
        match (get(&p), want) {
            (None, None) => {}
            (Some(ref f), Some(_)) if f.name == p => {}
            (f, w) => return Err(format!("looking up field {:?} among {:?} gives {:?}, expected field {:?}", p, names, f.map(|f| f.name), w)),
        }
    }
    Ok(())
}

pub struct C02;
impl Prop for C02 {
    type Case = DbfCase;
    const ID: &'static str = "C02";
    const RULE: &'static str = "well-formed .dbf streams written by a model (1..40 fields of types C, N, + and |, widths 1..255, 0..48 rows, ASCII / UTF-8 / Windows-1252 text, deleted flags, bytes between the terminator and the data, trailing bytes), read through sources with odd read sizes; oracle: the model. Non-trivial: two or more fields of different types and two or more rows";
    const QUICK: u64 = 180_000;
    fn strategy(_: Tier) -> BoxedStrategy<DbfCase> {
        (good_dbf(8), chunks_strategy(), "[a-zA-Z]{0,11}").prop_map(|(dbf, chunks, probe)| DbfCase { dbf, chunks, probe, grow: Grow::default() }).boxed()
    }
    const LARGE: u64 = 10;
    fn large(t: Tier) -> Option<BoxedStrategy<DbfCase>> {
        Some((Self::strategy(t), grow(&[3, 3, 4])).prop_map(|(c, grow)| DbfCase { grow, ..c }).boxed())
    }
    fn check(c: &DbfCase, ctx: &mut Ctx) -> Res {
        let mut c = c.clone();
        c.grow.dbf(&mut c.dbf);
        let d = &c.dbf;
        let (head, rows) = d.expected();
        if head.record_len > 65535 {
            return Ok(());
        }
        let plan = Plan { chunks: c.chunks.clone(), ..Plan::default() };
        let want: DbfRead = Ok((head.clone(), rows.iter().cloned().map(Item::Rec).collect()));
        ctx.nontrivial = rows.len() >= 2 && d.fields.iter().any(|f| f.ty != d.fields[0].ty);
        ctx.label(format!("encoding {}", enc(d.enc).name()));
        ctx.label_if(!d.terminator, "no field terminator");
        ctx.label_if(!d.after.is_empty() && d.terminator, "bytes after the terminator");
        let mut u = head.names.clone();
        u.sort();
        u.dedup();
        ctx.label_if(u.len() < head.names.len(), "duplicate field names");
        let bytes = d.bytes();
        let have = lib_dbf(Src::new(bytes.clone(), &plan), enc(d.enc), CAP);
        compare_dbf(&have, &want)?;
        // Lookup finds the first field: its values, not a namesake's
        let mut r = DbfReader::new(Src::new(bytes, &plan), enc(d.enc)).map_err(|e| format!("second reading fails: {}", e))?;
        check_lookup(|n| r.get_field(n), &head.names, &c.probe)?;
        let fields: Vec<(usize, DbfField)> = head.names.iter().map(|n| (head.names.iter().position(|m| m == n).unwrap(), r.get_field(n).unwrap())).collect();
        for row in rows.iter() {
            let rec = match r.next() {
                Some(Ok(r)) => r,
                x => return Err(format!("second reading gives {:?}", x.map(|y| y.is_ok()))),
            };
            for &(i, ref f) in fields.iter() {
                let v = f.read_string(&rec).ok();
                if v != row.values[i] {
                    return Err(format!("the field found by the name {:?} reads {:?}, expected {:?}", f.name, v, row.values[i]));
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------- C03

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PairCase {
    pub recs: Vec<RecSpec>,
    pub dbf: DbfSpec,
    /// 0..3: streams; otherwise by path
    pub how: u8,
    pub name: u8,
    pub chunks: Vec<u8>,
    #[serde(default)]
    pub grow: Grow,
}

pub fn shp_of(recs: &[RecSpec]) -> ShpSpec {
    let z = 0u64;
    let m = 1000f64.to_bits();
    ShpSpec { magic: 9994, version: 1000, shape: 5, unused: [0; 20], bbox: [z, z, m, m], zm: [0; 4], recs: recs.to_vec(), d_file_len: 0, trailing: vec![] }
}

type Pair = (Vec<Vec<(F, F)>>, DbfRow);

/// What the combined reader must give.
fn pair_up(s: &[Item<ShpRec>], d: &[Item<DbfRow>]) -> Vec<Item<Pair>> {
    let mut out = vec![];
    for i in 0..s.len().max(d.len()) {
        out.push(match (s.get(i), d.get(i)) {
            (Some(&Item::Rec(ref a)), Some(&Item::Rec(ref b))) => Item::Rec((a.rings.clone(), b.clone())),
            _ => Item::AnyErr,
        });
    }
    out
}

fn drain<R: Read, S: Read>(r: &mut ShapefileReader<R, S>, cap: usize) -> (Vec<Item<Pair>>, Vec<Option<ShapefileError>>) {
    let fields = r.dbf_fields();
    let mut items = vec![];
    let mut errors = vec![];
    while items.len() < cap {
        match r.next() {
            None => break,
            Some(Err(e)) => {
                items.push(join_err(&e));
                errors.push(Some(e));
            }
            Some(Ok(rec)) => {
                let values: Vec<Option<String>> = fields.iter().map(|f| f.read_string(&rec.data).ok()).collect();
                let invalid = values.iter().any(|v| v.is_none());
                items.push(Item::Rec((
                    rec.rings.iter().map(|g| g.0.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect()).collect(),
                    DbfRow { bytes: rec.data.bytes.to_vec(), values, invalid },
                )));
                errors.push(None);
            }
        }
    }
    (items, errors)
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let base = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")).join("out").join("scratch");
        let d = base.join(format!("{}", std::process::id()));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

const STEMS: [&str; 6] = ["a", "a.b", "x y", ".hidden", "süd", "dir.shp/in"];

pub struct C03;
impl Prop for C03 {
    type Case = PairCase;
    const ID: &'static str = "C03";
    const RULE: &'static str = "pairs of .shp streams (0..8 records, some rejected in various ways) and .dbf streams (0..8 rows), read together from streams or from files of various names with other tables beside them; oracle: reference parsers of both files, zipped. Non-trivial: a rejected shape record followed by good ones, or unequal counts";
    const ASSUMPTIONS: &'static [&'static str] = &["where shape and attribute row of one position are both bad, any error is accepted"];
    const QUICK: u64 = 150_000;
    fn strategy(_: Tier) -> BoxedStrategy<PairCase> {
        let rec = prop_oneof![3 => good_rec(2, 5), 2 => odd_rec()].prop_map(|mut r| {
            r.d_len = 0;
            r
        });
        (vec(rec, 0..8), good_dbf(7), 0u8..8, any::<u8>(), chunks_strategy(), proptest::bool::weighted(0.5))
            .prop_map(|(recs, mut dbf, how, name, chunks, same)| {
                if same {
                    let row = vec![Cell::Num(5, None)];
                    dbf.rows.resize(recs.len(), row);
                }
                PairCase { recs, dbf, how, name, chunks, grow: Grow::default() }
            })
            .boxed()
    }
    const LARGE: u64 = 8;
    fn large(t: Tier) -> Option<BoxedStrategy<PairCase>> {
        Some((Self::strategy(t), grow(&[0, 0, 1, 2, 3, 4])).prop_map(|(c, grow)| PairCase { grow, ..c }).boxed())
    }
    fn check(c: &PairCase, ctx: &mut Ctx) -> Res {
        let mut c = c.clone();
        c.grow.shp(&mut c.recs);
        c.grow.dbf(&mut c.dbf);
        if c.grow.n > 0 && c.grow.kind == 0 {
            c.dbf.rows.resize(c.recs.len() - c.grow.at as usize % 2, vec![Cell::Num(5, None)]);
            c.dbf.fields.truncate(4);
        }
        let sb = shp_of(&c.recs).bytes();
        let db = c.dbf.bytes();
        if c.dbf.expected().0.record_len > 65535 {
            return Ok(());
        }
        let e = if c.how < 5 { c.dbf.enc } else { (c.how - 5) % 3 };
        let rs = ref_shp(&sb, EOF);
        let rd = ref_dbf(&db, e, EOF, CAP);
        let (s, d) = match (rs, rd) {
            (Ok(s), Ok(d)) => (s.1, d),
            // field names may not be text in another encoding
            _ => return Ok(()),
        };
        let (names, d) = (d.0.names, d.1);
        let want = pair_up(&s, &d);
        let bad_then_good = s.iter().position(|i| i.is_err()).map_or(false, |p| s[p..].iter().any(|i| !i.is_err()));
        ctx.nontrivial = bad_then_good || s.len() != d.len();
        ctx.label_if(bad_then_good, "bad shape before a good one");
        ctx.label_if(s.len() > d.len(), "more shapes than rows");
        ctx.label_if(s.len() < d.len(), "more rows than shapes");
        ctx.label_if(c.how >= 4, "opened by path");

        let (items, fields) = if c.how < 4 {
            let plan = Plan { chunks: c.chunks.clone(), ..Plan::default() };
            let mut r = ShapefileReader::new(Src::new(sb, &plan), Src::new(db, &plan), enc(e)).map_err(|e| format!("opening good streams fails: {}", e))?;
            check_lookup(|n| r.get_field(n), &names, "nope")?;
            let f: Vec<String> = r.dbf_fields().iter().map(|f| f.name.clone()).collect();
            (drain(&mut r, CAP).0, f)
        } else {
            let dir = Scratch::new();
            let stem = STEMS[c.name as usize % STEMS.len()];
            let path = dir.0.join(format!("{}.shp", stem));
            fs::create_dir_all(path.parent().unwrap()).unwrap();
            fs::write(&path, &sb).unwrap();
            let dbf_path = dir.0.join(format!("{}.dbf", stem));
            // other tables nearby that must not be picked up
            let mut decoy = c.dbf.clone();
            for r in decoy.rows.iter_mut() {
                *r = vec![Cell::Num(-1, None)];
            }
            decoy.rows.push(vec![Cell::Num(-1, None)]);
            let decoy = decoy.bytes();
            for n in vec!["a.dbf", "b.dbf", "a.shp.dbf", "a.b.shp.dbf", "in.dbf", ".dbf", "x.dbf"] {
                let q = dir.0.join(n);
                if q != dbf_path {
                    fs::write(q, &decoy).unwrap();
                }
            }
            let open = |p: &Path| match c.how {
                4 => shapefile::open(p, enc(e)),
                5 => shapefile::open_ascii(p),
                6 => shapefile::open_utf8(p),
                _ => shapefile::open_windows1252(p),
            };
            if c.name >= 240 {
                // without its .dbf it must not open
                return match open(&path) {
                    Err(ShapefileError::DbfError(dbf::DbfError::IOError(_))) => Ok(()),
                    Err(e) => Err(format!("missing .dbf reported as {:?}", e)),
                    Ok(_) => Err("a .shp without its .dbf opens".into()),
                };
            }
            fs::write(&dbf_path, &db).unwrap();
            // the single readers see the same files
            let one = shp::open(&path).map_err(|e| format!("shp::open fails: {}", e))?.count();
            if one != s.len() {
                return Err(format!("shp::open gives {} items, expected {}", one, s.len()));
            }
            let two = dbf::open(&dbf_path, enc(e)).map_err(|e| format!("dbf::open fails: {}", e))?.count();
            if two != d.len() {
                return Err(format!("dbf::open gives {} items, expected {}", two, d.len()));
            }
            let mut r = open(&path).map_err(|e| format!("opening good files fails: {}", e))?;
            check_lookup(|n| r.get_field(n), &names, "nope")?;
            let f: Vec<String> = r.dbf_fields().iter().map(|f| f.name.clone()).collect();
            (drain(&mut r, CAP).0, f)
        };
        if fields != names {
            return Err(format!("fields are {:?}, expected {:?}", fields, names));
        }
        compare_items("combined", &items, &want)
    }
}

// ------------------------------------------------------------------- C04

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct OddShpCase {
    pub shp: ShpSpec,
    pub edits: Vec<Edit>,
    #[serde(default)]
    pub grow: Grow,
}

pub struct C04;
impl Prop for C04 {
    type Case = OddShpCase;
    const ID: &'static str = "C04";
    const RULE: &'static str = ".shp streams with damaged headers, lengths, counts, part tables and shape types, plus random byte edits, truncations and insertions; oracle: an independent reference parser (which records are acceptable, and where errors belong), a bound on the number of items and source reads, a bound on memory, and what errors must name. Non-trivial: the header is accepted and at least one record is rejected";
    const QUICK: u64 = 1_000_000;
    fn strategy(_: Tier) -> BoxedStrategy<OddShpCase> {
        (prop_oneof![4 => odd_shp(), 1 => good_shp(4)], edits()).prop_map(|(shp, edits)| OddShpCase { shp, edits, grow: Grow::default() }).boxed()
    }
    const LARGE: u64 = 10;
    fn large(t: Tier) -> Option<BoxedStrategy<OddShpCase>> {
        Some((Self::strategy(t), grow(&[0, 1, 1, 2])).prop_map(|(c, grow)| OddShpCase { grow, ..c }).boxed())
    }
    fn check(c: &OddShpCase, ctx: &mut Ctx) -> Res {
        let mut c = c.clone();
        c.grow.shp(&mut c.shp.recs);
        let mut bytes = c.shp.bytes();
        for e in c.edits.iter() {
            edit(&mut bytes, e);
        }
        let mut want = ref_shp(&bytes, EOF);
        let texts = shp_error_texts(&bytes, &want)?;
        ctx.label_if(texts > 0, "error that must name a type or record");
        // Any error will do where one is due
        match want {
            Ok((_, ref mut items)) => {
                for i in items.iter_mut() {
                    if i.is_err() {
                        *i = Item::AnyErr;
                    }
                }
                ctx.nontrivial = items.iter().any(|i| i.is_err());
                ctx.label_if(items.iter().any(|i| !i.is_err()) && ctx.nontrivial, "good and bad records");
                ctx.label_if(items.len() > 1 && items[..items.len() - 1].iter().any(|i| i.is_err()), "reading goes on after a bad record");
            }
            Err(_) => {
                ctx.label("header rejected");
                want = Err(Item::AnyErr);
            }
        }
        let len = bytes.len();
        let src = Src::whole(bytes);
        let before = alloc::reset_peak();
        let have = lib_shp(src);
        let used = alloc::peak() - before;
        compare_shp(&have, &want)?;
        // items are kept by this check too, so allow for them
        if used > 100_000 + 40 * len {
            return Err(format!("reading {} bytes took {} bytes of memory", len, used));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------- C05

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct OddDbfCase {
    pub dbf: DbfSpec,
    pub enc: u8,
    pub edits: Vec<Edit>,
    #[serde(default)]
    pub grow: Grow,
}

pub struct C05;
impl Prop for C05 {
    type Case = OddDbfCase;
    const ID: &'static str = "C05";
    const RULE: &'static str = ".dbf streams with damaged dates, counts, header and record lengths, field types and widths, raw bytes in cells, plus random byte edits, in matching and other encodings; oracle: an independent reference parser and decoder. Every field of every record is read and every record printed. Non-trivial: the header is accepted and some field or record is bad";
    const QUICK: u64 = 700_000;
    fn strategy(_: Tier) -> BoxedStrategy<OddDbfCase> {
        (prop_oneof![4 => odd_dbf(), 1 => good_dbf(4)], prop_oneof![3 => Just(None).boxed(), 1 => (0u8..ENCODINGS).prop_map(Some).boxed()], edits())
            .prop_map(|(dbf, e, edits)| { let enc = e.unwrap_or(dbf.enc); OddDbfCase { dbf, enc, edits, grow: Grow::default() } })
            .boxed()
    }
    const LARGE: u64 = 10;
    fn large(t: Tier) -> Option<BoxedStrategy<OddDbfCase>> {
        Some((Self::strategy(t), grow(&[3, 3, 4])).prop_map(|(c, grow)| OddDbfCase { grow, ..c }).boxed())
    }
    fn check(c: &OddDbfCase, ctx: &mut Ctx) -> Res {
        let mut c = c.clone();
        c.grow.dbf(&mut c.dbf);
        let max = if c.grow.n > 0 && c.grow.kind == 3 { 150_000 } else { 300 };
        let mut bytes = c.dbf.bytes();
        for e in c.edits.iter() {
            edit(&mut bytes, e);
        }
        let mut want = ref_dbf(&bytes, c.enc, EOF, max);
        match want {
            Ok((_, ref mut items)) => {
                for i in items.iter_mut() {
                    if i.is_err() {
                        *i = Item::AnyErr;
                    }
                }
                let bad_field = items.iter().any(|i| match *i { Item::Rec(ref r) => r.invalid, _ => false });
                ctx.nontrivial = bad_field || items.iter().any(|i| i.is_err());
                ctx.label_if(bad_field, "unreadable field");
                ctx.label_if(items.iter().any(|i| i.is_err()), "short record");
                ctx.label_if(items.len() >= max, "only the first 300 records looked at");
            }
            Err(_) => {
                ctx.label("header rejected");
                want = Err(Item::AnyErr);
            }
        }
        let have = lib_dbf(Src::whole(bytes), enc(c.enc), max);
        compare_dbf(&have, &want)
    }
}

// ------------------------------------------------------------------- C06

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FaultCase {
    pub shp: ShpSpec,
    pub dbf: DbfSpec,
    pub ps: Plan,
    pub pd: Plan,
    /// 0: .shp alone, 1: .dbf alone, 2: both
    pub what: u8,
    #[serde(default)]
    pub grow: Grow,
}

fn plan_strategy() -> BoxedStrategy<Plan> {
    let at = prop_oneof![3 => 0u32..1200, 1 => 0u32..140];
    (
        chunks_strategy(),
        prop_oneof![2 => Just(None).boxed(), 2 => (at.clone(), 0u8..6).prop_map(Some).boxed()],
        any::<bool>(),
        prop_oneof![3 => Just(None).boxed(), 1 => at.prop_map(Some).boxed()],
    )
        .prop_map(|(chunks, fail, recovers, cut)| Plan { chunks, fail, recovers, cut })
        .boxed()
}

/// The bytes that arrive, and the error after them.
fn arriving(bytes: &[u8], p: &Plan) -> (Vec<u8>, ErrorKind, bool) {
    let mut v = bytes.to_vec();
    if let Some(c) = p.cut {
        v.truncate(c as usize);
    }
    if let Some((at, k)) = p.fail {
        if at as usize <= v.len() {
            v.truncate(at as usize);
            return (v, KINDS[k as usize % KINDS.len()], true);
        }
    }
    (v, EOF, false)
}

/// Does the error name the source's error as its cause, and in its text?
fn tells(e: &dyn Error, want: &str) -> Res {
    let mut last = None;
    #[allow(deprecated)]
    let mut c = e.cause();
    while let Some(x) = c {
        last = Some(x.to_string());
        #[allow(deprecated)]
        let n = x.cause();
        c = n;
    }
    if last.as_ref().map(|s| &s[..]) != Some(want) {
        return Err(format!("the source failed with {:?}, but the cause of {:?} is {:?}", want, e.to_string(), last));
    }
    if !e.to_string().contains(want) {
        return Err(format!("the source failed with {:?}, but the error reads {:?}", want, e.to_string()));
    }
    Ok(())
}

pub struct C06;
impl Prop for C06 {
    type Case = FaultCase;
    const ID: &'static str = "C06";
    const LEVEL: &'static str = "fault_enumeration";
    const RULE: &'static str = "well-formed .shp and .dbf streams through sources that split reads, interrupt calls, fail at a generated byte (six error kinds; failing again or recovering afterwards) or end early, read alone and together; oracle: reference parsers on the bytes that arrived. Each case also enumerates every failure position of the smaller files. Non-trivial: a fault inside the data, or interrupted or split reads";
    const ASSUMPTIONS: &'static [&'static str] = &["where both files go wrong at the same record, either error may be reported"];
    const QUICK: u64 = 120_000;
    fn strategy(_: Tier) -> BoxedStrategy<FaultCase> {
        let dbf = good_dbf(5).prop_map(|mut d| {
            d.fields.truncate(6);
            d
        });
        (good_shp(4), dbf, plan_strategy(), plan_strategy(), 0u8..3).prop_map(|(shp, dbf, ps, pd, what)| FaultCase { shp, dbf, ps, pd, what, grow: Grow::default() }).boxed()
    }
    const LARGE: u64 = 8;
    fn large(t: Tier) -> Option<BoxedStrategy<FaultCase>> {
        Some((Self::strategy(t), grow(&[0, 1, 2, 3]), proptest::option::weighted(0.7, 0u32..3_000_000))
            .prop_map(|(mut c, grow, at)| {
                if let Some(at) = at {
                    c.ps.fail = c.ps.fail.map(|f| (at, f.1));
                    c.pd.fail = c.pd.fail.map(|f| (at, f.1));
                    c.ps.cut = c.ps.cut.map(|_| at);
                    c.pd.cut = c.pd.cut.map(|_| at);
                }
                FaultCase { grow, ..c }
            })
            .boxed())
    }
    fn check(c: &FaultCase, ctx: &mut Ctx) -> Res {
        let mut c = c.clone();
        c.grow.shp(&mut c.shp.recs);
        c.grow.dbf(&mut c.dbf);
        let sb = c.shp.bytes();
        let db = c.dbf.bytes();
        let (sa, sk, sf) = arriving(&sb, &c.ps);
        let (da, dk, df) = arriving(&db, &c.pd);
        ctx.label_if(c.ps.chunks.contains(&0) || c.pd.chunks.contains(&0), "interrupted calls");
        ctx.label_if(sf && c.what != 1, "injected .shp error");
        ctx.label_if(df && c.what != 0, "injected .dbf error");
        ctx.label_if(sa.len() < sb.len() && !sf && c.what != 1, ".shp ends early");
        ctx.label_if(da.len() < db.len() && !df && c.what != 0, ".dbf ends early");
        ctx.nontrivial = sa.len() < sb.len() || da.len() < db.len() || c.ps.chunks.len() > 0 || c.pd.chunks.len() > 0;
        let ws = ref_shp(&sa, sk);
        let wd = ref_dbf(&da, c.dbf.enc, dk, CAP);
        match c.what {
            0 => {
                compare_shp(&lib_shp(Src::new(sb.clone(), &c.ps)), &ws)?;
                match shp::ShpReader::new(Src::new(sb.clone(), &c.ps)) {
                    Err(e) => if sf { tells(&e, "injected")? },
                    Ok(r) => {
                        for i in r.take(CAP) {
                            match i {
                                Err(ref e) if sf && shp_err::<()>(e) == Item::Io(sk) => tells(e, "injected")?,
                                _ => {}
                            }
                        }
                    }
                }
                if sb.len() <= 700 {
                    ctx.label("every failure position of a .shp");
                    for at in 0..=sb.len() {
                        let plan = Plan { fail: Some((at as u32, c.ps.chunks.len() as u8)), ..c.ps.clone() };
                        let (a, k, _) = arriving(&sb, &plan);
                        compare_shp(&lib_shp(Src::new(sb.clone(), &plan)), &ref_shp(&a, k)).map_err(|e| format!("failing at byte {}: {}", at, e))?;
                    }
                }
                Ok(())
            }
            1 => {
                let e = enc(c.dbf.enc);
                compare_dbf(&lib_dbf(Src::new(db.clone(), &c.pd), e, CAP), &wd)?;
                match dbf::DbfReader::new(Src::new(db.clone(), &c.pd), e) {
                    Err(e) => if df { tells(&e, "injected")? },
                    Ok(r) => {
                        for i in r.take(CAP) {
                            match i {
                                Err(ref e) if df && dbf_err::<()>(e) == Item::Io(dk) => tells(e, "injected")?,
                                _ => {}
                            }
                        }
                    }
                }
                if db.len() <= 300 {
                    ctx.label("every failure position of a .dbf");
                    for at in 0..=db.len() {
                        let plan = Plan { fail: Some((at as u32, c.pd.chunks.len() as u8)), ..c.pd.clone() };
                        let (a, k, _) = arriving(&db, &plan);
                        compare_dbf(&lib_dbf(Src::new(db.clone(), &plan), e, CAP), &ref_dbf(&a, c.dbf.enc, k, CAP)).map_err(|e| format!("failing at byte {}: {}", at, e))?;
                    }
                }
                Ok(())
            }
            _ => {
                let r = ShapefileReader::new(Src::new(sb, &c.ps), Src::new(db, &c.pd), enc(c.dbf.enc));
                let mut allowed: Vec<ErrorKind> = vec![];
                if let Err(Item::Io(k)) = ws { allowed.push(k); }
                if let Err(Item::Io(k)) = wd { allowed.push(k); }
                let mut r = match r {
                    Err(e) => {
                        return match join_err::<()>(&e) {
                            Item::Io(k) if allowed.contains(&k) => {
                                if k != EOF {
                                    tells(&e, "injected")?;
                                }
                                Ok(())
                            }
                            i => Err(format!("opening fails with {:?}, expected one of {:?}", i, allowed)),
                        };
                    }
                    Ok(r) => r,
                };
                if !allowed.is_empty() {
                    return Err(format!("opens, though a header could not be read ({:?})", allowed));
                }
                let (s, d) = (ws.unwrap().1, wd.unwrap().1);
                let (items, errors) = drain(&mut r, CAP);
                let first_bad = s.iter().position(|i| i.is_err()).into_iter().chain(d.iter().position(|i| i.is_err())).min();
                match first_bad {
                    None => compare_items("combined", &items, &pair_up(&s, &d)),
                    Some(p) => {
                        compare_items("combined", &items[..p.min(items.len())], &pair_up(&s, &d)[..p])?;
                        let mut allowed: Vec<ErrorKind> = vec![];
                        for k in vec![s.get(p).map(|i| format!("{:?}", i)), d.get(p).map(|i| format!("{:?}", i))] {
                            let _ = k;
                        }
                        if let Some(&Item::Io(k)) = s.get(p) { allowed.push(k); }
                        if let Some(&Item::Io(k)) = d.get(p) { allowed.push(k); }
                        match items.get(p) {
                            Some(&Item::Io(k)) if allowed.contains(&k) => {
                                if k != EOF {
                                    tells(errors[p].as_ref().unwrap(), "injected")?;
                                }
                            }
                            i => return Err(format!("combined item {} is {}, expected an I/O error of kind {:?}", p, describe(i), allowed)),
                        }
                        // the other file's failure, if later, must come out too
                        for list in vec![s.iter().map(|i| match *i { Item::Io(k) => Some(k), _ => None }).collect::<Vec<_>>(), d.iter().map(|i| match *i { Item::Io(k) => Some(k), _ => None }).collect()] {
                            if let Some(q) = list.iter().position(|k| k.is_some()) {
                                if q > p {
                                    match items.get(q) {
                                        Some(&Item::Io(k)) if Some(k) == list[q] => {}
                                        i => return Err(format!("combined item {} is {}, expected an I/O error of kind {:?}", q, describe(i), list[q])),
                                    }
                                }
                            }
                        }
                        if let Some(i) = items[p..].iter().position(|i| !i.is_err()) {
                            return Err(format!("combined item {} is a record, after item {} failed", p + i, p));
                        }
                        if items.len() > s.len().max(d.len()) {
                            return Err(format!("{} items from {} shapes and {} rows", items.len(), s.len(), d.len()));
                        }
                        Ok(())
                    }
                }
            }
        }
    }
}
