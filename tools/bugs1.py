SHP='src/read/shapefile/shp.rs'; DBF='src/read/shapefile/dbf.rs'; SF='src/read/shapefile/shapefile.rs'; SG='src/read/shapefile/geo.rs'; SM='src/read/shapefile/mod.rs'
GEO='src/geo/mod.rs'; BUILD='src/topology/build.rs'; NORM='src/normalize.rs'; SE='src/simplify/simplify_edge.rs'; SIM='src/simplify/mod.rs'
CT='src/clip/types.rs'; CE='src/clip/edge.rs'; CTO='src/clip/topology.rs'
BUGS=[
dict(id='shp-part-u16', property='C01', edits=[(SHP,'.map(|ref b| LittleEndian::read_u32(&b) as usize)','.map(|ref b| LittleEndian::read_u16(&b) as usize)')],
 needs='a polygon record with a ring that starts at point 65536 or later', breaks='ring boundaries: the record is rejected or cut in the wrong places',
 demo='''
    let big: Vec<(f64, f64)> = (0..65600).map(|i| (i as f64, (i % 7) as f64)).collect();
    let rec = vec![big, square(1., 1., 2.)];
    let b = shp_bytes([0., 0., 70000., 10.], &[rec]);
    let r = shp::ShpReader::new(&b[..]).unwrap().next().unwrap().unwrap();
    assert_eq!(2, r.rings.len());
    assert_eq!(65600, r.rings[0].0.len());
    assert_eq!(5, r.rings[1].0.len());
'''),
dict(id='dbf-blank-field', property='C02', edits=[(DBF,'position(|&b| b != 0x20u8).unwrap_or(bytes.len())','position(|&b| b != 0x20u8).unwrap_or(0)')],
 needs='a character field that holds nothing but spaces', breaks='the blank field reads as a run of spaces instead of empty text',
 demo='''
    let b = dbf_bytes(&[("A", b'C', 4)], &[b"    "]);
    let mut r = dbf::DbfReader::new(&b[..], encoding::all::UTF_8).unwrap();
    let f = r.get_field("A").unwrap();
    assert_eq!("", f.read_string(&r.next().unwrap().unwrap()).unwrap());
'''),
dict(id='dbf-get-field-last', property='C02', edits=[(DBF,'for field in &*self.meta.fields {','for field in self.meta.fields.iter().rev() {')],
 needs='a table with two fields of the same name (long names cut to 10 letters)', breaks='lookup by name finds the last such field rather than the first',
 demo='''
    let b = dbf_bytes(&[("POPULATION", b'C', 2), ("POPULATION", b'C', 2)], &[b"aabb"]);
    let mut r = dbf::DbfReader::new(&b[..], encoding::all::UTF_8).unwrap();
    let f = r.get_field("POPULATION").unwrap();
    assert_eq!("aa", f.read_string(&r.next().unwrap().unwrap()).unwrap());
'''),
dict(id='dbf-long-signed', property='C02', edits=[(DBF,'&DbfType::Long => Ok(LittleEndian::read_u32(bytes).to_string()),','&DbfType::Long => Ok(LittleEndian::read_i32(bytes).to_string()),')],
 needs='an autoincrement value of 2^31 or more', breaks='the value is reported as a negative number',
 demo='''
    let b = dbf_bytes(&[("A", b'+', 4)], &[&[1, 0, 0, 0x80]]);
    let mut r = dbf::DbfReader::new(&b[..], encoding::all::UTF_8).unwrap();
    let f = r.get_field("A").unwrap();
    assert_eq!("2147483649", f.read_string(&r.next().unwrap().unwrap()).unwrap());
'''),
dict(id='dbf-name-trap', property='C05', edits=[(DBF,'match encoding.decode(&bytes[0 .. last_index], encoding::DecoderTrap::Strict) {','match encoding.decode(&bytes[0 .. last_index], encoding::DecoderTrap::Ignore) {')],
 needs='a field name that is not valid in the encoding', breaks='the undecodable name is silently mangled instead of rejecting the header',
 demo='''
    let mut b = dbf_bytes(&[("AB", b'C', 2)], &[b"xx"]);
    b[33] = 0xff;
    assert!(dbf::DbfReader::new(&b[..], encoding::all::UTF_8).is_err());
'''),
dict(id='dbf-date-and', property='C05', edits=[(DBF,'if buf[2] > 12 || buf[3] > 31 {','if buf[2] > 12 && buf[3] > 31 {')],
 needs='a header whose month is impossible but whose day is possible', breaks='the impossible date is accepted',
 demo='''
    let mut b = dbf_bytes(&[("AB", b'C', 2)], &[b"xx"]);
    b[2] = 13;
    assert!(dbf::DbfReader::new(&b[..], encoding::all::UTF_8).is_err());
'''),
dict(id='dbf-numeric-multiline', property='C05', edits=[(DBF,'"^ *(-?[0-9]+(?:\\\\.[0-9]+)?)$"','"^ *(-?[0-9]+(?:\\\\.[0-9]*)?)$"')],
 needs='a numeric field that ends with the decimal point', breaks='"12." is passed off as a number',
 demo='''
    let b = dbf_bytes(&[("A", b'N', 4)], &[b" 12."]);
    let mut r = dbf::DbfReader::new(&b[..], encoding::all::UTF_8).unwrap();
    let f = r.get_field("A").unwrap();
    assert!(f.read_string(&r.next().unwrap().unwrap()).is_err());
'''),
dict(id='dbf-short-read', property='C06', edits=[(DBF,'''    let mut buf = vec![ 0u8; dbf_meta.n_bytes_per_record ];

    match file.read_exact(&mut buf) {''','''    let mut buf = vec![ 0u8; dbf_meta.n_bytes_per_record ];

    match file.read(&mut buf).and_then(|n| file.read_exact(&mut buf[n ..])) {''')],
 needs='a source that reports an interrupted call just as a row is begun', breaks='the row is lost: the interruption becomes an error',
 demo='''
    struct Hiccup(Vec<u8>, usize, bool);
    impl Read for Hiccup {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            if self.1 == 65 && !self.2 {
                self.2 = true;
                return Err(io::Error::new(io::ErrorKind::Interrupted, "x"));
            }
            let end = if self.1 < 65 { 65 } else { self.0.len() };
            let n = buf.len().min(end - self.1);
            buf[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
            self.1 += n;
            Ok(n)
        }
    }
    let b = dbf_bytes(&[("A", b'C', 4)], &[b"abcd"]);
    let mut r = dbf::DbfReader::new(Hiccup(b, 0, false), encoding::all::UTF_8).unwrap();
    assert!(r.next().unwrap().is_ok());
'''),
dict(id='sf-path-replace', property='C03', edits=[(SF,'''            let mut dbf_path = PathBuf::from(shp_path);
            dbf_path.set_extension("dbf");
''','''            let dbf_path = PathBuf::from(shp_path.to_string_lossy().replace(".shp", ".dbf"));
''')],
 needs='a directory whose own name contains ".shp" (or an upper-case extension)', breaks='the .dbf beside the .shp is not found',
 demo='''
    let dir = std::env::temp_dir().join(format!("demo-{}.shp.d", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("a.shp"), shp_bytes([0., 0., 9., 9.], &[vec![square(1., 1., 2.)]])).unwrap();
    std::fs::write(dir.join("a.dbf"), dbf_bytes(&[("A", b'C', 2)], &[b"xx"])).unwrap();
    let n = shapefile::open(&dir.join("a.shp"), encoding::all::UTF_8).map(|r| r.count());
    std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(1, n.unwrap());
'''),
dict(id='shp-polygonm', property='C04', edits=[(SHP,'Some(ShpShapeType::Polygon) => {','Some(ShpShapeType::Polygon) | Some(ShpShapeType::PolygonM) => {')],
 needs='a file whose header declares PolygonM', breaks='an unsupported file is accepted',
 demo='''
    let mut b = shp_bytes([0., 0., 9., 9.], &[]);
    b[32] = 25;
    assert!(shp::ShpReader::new(&b[..]).is_err());
'''),
dict(id='shp-last-part', property='C04', edits=[(SHP,'if last_part + 3 >= points.len() {','if last_part + 2 >= points.len() {')],
 needs='a record whose last ring has exactly three points', breaks='a ring of three points is yielded',
 demo='''
    let b = shp_bytes([0., 0., 9., 9.], &[vec![square(1., 1., 2.), vec![(1., 1.), (2., 2.), (1., 1.)]]]);
    assert!(shp::ShpReader::new(&b[..]).unwrap().next().unwrap().is_err());
'''),
dict(id='shp-overrun', property='C04', edits=[(SHP,'if self.n_bytes_already_read > self.header.file_n_bytes {','if self.n_bytes_already_read > self.header.file_n_bytes + SHP_RECORD_HEADER_LENGTH {')],
 needs='a last record that overruns the declared file length by at most 8 bytes', breaks='a record that runs past the declared end is yielded',
 demo='''
    let mut b = shp_bytes([0., 0., 9., 9.], &[vec![square(1., 1., 2.)]]);
    b[27] -= 2;
    assert!(shp::ShpReader::new(&b[..]).unwrap().next().unwrap().is_err());
'''),
dict(id='quant-scale', property='C07', edits=[(SG,'''            w: bbox.2 - bbox.0,
            h: bbox.1 - bbox.3,''','''            w: u32::max_value() as f64 / (bbox.2 - bbox.0),
            h: u32::max_value() as f64 / (bbox.1 - bbox.3),'''),(SG,'((shp_point.0 - self.x) / self.w * u32::max_value() as f64) as u32,','((shp_point.0 - self.x) * self.w) as u32,'),(SG,'((shp_point.1 - self.y) / self.h * u32::max_value() as f64) as u32,','((shp_point.1 - self.y) * self.h) as u32,')],
 needs='a bounding box whose scale factor rounds down', breaks='the right or bottom bound lands one short of 2^32-1',
 demo='''
    for i in 1..200 {
        let w = i as f64 * 0.7;
        let s = shp_bytes([0., 0., w, w], &[vec![square(0., 0., w)]]);
        let d = dbf_bytes(&[("A", b'C', 2)], &[b"xx"]);
        let mut r = shapefile::ShapefileReader::new(&s[..], &d[..], encoding::all::UTF_8).unwrap();
        let reg = topogeo::read::shapefile::ShapefileGeoIterator::new(&mut r).next().unwrap().unwrap();
        let p = reg.outer_rings[0].points();
        assert_eq!(u32::max_value(), p.iter().map(|p| p.0).max().unwrap());
        assert_eq!(u32::max_value(), p.iter().map(|p| p.1).max().unwrap());
    }
'''),
dict(id='geo-dedup', property='C08', edits=[(SG,'let points: Vec<geo::Point> = shp_ring.0.iter().map(|p| self.quantizer.quantize(p)).collect();','let mut points: Vec<geo::Point> = shp_ring.0.iter().map(|p| self.quantizer.quantize(p)).collect();\n        points.dedup();')],
 needs='neighbouring points of a ring that quantise to the same integers', breaks='a point of the ring is lost',
 demo='''
    let mut sq = square(0., 0., 8.);
    let p = sq[1];
    sq.insert(1, p);
    let s = shp_bytes([0., 0., 9., 9.], &[vec![sq]]);
    let d = dbf_bytes(&[("A", b'C', 2)], &[b"xx"]);
    let mut r = shapefile::ShapefileReader::new(&s[..], &d[..], encoding::all::UTF_8).unwrap();
    let reg = topogeo::read::shapefile::ShapefileGeoIterator::new(&mut r).next().unwrap().unwrap();
    assert_eq!(6, reg.outer_rings[0].points().len());
'''),
dict(id='geo-zero-area-hole', property='C08', edits=[(SG,'.partition(|ring| ring.winding_order() == geo::WindingOrder::Clockwise);','.partition(|ring| ring.area2() > 0 && ring.winding_order() == geo::WindingOrder::Clockwise);')],
 needs='a ring that encloses no area once quantised', breaks='the ring is classified as a hole',
 demo='''
    let s = shp_bytes([0., 0., 9., 9.], &[vec![square(0., 0., 8.), vec![(1., 1.), (2., 2.), (3., 3.), (1., 1.)]]]);
    let d = dbf_bytes(&[("A", b'C', 2)], &[b"xx"]);
    let mut r = shapefile::ShapefileReader::new(&s[..], &d[..], encoding::all::UTF_8).unwrap();
    let reg = topogeo::read::shapefile::ShapefileGeoIterator::new(&mut r).next().unwrap().unwrap();
    assert_eq!(2, reg.outer_rings.len());
'''),
dict(id='geo-edges-skip', property='C10', edits=[(GEO,'let ret: Vec<Edge> = points.iter().tuple_windows()\n','let ret: Vec<Edge> = points.iter().tuple_windows().filter(|&(p1, p2)| p1 != p2)\n')],
 needs='a ring with a repeated point', breaks='the zero-length step is lost from the edge view',
 demo='''
    let r = ring(&[(1, 1), (5, 1), (5, 1), (5, 5), (1, 1)]);
    assert_eq!(4, r.edges().len());
'''),
dict(id='winding-edges-zero', property='C09', edits=[(GEO,'''                for edge in edges.iter() {
                    a += signed_area2(edge.0.iter());
                }
''','''                for edge in edges.iter().filter(|e| e.0.len() < 4 || e.0[0] != e.0[e.0.len() - 1]) {
                    a += signed_area2(edge.0.iter());
                }
''')] if False else [(GEO,'''                for edge in edges.iter() {
                    a += signed_area2(edge.0.iter());
                }
''','''                for edge in edges.iter() {
                    a += signed_area2(edge.0.iter()) as i64 as i128;
                }
''')],
 needs='a ring held as edges, one of which spans coordinates above 2^31', breaks='the area of one edge wraps around',
 demo='''
    let m = u32::max_value();
    let v = [(0, 0), (m, 0), (m, m), (0, m), (0, 0)];
    let p = ring(&v);
    let e = Ring::Edges(vec![Edge(pts(&v))].into_boxed_slice());
    assert_eq!(p.area2_and_winding_order(), e.area2_and_winding_order());
'''),
dict(id='build-tiny-ring', property='C11', edits=[(BUILD,'if ring.area2() == 0 {','if ring.area2() / 2 == 0 {')],
 needs='a triangle of half a square unit, the smallest that has area', breaks='the ring is left out though its area is not zero',
 demo='''
    let t = build(vec![region(1, vec![ring(&[(1, 1), (2, 1), (1, 2), (1, 1)])], vec![])]);
    assert_eq!(1, t.regions.len());
'''),
dict(id='build-hole-only', property='C11', edits=[(BUILD,'''        let build_outer_rings = self.build_rings(outer_rings);

        if build_outer_rings.len() > 0 {''','''        let n_outer_rings = outer_rings.len();
        let build_outer_rings = self.build_rings(outer_rings);

        if n_outer_rings > 0 {''')],
 needs='a region all of whose outer rings have no area', breaks='a region with no outer ring stays in the topology',
 demo='''
    let t = build(vec![region(1, vec![ring(&[(1, 1), (2, 1), (1, 1)])], vec![])]);
    assert_eq!(0, t.regions.len());
'''),
dict(id='build-closed-dir', property='C12', edits=[(BUILD,'let direction = if p1 < p2 || (p1 == p2 &&','let direction = if p1 < p2 || (p1 == p2 && points.len() > 4 &&')],
 needs='a closed edge of four points (a triangle) given clockwise', breaks='a closed edge is stored counter-clockwise',
 demo='''
    let t = build(vec![region(1, vec![Ring::Edges(vec![Edge(pts(&[(1, 1), (9, 1), (1, 9), (1, 1)]))].into_boxed_slice())], vec![])]);
    assert!(area2(&edges(&t)[0]) > 0);
'''),
dict(id='build-same-ring-twice', property='C13', edits=[(BUILD,'let i = if edge.rings[0].is_null() {','let i = if edge.rings[0].is_null() || edge.rings[0] == ring as *const TopoRing<Data> {')],
 needs='a ring that runs along one of its own edges twice (a spike)', breaks='the edge names the ring once though the ring uses it twice',
 demo='''
    let t = build(vec![region(1, vec![ring(&[(1, 1), (9, 1), (15, 1), (9, 1), (9, 9), (1, 9), (1, 1)])], vec![])]);
    let e = t.edges.iter().find(|e| e.points[1] == Point(15, 1)).unwrap();
    assert!(!e.rings[0].is_null() && !e.rings[1].is_null());
'''),
dict(id='norm-rotate-x-only', property='C15', edits=[(NORM,'match edges.iter().enumerate().min_by_key(|&(_, e)| e.points[0]) {','match edges.iter().enumerate().min_by_key(|&(_, e)| e.points[0].0) {')],
 needs='a ring of several edges with two leftmost nodes, the lower of which comes first', breaks='the ring starts at the wrong node',
 demo='''
    // two squares above each other, and a region on the left of both so that nodes lie on one vertical line
    let t = build(vec![
        region(1, vec![ring(&[(10, 20), (10, 10), (20, 10), (20, 20), (10, 20)])], vec![]),
        region(2, vec![ring(&[(10, 20), (20, 20), (20, 30), (10, 30), (10, 20)])], vec![]),
        region(3, vec![ring(&[(10, 20), (10, 30), (1, 30), (1, 20), (10, 20)])], vec![]),
        region(4, vec![ring(&[(10, 10), (10, 20), (1, 20), (1, 10), (10, 10)])], vec![]),
    ]);
    let n = normalize(&t);
    for r in n.regions.iter() {
        for ring in r.outer_rings.iter() {
            let starts: Vec<(u32, u32)> = ring.directed_edges.iter().map(|de| {
                let e = unsafe { &*de.edge };
                let p = if de.direction == Direction::Forward { e.points[0] } else { e.points[e.points.len() - 1] };
                (p.0, p.1)
            }).collect();
            assert_eq!(starts[0], *starts.iter().min().unwrap());
        }
    }
'''),
dict(id='norm-island-x-only', property='C15', edits=[(NORM,'match edge.points.iter().enumerate().min_by_key(|&(_, p)| p) {','match edge.points.iter().enumerate().min_by_key(|&(_, p)| p.0) {')],
 needs='an island with two leftmost points, given starting at the lower one', breaks='the island starts at the wrong point',
 demo='''
    let n = normalize(&build(vec![region(1, vec![ring(&[(1, 9), (1, 1), (9, 1), (9, 9), (1, 9)])], vec![])]));
    assert_eq!((1, 1), edges(&n)[0][0]);
'''),
dict(id='norm-ring-order', property='C15', edits=[(NORM,'Some(self.edges[0].points[0].cmp(&other.edges[0].points[0]))','Some(self.edges[0].points[0].0.cmp(&other.edges[0].points[0].0))')],
 needs='a region with two rings whose starting points have the same x', breaks='the rings are not in order of starting point',
 demo='''
    let n = normalize(&build(vec![region(1, vec![
        ring(&[(1, 11), (9, 11), (9, 19), (1, 11)]),
        ring(&[(1, 1), (9, 1), (9, 9), (1, 1)]),
    ], vec![])]));
    assert_eq!((1, 1), walk(&n.regions[0].outer_rings[0])[0]);
'''),
dict(id='simp-ring-min', property='C18', edits=[(SE,'if is_ring && ret.len() < 4 {','if is_ring && ret.len() < 3 {')],
 needs='a closed edge of five or more points of which exactly one interior point passes the threshold', breaks='the closed edge collapses to three points',
 demo='''
    let mut s: u64 = 7;
    let mut rnd = move |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 33) % n) as u32 };
    for _ in 0..20000 {
        let v = [(0, 0), (rnd(50), rnd(50)), (rnd(50), rnd(50)), (rnd(50), rnd(50)), (rnd(50), rnd(50)), (0, 0)];
        if area2(&v) == 0 { continue; }
        let th = rnd(2000) as u64;
        let t = build(vec![region(1, vec![Ring::Edges(vec![Edge(pts(&v))].into_boxed_slice())], vec![])]);
        let s = simplify(t, th);
        assert!(s.edges[0].points.len() >= 4);
    }
'''),
dict(id='simp-heap-end', property='C19', edits=[(SE,'if child +1 <= end && unsafe','if child +1 < end && unsafe')],
 needs='a heap whose last element is a right child lighter than its parent', breaks='points are removed in the wrong order',
 demo='''
    // deterministic pseudo-random zigzags against a plain re-implementation
    let mut s: u64 = 12345;
    let mut rnd = move |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    for _ in 0..3000 {
        let n = 4 + rnd(8) as usize;
        let mut v: Vec<(u32, u32)> = vec![(0, 0)];
        for i in 0..n { v.push((10 + 10 * i as u32 + rnd(9) as u32, 1 + rnd(1000) as u32)); }
        v.push((1000, 0));
        let th = rnd(6000);
        let mut w = v.clone();
        let tri = |a: (u32, u32), b: (u32, u32), c: (u32, u32)| area2(&[a, b, c, a]).abs() as u64;
        let mut tie = false;
        loop {
            let mut a: Vec<(u64, usize)> = (1..w.len() - 1).map(|i| (tri(w[i - 1], w[i], w[i + 1]), i)).collect();
            a.sort();
            if a.is_empty() || a[0].0 > th { break; }
            if a.len() > 1 && a[0].0 == a[1].0 { tie = true; }
            w.remove(a[0].1);
        }
        if tie { continue; }
        let mut back = v.clone();
        back.push((0, 2000));
        back.push((0, 0));
        let t = build(vec![region(1, vec![Ring::Edges(vec![Edge(pts(&v)), Edge(pts(&[(1000, 0), (0, 2000)])), Edge(pts(&[(0, 2000), (0, 0)]))].into_boxed_slice())], vec![])]);
        let got = simplify(t, th);
        assert!(edges(&got).contains(&w), "{:?} {}: {:?} not in {:?}", v, th, w, edges(&got));
    }
'''),
dict(id='simp-short-ring-weights', property='C19', edits=[(SE,'''                } else if point.weight > second.weight {
                    second = point;
                    first_has_lower_index = true;''','''                } else if point.weight > second.weight {
                    second = point;''')],
 needs='a closed edge held at four points whose heaviest point precedes a lighter one found after a swap', breaks='the two kept points come out in the wrong order',
 demo='''
    let v = [(0, 0), (10, 1), (100, 0), (100, 80), (60, 60), (0, 0)];
    let mut s: u64 = 1;
    let mut rnd = move |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    for _ in 0..2000 {
        let mut v: Vec<(u32, u32)> = vec![(0, 0)];
        for _ in 0..5 { v.push((rnd(100) as u32, 1 + rnd(100) as u32)); }
        v.push((0, 0));
        if area2(&v) <= 0 { continue; }
        let t = build(vec![region(1, vec![Ring::Edges(vec![Edge(pts(&v))].into_boxed_slice())], vec![])]);
        let got = edges(&simplify(t, 1 << 40)).remove(0);
        let mut k = 0;
        for p in v.iter() { if k < got.len() && got[k] == *p { k += 1; } }
        assert_eq!(got.len(), k, "{:?} -> {:?}", v, got);
    }
'''),
dict(id='clip-float', property='C21', edits=[(CT,'let x = i(p1.0) + (i(y) - i(p1.1)) * (i(p2.0) - i(p1.0)) / (i(p2.1) - i(p1.1));','let t = (i(y) - i(p1.1)) as f64 / (i(p2.1) - i(p1.1)) as f64;\n                let x = i(p1.0) + (t * (i(p2.0) - i(p1.0)) as f64) as i128;')],
 needs='a horizontal mask crossing a segment at a whole coordinate whose fraction is not representable', breaks='the crossing point is one unit off though the true crossing is whole',
 demo='''
    for n in 1..200u32 {
        for k in 1..n {
            let c = clip_edge(&pts(&[(0, 0), (n, n)]), &ClipMask::MinY(k));
            assert_eq!(Point(k, k), c[0]);
        }
    }
'''),
dict(id='clip-touch-start', property='C21', edits=[(CE,'''                    if ret.last() != Some(previous_point) {
                        ret.push(*previous_point);
                    }''','''                    if !ret.is_empty() && ret.last() != Some(previous_point) || ret.is_empty() && points[0] == *previous_point {
                        ret.push(*previous_point);
                    }''')],
 needs='a path that comes from outside, reaches the line exactly at a vertex and then goes in', breaks='the entry point is missing',
 demo='''
    let c = clip_edge(&pts(&[(0, 0), (5, 5), (9, 6)]), &ClipMask::MinX(5));
    assert_eq!(vec![Point(5, 5), Point(9, 6)], c.to_vec());
'''),
dict(id='clip-new-edge-y', property='C23', edits=[(CTO,'let (a, b, dir) = if p1 < p2 {','let (a, b, dir) = if p1.0 < p2.0 || p1.1 < p2.1 {')] ,
 needs='', breaks='', demo=''),
dict(id='clip-new-edge-dir', property='C23', edits=[(CTO,'let (a, b, dir) = if p1 < p2 {','let (a, b, dir) = if p1.0 <= p2.0 {')],
 needs='a vertical mask line that closes two rings on the same stretch from opposite sides', breaks='the stretch is stored twice instead of shared',
 demo='''
    // a region with a hole filled by another region, cut by a vertical line through both
    let t = build(vec![
        region(1, vec![ring(&[(0, 0), (40, 0), (40, 40), (0, 40), (0, 0)])], vec![ring(&[(10, 10), (10, 30), (30, 30), (30, 10), (10, 10)])]),
        region(2, vec![ring(&[(10, 10), (30, 10), (30, 30), (10, 30), (10, 10)])], vec![]),
    ]);
    let c = clip_topology(&t, &ClipMask::MaxX(20));
    let n = edges(&c).iter().filter(|e| e.contains(&(20, 10)) && e.contains(&(20, 30))).count();
    assert_eq!(1, n);
'''),
dict(id='clip-close-area', property='C22', edits=[(CTO,'area2 += signed_area2([ pn, p0 ].iter());','area2 += signed_area2([ p0, pn ].iter());')],
 needs='a clipped ring whose closing stretch along the mask cancels the rest of its doubled area', breaks='a ring with area is dropped, or one without area kept',
 demo='''
    let mut s: u64 = 7;
    let mut rnd = move |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 33) % n) as u32 };
    for _ in 0..20000 {
        let v = [(rnd(6), rnd(6)), (rnd(6), rnd(6)), (rnd(6), rnd(6))];
        let r = [v[0], v[1], v[2], v[0]];
        if area2(&r) == 0 { continue; }
        let k = rnd(6);
        let inside = v.iter().filter(|p| p.0 > k).count();
        let t = build(vec![region(1, vec![ring(&r)], vec![])]);
        let c = clip_topology(&t, &ClipMask::MinX(k));
        if inside == 0 { assert_eq!(0, c.regions.len()); }
        for reg in c.regions.iter() { assert!(area2(&walk(&reg.outer_rings[0])) != 0, "{:?} {}", r, k); }
        if v.iter().all(|p| p.0 >= k) && inside > 0 { assert_eq!(1, c.regions.len(), "{:?} {}", r, k); }
    }
'''),
dict(id='clip-inner-dropped', property='C22', edits=[(CTO,'if area2 == 0 {\n            // Clipped','if area2 == 0 || ret.len() < 2 && area2 < 0 {\n            // Clipped')],
 needs='a lake (hole that is one closed edge stored the other way round) inside the mask', breaks='the lake is filled in',
 demo='''
    let t = normalize(&build(vec![
        region(1, vec![ring(&[(0, 0), (40, 0), (40, 40), (0, 40), (0, 0)])], vec![ring(&[(10, 10), (10, 30), (30, 30), (30, 10), (10, 10)])]),
    ]));
    let c = clip_topology(&t, &ClipMask::MaxX(50));
    assert_eq!(1, c.regions[0].inner_rings.len());
'''),
dict(id='disp-precision', property='C26', edits=[(SHP,'''impl fmt::Display for ShpPoint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "({},{})", self.0, self.1)''','''impl fmt::Display for ShpPoint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "({},{})", self.0 as f32, self.1)''')],
 needs='a coordinate that a 32-bit float cannot hold', breaks='the printed coordinate differs from the stored one',
 demo='''
    assert_eq!("(0.1,2)", format!("{}", shp::ShpPoint(0.1, 2.)));
    assert_eq!("(123456789.5,2)", format!("{}", shp::ShpPoint(123456789.5, 2.)));
'''),
dict(id='disp-dbf-sep', property='C26', edits=[(DBF,'''            if i != 0 {
                s.push_str("; ");''','''            if i != 0 && !s.ends_with(':') {
                s.push_str("; ");''')],
 needs='a record with an empty value followed by another field', breaks='two fields are merged in the printed record',
 demo='''
    let b = dbf_bytes(&[("A", b'C', 2), ("B", b'C', 2)], &[b"  yy"]);
    let mut r = dbf::DbfReader::new(&b[..], encoding::all::UTF_8).unwrap();
    assert_eq!("{A:; B:yy}", format!("{}", r.next().unwrap().unwrap()));
'''),
]
BUGS=[b for b in BUGS if b['demo']]
