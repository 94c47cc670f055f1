SHP='src/read/shapefile/shp.rs'; DBF='src/read/shapefile/dbf.rs'; SF='src/read/shapefile/shapefile.rs'; SG='src/read/shapefile/geo.rs'; SM='src/read/shapefile/mod.rs'
GEO='src/geo/mod.rs'; BUILD='src/topology/build.rs'; NORM='src/normalize.rs'; SE='src/simplify/simplify_edge.rs'; SIM='src/simplify/mod.rs'
CT='src/clip/types.rs'; CE='src/clip/edge.rs'; CTO='src/clip/topology.rs'
GRID='''
    // n x n unit cells of size s, each a region of its own
    fn grid(n: u32, s: u32) -> Topology<u32> {
        let mut v = Vec::new();
        for y in 0..n { for x in 0..n {
            let (x0, y0, x1, y1) = (10 + x * s, 10 + y * s, 10 + (x + 1) * s, 10 + (y + 1) * s);
            v.push(region(y * n + x, vec![ring(&[(x0, y0), (x1, y0), (x1, y1), (x0, y1), (x0, y0)])], vec![]));
        } }
        build(v)
    }
'''
BUGS=[
dict(id='clip-close-y', property='C22', edits=[(CTO,'(Some(p0), Some(pn)) if p0 != pn => {','(Some(p0), Some(pn)) if p0.1 != pn.1 => {')],
 needs='a horizontal mask that cuts the ring around its starting point', breaks='the outline is not closed along the mask line',
 demo='''
    let t = build(vec![region(1, vec![ring(&[(10, 10), (30, 10), (30, 40), (10, 40), (10, 10)])], vec![])]);
    let c = clip_topology(&t, &ClipMask::MinY(20));
    let w = walk(&c.regions[0].outer_rings[0]);
    assert_eq!(w.first(), w.last());
'''),
dict(id='clip-gap-y', property='C22', edits=[(CTO,'if p != edge_start_point {','if p.0 != edge_start_point.0 || p.1 > edge_start_point.1 {')],
 needs='a ring that leaves the mask and re-enters it further down the same vertical line', breaks='the ring has a hole in its outline: consecutive edges do not meet',
 demo='''
    for m in [ClipMask::MinX(20), ClipMask::MaxX(20)].iter() {
        let t = build(vec![region(1, vec![ring(&[(10, 10), (30, 10), (10, 20), (30, 30), (10, 40), (30, 50), (5, 60), (10, 10)])], vec![])]);
        let c = clip_topology(&t, m);
        let r = &c.regions[0].outer_rings[0];
        let ends: Vec<(Point, Point)> = r.directed_edges.iter().map(|d| { let e = unsafe { &*d.edge }; let (a, b) = (e.points[0], e.points[e.points.len() - 1]); if d.direction == Direction::Forward { (a, b) } else { (b, a) } }).collect();
        for i in 0..ends.len() {
            assert_eq!(ends[i].1, ends[(i + 1) % ends.len()].0);
        }
    }
'''),
dict(id='clip-offset-u16', property='C23', edits=[(CTO,'let offset = offset_bytes / size;','let offset = (offset_bytes / size) as u16 as usize;')],
 needs='a topology of more than 65536 edges', breaks='rings are given the edges of other rings',
 demo=GRID+'''
    let t = grid(182, 4);
    assert!(t.edges.len() > 65536);
    let c = clip_topology(&t, &ClipMask::MinX(1));
    for i in 0..c.regions.len() {
        assert_eq!(walk(&t.regions[i].outer_rings[0]), walk(&c.regions[i].outer_rings[0]));
    }
'''),
dict(id='build-id-u16', property='C11', edits=[(BUILD,'let next_id = self.edges.len();','let next_id = self.edges.len() & 0xffff;')],
 needs='more than 65536 distinct edges', breaks='the build fails',
 demo=GRID+'''
    let t = grid(182, 4);
    assert!(t.edges.len() > 65536);
'''),
dict(id='build-vertical', property='C12', edits=[(BUILD,'let direction = if p1 < p2 ||','let direction = if p1.0 < p2.0 || (p1.0 == p2.0 && p1.1 < p2.1 && p2.1 - p1.1 < 0x8000_0000) ||')],
 needs='a vertical edge longer than 2^31', breaks='the two neighbours along it get an edge each, stored the wrong way round for one of them',
 demo='''
    let m = 0xffff_ffff;
    let t = build(vec![region(1, vec![ring(&[(0, 0), (10, 0), (10, m), (0, m), (0, 0)])], vec![]), region(2, vec![ring(&[(10, 0), (20, 0), (20, m), (10, m), (10, 0)])], vec![])]);
    assert_eq!(7, t.edges.len());
'''),
dict(id='build-area-u32', property='C11', edits=[(BUILD,'if ring.area2() == 0 {','if ring.area2() as u32 == 0 {')],
 needs='a ring whose doubled area is a multiple of 2^32', breaks='the ring, and with it the region, vanishes',
 demo='''
    let t = build(vec![region(1, vec![ring(&[(0, 0), (0x10000, 0), (0x10000, 0x10000), (0, 0x10000), (0, 0)])], vec![])]);
    assert_eq!(1, t.regions.len());
'''),
dict(id='clip-area-i32', property='C22', edits=[(CTO,'if area2 == 0 {','if area2 as i32 == 0 {')],
 needs='a clipped ring whose doubled area is a multiple of 2^32', breaks='the ring, and with it the region, vanishes',
 demo='''
    let t = build(vec![region(1, vec![ring(&[(0, 0), (0x10000, 0), (0x10000, 0x20000), (0, 0x20000), (0, 0)])], vec![])]);
    let c = clip_topology(&t, &ClipMask::MaxY(0x10000));
    assert_eq!(1, c.regions.len());
'''),
dict(id='simp-fallback-order', property='C19', edits=[(SE,'''                    second = point;
                    first_has_lower_index = true;''','''                    second = point;''')],
 needs='an island that is simplified down to a triangle', breaks='its two kept points are listed in reverse: the island turns inside out',
 demo='''
    let mut bad = false;
    for (a, b) in [(3usize, 6usize), (2, 5), (1, 6), (6, 3), (5, 2), (4, 7)].iter() {
        let mut v: Vec<(u32, u32)> = vec![(100, 100), (150, 101), (200, 102), (250, 103), (300, 150), (250, 203), (200, 202), (150, 201), (100, 200)];
        v[*a].1 = 10;
        v[*b].1 = 300;
        v.push(v[0]);
        let t = build(vec![region(1, vec![Ring::Edges(vec![Edge(pts(&v))].into_boxed_slice())], vec![])]);
        let before = edges(&t)[0].clone();
        let s = simplify(t, u64::max_value());
        let after = edges(&s)[0].clone();
        let at = |p: &(u32, u32)| before.iter().position(|q| q == p).unwrap();
        if at(&after[1]) > at(&after[2]) { bad = true; }
    }
    assert!(!bad);
'''),
dict(id='simp-threshold-u32', property='C20', edits=[(SIM,'simplify_edge::simplify_edge(&edge.points[..], smallest_area);','simplify_edge::simplify_edge(&edge.points[..], smallest_area as u32 as u64);')],
 needs='a threshold of 2^32 or more', breaks='a larger threshold keeps more points than a smaller one',
 demo='''
    let t = build(vec![region(1, vec![Ring::Edges(vec![Edge(pts(&[(0, 0), (100, 0), (200, 10), (300, 0), (400, 400), (0, 0)]))].into_boxed_slice())], vec![])]);
    let s = simplify(t, 1 << 32);
    assert_eq!(4, s.edges[0].points.len());
'''),
dict(id='simp-one-side', property='C19', edits=[(SIM,'for ref mut edge in topology.edges.iter_mut() {','for ref mut edge in topology.edges.iter_mut().filter(|e| e.points.len() != 3 || !e.rings[1].is_null()) {')],
 needs='a three-point edge with a region on one side only', breaks='it is not simplified',
 demo='''
    let t = build(vec![region(1, vec![Ring::Edges(vec![Edge(pts(&[(0, 0), (100, 1), (200, 0)])), Edge(pts(&[(200, 0), (100, 300), (0, 0)]))].into_boxed_slice())], vec![])]);
    let s = simplify(t, 1000);
    assert_eq!(vec![(0, 0), (200, 0)], edges(&s)[0]);
'''),
dict(id='sf-1252', property='C03', edits=[(SM,'open(shp_path, encoding::all::WINDOWS_1252)','open(shp_path, encoding::all::ISO_8859_15)')],
 needs='a byte in which the two encodings differ, such as the euro sign', breaks='the text is decoded wrongly',
 demo='''
    let d = std::env::temp_dir().join(format!("demo-1252-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("a.shp"), shp_bytes([0., 0., 10., 10.], &[vec![square(1., 1., 2.)]])).unwrap();
    std::fs::write(d.join("a.dbf"), dbf_bytes(&[("A", b'C', 2)], &[b"\\x80 "])).unwrap();
    let mut r = topogeo::read::shapefile::open_windows1252(&d.join("a.shp")).unwrap();
    let f = r.get_field("A").unwrap();
    let s = f.read_string(&r.next().unwrap().unwrap().data).unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!("\\u{20ac}", s);
'''),
dict(id='sf-ascii', property='C03', edits=[(SM,'open(shp_path, encoding::all::ASCII)','open(shp_path, encoding::all::UTF_8)')],
 needs='a file opened as ASCII that holds UTF-8 text', breaks='text that is not ASCII is accepted',
 demo='''
    let d = std::env::temp_dir().join(format!("demo-ascii-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("a.shp"), shp_bytes([0., 0., 10., 10.], &[vec![square(1., 1., 2.)]])).unwrap();
    std::fs::write(d.join("a.dbf"), dbf_bytes(&[("A", b'C', 2)], &[b"\\xc3\\xa9"])).unwrap();
    let mut r = topogeo::read::shapefile::open_ascii(&d.join("a.shp")).unwrap();
    let f = r.get_field("A").unwrap();
    let s = f.read_string(&r.next().unwrap().unwrap().data);
    std::fs::remove_dir_all(&d).unwrap();
    assert!(s.is_err());
'''),
dict(id='disp-region', property='C26', edits=[(GEO,'let inner = DisplayRings(&*self.inner_rings);','let inner = DisplayRings(if self.inner_rings.len() > 1 { &self.inner_rings[.. 1] } else { &*self.inner_rings });')],
 needs='a region with two holes', breaks='only the first hole is printed',
 demo='''
    let r = region(1, vec![ring(&[(0, 0), (9, 0), (9, 9), (0, 0)])], vec![ring(&[(1, 1), (2, 2), (2, 1), (1, 1)]), ring(&[(3, 1), (4, 2), (4, 1), (3, 1)])]);
    assert!(format!("{}", r).contains("(3,1)"));
'''),
dict(id='disp-edges', property='C26', edits=[(GEO,'''                for (i, edge) in edges.iter().enumerate() {
                    if i > 0 {''','''                for (i, edge) in edges.iter().enumerate() {
                    if i > 0 && i < 10 {''')],
 needs='a ring of more than ten edges', breaks='the separator between edges is lost',
 demo='''
    let e: Vec<Edge> = (0..12).map(|i| Edge(pts(&[(i, 0), (i + 1, 0)]))).collect();
    assert!(!format!("{}", Ring::Edges(e.into_boxed_slice())).contains(")E"));
'''),
dict(id='sf-extra-rows', property='C03', edits=[(SF,'''(None, Some(_)) => Some(Err(ShapefileError::JoinError("'.dbf' file has more records than '.shp' record".to_string()))),''','''(None, Some(_)) => None,''')],
 needs='a table with more rows than there are shapes', breaks='the surplus is silently dropped',
 demo='''
    let s = shp_bytes([0., 0., 10., 10.], &[vec![square(1., 1., 2.)]]);
    let d = dbf_bytes(&[("A", b'C', 2)], &[b"aa", b"bb"]);
    let mut r = shapefile::ShapefileReader::new(&s[..], &d[..], encoding::all::UTF_8).unwrap();
    assert!(r.next().unwrap().is_ok());
    assert!(r.next().unwrap().is_err());
'''),
dict(id='shp-trailing', property='C04', edits=[(SHP,'if needed_len != buf.len() {','if needed_len > buf.len() {'),(SHP,'for ref chunk in buf[44 + 4 * num_parts ..].chunks(SHP_POINT_LENGTH) {','for ref chunk in buf[44 + 4 * num_parts .. needed_len].chunks(SHP_POINT_LENGTH) {')],
 needs='a record with bytes left over after its points', breaks='the malformed record is accepted',
 demo='''
    let mut s = shp_bytes([0., 0., 10., 10.], &[vec![square(1., 1., 2.)]]);
    s.extend(&[0u8; 16]);
    let n = (s.len() / 2) as u32;
    s[24..28].copy_from_slice(&n.to_be_bytes());
    let m = ((s.len() - 108) / 2) as u32;
    s[104..108].copy_from_slice(&m.to_be_bytes());
    assert!(shp::ShpReader::new(&s[..]).unwrap().next().unwrap().is_err());
'''),
dict(id='dbf-rows-u16', property='C02', edits=[(DBF,'n_records: LittleEndian::read_u32(&buf[4..]) as usize,','n_records: LittleEndian::read_u16(&buf[4..]) as usize,')],
 needs='a table with 65536 or more rows', breaks='most rows are not read',
 demo='''
    let rows: Vec<&[u8]> = vec![b"a"; 65540];
    let d = dbf_bytes(&[("A", b'C', 1)], &rows);
    assert_eq!(65540, dbf::DbfReader::new(&d[..], encoding::all::UTF_8).unwrap().count());
'''),
dict(id='dbf-reclen-15', property='C02', edits=[(DBF,'n_bytes_per_record: LittleEndian::read_u16(&buf[10..]) as usize,','n_bytes_per_record: (LittleEndian::read_u16(&buf[10..]) & 0x7fff) as usize,')],
 needs='records of 32768 bytes or more', breaks='records are cut short',
 demo='''
    let fields: Vec<(&str, u8, u8)> = vec![("A", b'C', 250); 140];
    let row = vec![b'x'; 250 * 140];
    let d = dbf_bytes(&fields, &[&row[..]]);
    assert_eq!(35001, dbf::DbfReader::new(&d[..], encoding::all::UTF_8).unwrap().next().unwrap().unwrap().bytes.len());
'''),
dict(id='dbf-name-10', property='C02', edits=[(DBF,'let last_index = bytes[0 .. 11].iter().position(|&x| x == 0u8).unwrap_or(11);','let last_index = bytes[0 .. 10].iter().position(|&x| x == 0u8).unwrap_or(10);')],
 needs='a field name of eleven characters', breaks='the name loses its last character',
 demo='''
    let d = dbf_bytes(&[("ABCDEFGHIJK", b'C', 1)], &[b"a"]);
    assert!(dbf::DbfReader::new(&d[..], encoding::all::UTF_8).unwrap().get_field("ABCDEFGHIJK").is_some());
'''),
dict(id='dbf-pipe', property='C02', edits=[(DBF,"'+' | '|' => { DbfType::Long },","'+' => { DbfType::Long },")],
 needs='a field of type |', breaks='it can no longer be read',
 demo='''
    let b = dbf_bytes(&[("A", b'|', 4)], &[&[1, 0, 0, 0]]);
    let mut r = dbf::DbfReader::new(&b[..], encoding::all::UTF_8).unwrap();
    let f = r.get_field("A").unwrap();
    assert_eq!("1", f.read_string(&r.next().unwrap().unwrap()).unwrap());
'''),
dict(id='dbf-skip-deleted', property='C03', edits=[(DBF,'''        Ok(_) => {
            Ok(DbfRecord {
                meta: dbf_meta,''','''        Ok(_) if buf.first() == Some(&b'*') => read_dbf_record(file, dbf_meta),
        Ok(_) => {
            Ok(DbfRecord {
                meta: dbf_meta,''')],
 needs='a row marked as deleted', breaks='the row is skipped, so the shapes after it get the wrong rows',
 demo='''
    let s = shp_bytes([0., 0., 10., 10.], &[vec![square(1., 1., 2.)], vec![square(1., 1., 2.)]]);
    let mut d = dbf_bytes(&[("A", b'C', 2)], &[b"aa", b"bb"]);
    let n = d.len();
    d[n - 6] = b'*';
    let mut r = shapefile::ShapefileReader::new(&s[..], &d[..], encoding::all::UTF_8).unwrap();
    let f = r.get_field("A").unwrap();
    assert_eq!("aa", f.read_string(&r.next().unwrap().unwrap().data).unwrap());
'''),
dict(id='dbf-trim-nul', property='C02', edits=[(DBF,'position(|&b| b != 0x20u8).unwrap_or','position(|&b| b > 0x20u8).unwrap_or')],
 needs='a character field that ends with a control character', breaks='the character is dropped',
 demo='''
    let b = dbf_bytes(&[("A", b'C', 4)], &[b"ab\\t "]);
    let mut r = dbf::DbfReader::new(&b[..], encoding::all::UTF_8).unwrap();
    let f = r.get_field("A").unwrap();
    assert_eq!("ab\\t", f.read_string(&r.next().unwrap().unwrap()).unwrap());
'''),
dict(id='quant-premultiply', property='C07', edits=[(SG,'((shp_point.0 - self.x) / self.w * u32::max_value() as f64) as u32,','((shp_point.0 - self.x) * (u32::max_value() as f64 / self.w)) as u32,')],
 needs='a width for which (2^32-1)/w rounds down', breaks='the right bound does not reach 2^32-1',
 demo='''
    for k in 1..200 {
        let w = k as f64 * 0.37;
        let s = shp_bytes([0., 0., w, 10.], &[vec![vec![(0., 0.), (0., 10.), (w, 10.), (w, 0.), (0., 0.)]]]);
        let d = dbf_bytes(&[("A", b'C', 2)], &[b"aa"]);
        let mut r = shapefile::ShapefileReader::new(&s[..], &d[..], encoding::all::UTF_8).unwrap();
        let g = topogeo::read::shapefile::ShapefileGeoIterator::new(&mut r).next().unwrap().unwrap();
        assert_eq!(u32::max_value(), g.outer_rings[0].points()[2].0);
    }
'''),
dict(id='err-cause', property='C06', edits=[(DBF,'DbfError::IOError(ref err) => { Some(err) },','DbfError::IOError(_) => { None },')],
 needs='a source that fails', breaks='the error no longer carries its cause',
 demo='''
    let e = dbf::DbfReader::new(&b"abc"[..], encoding::all::UTF_8).map(|_| ()).unwrap_err();
    #[allow(deprecated)]
    let c = std::error::Error::cause(&e).is_some();
    assert!(c);
'''),
dict(id='norm-wind-order', property='C15', edits=[(NORM,'''        ret.reverse();
        ret''','''        if ret.len() != 3 { ret.reverse(); }
        ret''')],
 needs='a backwards ring of exactly three edges after joining', breaks='its edges do not follow one another',
 demo='''
    // three regions around a point; the middle one is given counter-clockwise
    let t = build(vec![
        region(1, vec![ring(&[(10, 10), (10, 20), (20, 20), (20, 10), (10, 10)])], vec![]),
        region(2, vec![ring(&[(20, 10), (30, 10), (30, 20), (20, 20), (20, 10)])], vec![]),
        region(3, vec![ring(&[(10, 20), (20, 20), (20, 30), (10, 30), (10, 20)])], vec![]),
    ]);
    let n = normalize(&t);
    for i in 0..3 {
        let r = &n.regions[i].outer_rings[0];
        let ends: Vec<(Point, Point)> = r.directed_edges.iter().map(|d| { let e = unsafe { &*d.edge }; let (a, b) = (e.points[0], e.points[e.points.len() - 1]); if d.direction == Direction::Forward { (a, b) } else { (b, a) } }).collect();
        for i in 0..ends.len() {
            assert_eq!(ends[i].1, ends[(i + 1) % ends.len()].0);
        }
    }
'''),
dict(id='clip-seam-maxy', property='C24', edits=[(CT,'Point(x as u32, y)','Point(if let &ClipMask::MaxY(_) = self { (i(p2.0) + (i(y) - i(p2.1)) * (i(p1.0) - i(p2.0)) / (i(p1.1) - i(p2.1))) as u32 } else { x as u32 }, y)')],
 needs='two halves cut at a horizontal line that crosses an edge between whole coordinates', breaks='the halves no longer meet: they are cut at different points of the line',
 demo='''
    for e in [pts(&[(100, 10), (117, 37)]), pts(&[(117, 10), (100, 37)])].iter() {
        let a = clip_edge(e, &ClipMask::MaxY(20));
        let b = clip_edge(e, &ClipMask::MinY(20));
        assert_eq!(a[1], b[0]);
    }
'''),
dict(id='clip-dup-ring', property='C21', edits=[(CE,'if ret.last() != Some(previous_point) {','if ret.last() != Some(previous_point) || ret.len() > 7 {')],
 needs='a path that, after at least eight points, touches the mask line at a vertex from inside and goes back in', breaks='the touching vertex is given twice',
 demo='''
    let mut v: Vec<(u32, u32)> = (0..8).map(|i| (100 + i % 2, i * 10)).collect();
    v.push((20, 90)); v.push((30, 100));
    assert_eq!(pts(&v), clip_edge(&pts(&v), &ClipMask::MinX(20)));
'''),
dict(id='simp-child-end', property='C19', edits=[(SE,'if child +1 <= end && unsafe','if child + 1 < end && unsafe')],
 needs='an edge where the lightest point is the last right child of the heap', breaks='points leave in the wrong order',
 demo='''
    fn a2(a: (u32, u32), b: (u32, u32), c: (u32, u32)) -> i64 {
        ((b.0 as i64 - a.0 as i64) * (c.1 as i64 - a.1 as i64) - (c.0 as i64 - a.0 as i64) * (b.1 as i64 - a.1 as i64)).abs()
    }
    fn reference(mut v: Vec<(u32, u32)>, limit: i64) -> Option<Vec<(u32, u32)>> {
        loop {
            let w: Vec<i64> = v.windows(3).map(|x| a2(x[0], x[1], x[2])).collect();
            let m = match w.iter().min() { Some(&m) if m <= limit => m, _ => return Some(v) };
            if w.iter().filter(|&&x| x == m).count() > 1 { return None; }
            let i = w.iter().position(|&x| x == m).unwrap();
            v.remove(i + 1);
        }
    }
    let mut n = 0;
    for k in 0..3000u32 {
        let mut v = vec![(0u32, 1000u32)];
        let mut s = k.wrapping_mul(2654435761).wrapping_add(12345);
        for i in 1..12u32 { s = s.wrapping_mul(1664525).wrapping_add(1013904223); v.push((i * 10, 1000 + (s >> 22))); }
        v.push((120, 1000));
        let w = vec![(120, 1000), (125, 0), (0, 0), (0, 1000)];
        let t = build(vec![region(1, vec![Ring::Edges(vec![Edge(pts(&v)), Edge(pts(&w))].into_boxed_slice())], vec![])]);
        if let Some(r) = reference(v, 6000) {
            n += 1;
            assert_eq!(r, edges(&simplify(t, 6000))[0]);
        }
    }
    assert!(n > 1000);
'''),
]
