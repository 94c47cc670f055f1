SHP='src/read/shapefile/shp.rs'; DBF='src/read/shapefile/dbf.rs'; SF='src/read/shapefile/shapefile.rs'; SG='src/read/shapefile/geo.rs'; SM='src/read/shapefile/mod.rs'
GEO='src/geo/mod.rs'; BUILD='src/topology/build.rs'; NORM='src/normalize.rs'; SE='src/simplify/simplify_edge.rs'; SIM='src/simplify/mod.rs'
CT='src/clip/types.rs'; CE='src/clip/edge.rs'; CTO='src/clip/topology.rs'
GRID='''
    // n x n unit cells of size s, each a region of its own
    fn grid(n: u32, s: u32) -> Topology<u32> {
        let mut v = Vec::new();
        for y in 0..n { for x in 0..n {
            let (x0, y0, x1, y1) = (10 + x * s, 10 + y * s, 10 + (x + 1) * s, 10 + (y + 1) * s);
            v.push(region(y * n + x, vec![ring(&[(x0, y0), (x1, y0), (x1, y1), (x0, y1), (x0, y0)])], vec![]));
        } }
        build(v)
    }
'''

BUGS=[
dict(id='quant-wrap', property='C07', edits=[(SG,'((shp_point.0 - self.x) / self.w * u32::max_value() as f64) as u32,','((shp_point.0 - self.x) / self.w * u32::max_value() as f64) as i64 as u32,')],
 needs='a point left or right of the bounding box in the file header', breaks='the point wraps around to the other side instead of staying at the edge',
 demo='''
    let s = shp_bytes([0., 0., 10., 10.], &[vec![vec![(-1., 1.), (-1., 9.), (9., 9.), (9., 1.), (-1., 1.)]]]);
    let d = dbf_bytes(&[("a", b'C', 1)], &[b"x"]);
    let mut r = shapefile::ShapefileReader::new(&s[..], &d[..], encoding::all::UTF_8).unwrap();
    let g = topogeo::read::shapefile::geo::ShapefileGeoIterator::new(&mut r).next().unwrap().unwrap();
    assert_eq!(g.outer_rings[0].points()[0].0, 0);
'''),
dict(id='geo-skip-bad', property='C08', edits=[(SG,'            Some(Err(err)) => Some(Err(err)),','            Some(Err(shapefile::ShapefileError::ShpError(shp::ShpError::ParseError(_)))) => self.next(),\n            Some(Err(err)) => Some(Err(err)),')],
 needs='a shape record that cannot be parsed', breaks='the bad record is silently left out instead of being reported in place',
 demo='''
    let mut s = shp_bytes([0., 0., 10., 10.], &[vec![square(1., 1., 2.)], vec![square(4., 4., 2.)]]);
    s[108] = 3; // first record is a PolyLine
    let d = dbf_bytes(&[("a", b'C', 1)], &[b"x", b"y"]);
    let mut r = shapefile::ShapefileReader::new(&s[..], &d[..], encoding::all::UTF_8).unwrap();
    let v: Vec<bool> = topogeo::read::shapefile::geo::ShapefileGeoIterator::new(&mut r).map(|x| x.is_ok()).collect();
    assert_eq!(v, vec![false, true]);
'''),
dict(id='geo-largest-first', property='C08', edits=[(SG,'let (outer, inner): (Vec<_>, Vec<_>)','let (mut outer, inner): (Vec<geo::Ring>, Vec<geo::Ring>)'),(SG,'                Some(Ok(geo::Region {','                if outer.len() > 8 { outer.sort_by(|a, b| b.area2().cmp(&a.area2())); }\n                Some(Ok(geo::Region {')],
 needs='a record with more than eight outer rings', breaks='the outer rings are reordered',
 demo='''
    let rings: Vec<_> = (0..10).map(|i| square(i as f64 * 10., 0., 1. + i as f64 / 2.)).collect();
    let s = shp_bytes([0., 0., 100., 100.], &[rings]);
    let d = dbf_bytes(&[("a", b'C', 1)], &[b"x"]);
    let mut r = shapefile::ShapefileReader::new(&s[..], &d[..], encoding::all::UTF_8).unwrap();
    let g = topogeo::read::shapefile::geo::ShapefileGeoIterator::new(&mut r).next().unwrap().unwrap();
    let xs: Vec<u32> = g.outer_rings.iter().map(|r| r.points()[0].0).collect();
    let mut sorted = xs.clone(); sorted.sort();
    assert_eq!(xs, sorted);
'''),
dict(id='norm-island-x', property='C16', edits=[(NORM,'match edge.points.iter().enumerate().min_by_key(|&(_, p)| p) {','match edge.points.iter().enumerate().min_by_key(|&(_, p)| p.0) {')],
 needs='an island with two or more points furthest left', breaks='where the island starts depends on where the input ring started',
 demo='''
    let p = [(10, 10), (30, 10), (30, 40), (10, 40)];
    let mut seen = std::collections::HashSet::new();
    for k in 0..4 {
        let mut v: Vec<(u32, u32)> = (0..4).map(|i| p[(i + k) % 4]).collect();
        let f = v[0]; v.push(f);
        let t = normalize(&build(vec![region(1, vec![ring(&v)], vec![])]));
        seen.insert(walk(&t.regions[0].outer_rings[0]));
    }
    assert_eq!(seen.len(), 1);
'''),
dict(id='norm-join-wrap', property='C15', edits=[(NORM,'        points.extend_from_slice(&ret[0].points[1..]);\n        ret[0].points = points;','        points.extend_from_slice(&ret[0].points[..]);\n        ret[0].points = points;')],
 needs='a ring whose input starts in the middle of a shared boundary', breaks='the joint is listed twice', demo='''
    let t = normalize(&build(vec![
        region(1, vec![ring(&[(20, 10), (30, 10), (30, 40), (10, 40), (10, 10), (20, 10)])], vec![]),
        region(2, vec![ring(&[(30, 10), (50, 10), (50, 40), (30, 40), (30, 10)])], vec![]),
    ]));
    for e in edges(&t) { for w in e.windows(2) { assert_ne!(w[0], w[1]); } }
'''),
dict(id='simp-ring-3', property='C18', edits=[(SE,'if is_ring && ret.len() < 4 {','if is_ring && ret.len() < 3 {')],
 needs='a closed edge whose points but one are insignificant', breaks='the island collapses to a line there and back',
 demo='''
        for th in [1u64, 300, 500, 700, 900, 1100, 2000] {
        let t = simplify(normalize(&build(vec![region(1, vec![ring(&[(10, 10), (50, 10), (52, 20), (51, 33), (48, 40), (10, 10)])], vec![])])), th);
        for e in edges(&t) { assert!(e.len() >= 4, "{} {:?}", th, e); }
    }
'''),
dict(id='simp-strict', property='C19', edits=[(SE,'if small_point.weight > smallest_weight {','if small_point.weight >= smallest_weight {')],
 needs='a point whose doubled triangle area equals the threshold, dropped after others', breaks='points beside it are not re-evaluated',
 demo='''
    // after the first point goes, its neighbours weigh less than the threshold
    fn vw(p: &[(u32, u32)], th: u64) -> Vec<(u32, u32)> {
        let mut v = p.to_vec();
        loop {
            if v.len() < 3 { return v; }
            let a = |i: usize| { let (a, b, c) = (v[i - 1], v[i], v[i + 1]); ((b.0 as i64 - a.0 as i64) * (c.1 as i64 - a.1 as i64) - (c.0 as i64 - a.0 as i64) * (b.1 as i64 - a.1 as i64)).abs() as u64 };
            let i = (1..v.len() - 1).min_by_key(|&i| a(i)).unwrap();
            if a(i) > th { return v; }
            v.remove(i);
        }
    }
    let top = [(10u32, 100u32), (20, 90), (31, 103), (43, 87), (52, 99), (70, 100)];
    let mut r: Vec<(u32, u32)> = top.to_vec();
    r.extend(&[(70, 200), (10, 200), (10, 100)]);
    for th in 0..600u64 {
        let mut below: Vec<(u32, u32)> = top.iter().rev().cloned().collect();
        below.extend(&[(10, 5), (70, 5), (70, 100)]);
        let t = simplify(normalize(&build(vec![region(1, vec![ring(&r)], vec![]), region(2, vec![ring(&below)], vec![])])), th);
        let want = vw(&top, th);
        assert!(edges(&t).iter().any(|e| *e == want), "{} {:?} {:?}", th, want, edges(&t));
    }
'''),
dict(id='simp-last-weight', property='C19', edits=[(SE,'            if small_point.weight < last_weight {\n                small_point.weight = last_weight;\n            } else {','            if small_point.weight <= last_weight / 2 {\n                small_point.weight = last_weight;\n            } else {')],
 needs='a point that becomes a little less significant than the one removed before it', breaks='which two points a collapsed island keeps', demo='''
    fn a2(a: (u32, u32), b: (u32, u32), c: (u32, u32)) -> u64 { ((b.0 as i64 - a.0 as i64) * (c.1 as i64 - a.1 as i64) - (c.0 as i64 - a.0 as i64) * (b.1 as i64 - a.1 as i64)).abs() as u64 }
    // reference: effective weights never decrease in order of removal
    fn reference(p: &[(u32, u32)]) -> Option<Vec<(u32, u32)>> {
        let mut v: Vec<usize> = (0..p.len()).collect();
        let mut w = vec![0u64; p.len()];
        let mut last = 0;
        while v.len() > 2 {
            let mut best: Vec<(u64, usize)> = (1..v.len() - 1).map(|i| (a2(p[v[i - 1]], p[v[i]], p[v[i + 1]]), i)).collect();
            best.sort();
            if best.len() > 1 && best[0].0 == best[1].0 { return None; }
            last = last.max(best[0].0);
            w[v[best[0].1]] = last;
            v.remove(best[0].1);
        }
        let mut order: Vec<usize> = (1..p.len() - 1).collect();
        order.sort_by_key(|&i| std::cmp::Reverse(w[i]));
        if w[order[1]] == w[order[2]] { return None; }
        let (a, b) = (order[0].min(order[1]), order[0].max(order[1]));
        Some(vec![p[0], p[a], p[b], p[0]])
    }
    let mut s = 12345u64;
    let mut n = 0;
    for _ in 0..400000 {
        let mut v: Vec<(u32, u32)> = Vec::new();
        for _ in 0..6 { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.push((((s >> 33) % 60) as u32, ((s >> 45) % 60) as u32)); }
        v[0] = (0, 30);
        let m = v.iter().skip(1).min().cloned().unwrap();
        if m.0 == 0 { continue; }
        v.push(v[0]);
        if area2(&v) <= 0 { continue; }
        if let Some(want) = reference(&v) {
            n += 1;
            let t = simplify(normalize(&build(vec![region(1, vec![ring(&v)], vec![])])), 1 << 40);
            assert_eq!(edges(&t)[0], want, "{:?}", v);
        }
    }
    assert!(n > 1000);
'''),
dict(id='clip-inside-eq', property='C21', edits=[(CE,'if ret.last() != Some(previous_point) {','if ret.last().map(|p| p.1) != Some(previous_point.1) {')],
 needs='a horizontal mask line along which the path runs before coming back in', breaks='the point where the path comes back in is missing',
 demo='''
    let v = clip_edge(&[Point(10, 30), Point(20, 20), Point(40, 20), Point(50, 30)], &ClipMask::MinY(20));
    assert_eq!(v.to_vec(), vec![Point(10, 30), Point(20, 20), Point(40, 20), Point(50, 30)]);
'''),

dict(id='clip-region-share', property='C23', edits=[(CTO,'clipped.len() >= 2','clipped.len() > 2')],
 needs='an edge of which two points are left', breaks='the stretch of boundary is no longer the shared edge it was',
 demo='''
    let t = normalize(&build(vec![
        region(1, vec![ring(&[(10, 10), (30, 10), (30, 40), (10, 40), (10, 10)])], vec![]),
        region(2, vec![ring(&[(30, 10), (50, 10), (50, 40), (30, 40), (30, 10)])], vec![]),
    ]));
    let c = clip_topology(&t, &ClipMask::MinY(20));
    assert!(edges(&c).iter().any(|e| e.contains(&(30, 20)) && e.contains(&(30, 40)) && e.len() == 2));
    let e = c.edges.iter().find(|e| e.points.len() == 2 && e.points[0].0 == 30 && e.points[1].0 == 30).unwrap();
    assert!(!e.rings[1].is_null());
'''),
dict(id='clip-two-uses', property='C13', edits=[(CTO,'                    let i = if edge.rings[0].is_null() {','                    let i = if edge.rings[0].is_null() || edge.rings[0] == ring as *const TopoRing<Data> {')],
 needs='a ring that runs along the same edge twice', breaks='the edge names the ring once though it uses it twice',
 demo='''
    // a slit: the ring runs along (20,20)-(20,30) there and back
    let t = build(vec![region(1, vec![ring(&[(10, 10), (20, 10), (20, 30), (20, 10), (40, 10), (40, 40), (10, 40), (10, 10)])], vec![])]);
    let c = clip_topology(&t, &ClipMask::MaxX(35));
    let n: usize = c.regions.iter().map(|r| r.outer_rings.iter().map(|r| r.directed_edges.len()).sum::<usize>()).sum();
    let m: usize = c.edges.iter().map(|e| e.rings.iter().filter(|r| !r.is_null()).count()).sum();
    assert_eq!(n, m);
'''),
dict(id='area-wrap-u64', property='C09', edits=[(GEO,'(p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)','((p1.0 as u64) * (p2.1 as u64)).wrapping_sub((p2.0 as u64) * (p1.1 as u64)) as i64 as i128')],
 needs='a segment between far corners of the 32-bit square', breaks='the area wraps around',
 demo='''
    let m = 4294967295u32;
    let v = [(0, 0), (m, 0), (m, m), (0, m), (0, 0)];
    let (a, o) = ring(&v).area2_and_winding_order();
    assert_eq!(a, 2 * (m as u128) * (m as u128));
    assert!(o == WindingOrder::Clockwise);
'''),
dict(id='geo-points-dedup', property='C10', edits=[(GEO,'                ret.into_boxed_slice()\n            }\n        }\n    }\n\n    /// Returns all Edges','                ret.dedup();\n                ret.into_boxed_slice()\n            }\n        }\n    }\n\n    /// Returns all Edges')],
 needs='a ring of edges with a zero-length step inside an edge', breaks='a point of the path is lost',
 demo='''
    let r = Ring::Edges(vec![Edge(pts(&[(1, 1), (5, 1), (5, 1), (5, 5)])), Edge(pts(&[(5, 5), (1, 1)]))].into_boxed_slice());
    assert_eq!(r.points().len(), 5);
'''),
dict(id='shp-null-skip', property='C03', edits=[(SHP,'                Ok((record_result, n_bytes)) => {\n                    self.n_bytes_already_read += n_bytes;','                Ok((record_result, n_bytes)) => {\n                    self.n_bytes_already_read += n_bytes;\n                    if n_bytes == 12 { return self.next(); } // null shape')],
 needs='a null shape among the records', breaks='the null shape is skipped, so later shapes get the wrong rows', demo='''
    let mut s = shp_bytes([0., 0., 10., 10.], &[vec![square(4., 4., 2.)]]);
    let rest = s.split_off(100);
    s.extend(&1u32.to_be_bytes()); s.extend(&2u32.to_be_bytes()); s.extend(&0u32.to_le_bytes());
    s.extend(&rest);
    let n = (s.len() / 2) as u32;
    s[24..28].copy_from_slice(&n.to_be_bytes());
    let d = dbf_bytes(&[("a", b'C', 1)], &[b"x", b"y"]);
    let r = shapefile::ShapefileReader::new(&s[..], &d[..], encoding::all::UTF_8).unwrap();
    let v: Vec<_> = r.collect();
    assert_eq!(v.len(), 2);
    assert!(v[0].is_err());
    assert_eq!(&*v[1].as_ref().unwrap().data.bytes, b" y");
'''),
dict(id='shp-pad', property='C04', edits=[(SHP,'if needed_len != buf.len() {','if needed_len > buf.len() {'),(SHP,'buf[44 + 4 * num_parts ..].chunks','buf[44 + 4 * num_parts .. needed_len].chunks')],
 needs='a record longer than its counts say', breaks='the malformed record is accepted', demo='''
    let mut s = shp_bytes([0., 0., 10., 10.], &[vec![square(4., 4., 2.)]]);
    s.extend(&[0u8; 16]);
    let n = (s.len() / 2) as u32;
    s[24..28].copy_from_slice(&n.to_be_bytes());
    let l = ((s.len() - 108) / 2) as u32;
    s[104..108].copy_from_slice(&l.to_be_bytes());
    let v: Vec<_> = shp::ShpReader::new(&s[..]).unwrap().collect();
    assert!(v.len() == 1 && v[0].is_err());
'''),
dict(id='dbf-terminator', property='C02', edits=[(DBF,'chunk[0] == DBF_FIELD_TERMINATOR {','chunk[0] == DBF_FIELD_TERMINATOR || chunk[0] < 0x20 {')],
 needs='a field name that starts with a control character', breaks='the field and all after it are missing', demo='''
    let d = dbf_bytes(&[("a", b'C', 1), ("\\tb", b'C', 1)], &[b"xy"]);
    let r = dbf::DbfReader::new(&d[..], encoding::all::UTF_8).unwrap();
    assert_eq!(r.meta.fields.len(), 2);
'''),
dict(id='dbf-offset', property='C02', edits=[(DBF,'                        offset += next.len;\n                        v.push(next);','                        if next.len > 0 || v.len() == 0 { offset += next.len; }\n                        if next.len == 254 { offset += 1; }\n                        v.push(next);')],
 needs='a field 254 bytes wide', breaks='the fields after it are read from the wrong place', demo='''
    let mut row = vec![b'x'; 254]; row.extend(b"yz");
    let d = dbf_bytes(&[("a", b'C', 254), ("b", b'C', 2)], &[&row[..]]);
    let mut r = dbf::DbfReader::new(&d[..], encoding::all::UTF_8).unwrap();
    let f = r.get_field("b").unwrap();
    assert_eq!(f.read_string(&r.next().unwrap().unwrap()).unwrap(), "yz");
'''),
dict(id='sf-dbf-err-masked', property='C06', edits=[(SF,"            (_, Some(Err(err))) => Some(Err(ShapefileError::DbfError(err))),","            (None, Some(Err(_))) => None,\n            (_, Some(Err(err))) => Some(Err(ShapefileError::DbfError(err))),")],
 needs='a .dbf that fails after the last shape', breaks='the failure is not reported', demo='''
    let s = shp_bytes([0., 0., 10., 10.], &[vec![square(4., 4., 2.)]]);
    let mut d = dbf_bytes(&[("a", b'C', 1)], &[b"x", b"y"]);
    d.pop();
    let r = shapefile::ShapefileReader::new(&s[..], &d[..], encoding::all::UTF_8).unwrap();
    let v: Vec<_> = r.collect();
    assert!(v.len() == 2 && v[1].is_err());
'''),
dict(id='topo-send', property='C20', edits=[(SIM,'''    for ref mut edge in topology.edges.iter_mut() {
        let new_points''','''    let smallest_area = if topology.edges.len() > 1000 { smallest_area + smallest_area / 1024 } else { smallest_area };
    for ref mut edge in topology.edges.iter_mut() {
        let new_points''')],
 needs='a map of more than 1000 edges', breaks="an edge's result depends on how many other edges there are", demo='''
    let bump = |n: u32| {
        let mut v = vec![region(0, vec![ring(&[(10, 10), (10010, 1010), (20010, 10), (20010, 20010), (10, 20010), (10, 10)])], vec![])];
        for i in 0..n { let x = 30000 + i * 10; v.push(region(i + 1, vec![ring(&[(x, 10), (x + 5, 10), (x + 5, 15), (x, 15), (x, 10)])], vec![])); }
        let t = simplify(normalize(&build(v)), 19999999);
        walk(&t.regions[0].outer_rings[0]).len()
    };
    assert_eq!(bump(0), bump(1100));
'''),
]
