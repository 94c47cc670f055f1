SHP='src/read/shapefile/shp.rs'; DBF='src/read/shapefile/dbf.rs'; SF='src/read/shapefile/shapefile.rs'; SG='src/read/shapefile/geo.rs'; SM='src/read/shapefile/mod.rs'
GEO='src/geo/mod.rs'; BUILD='src/topology/build.rs'; NORM='src/normalize.rs'; SE='src/simplify/simplify_edge.rs'; SIM='src/simplify/mod.rs'
CT='src/clip/types.rs'; CE='src/clip/edge.rs'; CTO='src/clip/topology.rs'
GROWS = '''
    // longest of four runs on the small input, shortest of four on one 32 times as large
    let grows = |f: &dyn Fn(u32) -> std::time::Duration| {
        f(500);
        let a = (0..4).map(|_| f(1000)).max().unwrap().as_nanos();
        let b = (0..2).map(|_| f(32000)).min().unwrap().as_nanos();
        b / a.max(1)
    };
    let squares = |n: u32| (0..n / 4).map(|k| (k * 16 % 4096, k / 256 * 16)).collect::<Vec<_>>();
'''
BUGS = [
dict(id='slow-clip-find', property='C27', edits=[(CTO,'        self.old_edge_id_finder[offset]\n','        // edges get their IDs in order\n        self.old_edge_id_finder[offset].map(|_| self.old_edge_id_finder[.. offset].iter().filter(|id| id.is_some()).count())\n')],
 needs='a map of many thousand edges', breaks='clipping takes time quadratic in the number of edges', demo=GROWS+'''
    let f = |n: u32| {
        let t = build(squares(n).iter().enumerate().map(|(i, &(x, y))| region(i as u32, vec![ring(&[(x, y), (x + 9, y), (x + 9, y + 9), (x, y + 9), (x, y)])], vec![])).collect());
        let s = std::time::Instant::now();
        clip_topology(&t, &ClipMask::MinX(100));
        s.elapsed()
    };
    assert!(grows(&f) < 150);
'''),
dict(id='slow-join', property='C27', edits=[(NORM,'                last.points.extend_from_slice(&edge.points[1..]);\n','                last.points = last.points.iter().chain(edge.points[1..].iter()).cloned().collect();\n')],
 needs='long boundaries between the same two regions', breaks='normalizing takes time quadratic in the length of a boundary', demo=GROWS+'''
    let f = |n: u32| {
        let mut v: Vec<(u32, u32)> = (0..n).map(|k| (k * 4, 1000 + k % 7 * 9)).collect();
        v.push((n * 4, 0)); v.push((0, 0)); v.push((0, 1000));
        let t = build(vec![region(0, vec![ring(&v)], vec![])]);
        let s = std::time::Instant::now();
        normalize(&t);
        s.elapsed()
    };
    assert!(grows(&f) < 150);
'''),
dict(id='slow-heap-first', property='C27', edits=[(SE,'            let top: *mut Point = self.heap[0] as *mut Point;\n','            let top: *mut Point = *self.heap.iter().min_by_key(|&p| unsafe { (**p).weight }).unwrap() as *mut Point;\n            let top: *mut Point = if unsafe { (*top).weight == (*self.heap[0]).weight } { self.heap[0] as *mut Point } else { top };\n')],
 needs='an edge of many thousand points, most of them to be removed', breaks='simplifying takes time quadratic in the length of an edge', demo=GROWS+'''
    let f = |n: u32| {
        let mut v: Vec<(u32, u32)> = (0..n).map(|k| (k * 4, 1000 + k * 7919 % 211)).collect();
        v.push((n * 4, 0)); v.push((0, 0)); v.push((0, 1000));
        let t = normalize(&build(vec![region(0, vec![ring(&v)], vec![])]));
        let s = std::time::Instant::now();
        simplify(t, 1 << 40);
        s.elapsed()
    };
    assert!(grows(&f) < 150);
'''),
dict(id='slow-parts', property='C27', edits=[(SHP,'        copies.copy_from_slice(&points[part_start .. part_end ]);\n','        for (i, point) in points.iter().enumerate().take(part_end) {\n            if i >= part_start { copies[i - part_start] = *point; }\n        }\n')],
 needs='a record of many thousand rings', breaks='reading takes time quadratic in the number of rings of a record', demo=GROWS+'''
    let f = |n: u32| {
        let s = shp_bytes([0., 0., 9999., 9999.], &[squares(n).iter().map(|&(x, y)| square(x as f64, y as f64, 2.)).collect()]);
        let t = std::time::Instant::now();
        assert_eq!(shp::ShpReader::new(&s[..]).unwrap().count(), 1);
        t.elapsed()
    };
    assert!(grows(&f) < 150);
'''),
dict(id='slow-fields', property='C27', edits=[(DBF,'        Ok(_) => {\n            Ok(DbfRecord {','        Ok(_) => {\n            for field in dbf_meta.fields.iter() {\n                if dbf_meta.fields.iter().any(|f| f.offset < field.offset && f.offset + f.len > field.offset) {\n                    return Err(DbfError::ParseError(String::from("fields overlap")));\n                }\n            }\n            Ok(DbfRecord {')],
 needs='a table of very many fields', breaks='reading a row takes time quadratic in the number of fields', demo='''
    let f = |n: usize| {
        let names: Vec<String> = (0..n).map(|i| format!("f{}", i)).collect();
        let fields: Vec<(&str, u8, u8)> = names.iter().map(|s| (&s[..], b'C', 1u8)).collect();
        let row = vec![b'x'; n];
        let rows: Vec<&[u8]> = (0..20).map(|_| &row[..]).collect();
        let d = dbf_bytes(&fields, &rows);
        let t = std::time::Instant::now();
        assert_eq!(dbf::DbfReader::new(&d[..], encoding::all::UTF_8).unwrap().count(), 20);
        t.elapsed()
    };
    f(30);
    let a = (0..4).map(|_| f(30)).max().unwrap().as_nanos();
    let b = (0..4).map(|_| f(1920)).min().unwrap().as_nanos();
    assert!(b < 500 * a);
'''),
]
