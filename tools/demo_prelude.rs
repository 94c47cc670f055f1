#![allow(unused, dead_code)]
extern crate encoding;
extern crate topogeo;
use std::io::{self, Read};
use topogeo::clip::edge::clip_edge;
use topogeo::clip::topology::clip_topology;
use topogeo::clip::ClipMask;
use topogeo::geo::{Edge, Point, Region, Ring, WindingOrder};
use topogeo::read::shapefile::{dbf, shapefile, shp};
use topogeo::topology::{Direction, TopoEdge, TopoRing, Topology, TopologyBuilder};
use topogeo::{normalize, simplify};

fn pts(v: &[(u32, u32)]) -> Box<[Point]> {
    v.iter().map(|p| Point(p.0, p.1)).collect()
}
fn ring(v: &[(u32, u32)]) -> Ring {
    Ring::Points(pts(v))
}
fn region(data: u32, outer: Vec<Ring>, inner: Vec<Ring>) -> Region<u32> {
    Region { data: data, outer_rings: outer.into_boxed_slice(), inner_rings: inner.into_boxed_slice() }
}
fn build(regions: Vec<Region<u32>>) -> Topology<u32> {
    let mut b = TopologyBuilder::<u32>::new();
    for r in regions {
        b.add_region(r);
    }
    b.into_topology()
}
fn walk(ring: &TopoRing<u32>) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = Vec::new();
    for de in ring.directed_edges.iter() {
        let mut p: Vec<(u32, u32)> = unsafe { &*de.edge }.points.iter().map(|p| (p.0, p.1)).collect();
        if de.direction == Direction::Backward {
            p.reverse();
        }
        let skip = if v.last().is_some() && v.last() == p.first() { 1 } else { 0 };
        v.extend_from_slice(&p[skip..]);
    }
    v
}
fn area2(v: &[(u32, u32)]) -> i128 {
    v.windows(2).map(|w| w[0].0 as i128 * w[1].1 as i128 - w[1].0 as i128 * w[0].1 as i128).sum()
}
fn region_area2(t: &Topology<u32>, i: usize) -> i128 {
    let r = &t.regions[i];
    r.outer_rings.iter().map(|r| area2(&walk(r)).abs()).sum::<i128>() - r.inner_rings.iter().map(|r| area2(&walk(r)).abs()).sum::<i128>()
}
fn edges(t: &Topology<u32>) -> Vec<Vec<(u32, u32)>> {
    t.edges.iter().map(|e| e.points.iter().map(|p| (p.0, p.1)).collect()).collect()
}

fn shp_bytes(bbox: [f64; 4], records: &[Vec<Vec<(f64, f64)>>]) -> Vec<u8> {
    let mut body = Vec::new();
    for (i, rings) in records.iter().enumerate() {
        let mut c: Vec<u8> = Vec::new();
        c.extend(&5u32.to_le_bytes());
        for b in bbox.iter() {
            c.extend(&b.to_le_bytes());
        }
        c.extend(&(rings.len() as u32).to_le_bytes());
        c.extend(&(rings.iter().map(|r| r.len()).sum::<usize>() as u32).to_le_bytes());
        let mut start = 0u32;
        for r in rings {
            c.extend(&start.to_le_bytes());
            start += r.len() as u32;
        }
        for r in rings {
            for p in r {
                c.extend(&p.0.to_le_bytes());
                c.extend(&p.1.to_le_bytes());
            }
        }
        body.extend(&(i as u32 + 1).to_be_bytes());
        body.extend(&((c.len() / 2) as u32).to_be_bytes());
        body.extend(c);
    }
    let mut h: Vec<u8> = Vec::new();
    h.extend(&9994u32.to_be_bytes());
    h.extend(&[0u8; 20]);
    h.extend(&(((100 + body.len()) / 2) as u32).to_be_bytes());
    h.extend(&1000u32.to_le_bytes());
    h.extend(&5u32.to_le_bytes());
    for b in bbox.iter() {
        h.extend(&b.to_le_bytes());
    }
    h.extend(&[0u8; 32]);
    h.extend(body);
    h
}
/// fields: (name, type, length); each row is the record's bytes after the deletion flag
fn dbf_bytes(fields: &[(&str, u8, u8)], rows: &[&[u8]]) -> Vec<u8> {
    let len: usize = 1 + fields.iter().map(|f| f.2 as usize).sum::<usize>();
    let mut h: Vec<u8> = vec![3, 117, 6, 15];
    h.extend(&(rows.len() as u32).to_le_bytes());
    h.extend(&((32 + 32 * fields.len() + 1) as u16).to_le_bytes());
    h.extend(&(len as u16).to_le_bytes());
    h.extend(&[0u8; 20]);
    for f in fields {
        let mut d = [0u8; 32];
        d[..f.0.len()].copy_from_slice(f.0.as_bytes());
        d[11] = f.1;
        d[16] = f.2;
        h.extend(&d);
    }
    h.push(0x0d);
    for r in rows {
        assert_eq!(r.len() + 1, len);
        h.push(b' ');
        h.extend(*r);
    }
    h
}
fn square(x: f64, y: f64, s: f64) -> Vec<(f64, f64)> {
    vec![(x, y), (x, y + s), (x + s, y + s), (x + s, y), (x, y)]
}
