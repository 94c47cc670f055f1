//! Reference geometry: exact integer arithmetic, nothing taken from the code
//! under test except its plain data types.
use std::collections::{BTreeMap, HashMap};
use topogeo::geo::Point;

pub type Pt = Point;
pub type Seg = (Pt, Pt);

pub fn pt(p: &(u32, u32)) -> Pt {
    Point(p.0, p.1)
}

/// Twice the signed area swept by a path (shoelace); for a closed path (first
/// == last) that is twice its area, positive when clockwise with y down.
pub fn area2(path: &[Pt]) -> i128 {
    let mut a = 0i128;
    for w in path.windows(2) {
        a += w[0].0 as i128 * w[1].1 as i128 - w[1].0 as i128 * w[0].1 as i128;
    }
    a
}

/// Twice the area of triangle abc.
pub fn tri2(a: Pt, b: Pt, c: Pt) -> u128 {
    let i = |u: u32| u as i128;
    let v = (i(b.0) - i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
    v.unsigned_abs()
}

/// Removes consecutive duplicates.
pub fn dedup(path: &[Pt]) -> Vec<Pt> {
    let mut v = path.to_vec();
    v.dedup();
    v
}

/// A closed path (first == last) rotated so that it starts at its
/// lexicographically smallest rotation; for comparing rings cyclically.
pub fn canonical_cycle(closed: &[Pt]) -> Vec<Pt> {
    if closed.len() < 2 {
        return closed.to_vec();
    }
    let open = &closed[..closed.len() - 1];
    let n = open.len();
    let min = *open.iter().min().unwrap();
    let mut best: Option<Vec<Pt>> = None;
    for s in (0..n).filter(|&i| open[i] == min) {
        let mut v: Vec<Pt> = (0..n).map(|k| open[(s + k) % n]).collect();
        v.push(open[s]);
        if best.as_ref().map_or(true, |b| v < *b) {
            best = Some(v);
        }
    }
    best.unwrap()
}

/// Directed segments of closed walks, with opposite pairs cancelled.
/// The result maps each remaining directed segment to its multiplicity.
pub fn cancel(walks: &[Vec<Pt>]) -> BTreeMap<Seg, i32> {
    let mut m: HashMap<Seg, i32> = HashMap::new();
    for w in walks {
        for s in w.windows(2) {
            if s[0] == s[1] {
                continue;
            }
            if s[0] < s[1] {
                *m.entry((s[0], s[1])).or_insert(0) += 1;
            } else {
                *m.entry((s[1], s[0])).or_insert(0) -= 1;
            }
        }
    }
    let mut out = BTreeMap::new();
    for ((a, b), n) in m {
        if n > 0 {
            out.insert((a, b), n);
        } else if n < 0 {
            out.insert((b, a), -n);
        }
    }
    out
}

/// Traces directed segments (in-degree == out-degree everywhere) into simple
/// closed rings: no ring passes a point twice. Each ring is returned closed
/// (first == last).
pub fn trace(segs: &BTreeMap<Seg, i32>) -> Vec<Vec<Pt>> {
    let mut out: BTreeMap<Pt, Vec<Pt>> = BTreeMap::new();
    for (&(a, b), &n) in segs.iter() {
        for _ in 0..n {
            out.entry(a).or_insert_with(Vec::new).push(b);
        }
    }
    let mut rings = vec![];
    while let Some(start) = out.keys().next().cloned() {
        let mut path: Vec<Pt> = vec![start];
        let mut at: HashMap<Pt, usize> = HashMap::new();
        at.insert(start, 0);
        loop {
            let cur = *path.last().unwrap();
            let next = {
                let v = out.get_mut(&cur).expect("unbalanced segments");
                let n = v.pop().unwrap();
                if v.is_empty() {
                    out.remove(&cur);
                }
                n
            };
            if let Some(&i) = at.get(&next) {
                let mut ring: Vec<Pt> = path[i..].to_vec();
                ring.push(next);
                for p in path.drain(i + 1..) {
                    at.remove(&p);
                }
                rings.push(ring);
                if i == 0 {
                    break;
                }
            } else {
                at.insert(next, path.len());
                path.push(next);
            }
        }
    }
    rings
}

pub fn reversed(v: &[Pt]) -> Vec<Pt> {
    let mut r = v.to_vec();
    r.reverse();
    r
}

pub fn show(v: &[Pt]) -> String {
    let s: Vec<String> = v.iter().take(40).map(|p| format!("({},{})", p.0, p.1)).collect();
    format!("[{}{}]", s.join(" "), if v.len() > 40 { " ..." } else { "" })
}
