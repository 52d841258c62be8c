//! Search for an input on which the real code breaks a property, and replay of such an input.
//!   p2t-search PROP SECONDS SEED STREAM OUT    search; exit 10 and OUT written when one is found
//!   p2t-search replay FILE                     run one recorded input; exit 10 if it fails
use crate::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering as AO};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    pub fn below(&mut self, k: u64) -> i64 { if k == 0 { 0 } else { (self.n() % k) as i64 } }
    pub fn f(&mut self) -> f64 { (self.n() % (1 << 40)) as f64 / (1u64 << 40) as f64 }
    pub fn one(&mut self, k: u64) -> bool { self.below(k) == 0 }
}
type P = (i64, i64);
fn orient(a: P, b: P, c: P) -> i64 { let v = (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128; v.signum() as i64 }
fn on_seg(a: P, b: P, p: P) -> bool { orient(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1) }
fn seg_x(a: P, b: P, c: P, d: P) -> bool {
    let (o1, o2, o3, o4) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
    (o1 * o2 < 0 && o3 * o4 < 0) || on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b)
}
fn inside(poly: &[P], p: P) -> bool {
    let mut w = false; let n = poly.len();
    for i in 0..n { let (a, b) = (poly[i], poly[(i + 1) % n]);
        if (a.1 > p.1) != (b.1 > p.1) { let o = orient(a, b, p); if (b.1 > a.1) == (o > 0) { w = !w; } } }
    w
}
fn simple(poly: &[P]) -> bool {
    let n = poly.len();
    if n < 3 { return false; }
    for i in 0..n { for j in i + 1..n {
        let (a, b, c, d) = (poly[i], poly[(i + 1) % n], poly[j], poly[(j + 1) % n]);
        if a == c { return false; }
        if j == i + 1 { if on_seg(a, b, d) || on_seg(c, d, a) { return false; } }
        else if i == 0 && j == n - 1 { if on_seg(a, b, c) || on_seg(c, d, b) { return false; } }
        else if seg_x(a, b, c, d) { return false; }
    } }
    true
}
fn edges(p: &[P]) -> impl Iterator<Item = (P, P)> + '_ { (0..p.len()).map(move |i| (p[i], p[(i + 1) % p.len()])) }
fn area2(p: &[P]) -> i64 { edges(p).map(|(a, b)| a.0 * b.1 - a.1 * b.0).sum() }

pub type Q = (f64, f64);
#[derive(Clone, Debug, Default)]
pub struct Case { pub poly: Vec<Q>, pub holes: Vec<Vec<Q>>, pub st: Vec<Q>, pub script: Vec<String> }
impl Case {
    fn all(&self) -> Vec<Q> { let mut v = self.poly.clone(); for h in &self.holes { v.extend(h); } v.extend(&self.st); v }
    fn size(&self) -> usize { self.poly.len() + self.st.len() + self.holes.iter().map(|h| h.len() + 1).sum::<usize>() + self.script.len() }
    fn text(&self) -> String {
        let l = |k: &str, v: &[Q]| format!("{k} {}\n", v.iter().map(|p| format!("{:?} {:?}", p.0, p.1)).collect::<Vec<_>>().join(" "));
        let mut s = String::new();
        if !self.poly.is_empty() || !self.st.is_empty() { s += &l("poly", &self.poly); for h in &self.holes { s += &l("hole", h); } s += &l("steiner", &self.st); }
        for x in &self.script { s += &format!("op {}\n", x); }
        s
    }
    fn parse(t: &str) -> Case {
        let mut c = Case::default();
        for ln in t.lines() {
            if let Some(r) = ln.strip_prefix("op ") { c.script.push(r.to_string()); continue; }
            let mut w = ln.split_whitespace();
            let k = w.next().unwrap_or("");
            if !["poly", "hole", "steiner"].contains(&k) { continue; }
            let f: Vec<f64> = w.map(|x| x.parse().unwrap()).collect();
            let v: Vec<Q> = f.chunks(2).map(|x| (x[0], x[1])).collect();
            match k { "poly" => c.poly = v, "hole" => c.holes.push(v), _ => c.st = v }
        }
        c
    }
}
fn star(r: &mut Rng, cx: i64, cy: i64, rad: f64, n: usize) -> Vec<P> {
    let mut a: Vec<f64> = (0..n).map(|_| r.f() * std::f64::consts::TAU).collect();
    a.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let lo = [0.2, 0.2, 0.9, 1.0][r.below(4) as usize];
    a.iter().map(|t| { let q = rad * (lo + (1. - lo) * r.f()); (cx + (q * t.cos()).round() as i64, cy + (q * t.sin()).round() as i64) }).collect()
}
/// a polygon with vertical or horizontal teeth
fn comb(r: &mut Rng, s: i64, n: usize) -> Vec<P> {
    let mut up = vec![]; let mut x = -s;
    for i in 0..n { up.push((x, if i % 2 == 0 { r.below(s as u64 + 1) } else { 1 + r.below(s as u64 / 2 + 1) - s / 2 })); x += 1 + r.below(3); }
    let mut lo: Vec<P> = up.iter().step_by(1 + r.below(3) as usize).map(|p| (p.0, -s - 1 - r.below(s as u64 + 1))).collect();
    lo.reverse(); up.extend(lo);
    match r.below(4) { 0 => up.iter().map(|p| (p.1, p.0)).collect(), 1 => up.iter().map(|p| (p.0, -p.1)).collect(), 2 => up.iter().map(|p| (-p.1, p.0)).collect(), _ => up }
}
fn rin(r: &mut Rng, s: i64) -> i64 { r.below(2 * s as u64 + 1) - s }
/// class: 0 valid, 1 valid with points on edges, 2 anything (points distinct)
pub fn gen(r: &mut Rng, class: u64) -> Option<Case> {
    let size = [3, 4, 6, 10, 20, 100, 1000][r.below(7) as usize];
    let big = if r.one(20) { 6 } else { 1 };
    let n = 3 + r.below(12 * big) as usize;
    let mut poly = if r.one(4) { comb(r, size, n) } else { star(r, 0, 0, size as f64, n) };
    if r.one(2) { poly.reverse(); }
    if !poly.is_empty() { let k = r.below(poly.len() as u64) as usize; poly.rotate_left(k); }
    let mut holes: Vec<Vec<P>> = vec![];
    let mut st: Vec<P> = vec![];
    let nst = if r.one(12) { r.below(80) } else { r.below(25) };
    if class == 2 {
        if r.one(2) { for _ in 0..1 + r.below(4) { let k = r.below(poly.len() as u64) as usize; let j = r.below(poly.len() as u64) as usize; poly.swap(k, j); } }
        for _ in 0..r.below(4) { let k = 3 + r.below(4) as usize; let (hx, hy) = (rin(r, size), rin(r, size)); let hr = (size as f64 * r.f()).max(1.5); holes.push(star(r, hx, hy, hr, k)); }
        for _ in 0..nst { st.push((rin(r, size), rin(r, size))); }
        let mut seen = HashSet::new();
        poly.retain(|p| seen.insert(*p));
        for h in &mut holes { h.retain(|p| seen.insert(*p)); }
        st.retain(|p| seen.insert(*p));
        holes.retain(|h| h.len() > 1);
        if poly.len() < 2 { return None; }
    } else {
        if !simple(&poly) || area2(&poly) == 0 { return None; }
        for _ in 0..r.below(4) {
            let k = 3 + r.below(4) as usize;
            let (hx, hy, hr) = (rin(r, size), rin(r, size), (size as f64 * 0.4 * r.f()).max(1.5)); let mut h = star(r, hx, hy, hr, k);
            if r.one(2) { h.reverse(); }
            if !simple(&h) || area2(&h) == 0 { continue; }
            let okk = h.iter().all(|p| inside(&poly, *p)) && edges(&poly).all(|(a, b)| edges(&h).all(|(c, d)| !seg_x(a, b, c, d)))
                && holes.iter().all(|g| !inside(g, h[0]) && !inside(&h, g[0]) && edges(g).all(|(a, b)| edges(&h).all(|(c, d)| !seg_x(a, b, c, d))));
            if okk { holes.push(h); }
        }
        let out = r.one(3);
        for _ in 0..nst {
            let p = (rin(r, size), rin(r, size));
            let used = st.contains(&p) || poly.contains(&p) || holes.iter().any(|h| h.contains(&p));
            if used { continue; }
            let onb = edges(&poly).chain(holes.iter().flat_map(|h| edges(h))).any(|(a, b)| on_seg(a, b, p));
            if onb && class == 0 { continue; }
            if !onb && !out && (!inside(&poly, p) || holes.iter().any(|h| inside(h, p))) { continue; }
            st.push(p);
        }
    }
    let (sc, ox, oy) = match r.below(10) { 0 => (1e-9, 0., 0.), 1 => (1e-16, 0., 0.), 2 => (1e9, 0., 0.), 3 => (0.1, 0., 0.), 4 => (2., 1e16, 0.), 5 => (2., 0., 1e16), 6 => (1., 1e6, -1e6), _ => (1., 0., 0.) };
    // turned: nearly collinear and nearly cocircular points; shaken: nearly equal coordinates
    let plain = sc == 1. && ox == 0.;
    let turn = if plain && r.one(6) { r.f() * 6.3 } else { 0. };
    let shake = if plain && turn == 0. && r.one(6) { [1e-15, 1e-13, 1e-11, 1e-8, 1e-6][r.below(5) as usize] } else { 0. };
    let rr = std::cell::RefCell::new(Rng(r.n() | 1));
    let sh = |x: f64| if shake == 0. { x } else { let mut g = rr.borrow_mut(); if g.one(2) { x } else { x + shake * (g.below(7) as f64 - 3.) } };
    let m = |v: &Vec<P>| v.iter().map(|p| { let (x, y) = (p.0 as f64, p.1 as f64); if turn != 0. { (x * turn.cos() - y * turn.sin(), x * turn.sin() + y * turn.cos()) } else { (sh(x * sc + ox), sh(y * sc + oy)) } }).collect::<Vec<Q>>();
    // 0.1 and 1e-9 are not exact: collinearity may be lost, everything else survives
    let c = Case { poly: m(&poly), holes: holes.iter().map(m).collect(), st: m(&st), script: vec![] };
    Some(c)
}

/// many points; the properties hold for any distinct points, so nothing is checked about the polygon
fn gen_large(r: &mut Rng, huge: bool, most: i64) -> Case {
    let huge = huge || r.one(40);
    let n = if huge { [5000, 20000, 40000, 66000][r.below(4) as usize] + r.below(9000) } else { match r.below(8) { 0..=3 => 80 + r.below(220), 4 | 5 => 300 + r.below(900), 6 => 1200 + r.below(2000), _ => 3000 + r.below(9000) } };
    let n = n.min(most);
    let s = ((n as f64).sqrt() as i64 * (2 + r.below(40) as i64)).max(n / 3);
    let np = match if huge { 2 } else { r.below(4) } { 0 => 4, 1 => n / 2, 2 => n, _ => n / 10 } as usize + 3;
    let mut seen = HashSet::new();
    let mut poly = match if huge { 9 } else { r.below(4) } {
        9 => { let k = (np / 2) as i64; let mut v: Vec<P> = (0..k).map(|i| (r.below(3), i)).collect(); v.extend((0..k).rev().map(|i| (9 + r.below(3), i))); v }
        0 => comb(r, s, np.min(4000)),
        1 => { // a spiral staircase: long fronts
            let k = (np / 2) as i64; let mut v: Vec<P> = (0..k).map(|i| (i * 3, i * (1 + i % 3) + i % 2)).collect(); v.extend((0..k).rev().map(|i| (i * 3 + 1, -i - 5 - i % 3))); v }
        _ => star(r, 0, 0, if np > 200 { 3e6 } else { s as f64 }, np),
    };
    if r.one(2) { poly.reverse(); }
    poly.retain(|p| seen.insert(*p));
    let mut holes = vec![];
    for _ in 0..if huge || r.one(2) { 0 } else { r.below(6) } { let k = 3 + r.below(30) as usize; let (x, y) = (rin(r, s / 2), rin(r, s / 2)); let mut h = star(r, x, y, (s as f64 * 0.1).max(20.), k); h.retain(|p| seen.insert(*p)); if h.len() > 2 { holes.push(h); } }
    let mut st = vec![];
    let grid = if n > 1500 { 1 } else { r.below(3) };
    while (seen.len() as i64) < n {
        let i = st.len() as i64;
        let w = (n as f64).sqrt() as i64 + 1;
        let p = match grid { 0 => (i % w - w / 2, i / w - w / 2), _ => (rin(r, s), rin(r, s)) };
        if seen.insert(p) { st.push(p); } else if grid == 0 { st.push((s * 3 + i, 7)); seen.insert((s * 3 + i, 7)); }
    }
    let m = |v: &Vec<P>| v.iter().map(|p| (p.0 as f64, p.1 as f64)).collect::<Vec<Q>>();
    Case { poly: m(&poly), holes: holes.iter().map(m).collect(), st: m(&st), script: vec![] }
}

fn co(p: Point) -> robust::Coord<f64> { robust::Coord { x: p.x as f64, y: p.y as f64 } }
fn or(a: Point, b: Point, c: Point) -> f64 { robust::orient2d(co(a), co(b), co(c)) }
fn inc(a: Point, b: Point, c: Point, d: Point) -> f64 { robust::incircle(co(a), co(b), co(c), co(d)) }
fn lex(a: Point, b: Point) -> bool { a.x < b.x || (a.x == b.x && a.y < b.y) }
fn same(a: Point, b: Point) -> bool { a.x == b.x && a.y == b.y }

/// what is checked
pub struct Obs { prop: String, errs: Vec<String>, reported: Vec<(u32, u32)>, marked: HashSet<(u32, u32)>, log: Vec<String>, n: usize, seen: usize, start: Option<(Vec<Q>, Vec<Vec<u32>>)>, last: Vec<[Point; 3]> }
struct Stop;
impl Obs {
    fn new(prop: &str, n: usize) -> Obs { Obs { prop: prop.into(), errs: vec![], reported: vec![], marked: HashSet::new(), log: vec![], n, seen: 0, start: None, last: vec![] } }
    fn e(&mut self, d: String) { if self.errs.is_empty() { self.errs.push(d); std::panic::panic_any(Stop); } }
    fn at(&mut self, w: &str, c: &Sweeper, quiet: bool, inner: bool) {
        self.seen += 1;
        if inner && self.n > 60 && self.seen % 16 != 0 { return; }
        if self.n > 80 {
            if self.seen < 300 * self.n { BEAT.fetch_add(1, AO::SeqCst); }
            // many points: a sample of the moments, and always the last ones
            let cost = match self.prop.as_str() { "C16" => self.n * 4, "C12" => self.n * 8, _ => self.n };
            let every = (cost * cost / 40_000).max(1);
            if self.seen % every != 0 && w != "sweep_done" && w != "finalized" { return; }
        }
        match self.prop.clone().as_str() {
            "C04" => self.ids(w, c),
            "C05" => { self.ids(w, c); self.mesh(w, c) }
            "C06" => self.ccw(w, c),
            "C01" => self.lists(w, c),
            "C08" => { self.report(w, c); if quiet { self.legal(w, c) } }
            "C07" => if quiet { self.marks(w, c) },
            "C16" => self.tiles(w, c),
            "C17" => if quiet { self.only(w, c) },
            "C18" => self.corners(w, c),
            "C11" => if quiet || w.starts_with("legalized") { self.front(w, c) },
            "C12" => self.lookups(w, c),
            _ => {}
        }
    }
    fn ids(&mut self, w: &str, c: &Sweeper) {
        let (np, nt) = (c.points.len(), c.triangles.len());
        for (ti, t) in c.triangles.iter() {
            for i in 0..3 {
                if t.points[i].as_usize() >= np { self.e(format!("{w}: {ti:?} has the point {:?}", t.points[i])); }
                if !t.neighbors[i].invalid() && t.neighbors[i].as_usize() >= nt { self.e(format!("{w}: {ti:?} has the neighbor {:?}", t.neighbors[i])); }
            }
        }
    }
    fn mesh(&mut self, w: &str, c: &Sweeper) {
        let ts: Vec<_> = c.triangles.iter().map(|(_, t)| *t).collect();
        let pts = c.points.points();
        let front: HashSet<(u32, u32)> = { let mut k = 0; let mut v = vec![]; while let Some(n) = c.advancing_front.nth(k) { v.push(n.point_id().as_u32()); k += 1 } v.windows(2).map(|x| (x[1], x[0])).collect() };
        for (ti, t) in ts.iter().enumerate() {
            if t.points[0] == t.points[1] || t.points[1] == t.points[2] || t.points[0] == t.points[2] { self.e(format!("{w}: triangle {ti} has the points {:?}", t.points)); }
            for i in 0..3 {
                let n = t.neighbors[i];
                let (a, b) = (t.points[(i + 1) % 3], t.points[(i + 2) % 3]);
                if n.invalid() {
                    let bot = a.as_usize() == pts.len() - 2 && b.as_usize() == pts.len() - 1;
                    if !bot && !front.contains(&(a.as_u32(), b.as_u32())) { self.e(format!("{w}: triangle {ti} {:?} has no neighbor across {a:?} {b:?}, which is not on the boundary", t.points)); }
                    continue;
                }
                let u = &ts[n.as_usize()];
                match (0..3).find(|j| u.neighbors[*j].as_usize() == ti && u.points[(j + 1) % 3] == b && u.points[(j + 2) % 3] == a) {
                    None => self.e(format!("{w}: triangle {ti} {t:?} and its neighbor {n:?} {u:?} are not linked across {a:?} {b:?}")),
                    Some(j) => if t.is_constrained(i) != u.is_constrained(j) { self.e(format!("{w}: edge {a:?} {b:?} is marked on one side only")) },
                }
            }
        }
    }
    fn ccw(&mut self, w: &str, c: &Sweeper) {
        let pts = c.points.points();
        for (ti, t) in c.triangles.iter() {
            let p = |i: usize| pts[t.points[i].as_usize()];
            if or(p(0), p(1), p(2)) < 0. { self.e(format!("{w}: {ti:?} {:?} is clockwise", t.points)); }
        }
    }
    /// the mesh's own check reports what is not legal, no more and no less
    fn report(&mut self, w: &str, c: &Sweeper) {
        let pts = c.points.points();
        let ts: Vec<_> = c.triangles.iter().map(|(_, t)| *t).collect();
        let mut want = vec![];
        for (ti, t) in ts.iter().enumerate() {
            let p = |i: usize| pts[t.points[i % 3].as_usize()];
            for i in 0..3 {
                if t.neighbors[i].invalid() || t.is_constrained(i) { continue; }
                if let Some(o) = ts[t.neighbors[i].as_usize()].points.iter().find(|x| !t.points.contains(x)) {
                    if inc(p(0), p(1), p(2), pts[o.as_usize()]) > 0. { want.push((ti, t.neighbors[i].as_usize())); }
                }
            }
        }
        let mut got: Vec<_> = c.illegal_triangles().iter().map(|x| (x.0.as_usize(), x.1.as_usize())).collect();
        want.sort(); want.dedup(); got.sort(); got.dedup();
        if got != want { self.e(format!("{w}: illegal_triangles reports {got:?}, not legal are {want:?}")); }
        if c.verify_triangles() != want.is_empty() { self.e(format!("{w}: verify_triangles is {}, not legal are {want:?}", c.verify_triangles())); }
    }
    /// the ways to look at the points and triangles agree
    fn lists(&mut self, w: &str, c: &Sweeper) {
        let pts = c.points.points();
        let (a, b): (Vec<_>, Vec<_>) = (c.points.iter().map(|(i, p, _)| (i.as_usize(), p.x, p.y)).collect(), c.points.iter_without_fake().map(|(i, p, _)| (i.as_usize(), p.x, p.y)).collect());
        let want: Vec<_> = pts.iter().enumerate().map(|(i, p)| (i, p.x, p.y)).collect();
        if a != want { self.e(format!("{w}: the points are {want:?}, iter yields {a:?}")); }
        if b != want[..want.len() - 2] { self.e(format!("{w}: the points are {want:?}, iter_without_fake yields {b:?}")); }
        for (k, (i, t)) in c.triangles.iter().enumerate() {
            if i.as_usize() != k || c.triangles.get_unchecked(i) as *const _ != t as *const _ { self.e(format!("{w}: item {k} of the triangles is called {i:?}")); }
        }
    }
    fn legal(&mut self, w: &str, c: &Sweeper) {
        let pts = c.points.points();
        let ts: Vec<_> = c.triangles.iter().map(|(_, t)| *t).collect();
        for (ti, t) in ts.iter().enumerate() {
            let p = |i: usize| pts[t.points[i % 3].as_usize()];
            for i in 0..3 {
                if t.neighbors[i].invalid() || t.is_constrained(i) { continue; }
                let u = &ts[t.neighbors[i].as_usize()];
                if let Some(o) = u.points.iter().find(|x| !t.points.contains(x)) {
                    if inc(p(0), p(1), p(2), pts[o.as_usize()]) > 0. { self.e(format!("{w}: {o:?} is inside the circle of triangle {ti} {:?}, common edge not constrained", t.points)); }
                }
            }
        }
    }
    fn flagged(c: &Sweeper) -> HashMap<(u32, u32), bool> {
        let mut m = HashMap::new();
        for (_, t) in c.triangles.iter() { for i in 0..3 { let (a, b) = (t.points[(i + 1) % 3].as_u32(), t.points[(i + 2) % 3].as_u32()); let e = m.entry((a.min(b), a.max(b))).or_insert(true); *e &= t.is_constrained(i); } }
        m
    }
    fn marks(&mut self, w: &str, c: &Sweeper) {
        let m = Self::flagged(c);
        for (a, b) in self.marked.clone() { match m.get(&(a, b)) { Some(true) => {} Some(false) => self.e(format!("{w}: the marked edge {a} {b} has lost its mark")), None => self.e(format!("{w}: the marked edge {a} {b} has disappeared")) } }
        let mut now = HashSet::new();
        for (_, t) in c.triangles.iter() { for i in 0..3 { if t.is_constrained(i) { let (a, b) = (t.points[(i + 1) % 3].as_u32(), t.points[(i + 2) % 3].as_u32()); now.insert((a.min(b), a.max(b))); } } }
        for (a, b) in &now { if m[&(*a, *b)] == false { self.e(format!("{w}: the edge {a} {b} is marked on one side only")); } }
        self.marked = now;
        let pts = c.points.points();
        for (a, b) in self.reported.clone() {
            if m.get(&(a.min(b), a.max(b))) == Some(&true) { continue; }
            // a chain of marked edges along the line?
            let (pa, pb) = (pts[a as usize], pts[b as usize]);
            let mut q = vec![a]; let mut seen: HashSet<u32> = q.iter().cloned().collect(); let mut ok = false;
            while let Some(x) = q.pop() {
                if x == b { ok = true; break; }
                for (u, v) in &self.marked { for (s, d) in [(*u, *v), (*v, *u)] { if s == x && or(pa, pb, pts[d as usize]) == 0. && on_box(pa, pb, pts[d as usize]) && seen.insert(d) { q.push(d); } } }
            }
            if !ok { self.e(format!("{w}: the input edge {a} {b}, reported before, is not there: {:?}", m.get(&(a.min(b), a.max(b))))); }
        }
    }
    /// a point whose event has been handled is a corner; at the end, every supplied point
    fn corners(&mut self, w: &str, c: &Sweeper) {
        let id = w.strip_prefix("point event ").map(|x| x.parse::<usize>().unwrap());
        if id.is_none() && w != "sweep_done" && w != "finalized" { return; }
        let mut is = vec![false; c.points.len()];
        for (_, t) in c.triangles.iter() { for p in t.points { if p.as_usize() < is.len() { is[p.as_usize()] = true; } } }
        for i in 0..c.points.len() - 2 { if !is[i] && (id.is_none() || id == Some(i)) { self.e(format!("{w}: no triangle has the point {i} {:?} as a corner", c.points.points()[i])); } }
    }
    /// every marked edge is part of an input edge that has been reported
    fn only(&mut self, w: &str, c: &Sweeper) {
        let pts = c.points.points();
        for (ti, t) in c.triangles.iter() { for i in 0..3 { if t.is_constrained(i) {
            let (a, b) = (pts[t.points[(i + 1) % 3].as_usize()], pts[t.points[(i + 2) % 3].as_usize()]);
            let on = |p: Point, q: Point, x: Point| or(p, q, x) == 0. && on_box(p, q, x);
            if !self.reported.iter().any(|(p, q)| { let (p, q) = (pts[*p as usize], pts[*q as usize]); on(p, q, a) && on(p, q, b) }) { self.e(format!("{w}: the edge {:?} {:?} of {ti:?} is marked but not part of an input edge", t.points[(i + 1) % 3], t.points[(i + 2) % 3])); }
        } } }
    }
    /// no two triangles overlap; a point between base line and front belongs to exactly one
    fn tiles(&mut self, w: &str, c: &Sweeper) {
        let pts = c.points.points();
        let ts: Vec<[Point; 3]> = c.triangles.iter().map(|(_, t)| [0, 1, 2].map(|i| pts[t.points[i].as_usize()])).collect();
        let fat: Vec<bool> = ts.iter().map(|t| or(t[0], t[1], t[2]) != 0.).collect();
        // an edge of s with all of t on its other side
        let sep = |s: &[Point; 3], t: &[Point; 3]| (0..3).any(|i| { let d = if or(s[0], s[1], s[2]) < 0. { -1. } else { 1. }; t.iter().all(|q| d * or(s[i], s[(i + 1) % 3], *q) <= 0.) });
        let few = ts.len() < 700;
        // pairs of which both were there at the last check have been looked at
        let new: Vec<bool> = (0..ts.len()).map(|i| self.last.get(i).map_or(true, |t| (0..3).any(|k| !same(t[k], ts[i][k])))).collect();
        let lo = |t: &[Point; 3]| (t[0].x.min(t[1].x).min(t[2].x), t[0].y.min(t[1].y).min(t[2].y));
        let hi = |t: &[Point; 3]| (t[0].x.max(t[1].x).max(t[2].x), t[0].y.max(t[1].y).max(t[2].y));
        let bx: Vec<_> = ts.iter().map(|t| (lo(t), hi(t))).collect();
        let boxes = |i: usize, j: usize| bx[i].0.0 < bx[j].1.0 && bx[j].0.0 < bx[i].1.0 && bx[i].0.1 < bx[j].1.1 && bx[j].0.1 < bx[i].1.1;
        if few { for i in 0..ts.len() { for j in 0..i { if (new[i] || new[j]) && boxes(i, j) && fat[i] && fat[j] && !sep(&ts[i], &ts[j]) && !sep(&ts[j], &ts[i]) { self.e(format!("{w}: the triangles {j} {:?} and {i} {:?} overlap", ts[j], ts[i])); } } } }
        let over = |a: Point, b: Point, p: Point| (b.x <= p.x && p.x < a.x && or(a, b, p) > 0.) as i32;
        let up = |a: Point, b: Point, p: Point| over(a, b, p) - over(b, a, p);
        let mut f = vec![]; let mut k = 0;
        while let Some(n) = c.advancing_front.nth(k) { f.push(n.point()); k += 1; }
        let (h, l) = (pts[pts.len() - 2], pts[pts.len() - 1]);
        let mid = |a: Point, b: Point, t: Float| Point::new(a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t);
        let mut qs: Vec<Point> = pts.to_vec();
        if self.seen % 8 != 0 && w != "finalized" { qs.clear(); }
        for (t, n) in ts.iter().zip(&new) { if *n { qs.push(mid(mid(t[0], t[1], 0.5), t[2], 0.33)); } }
        for x in f.windows(2) { let m = mid(x[0], x[1], 0.5); qs.push(m); qs.push(mid(m, h, 0.01)); qs.push(mid(m, l, 0.3)); qs.push(mid(m, mid(h, l, 0.5), 0.1)); }
        let step = qs.len() / (400_000 / ts.len().max(1)).max(20) + 1;
        for p in qs.into_iter().skip(self.seen % step).step_by(step) {
            let n = ts.iter().filter(|t| up(t[0], t[1], p) + up(t[1], t[2], p) + up(t[2], t[0], p) == 1).count();
            let below = f.windows(2).any(|x| over(x[1], x[0], p) == 1) && over(l, h, p) == 0;
            if n > 1 || (below && n != 1) { self.e(format!("{w}: the point {p:?} belongs to {n} triangles")); }
        }
        self.last = if few { ts } else { vec![] };
    }
    fn front(&mut self, w: &str, c: &Sweeper) {
        let pts = c.points.points();
        let ts: Vec<_> = c.triangles.iter().map(|(_, t)| *t).collect();
        let mut f = vec![]; let mut k = 0;
        while let Some(n) = c.advancing_front.nth(k) { f.push((n.point_id(), n.point(), n.triangle)); k += 1; }
        if f.len() < 2 || f[0].0.as_usize() != pts.len() - 2 || f[f.len() - 1].0.as_usize() != pts.len() - 1 { self.e(format!("{w}: front is {:?}", f.iter().map(|x| x.0).collect::<Vec<_>>())); return; }
        let mut pairs = HashMap::new();
        for k in 0..f.len() {
            if !same(f[k].1, pts[f[k].0.as_usize()]) { self.e(format!("{w}: front node {k} {:?} has the coordinates {:?}", f[k].0, f[k].1)); }
            if k + 1 == f.len() { break; }
            if !lex(f[k].1, f[k + 1].1) { self.e(format!("{w}: front is not sorted at {k}")); }
            pairs.insert((f[k + 1].0, f[k].0), 0);
            let okk = f[k].2.map_or(false, |t| t.as_usize() < ts.len() && { let t = &ts[t.as_usize()]; (0..3).any(|i| t.neighbors[i].invalid() && t.points[(i + 1) % 3] == f[k + 1].0 && t.points[(i + 2) % 3] == f[k].0) });
            if !okk { self.e(format!("{w}: front node {k} {:?} names the triangle {:?}, which does not have the front edge to {:?} without neighbor", f[k].0, f[k].2, f[k + 1].0)); }
        }
        let mut base = 0;
        for t in &ts { for i in 0..3 { if t.neighbors[i].invalid() {
            let (a, b) = (t.points[(i + 1) % 3], t.points[(i + 2) % 3]);
            if a.as_usize() == pts.len() - 2 && b.as_usize() == pts.len() - 1 { base += 1; continue; }
            match pairs.get_mut(&(a, b)) { Some(x) => *x += 1, None => self.e(format!("{w}: edge {a:?} {b:?} without neighbor is not in the front")) }
        } } }
        if base != 1 || pairs.values().any(|v| *v != 1) { self.e(format!("{w}: boundary edges occur {base} {:?} times", pairs)); }
    }
    #[cfg(not(feature = "inner"))]
    fn lookups(&mut self, w: &str, c: &Sweeper) {}
    #[cfg(feature = "inner")]
    fn lookups(&mut self, w: &str, c: &Sweeper) {
        let af = &*c.advancing_front;
        let mut f = vec![]; let mut k = 0;
        while let Some(n) = af.nth(k) { f.push((n.point_id(), n.point())); k += 1; }
        let pts = c.points.points();
        if let Some(e) = probe(af, &f, &pts.iter().enumerate().map(|(i, p)| *p).collect::<Vec<_>>(), &[]) { self.e(format!("{w}: {e}")); }
    }
}
/// compare every lookup with the sorted sequence f
#[cfg(feature = "inner")]
fn probe(af: &crate::advancing_front::AdvancingFront, f: &[(PointId, Point)], qs: &[Point], ids: &[crate::advancing_front::NodeId]) -> Option<String> {
    let n = f.len();
    let step = n / 300 + 1;
    for k in (0..n).step_by(step) {
        let r = af.nth(k).unwrap();
        if r.index() != k { return Some(format!("nth({k}) has index {}", r.index())); }
        match (r.next(), k + 1 < n) { (Some(x), true) if x.point_id() == f[k + 1].0 && x.index() == k + 1 => {} (None, false) => {} (x, _) => return Some(format!("next of node {k} is {:?}", x.map(|x| x.point_id()))) }
        match (r.prev(), k > 0) { (Some(x), true) if x.point_id() == f[k - 1].0 && x.index() == k - 1 => {} (None, false) => {} (x, _) => return Some(format!("prev of node {k} is {:?}", x.map(|x| x.point_id()))) }
    }
    for q in qs.iter().step_by(qs.len() / 300 + 1) {
        if n == 0 || lex(*q, f[0].1) || lex(f[n - 1].1, *q) { continue; }
        let want = f.iter().position(|x| same(x.1, *q));
        let g = catch_unwind(AssertUnwindSafe(|| af.get_node(*q).map(|x| (x.index(), x.point_id())))).unwrap_or(Some((usize::MAX, f[0].0)));
        if g != want.map(|k| (k, f[k].0)) { return Some(format!("get_node({:?}) is {:?}, expected {:?}", q, g, want)); }
        let last = (0..n).filter(|k| !lex(*q, f[*k].1)).last();
        let g = catch_unwind(AssertUnwindSafe(|| af.locate_node(*q).map(|x| (x.index(), x.point_id())))).unwrap_or(None);
        if g != last.map(|k| (k, f[k].0)) { return Some(format!("locate_node({:?}) is {:?}, expected {:?}", q, g, last)); }
    }
    let mut all: Vec<_> = (0..n).step_by(step).map(|k| af.nth(k).unwrap().get_node_id()).collect();
    all.extend(ids.iter().cloned());
    for id in all {
        let q = id.point();
        let want = f.iter().position(|x| same(x.1, q));
        let s = |x: Option<crate::advancing_front::NodeRef>| x.map(|x| (x.index(), x.point_id()));
        let g = catch_unwind(AssertUnwindSafe(|| s(af.get_node_with_id(id)))).unwrap_or(Some((usize::MAX, f[0].0)));
        if g != want.map(|k| (k, f[k].0)) { return Some(format!("get_node_with_id({:?}) is {:?}, expected {:?}", id.point_id(), g, want)); }
        let nx = (0..n).find(|k| lex(q, f[*k].1));
        let g = catch_unwind(AssertUnwindSafe(|| s(af.locate_next_node(id)))).unwrap_or(Some((usize::MAX, f[0].0)));
        if g != nx.map(|k| (k, f[k].0)) { return Some(format!("locate_next_node({:?}) is {:?}, expected {:?}", id.point_id(), g, nx)); }
        let pv = (0..n).filter(|k| lex(f[*k].1, q)).last();
        let g = catch_unwind(AssertUnwindSafe(|| s(af.locate_prev_node(id)))).unwrap_or(Some((usize::MAX, f[0].0)));
        if g != pv.map(|k| (k, f[k].0)) { return Some(format!("locate_prev_node({:?}) is {:?}, expected {:?}", id.point_id(), g, pv)); }
    }
    None
}
impl Observer for Obs {
    fn enter_point_event(&mut self, p: PointId, c: &Sweeper) {
        if self.start.is_none() { self.start = Some((c.points.points().iter().map(|p| (p.x as f64, p.y as f64)).collect(), c.points.iter().map(|(_, _, e)| e.map(|x| x.as_u32()).collect()).collect())); if self.prop == "C13" { std::panic::panic_any(Stop); } }
        self.log.push(format!("enter {}", p.as_u32())); self.at(&format!("enter point {}", p.as_u32()), c, true, false);
    }
    fn exit_point_event(&mut self, p: PointId, c: &Sweeper) { self.log.push(format!("exit {}", p.as_u32())); self.at(&format!("point event {}", p.as_u32()), c, true, false); }
    fn edge_event(&mut self, e: Edge, c: &Sweeper) { self.log.push(format!("edge {} {}", e.p.as_u32(), e.q.as_u32())); self.reported.push((e.p.as_u32(), e.q.as_u32())); self.at(&format!("edge event {} {}", e.p.as_u32(), e.q.as_u32()), c, true, false); }
    fn will_legalize(&mut self, t: TriangleId, c: &Sweeper) { self.at("will_legalize", c, false, true); }
    fn legalize_step(&mut self, t: TriangleId, c: &Sweeper) { self.at("legalize_step", c, false, true); }
    fn triangle_rotated(&mut self, t: TriangleId, o: TriangleId, c: &Sweeper) { self.at("triangle_rotated", c, false, true); }
    fn legalized(&mut self, t: TriangleId, c: &Sweeper) { self.at("legalized", c, false, true); }
    fn sweep_done(&mut self, c: &Sweeper) { self.log.push("done".into()); self.at("sweep_done", c, true, false); }
    fn finalized(&mut self, c: &Sweeper) { self.log.push("finalized".into()); self.at("finalized", c, true, false); if self.prop == "C09" { self.result(c); } }
}
impl Obs {
    fn result(&mut self, c: &Sweeper) {
        let ts: Vec<_> = c.triangles.iter().map(|(_, t)| *t).collect();
        let np = c.points.len();
        let mut ext = vec![false; ts.len()]; let mut q = vec![]; let mut seeds = vec![];
        for (i, t) in ts.iter().enumerate() { for k in 0..3 {
            if t.points[k].as_usize() >= np - 2 { q.push(i); }
            else if t.neighbors[k].invalid() { if t.is_constrained(k) { seeds.push(i) } else { q.push(i) } }
        } }
        while let Some(i) = q.pop() { if ext[i] { continue; } ext[i] = true; for k in 0..3 { let n = ts[i].neighbors[k]; if n.invalid() { continue; } if ts[i].is_constrained(k) { seeds.push(n.as_usize()) } else { q.push(n.as_usize()) } } }
        let mut inn = vec![false; ts.len()];
        while let Some(i) = seeds.pop() { if ext[i] || inn[i] { continue; } inn[i] = true; for k in 0..3 { let n = ts[i].neighbors[k]; if !n.invalid() && !ts[i].is_constrained(k) { seeds.push(n.as_usize()) } } }
        let mut cnt = vec![0; ts.len()];
        for t in &c.result { if t.as_usize() >= ts.len() { self.e(format!("result has {t:?}")); } cnt[t.as_usize()] += 1; }
        for i in 0..ts.len() {
            if cnt[i] != inn[i] as usize { self.e(format!("triangle {i} {:?} is {} times in the result, expected {}", ts[i].points, cnt[i], inn[i] as usize)); }
            if cnt[i] > 0 && ts[i].points.iter().any(|p| p.as_usize() >= np - 2) { self.e(format!("triangle {i} with a helper point is in the result")); }
        }
    }
}
fn on_box(p: Point, q: Point, x: Point) -> bool { x.x >= p.x.min(q.x) && x.x <= p.x.max(q.x) && x.y >= p.y.min(q.y) && x.y <= p.y.max(q.y) }
fn pv(v: &[Q]) -> Vec<Point> { v.iter().map(|p| Point::new(p.0 as Float, p.1 as Float)).collect() }
fn ring(b: usize, v: &[Q], want: &mut BTreeMap<usize, Vec<u32>>) {
    for i in 0..v.len() { let j = (i + 1) % v.len(); let later = |a: Q, b: Q| a.1 > b.1 || (a.1 == b.1 && a.0 > b.0);
        let (p, q) = if later(v[j], v[i]) { (i, j) } else { (j, i) }; want.entry(b + q).or_default().push((b + p) as u32); }
}
/// run one case; the failure if the property is broken
pub fn run(prop: &str, c: &Case) -> Option<String> {
    match prop { "C12" if !c.script.is_empty() => return front_script(&c.script), "C13" => return load_script(&c.script), "C02" if !c.script.is_empty() => return push_script(&c.script), _ => {} }
    let all = c.all();
    let mut o = Obs::new(prop, all.len());
    let r = catch_unwind(AssertUnwindSafe(|| -> Option<String> {
        let mut tag = 0u32;
        let mut d = |v: &[Q]| { let p = pv(v); let t = (0..p.len()).map(|_| { tag += 1; tag }).collect::<Vec<u32>>(); (p, t) };
        let mut b = Builder::new(d(&c.poly));
        // vary how the same input is supplied
        let style = all.len() % 3;
        if style == 0 { for h in &c.holes { b = b.add_hole(d(h)); } } else { let hs: Vec<_> = c.holes.iter().map(|h| d(h)).collect(); b = b.add_holes(hs); }
        if style == 1 { let (p, t) = d(&c.st); for (p, t) in p.into_iter().zip(t) { b = b.add_steiner_point(p, t); } } else if style == 2 { let h = c.st.len() / 2; b = b.add_steiner_points(d(&c.st[..h])); b = b.add_steiner_points(d(&c.st[h..])); } else { b = b.add_steiner_points(d(&c.st)); }
        let cdt = b.build();
        let mut t = cdt.triangulate_with_observer(&mut o);
        let fin = |p: &Point| (p.x as f64, p.y as f64);
        match prop {
            "C01" => {
                let got: Vec<Q> = t.points().iter().map(fin).collect();
                if got != all { return Some(format!("points are {:?}", got)); }
                let want: Vec<u32> = (1..=all.len() as u32).collect();
                if t.data() != &want[..] { return Some(format!("data are {:?}", t.data())); }
                let (p0, _) = o.start.clone().unwrap_or((vec![], vec![]));
                let x = Point::new(tag as Float, 2.);
                let way = (x.point(), (x, tag).point(), (x, tag).data(), ([x.x, x.y], tag).point(), ([x.x, x.y], tag).data());
                if !(same(way.0, x) && same(way.1, x) && way.2 == tag && same(way.3, x) && way.4 == tag) { return Some(format!("AsPoint gives {:?} {:?} {:?} {:?} {:?} for {:?} {tag}", way.0, way.1, way.2, way.3, way.4, x)); }
                if !p0.is_empty() && (p0.len() != all.len() + 2 || p0[..all.len()] != all[..]) { return Some(format!("points of the sweep are {:?}", p0)); }
            }
            "C15" => { // not claimed; integer coordinates, a valid problem
                let a2 = |v: &[Q]| { let mut s = 0i128; for i in 0..v.len() { let j = (i + 1) % v.len(); s += v[i].0 as i128 * v[j].1 as i128 - v[j].0 as i128 * v[i].1 as i128; } s.abs() };
                let want = a2(&c.poly) - c.holes.iter().map(|h| a2(h)).sum::<i128>();
                let ix = t.triangle_list_indices(); let pts: Vec<Q> = t.points().iter().map(fin).collect();
                let got: i128 = ix.chunks(3).map(|k| a2(&[pts[k[0] as usize], pts[k[1] as usize], pts[k[2] as usize]])).sum();
                if got != want { return Some(format!("twice the area is {got}, expected {want}")); }
            }
            "C10" => {
                let ix = t.triangle_list_indices();
                let pts: Vec<Q> = t.points().iter().map(fin).collect();
                if ix.len() % 3 != 0 { return Some(format!("{} indices", ix.len())); }
                if let Some(i) = ix.iter().find(|i| **i as usize >= pts.len()) { return Some(format!("index {i} of {} points", pts.len())); }
                let mut got = vec![];
                for _ in 0..ix.len() / 3 + 5 { match t.next() { Some(x) => got.push(Some(x.points.iter().map(fin).collect::<Vec<_>>())), None => got.push(None) } }
                let want: Vec<_> = ix.chunks(3).map(|k| Some(k.iter().map(|i| pts[*i as usize]).collect::<Vec<_>>())).chain((0..5).map(|_| None)).collect();
                if got != want { return Some(format!("indices {:?} but the iterator yields {:?}", ix, got)); }
                if t.triangle_list_indices() != ix { return Some("indices change while iterating".into()); }
            }
            _ => {}
        }
        None
    }));
    if prop == "C15" && r.is_err() { return Some("panics".into()); }
    if let Ok(Some(e)) = &r { return Some(e.clone()); }
    if let Some(e) = o.errs.first() { return Some(e.clone()); }
    if prop == "C10" { return None; }
    // the order of events; also when the run ended in a panic
    if prop == "C02" || prop == "C03" {
        let mut want: BTreeMap<usize, Vec<u32>> = BTreeMap::new();
        let mut base = 0;
        ring(base, &c.poly, &mut want); base += c.poly.len();
        for h in &c.holes { ring(base, h, &mut want); base += h.len(); }
        if let Some((_, e)) = &o.start { for q in 0..e.len() { let w = want.get(&q).cloned().unwrap_or_default(); if e[q] != w && prop == "C02" { return Some(format!("point {q} has the edges {:?}, expected {:?}", e[q], w)); } } }
        let mut ord: Vec<usize> = (0..all.len()).collect();
        ord.sort_by(|a, b| (all[*a].1, all[*a].0).partial_cmp(&(all[*b].1, all[*b].0)).unwrap());
        let mut w = vec![];
        for p in ord.iter().skip(1) { w.push(format!("enter {p}")); w.push(format!("exit {p}")); for q in want.get(p).cloned().unwrap_or_default() { w.push(format!("edge {q} {p}")); } }
        w.push("done".into()); w.push("finalized".into());
        let done = r.is_ok();
        let keep = |s: &&String| prop == "C03" || s.starts_with("edge") || s.starts_with("exit");
        let a: Vec<&String> = o.log.iter().filter(keep).collect(); let b: Vec<&String> = w.iter().filter(keep).collect();
        if (done && a != b) || (!done && (a.len() > b.len() || a[..] != b[..a.len()])) { let k = (0..a.len().min(b.len())).find(|k| a[*k] != b[*k]).unwrap_or(a.len().min(b.len())); return Some(format!("event {k} is {:?}, expected {:?}", a.get(k), b.get(k))); }
    }
    None
}
#[cfg(not(feature = "inner"))]
fn front_script(s: &[String]) -> Option<String> { None }
#[cfg(feature = "inner")]
fn front_script(s: &[String]) -> Option<String> {
    use crate::advancing_front::*;
    let mut f: Vec<(PointId, Point, usize)> = vec![];
    let mut af: Option<AdvancingFront> = None;
    let mut ids: Vec<NodeId> = vec![];
    let mut qs: Vec<Point> = vec![];
    for (n, op) in s.iter().enumerate() {
        let w: Vec<&str> = op.split_whitespace().collect();
        let v: Vec<f64> = w[1..].iter().map(|x| x.parse().unwrap()).collect();
        let r = catch_unwind(AssertUnwindSafe(|| -> Option<String> {
            match w[0] {
                "new" => {
                    let mut b = crate::points::PointsBuilder::default();
                    let i: Vec<PointId> = (0..3).map(|k| b.add_steiner_point(Point::new(v[2 * k] as Float, v[2 * k + 1] as Float))).collect();
                    let p = b.build();
                    let t = crate::shape::InnerTriangle::new(i[0], i[1], i[2]);
                    af = Some(AdvancingFront::new(&t, TriangleId::from_index(7), &p));
                    f = [1, 0, 2].iter().map(|k| (i[*k], p.get_point(i[*k]).unwrap(), 7)).collect();
                    f[2].2 = usize::MAX;
                }
                "ins" => {
                    let p = Point::new(v[1] as Float, v[2] as Float); let id = PointId(v[0] as u32);
                    af.as_mut().unwrap().insert(id, p, TriangleId::from_index(v[3] as usize));
                    match f.iter().position(|x| !lex(x.1, p)) { Some(k) if same(f[k].1, p) => f[k] = (id, p, v[3] as usize), Some(k) => f.insert(k, (id, p, v[3] as usize)), None => f.push((id, p, v[3] as usize)) }
                }
                "del" => {
                    let (u, d) = (v[0] as usize, v[1] as usize);
                    unsafe { af.as_mut().unwrap().update_and_delete_by_index(u, f[u].0, TriangleId::from_index(v[2] as usize), d) };
                    f[u].2 = v[2] as usize; f.remove(d);
                }
                "get" => {
                    let p = Point::new(v[0] as Float, v[1] as Float);
                    let g = af.as_mut().unwrap().get_node_with_cache(p).map(|x| x.index());
                    let want = f.iter().position(|x| same(x.1, p));
                    if g != want { return Some(format!("get_node_with_cache is {:?}, expected {:?}", g, want)); }
                }
                "tri" => {
                    let p = Point::new(v[0] as Float, v[1] as Float);
                    if let Some(k) = f.iter().position(|x| same(x.1, p)) { af.as_mut().unwrap().update_triangle(p, TriangleId::from_index(v[2] as usize)); f[k].2 = v[2] as usize; }
                }
                _ => {}
            }
            None
        }));
        match r { Ok(None) => {} Ok(Some(e)) => return Some(format!("after operation {n} ({op}): {e}")), Err(_) => return Some(format!("operation {n} ({op}) panics")) }
        let a = af.as_ref().unwrap();
        for k in 0..f.len() { match a.nth(k) { Some(x) if x.point_id() == f[k].0 && same(x.point(), f[k].1) && x.triangle.map_or(usize::MAX, |t| t.as_usize()) == f[k].2 => {} x => return Some(format!("after operation {n} ({op}): node {k} is {:?} {:?}, expected {:?}", x.as_ref().map(|x| x.point_id()), x.as_ref().and_then(|x| x.triangle), f[k])) } }
        if a.nth(f.len()).is_some() { return Some(format!("after operation {n} ({op}): the front has more than {} nodes", f.len())); }
        for k in 0..f.len() { ids.push(a.nth(k).unwrap().get_node_id()); qs.push(f[k].1); qs.push(Point::new(f[k].1.x + 0.5, f[k].1.y)); qs.push(Point::new(f[k].1.x, f[k].1.y + 0.5)); }
        if ids.len() > 60 { let k = ids.len() - 60; ids.drain(..k); }
        if qs.len() > 60 { let k = qs.len() - 60; qs.drain(..k); }
        let all: Vec<_> = a.iter().map(|x| (x.index(), x.point_id(), x.triangle.map_or(usize::MAX, |t| t.as_usize()))).collect();
        if all != f.iter().enumerate().map(|(k, x)| (k, x.0, x.2)).collect::<Vec<_>>() { return Some(format!("after operation {n} ({op}): the iterator yields {all:?}")); }
        let ff: Vec<_> = f.iter().map(|x| (x.0, x.1)).collect();
        if let Some(e) = probe(a, &ff, &qs, &ids) { return Some(format!("after operation {n} ({op}): {e}")); }
    }
    None
}
fn gen_front(r: &mut Rng) -> Case {
    let s = 1 + r.below(6);
    let mut c = Case::default();
    let lo = -20; let hi = 20;
    c.script.push(format!("new {} {} {lo} -50 {hi} -50", r.below(5), r.below(5)));
    let x0: Vec<f64> = c.script[0].split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect();
    let mut pts: Vec<P> = vec![(lo, -50), (x0[0] as i64, x0[1] as i64), (hi, -50)];
    let mut all = pts.to_vec();
    let mut id = 5;
    let len = if r.one(40) { 400 } else { 25 };
    let s = if len == 400 { 40 } else { s };
    for _ in 0..r.below(len) {
        match r.below(5) {
            0 | 1 => { let p = (rin(r, 3 * s), rin(r, s)); if !all.contains(&p) { c.script.push(format!("ins {id} {} {} {}", p.0, p.1, r.below(50))); id += 1; pts.push(p); all.push(p); pts.sort(); } }
            2 => if pts.len() > 3 { let d = 1 + r.below(pts.len() as u64 - 2) as usize; c.script.push(format!("del {} {} {}", d - 1, d, r.below(50))); pts.remove(d); },
            3 => { let p = all[r.below(all.len() as u64) as usize]; let p = if r.one(3) { (p.0, p.1 + 1) } else { p }; if (pts[0] <= p) && p <= pts[pts.len() - 1] { c.script.push(format!("get {} {}", p.0, p.1)); } }
            _ => { let p = pts[r.below(pts.len() as u64) as usize]; c.script.push(format!("tri {} {} {}", p.0, p.1, r.below(50))); }
        }
    }
    c
}
#[cfg(not(feature = "inner"))]
fn push_script(s: &[String]) -> Option<String> { None }
#[cfg(feature = "inner")]
fn push_script(s: &[String]) -> Option<String> {
    let mut e = crate::points::PointEdges::None; let mut w: Vec<u32> = vec![];
    for op in s {
        let x: u32 = op.parse().unwrap();
        match catch_unwind(AssertUnwindSafe(|| { let mut f = e; f.push(PointId(x)); f })) {
            Err(_) => { if w.len() < 2 { return Some(format!("pushing edge {} panics", w.len())); } return None; }
            Ok(f) => { e = f; w.push(x); if w.len() > 2 { return Some("a third edge at one point is accepted".into()); } }
        }
        let g: Vec<u32> = e.map(|p| p.as_u32()).collect();
        if g != w { return Some(format!("edges are {:?}, expected {:?}", g, w)); }
    }
    None
}
// ---- loader: the file, one op per line of text (hex), joined without separator
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn load_script(s: &[String]) -> Option<String> {
    let bytes: Vec<u8> = s.iter().flat_map(|x| unhex(x.trim())).collect();
    let want: Option<(Vec<Q>, Vec<Vec<Q>>, Vec<Q>)> = (|| {
        let t = std::str::from_utf8(&bytes).ok()?;
        let (mut poly, mut holes, mut st, mut mode) = (vec![], Vec::<Vec<Q>>::new(), vec![], 0);
        for l in t.split('\n') { let l = l.strip_suffix('\r').unwrap_or(l);
            if l == "HOLE" { mode = 1; holes.push(vec![]); continue; }
            if l == "STEINER" { mode = 2; continue; }
            if l.is_empty() { continue; }
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() < 2 { return None; }
            let p = (w[0].parse::<f64>().ok()?, w[1].parse::<f64>().ok()?);
            match mode { 0 => poly.push(p), 1 => holes.last_mut().unwrap().push(p), _ => st.push(p) }
        }
        Some((poly, holes, st))
    })();
    // a file with coordinates that are not finite is outside the property
    if let Some((p, h, st)) = &want { if p.iter().chain(h.iter().flatten()).chain(st).any(|q| !q.0.is_finite() || !q.1.is_finite()) { return None; } }
    let dir = std::env::temp_dir().join(format!("p2t-search-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("in.dat");
    std::fs::write(&path, &bytes).unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| { use crate::loader::Loader; crate::loader::PlainFileLoader::default().load(path.to_str().unwrap()) }));
    let _ = std::fs::remove_dir_all(&dir);
    // rings of one point or with neighboring repeated points are rejected with a panic when they are added
    let bad = |v: &Vec<Q>| (0..v.len()).any(|i| v[i] == v[(i + 1) % v.len()]);
    match (r, want) {
        (Err(_), Some((p, h, _))) if bad(&p) || h.iter().any(bad) => None,
        (Err(_), _) => Some("the loader panics".into()),
        (Ok(Err(_)), None) => None,
        (Ok(Err(e)), Some(_)) => Some(format!("a well formed file is reported as {e:?}")),
        (Ok(Ok(_)), None) => Some("a malformed file is not reported as an error".into()),
        (Ok(Ok(b)), Some((p, h, st))) => {
            let mut all = p.clone(); let mut want = BTreeMap::new();
            ring(0, &p, &mut want); for v in &h { ring(all.len(), v, &mut want); all.extend(v); } all.extend(&st);
            if all.is_empty() { return None; }
            let mut o = Obs::new("C13", all.len());
            let r = catch_unwind(AssertUnwindSafe(|| b.build().triangulate_with_observer(&mut o).points().len()));
            if let Some((pts, e)) = o.start {
                if pts.len() != all.len() + 2 || pts[..all.len()] != all[..] { return Some(format!("loaded points {:?}, expected {:?}", &pts[..pts.len().saturating_sub(2)], all)); }
                for q in 0..all.len() { let w = want.get(&q).cloned().unwrap_or_default(); if e[q] != w { return Some(format!("loaded edges of point {q} are {:?}, expected {:?}", e[q], w)); } }
            } else if let Ok(n) = r { if n != all.len() { return Some(format!("{n} points loaded, expected {}", all.len())); } }
            None
        }
    }
}
fn gen_load(r: &mut Rng) -> Case {
    let mut c = Case::default();
    let mut used = HashSet::new();
    let k = 0;
    let eol = if r.one(4) { "\r\n" } else { "\n" };
    let n = if r.one(50) { 20 + r.below(600) } else { r.below(14) };
    for i in 0..n {
        let mut l = match r.below(16) {
            0 => "HOLE".to_string(), 1 => "STEINER".into(), 2 => "".into(),
            3 if r.one(3) => ["1", "a b", "1 x", "HOLE ", "hole", "Steiner", "nan 1", "1 2 3", "  5 6", "\t7\t8", " ", "1e400 1", "STEINER\t", "1,2", "HOLES", "0x1 2"][r.below(16) as usize].into(),
            _ => { let mut p = (rin(r, 90), rin(r, 90)); while !used.insert(p) { p = (rin(r, 90), rin(r, 90)); } match r.below(4) { 0 => format!("{}.5 {}", p.0, p.1), 1 => format!(" {}   {} ", p.0, p.1), 2 => format!("{}e0\t{}", p.0, p.1), _ => format!("{} {}", p.0, p.1) } }
        }.into_bytes();
        if r.one(60) { l.push(0xff); }
        if i + 1 < n || r.one(2) { l.extend(eol.as_bytes()); }
        c.script.push(hex(&l));
    }
    c
}
fn make(prop: &str, r: &mut Rng, stream: u64, n: u64) -> Option<Case> {
    // in some processes now and then a large problem
    if prop != "C15" && prop != "C13" && prop != "C17" && stream % 4 == 3 && n % 25 == 24 { return Some(gen_large(r, stream % 8 == 7 && n % 400 == 24, if prop == "C04" { 1200 } else { 1 << 40 })); }
    match prop {
        "C15" => { let c = gen(r, 0)?; if valid(&c) { Some(c) } else { None } }
        "C13" => Some(gen_load(r)),
        "C12" if r.one(2) => Some(gen_front(r)),
        "C02" if r.one(20) => { let mut c = Case::default(); for _ in 0..1 + r.below(4) { c.script.push(format!("{}", r.below(9))); } Some(c) }
        "C17" => { let c = if r.one(3) { gen_corridor(r) } else { let k = r.below(2) as u64; gen(r, k)? }; if polygons_ok(&c) { Some(c) } else { None } }
        _ if r.one(10) => { let c = gen_corridor(r); let mut seen = HashSet::new(); if c.all().iter().all(|p| seen.insert((p.0 as i64, p.1 as i64))) { Some(c) } else { None } }
        _ => { let k = [0, 0, 1, 2][r.below(4) as usize]; gen(r, k) }
    }
}
/// few long edges with many points next to them
fn gen_corridor(r: &mut Rng) -> Case {
    let l = [3, 6, 12, 30, 100][r.below(5) as usize];
    let mut poly: Vec<P> = (0..3 + r.below(3)).map(|_| (rin(r, l), rin(r, l))).collect();
    if r.one(2) { let y = rin(r, 3); poly[0].1 = y; poly[1].1 = y + rin(r, 2); }
    // corners in the middle of an edge
    for _ in 0..r.below(3) { let k = r.below(poly.len() as u64) as usize; let (a, b) = (poly[k], poly[(k + 1) % poly.len()]); let m = ((a.0 + b.0) / 2, (a.1 + b.1) / 2); if (a.0 + b.0) % 2 == 0 && (a.1 + b.1) % 2 == 0 && m != a { poly.insert(k + 1, m); } }
    let mut st: Vec<P> = vec![];
    for _ in 0..4 + r.below(40) {
        let k = r.below(poly.len() as u64) as usize; let (a, b) = (poly[k], poly[(k + 1) % poly.len()]);
        let t = r.f(); let w = 1 + l / 8;
        let p = (a.0 + ((b.0 - a.0) as f64 * t).round() as i64 + rin(r, w), a.1 + ((b.1 - a.1) as f64 * t).round() as i64 + rin(r, w));
        if !st.contains(&p) && !poly.contains(&p) { st.push(p); }
    }
    let m = |v: &Vec<P>| v.iter().map(|p| (p.0 as f64, p.1 as f64)).collect::<Vec<Q>>();
    Case { poly: m(&poly), holes: vec![], st: m(&st), script: vec![] }
}
fn shrink(prop: &str, c: &Case, e: &str) -> (Case, String) {
    let mut best = (c.clone(), e.to_string());
    let t0 = Instant::now();
    loop {
        let mut cand = vec![];
        let b = &best.0;
        for i in 0..b.holes.len() { let mut d = b.clone(); d.holes.remove(i); cand.push(d); }
        for i in 0..b.st.len() { let mut d = b.clone(); d.st.remove(i); cand.push(d); }
        for i in 0..b.poly.len() { if b.poly.len() > 2 { let mut d = b.clone(); d.poly.remove(i); cand.push(d); } }
        for h in 0..b.holes.len() { for i in 0..b.holes[h].len() { if b.holes[h].len() > 2 { let mut d = b.clone(); d.holes[h].remove(i); cand.push(d); } } }
        if prop != "C12" { for i in 0..b.script.len() { let mut d = b.clone(); d.script.remove(i); cand.push(d); } }
        else if b.script.len() > 1 { let mut d = b.clone(); d.script.pop(); cand.push(d); }
        let mut hit = false;
        for d in cand { if t0.elapsed() > Duration::from_secs(10) { return best; } if let Some(e) = guarded(prop, &d) { best = (d, e); hit = true; break; } }
        if !hit { return best; }
    }
}
static NOW: Mutex<Option<(String, Case, String)>> = Mutex::new(None);
static BEAT: AtomicU64 = AtomicU64::new(0);
fn guarded(prop: &str, c: &Case) -> Option<String> {
    if let Ok(mut n) = NOW.lock() { if let Some(x) = n.as_mut() { x.1 = c.clone(); } }
    BEAT.fetch_add(1, AO::SeqCst);
    if prop == "C15" && !valid(c) { return None; }
    if prop == "C17" && !polygons_ok(c) { return None; }
    run(prop, c)
}
fn record(prop: &str, c: &Case, e: &str, out: &str) {
    std::fs::write(out, format!("property {prop}\nobserved {}\n{}", e.replace('\n', " "), c.text())).unwrap();
}
pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        // a check of an unchecked access: the process would be aborted
        if m.contains("unsafe precondition") {
            if let Ok(n) = NOW.lock() { if let Some((p, c, out)) = n.as_ref() { if p == "C04" { record(p, c, &m, out); println!("FOUND {}", m.replace('\n', " ")); std::process::exit(10); } } }
            std::process::exit(8);
        }
    }));
    if a[1] == "replay" || a[1] == "run" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let prop = t.lines().find_map(|l| l.strip_prefix("property ")).unwrap().trim().to_string();
        *NOW.lock().unwrap() = Some((prop.clone(), Case::default(), "/dev/null".into()));
        let mut code = 0;
        // one input, or several separated by lines "case"
        for part in t.split("\ncase\n") {
            let c = Case::parse(part);
            let p2 = prop.clone();
            let go = move || guarded(&p2, &c);
            let r = if cfg!(miri) { go() } else { std::thread::Builder::new().stack_size(256 << 20).spawn(go).unwrap().join().unwrap_or(None) };
            match r { Some(e) => { println!("FAILS {e}"); code = 10; } None => println!("holds") }
        }
        std::process::exit(code);
    }
    if a[1] == "panics" { // development aid: p2t-search panics PROP COUNT SEED
        let mut r = Rng(a[4].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1); for _ in 0..5 { r.n(); }
        let (mut k, mut bad) = (0u64, 0u64); let n: u64 = a[3].parse().unwrap();
        while k < n { if let Some(c) = make(&a[2], &mut r, 0, 0) { k += 1; if catch_unwind(AssertUnwindSafe(|| { let t = |v: &[Q]| (pv(v), vec![0u32; v.len()]); let mut b = Builder::new(t(&c.poly)); for h in &c.holes { b = b.add_hole(t(h)); } b = b.add_steiner_points(t(&c.st)); b.build().triangulate(); })).is_err() { bad += 1; if a.len() > 5 { println!("case\n{}", c.text()); } } } }
        println!("{bad} of {n} panic"); return;
    }
    if a[1] == "gen" { // p2t-search gen COUNT SEED: cases for Miri
        let mut r = Rng(a[3].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1); for _ in 0..5 { r.n(); }
        let mut k: usize = a[2].parse().unwrap();
        println!("property C04");
        while k > 0 { let cl = [0, 2][(k % 2) as usize]; if let Some(c) = gen(&mut r, cl) { if c.size() <= 40 { println!("case\n{}", c.text()); k -= 1; } } }
        return;
    }
    let (prop, secs, seed, stream, out) = (a[1].clone(), a[2].parse::<f64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].clone());
    *NOW.lock().unwrap() = Some((prop.clone(), Case::default(), out.clone()));
    // a case that does not return ends this process; the driver starts the next stream
    std::thread::spawn(|| { let mut last = (0, Instant::now()); loop { std::thread::sleep(Duration::from_millis(200)); let b = BEAT.load(AO::SeqCst); if b != last.0 { last = (b, Instant::now()); } else if last.1.elapsed() > Duration::from_secs(8) { std::process::exit(7); } } });
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut r = Rng((seed.wrapping_mul(1000003).wrapping_add(stream)).wrapping_mul(0x9E3779B97F4A7C15) | 1); for _ in 0..5 { r.n(); }
        let t0 = Instant::now();
        let mut n = 0u64; let mut nt = 0u64; let mut said = Instant::now();
        while t0.elapsed().as_secs_f64() < secs {
            let Some(c) = make(&prop, &mut r, stream, n) else { continue };
            if said.elapsed().as_millis() > 400 { println!("TRIED {n} {nt}"); said = Instant::now(); }
            n += 1; if c.size() > 3 { nt += 1; }
            if let Some(e) = guarded(&prop, &c) {
                let (c, e) = shrink(&prop, &c, &e);
                record(&prop, &c, &e, &out);
                println!("FOUND {e}");
                std::process::exit(10);
            }
        }
        println!("TRIED {n} {nt}");
    }).unwrap();
    let ok = h.join().is_ok();
    std::process::exit(if ok { 0 } else { 6 });
}

/// a valid problem with integer coordinates
fn valid(c: &Case) -> bool {
    if c.all().iter().any(|p| p.0.fract() != 0. || p.1.fract() != 0. || p.0.abs() > 1e15 || p.1.abs() > 1e15) { return false; }
    let f = |v: &Vec<Q>| v.iter().map(|p| (p.0 as i64, p.1 as i64)).collect::<Vec<P>>();
    let poly = f(&c.poly); let hs: Vec<_> = c.holes.iter().map(f).collect(); let st = f(&c.st);
    polygons_ok(c) && st.iter().all(|p| !edges(&poly).chain(hs.iter().flat_map(|h| edges(h))).any(|(a, b)| on_seg(a, b, *p)))
}
/// integer coordinates, simple polygons, holes inside and apart
fn polygons_ok(c: &Case) -> bool {
    if c.all().iter().any(|p| p.0.fract() != 0. || p.1.fract() != 0. || p.0.abs() > 1e15 || p.1.abs() > 1e15) { return false; }
    let f = |v: &Vec<Q>| v.iter().map(|p| (p.0 as i64, p.1 as i64)).collect::<Vec<P>>();
    let poly = f(&c.poly); let hs: Vec<_> = c.holes.iter().map(f).collect();
    if poly.len() < 3 || !simple(&poly) || area2(&poly) == 0 { return false; }
    for (i, h) in hs.iter().enumerate() {
        if h.len() < 3 || !simple(h) || area2(h) == 0 { return false; }
        if !(h.iter().all(|p| inside(&poly, *p)) && edges(&poly).all(|(a, b)| edges(h).all(|(c, d)| !seg_x(a, b, c, d)))
            && hs[..i].iter().all(|g| !inside(g, h[0]) && !inside(h, g[0]) && edges(g).all(|(a, b)| edges(h).all(|(c, d)| !seg_x(a, b, c, d))))) { return false; }
    }
    true
}
