// ---- specification vocabulary over the translated data structures
pub open spec fn p2(p: Point) -> R2 { (p.x.r(), p.y.r()) }
/// position of a point id
pub open spec fn pp(P: Seq<Point>, id: PointId) -> R2 { p2(P[id.0 as int]) }
pub open spec fn max_points() -> int { 0xFFFF_FFF0 }

/// what a PointEdges value lists, in order
pub open spec fn ev(e: PointEdges) -> Seq<PointId> {
    match e { PointEdges::None => seq![], PointEdges::One(a) => seq![a], PointEdges::Two(a, b) => seq![a, b] }
}
pub open spec fn later(P: Seq<Point>, a: int, b: int) -> int { if ylt(p2(P[a]), p2(P[b])) { b } else { a } }
pub open spec fn other(P: Seq<Point>, a: int, b: int) -> int { if ylt(p2(P[a]), p2(P[b])) { a } else { b } }
/// the points stored at point q by the first k edges of the ring lo, lo+1, .., lo+m-1
pub open spec fn ring(P: Seq<Point>, lo: int, m: int, k: int, q: int) -> Seq<PointId>
    decreases k
{
    if k <= 0 { seq![] } else {
        let a = lo + k - 1;
        let b = if k == m { lo } else { lo + k };
        let r = ring(P, lo, m, k - 1, q);
        if later(P, a, b) == q { r.push(PointId(other(P, a, b) as u32)) } else { r }
    }
}
pub open spec fn builder_ok(b: PointsBuilder) -> bool { b.points@.len() == b.edges@.len() }
/// every stored edge points to a point that is earlier in the sweep order
pub open spec fn edges_ok(P: Seq<Point>, E: Seq<PointEdges>) -> bool {
    forall|q: int, i: int| #![trigger ev(E[q])[i]] 0 <= q < E.len() && 0 <= i < ev(E[q]).len() ==> ev(E[q])[i].0 < P.len() && ylt(pp(P, ev(E[q])[i]), p2(P[q]))
}
pub open spec fn distinct(P: Seq<Point>) -> bool { forall|i: int, j: int| 0 <= i < j < P.len() ==> p2(#[trigger] P[i]) != p2(#[trigger] P[j]) }

/// y_sorted lists all points but the two helper points, in the order of the sweep
pub open spec fn ysorted(P: Points) -> bool {
    let n = P.points@.len() - 2;
    &&& P.y_sorted@.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= (#[trigger] P.y_sorted@[i]).0 < n
    &&& forall|i: int, j: int| #![trigger P.y_sorted@[i], P.y_sorted@[j]] 0 <= i < j < n ==> P.y_sorted@[i] != P.y_sorted@[j]
    &&& (distinct(P.points@.take(n)) ==> forall|i: int, j: int| #![trigger P.y_sorted@[i], P.y_sorted@[j]] 0 <= i < j < n ==> ylt(pp(P.points@, P.y_sorted@[i]), pp(P.points@, P.y_sorted@[j])))
}
pub open spec fn points_ok(P: Points) -> bool {
    let n = P.points@.len() - 2;
    &&& 0 <= n <= max_points()
    &&& P.edges@.len() == n + 2
    &&& P.head.0 == n && P.tail.0 == n + 1
    &&& ysorted(P)
    &&& edges_ok(P.points@, P.edges@)
    &&& ev(P.edges@[n]).len() == 0 && ev(P.edges@[n + 1]).len() == 0
    &&& forall|q: int, i: int| #![trigger ev(P.edges@[q])[i]] 0 <= q < P.edges@.len() && 0 <= i < ev(P.edges@[q]).len() ==> ev(P.edges@[q])[i].0 < n
}
/// the helper points lie strictly below everything, strictly to the left and to the right
pub open spec fn helpers(P: Points) -> bool {
    let n = P.points@.len() - 2;
    &&& pp(P.points@, P.head).1 == pp(P.points@, P.tail).1
    &&& n > 0 ==> pp(P.points@, P.head).0 < pp(P.points@, P.tail).0
    &&& forall|i: int| 0 <= i < n ==> pp(P.points@, P.head).0 < p2(#[trigger] P.points@[i]).0 < pp(P.points@, P.tail).0 && pp(P.points@, P.head).1 < p2(P.points@[i]).1
}

// ---- the advancing front
pub open spec fn fk(F: Seq<Entry>, k: int) -> R2 { p2(F[k].key.0) }
pub open spec fn fid(F: Seq<Entry>, k: int) -> PointId { F[k].node.point_id }
pub open spec fn ftri(F: Seq<Entry>, k: int) -> TriangleId { F[k].node.triangle }
/// strictly ascending in (x, y)
pub open spec fn fsorted(F: Seq<Entry>) -> bool { forall|i: int, j: int| #![trigger F[i], F[j]] 0 <= i < j < F.len() ==> lt(fk(F, i), fk(F, j)) }
/// r is what a binary search for key returns
pub open spec fn found(F: Seq<Entry>, key: R2, r: Result<usize, usize>) -> bool {
    match r {
        Ok(i) => i < F.len() && fk(F, i as int) == key,
        Err(i) => i <= F.len() && (forall|j: int| #![trigger F[j]] 0 <= j < i ==> lt(fk(F, j), key)) && (forall|j: int| #![trigger F[j]] i <= j < F.len() ==> lt(key, fk(F, j))),
    }
}
pub open spec fn cache_ok(af: AdvancingFront) -> bool {
    match af.access_cache { Some((k, i)) => i < af.nodes@.len() && fk(af.nodes@, i as int) == p2(k.0), None => true }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PointId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PointId) -> bool { *self == *o } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TriangleId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &TriangleId) -> bool { *self == *o } }
pub open spec fn af_ok(af: AdvancingFront) -> bool { fsorted(af.nodes@) && cache_ok(af) && af.nodes@.len() < usize::MAX }
pub open spec fn in_range(F: Seq<Entry>, key: R2) -> bool { F.len() > 0 && le(fk(F, 0), key) && le(key, fk(F, F.len() - 1)) }
pub open spec fn tri_opt(t: TriangleId) -> Option<TriangleId> { if t == inv() { None } else { Some(t) } }
/// r shows entry k of the front
pub open spec fn all_pts(v: Seq<(PointId, &Point, PointEdges)>, P: Seq<Point>, E: Seq<PointEdges>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).0.0 == i && *v[i].1 == P[i] && v[i].2 == E[i] }
pub open spec fn all_tris(v: Seq<(TriangleId, &InnerTriangle)>, T: Seq<InnerTriangle>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).0.0 == i && *v[i].1 == T[i] }
pub open spec fn all_shown(v: Seq<NodeRef>, af: AdvancingFront, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> shows(af, i, #[trigger] v[i]) }
pub open spec fn shows(af: AdvancingFront, k: int, r: NodeRef) -> bool {
    &&& 0 <= k < af.nodes@.len() && r.index == k
    &&& r.point_id == fid(af.nodes@, k) && r.point == af.nodes@[k].key.0 && r.triangle == tri_opt(ftri(af.nodes@, k))
    &&& *r.advancing_front == af
}
pub open spec fn nref_ok(r: NodeRef) -> bool { shows(*r.advancing_front, r.index as int, r) && af_ok(*r.advancing_front) }
/// k is the first entry after key
pub open spec fn is_next(F: Seq<Entry>, key: R2, k: int) -> bool {
    0 <= k <= F.len() && (forall|j: int| #![trigger F[j]] 0 <= j < k ==> le(fk(F, j), key)) && (forall|j: int| #![trigger F[j]] k <= j < F.len() ==> lt(key, fk(F, j)))
}
/// k is the last entry before key
pub open spec fn is_prev(F: Seq<Entry>, key: R2, k: int) -> bool {
    -1 <= k < F.len() && (forall|j: int| #![trigger F[j]] 0 <= j <= k ==> lt(fk(F, j), key)) && (forall|j: int| #![trigger F[j]] k < j < F.len() ==> le(key, fk(F, j)))
}
/// the id belongs to a point of the problem; the hint may be anything
pub open spec fn nid_ok(F: Seq<Entry>, n: NodeId) -> bool { forall|k: int| #![trigger F[k]] 0 <= k < F.len() && fid(F, k) == n.point_id ==> fk(F, k) == p2(n.point) }
pub open spec fn ent(p: Point, id: PointId, t: TriangleId) -> Entry { Entry { key: PointKey(p), node: NodeInner { point_id: id, triangle: t } } }
pub open spec fn set_tri(e: Entry, t: TriangleId) -> Entry { Entry { key: e.key, node: NodeInner { point_id: e.node.point_id, triangle: t } } }

/// F1 is F0 with the point inserted at its place k (or put there, if the point is in the front already)
pub open spec fn ins(F0: Seq<Entry>, F1: Seq<Entry>, k: int, p: Point, id: PointId, t: TriangleId) -> bool {
    &&& 0 <= k <= F0.len()
    &&& (k < F0.len() && fk(F0, k) == p2(p) && F1 =~= F0.update(k, Entry { key: F0[k].key, node: NodeInner { point_id: id, triangle: t } }))
        || ((forall|j: int| #![trigger F0[j]] 0 <= j < k ==> lt(fk(F0, j), p2(p))) && (forall|j: int| #![trigger F0[j]] k <= j < F0.len() ==> lt(p2(p), fk(F0, j)))
            && F1 =~= F0.insert(k, ent(p, id, t)))
}
/// F1 is F0 with the triangle of the entry k, which is at the point, replaced
pub open spec fn retri(F0: Seq<Entry>, F1: Seq<Entry>, k: int, p: Point, t: TriangleId) -> bool {
    0 <= k < F0.len() && fk(F0, k) == p2(p) && F1 =~= F0.update(k, set_tri(F0[k], t))
}

// ---- building
pub open spec fn ev0(E: Seq<PointEdges>, q: int) -> Seq<PointId> { if q < E.len() { ev(E[q]) } else { seq![] } }
/// the closed ring poly has been added: its points at the end, its edges at their later end points
pub open spec fn added(P0: Seq<Point>, E0: Seq<PointEdges>, P1: Seq<Point>, E1: Seq<PointEdges>, poly: Seq<Point>) -> bool {
    &&& P1 =~= P0 + poly
    &&& E1.len() == P1.len()
    &&& forall|q: int| 0 <= q < P1.len() ==> ev(#[trigger] E1[q]) =~= ev0(E0, q) + ring(P1, P0.len() as int, poly.len() as int, poly.len() as int, q)
}
/// several rings, one after the other
pub open spec fn added_all(P0: Seq<Point>, E0: Seq<PointEdges>, P1: Seq<Point>, E1: Seq<PointEdges>, polys: Seq<Seq<Point>>) -> bool
    decreases polys.len()
{
    if polys.len() == 0 { P1 =~= P0 && E1 =~= E0 } else {
        exists|P: Seq<Point>, E: Seq<PointEdges>| added_all(P0, E0, P, E, polys.drop_last()) && #[trigger] added(P, E, P1, E1, polys.last())
    }
}
pub open spec fn flat<A>(s: Seq<Seq<A>>) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { flat(s.drop_last()) + s.last() }
}
pub open spec fn inv_ring(o: Vec<(PointId, &Point)>, poly: Seq<Point>, lo: int, c: int) -> bool {
    o@.len() == c && c <= poly.len() && forall|i: int| 0 <= i < c ==> (#[trigger] o@[i]).0.0 == lo + i && *o@[i].1 == poly[i]
}
pub open spec fn rb(lo: int, m: int, k: int) -> int { if k + 1 == m { lo } else { lo + k + 1 } }
/// the first k edges of the ring join different points
pub open spec fn ring_sep(P: Seq<Point>, lo: int, m: int, k: int) -> bool {
    forall|j: int| #![trigger P[lo + j]] 0 <= j < k ==> p2(P[lo + j]) != p2(P[rb(lo, m, j)])
}
pub proof fn ring_ok(P: Seq<Point>, lo: int, m: int, k: int, q: int)
    requires 0 <= lo, 0 <= k <= m, lo + m <= P.len() <= max_points(), ring_sep(P, lo, m, k)
    ensures forall|i: int| 0 <= i < ring(P, lo, m, k, q).len() ==> (#[trigger] ring(P, lo, m, k, q)[i]).0 < P.len() && ylt(pp(P, ring(P, lo, m, k, q)[i]), p2(P[q]))
    decreases k
{
    if k > 0 {
        ring_ok(P, lo, m, k - 1, q);
        assert(p2(P[lo + (k - 1)]) != p2(P[rb(lo, m, k - 1)]));
        let R = ring(P, lo, m, k, q);
        let r = ring(P, lo, m, k - 1, q);
        assert forall|i: int| 0 <= i < R.len() implies (#[trigger] R[i]).0 < P.len() && ylt(pp(P, R[i]), p2(P[q])) by {
            if i < r.len() { assert(R[i] == r[i]); }
        }
    }
}
pub proof fn ring_ok_all(P: Seq<Point>, lo: int, m: int)
    requires 0 <= lo, 0 <= m, lo + m <= P.len() <= max_points(), ring_sep(P, lo, m, m)
    ensures forall|q: int, i: int| #![trigger ring(P, lo, m, m, q)[i]] 0 <= i < ring(P, lo, m, m, q).len() ==> ring(P, lo, m, m, q)[i].0 < P.len() && ylt(pp(P, ring(P, lo, m, m, q)[i]), p2(P[q]))
{
    assert forall|q: int, i: int| #![trigger ring(P, lo, m, m, q)[i]] 0 <= i < ring(P, lo, m, m, q).len() implies ring(P, lo, m, m, q)[i].0 < P.len() && ylt(pp(P, ring(P, lo, m, m, q)[i]), p2(P[q])) by {
        ring_ok(P, lo, m, m, q);
    }
}
/// edges_ok is kept when a ring is added
pub proof fn added_ok(P0: Seq<Point>, E0: Seq<PointEdges>, P1: Seq<Point>, E1: Seq<PointEdges>, poly: Seq<Point>)
    requires added(P0, E0, P1, E1, poly), edges_ok(P0, E0), P0.len() == E0.len(), P1.len() <= max_points(), ring_sep(P1, P0.len() as int, poly.len() as int, poly.len() as int)
    ensures edges_ok(P1, E1)
{
    let lo = P0.len() as int; let m = poly.len() as int;
    ring_ok_all(P1, lo, m);
    assert forall|q: int, i: int| #![trigger ev(E1[q])[i]] 0 <= q < E1.len() && 0 <= i < ev(E1[q]).len() implies ev(E1[q])[i].0 < P1.len() && ylt(pp(P1, ev(E1[q])[i]), p2(P1[q])) by {
        let a = ev0(E0, q); let r = ring(P1, lo, m, m, q);
        assert(ev(E1[q]) =~= a + r);
        if i < a.len() { assert(ev(E1[q])[i] == ev(E0[q])[i]); } else { assert(ev(E1[q])[i] == r[i - a.len()]); }
    }
}

pub open spec fn srcs<S: PointDataSource>(s: Seq<S>) -> Seq<Seq<Point>> { Seq::new(s.len(), |i: int| s[i].src_points()) }
pub open spec fn datas<S: PointDataSource>(s: Seq<S>) -> Seq<Seq<S::Data>> { Seq::new(s.len(), |i: int| s[i].src_data()) }
pub proof fn flat_step<A>(s: Seq<Seq<A>>, k: int)
    requires 0 <= k < s.len()
    ensures flat(s.take(k + 1)) =~= flat(s.take(k)) + s[k], flat(s.take(k + 1)).len() <= flat(s).len(), s.take(k + 1).drop_last() =~= s.take(k), s.take(k + 1).last() == s[k]
    decreases s.len() - k
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    if k + 1 < s.len() { flat_step(s, k + 1); } else { assert(s.take(k + 1) =~= s); }
}
pub open spec fn bld_ok<PD>(b: Builder<PD>) -> bool {
    builder_ok(b.points_builder) && edges_ok(b.points_builder.points@, b.points_builder.edges@) && b.points_builder.points@.len() <= max_points()
}

// ---- the calls an observer receives
pub enum Ev { Enter(PointId), Exit(PointId), Edge(PointId, PointId), Done, Finalized }
pub uninterp spec fn olog<O: ?Sized>(o: &O) -> Seq<Ev>;

// loop invariants on vectors whose element type is inferred later
pub open spec fn inv_ids(o: Vec<(PointId, &Point)>, P: Seq<Point>, c: int) -> bool {
    o@.len() == c && c <= P.len() && forall|i: int| 0 <= i < c ==> #[trigger] o@[i].0.0 == i && *o@[i].1 == P[i]
}
pub open spec fn inv_fst(o: Vec<PointId>, s: Vec<(PointId, &Point)>, c: int) -> bool {
    o@.len() == c && c <= s@.len() && forall|i: int| 0 <= i < c ==> #[trigger] o@[i] == s@[i].0
}
pub open spec fn inv_by_y(o: Vec<(PointId, Point, PointEdges)>, P: Points, order: int, c: int) -> bool {
    &&& order <= c
    &&& if order <= P.y_sorted@.len() { c <= P.y_sorted@.len() } else { c == order }
    &&& o@.len() == c - order
    &&& forall|i: int| 0 <= i < o@.len() ==> (#[trigger] o@[i]).0 == P.y_sorted@[i + order]
            && o@[i].1 == P.points@[P.y_sorted@[i + order].0 as int] && o@[i].2 == P.edges@[P.y_sorted@[i + order].0 as int]
}

pub open spec fn sortcmp(a: &(PointId, &Point), b: &(PointId, &Point), o: Ordering) -> bool {
    (ylt(p2(*a.1), p2(*b.1)) ==> o == Ordering::Less) && (ylt(p2(*b.1), p2(*a.1)) ==> o == Ordering::Greater)
}

// ---- triangles
pub open spec fn nx(i: int) -> int { if i == 0 { 1 } else if i == 1 { 2 } else { 0 } }
pub open spec fn pv(i: int) -> int { if i == 0 { 2 } else if i == 1 { 0 } else { 1 } }
pub open spec fn i3(i: int) -> bool { i == 0 || i == 1 || i == 2 }
#[verifier::opaque]
pub open spec fn con(a: EdgeAttr) -> bool { a.0 & 1u8 != 0 }
#[verifier::opaque]
pub open spec fn del(a: EdgeAttr) -> bool { a.0 & 2u8 != 0 }
pub open spec fn tp(t: InnerTriangle, i: int) -> PointId { t.points@[i] }
pub open spec fn tn(t: InnerTriangle, i: int) -> TriangleId { t.neighbors@[i] }
pub open spec fn tc(t: InnerTriangle, i: int) -> bool { con(t.edge_attrs@[i]) }
pub open spec fn td(t: InnerTriangle, i: int) -> bool { del(t.edge_attrs@[i]) }
pub open spec fn tdist(t: InnerTriangle) -> bool { tp(t, 0) != tp(t, 1) && tp(t, 1) != tp(t, 2) && tp(t, 2) != tp(t, 0) }
pub open spec fn has(t: InnerTriangle, p: PointId) -> bool { p == tp(t, 0) || p == tp(t, 1) || p == tp(t, 2) }
pub open spec fn ix(t: InnerTriangle, p: PointId) -> int { if p == tp(t, 0) { 0 } else if p == tp(t, 1) { 1 } else { 2 } }
/// edge i of t joins a and b
pub open spec fn joins(t: InnerTriangle, i: int, a: PointId, b: PointId) -> bool {
    (tp(t, nx(i)) == a && tp(t, pv(i)) == b) || (tp(t, nx(i)) == b && tp(t, pv(i)) == a)
}
/// edge i of t is edge j of u in opposite direction
pub open spec fn rev_edge(t: InnerTriangle, i: int, u: InnerTriangle, j: int) -> bool { tp(t, nx(i)) == tp(u, pv(j)) && tp(t, pv(i)) == tp(u, nx(j)) }
pub open spec fn inv() -> TriangleId { TriangleId(usize::MAX) }

pub proof fn bits(x: u8)
    ensures
        forall|a: EdgeAttr, b: u8| a.0 == b ==> con(a) == (b & 1u8 != 0) && del(a) == (b & 2u8 != 0),
        (x & (0xFFu8 ^ 1u8)) & 1u8 == 0u8 && (x & (0xFFu8 ^ 1u8)) & 2u8 == x & 2u8,
        (x | 1u8) & 1u8 != 0u8 && (x | 1u8) & 2u8 == x & 2u8,
        (x & (0xFFu8 ^ (1u8 << 1u8))) & 2u8 == 0u8 && (x & (0xFFu8 ^ (1u8 << 1u8))) & 1u8 == x & 1u8,
        (x | (1u8 << 1u8)) & 2u8 != 0u8 && (x | (1u8 << 1u8)) & 1u8 == x & 1u8,
        1u8 << 1u8 == 2u8, 0u8 & 1u8 == 0u8, 0u8 & 2u8 == 0u8,
{
    reveal(con); reveal(del);
    assert((x & (0xFFu8 ^ 1u8)) & 1u8 == 0u8 && (x & (0xFFu8 ^ 1u8)) & 2u8 == x & 2u8) by (bit_vector);
    assert((x | 1u8) & 1u8 != 0u8 && (x | 1u8) & 2u8 == x & 2u8) by (bit_vector);
    assert((x & (0xFFu8 ^ (1u8 << 1u8))) & 2u8 == 0u8 && (x & (0xFFu8 ^ (1u8 << 1u8))) & 1u8 == x & 1u8) by (bit_vector);
    assert((x | (1u8 << 1u8)) & 2u8 != 0u8 && (x | (1u8 << 1u8)) & 1u8 == x & 1u8) by (bit_vector);
    assert(1u8 << 1u8 == 2u8) by (bit_vector);
    assert(0u8 & 1u8 == 0u8 && 0u8 & 2u8 == 0u8) by (bit_vector);
}
/// u is t with the constrained mark of edge i set to v
pub open spec fn set_flag(t: InnerTriangle, u: InnerTriangle, i: int, v: bool) -> bool {
    &&& u.points == t.points && u.neighbors == t.neighbors && u.interior == t.interior
    &&& forall|k: int| #![trigger tc(u, k)] 0 <= k < 3 ==> tc(u, k) == (if k == i { v } else { tc(t, k) })
    &&& forall|k: int| #![trigger td(u, k)] 0 <= k < 3 ==> td(u, k) == td(t, k)
}
/// u is t with the delaunay mark of edge i set to v
pub open spec fn set_dflag(t: InnerTriangle, u: InnerTriangle, i: int, v: bool) -> bool {
    &&& u.points == t.points && u.neighbors == t.neighbors && u.interior == t.interior
    &&& forall|k: int| #![trigger td(u, k)] 0 <= k < 3 ==> td(u, k) == (if k == i { v } else { td(t, k) })
    &&& forall|k: int| #![trigger tc(u, k)] 0 <= k < 3 ==> tc(u, k) == tc(t, k)
}
/// p in the box of a and b
pub open spec fn btw1(a: real, b: real, p: real) -> bool { a <= p <= b || b <= p <= a }
pub open spec fn btw(a: R2, b: R2, p: R2) -> bool { btw1(a.0, b.0, p.0) && btw1(a.1, b.1, p.1) }
pub open spec fn ori(a: R2, b: R2, c: R2) -> Orientation {
    if orient(a, b, c) > 0real { Orientation::CCW } else if orient(a, b, c) < 0real { Orientation::CW } else { Orientation::Collinear }
}

/// u is t linked across edge i to n, with constrained mark c and no delaunay mark there
pub open spec fn linkpost(t: InnerTriangle, u: InnerTriangle, i: int, n: TriangleId, c: bool) -> bool {
    &&& u.points == t.points && u.interior == t.interior
    &&& u.neighbors@ == t.neighbors@.update(i, n)
    &&& forall|k: int| #![trigger tc(u, k)] 0 <= k < 3 ==> tc(u, k) == (if k == i { c } else { tc(t, k) })
    &&& forall|k: int| #![trigger td(u, k)] 0 <= k < 3 ==> td(u, k) == (if k == i { false } else { td(t, k) })
}
pub open spec fn link2(l: TriangleId, r: TriangleId, l0: InnerTriangle, r0: InnerTriangle, l1: InnerTriangle, r1: InnerTriangle, i: int, j: int) -> bool {
    i3(i) && i3(j) && rev_edge(l0, i, r0, j) && linkpost(l0, l1, i, r, tc(l0, i) || tc(r0, j)) && linkpost(r0, r1, j, l, tc(l0, i) || tc(r0, j))
}
pub open spec fn linked2(l: TriangleId, r: TriangleId, l0: InnerTriangle, r0: InnerTriangle, l1: InnerTriangle, r1: InnerTriangle) -> bool {
    (exists|i: int, j: int| #[trigger] link2(l, r, l0, r0, l1, r1, i, j))
    || (l1 == l0 && r1 == r0 && (tdist(l0) && tdist(r0) ==> forall|i: int, j: int| i3(i) && i3(j) ==> !(#[trigger] rev_edge(l0, i, r0, j))))
}
pub open spec fn valid(T: Seq<InnerTriangle>, t: TriangleId) -> bool { t.0 < T.len() }
pub open spec fn upo(T: Seq<InnerTriangle>, t: TriangleId, u: Option<InnerTriangle>) -> Seq<InnerTriangle> {
    match u { Some(x) => T.update(t.0 as int, x), None => T }
}
pub open spec fn apart(a: TriangleId, b: TriangleId) -> bool { a == inv() || b == inv() || a != b }
/// the six references of get_mut_six are in bounds and name different triangles
pub open spec fn six_ok(T: Seq<InnerTriangle>, a: TriangleId, b: TriangleId, c: TriangleId, d: TriangleId, e: TriangleId, f: TriangleId) -> bool {
    &&& valid(T, a) && valid(T, b) && a != b
    &&& (c == inv() || valid(T, c)) && (d == inv() || valid(T, d)) && (e == inv() || valid(T, e)) && (f == inv() || valid(T, f))
    &&& T.len() < usize::MAX
    &&& apart(a, c) && apart(a, d) && apart(a, e) && apart(a, f) && apart(b, c) && apart(b, d) && apart(b, e) && apart(b, f)
    &&& apart(c, d) && apart(c, e) && apart(c, f) && apart(d, e) && apart(d, f) && apart(e, f)
}
