// ---- the mesh
pub open spec fn tri_ok(P: Seq<Point>, t: InnerTriangle) -> bool {
    &&& tp(t, 0).0 < P.len() && tp(t, 1).0 < P.len() && tp(t, 2).0 < P.len()
    &&& good3(pp(P, tp(t, 0)), pp(P, tp(t, 1)), pp(P, tp(t, 2)))
}
/// the edge of u that is edge e of t in opposite direction (if u has it)
pub open spec fn opp(t: InnerTriangle, e: int, u: InnerTriangle) -> int { pv(ix(u, tp(t, pv(e)))) }
/// the neighbor across edge e of triangle i is none, or refers back across the same edge
pub open spec fn nb(T: Seq<InnerTriangle>, i: int, e: int) -> bool {
    tn(T[i], e) == inv() || {
        let u = T[tn(T[i], e).0 as int];
        let j = opp(T[i], e, u);
        valid(T, tn(T[i], e)) && rev_edge(T[i], e, u, j) && tn(u, j).0 == i && tc(u, j) == tc(T[i], e)
    }
}
pub open spec fn in3(T: Seq<InnerTriangle>, i: int, e: int) -> bool { 0 <= i < T.len() && i3(e) }
pub open spec fn mesh(P: Seq<Point>, T: Seq<InnerTriangle>) -> bool {
    &&& T.len() < usize::MAX
    &&& forall|i: int| 0 <= i < T.len() ==> tri_ok(P, #[trigger] T[i])
    &&& forall|i: int, e: int| in3(T, i, e) ==> #[trigger] nb(T, i, e)
}
pub proof fn tri_dist(P: Seq<Point>, t: InnerTriangle)
    requires tri_ok(P, t)
    ensures tdist(t)
{
    let (a, b, c) = (pp(P, tp(t, 0)), pp(P, tp(t, 1)), pp(P, tp(t, 2)));
    orient_perm(a, b, c);
}
pub proof fn opp_is(P: Seq<Point>, t: InnerTriangle, e: int, u: InnerTriangle, j: int)
    requires tri_ok(P, u), i3(e), i3(j), rev_edge(t, e, u, j)
    ensures opp(t, e, u) == j
{
    tri_dist(P, u);
}
/// two triangles share at most one edge
pub proof fn rev_unique(P: Seq<Point>, t: InnerTriangle, i: int, u: InnerTriangle, j: int, i2: int, j2: int)
    requires tri_ok(P, t), tri_ok(P, u), i3(i), i3(j), i3(i2), i3(j2), rev_edge(t, i, u, j), rev_edge(t, i2, u, j2)
    ensures i == i2, j == j2
{
    tri_dist(P, t); tri_dist(P, u);
    good3_perm(pp(P, tp(t, 0)), pp(P, tp(t, 1)), pp(P, tp(t, 2)));
    good3_perm(pp(P, tp(u, 0)), pp(P, tp(u, 1)), pp(P, tp(u, 2)));
}
/// what links the triangle i and its neighbor across e
pub proof fn nb_at(P: Seq<Point>, T: Seq<InnerTriangle>, i: int, e: int) -> (j: int)
    requires mesh(P, T), in3(T, i, e), tn(T[i], e) != inv()
    ensures valid(T, tn(T[i], e)), i3(j), j == opp(T[i], e, T[tn(T[i], e).0 as int]), rev_edge(T[i], e, T[tn(T[i], e).0 as int], j),
        tn(T[tn(T[i], e).0 as int], j).0 == i, tc(T[tn(T[i], e).0 as int], j) == tc(T[i], e), tn(T[i], e).0 != i,
        tri_ok(P, T[i]), tri_ok(P, T[tn(T[i], e).0 as int]), tdist(T[i]), tdist(T[tn(T[i], e).0 as int]),
{
    assert(nb(T, i, e));
    tri_dist(P, T[i]);
    tri_dist(P, T[tn(T[i], e).0 as int]);
    opp(T[i], e, T[tn(T[i], e).0 as int])
}
/// a and b share edge i / j; pa = tp(a, i), op = tp(b, j): the six references of a rotation
pub open spec fn rot_req(P: Seq<Point>, T: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int) -> bool {
    &&& valid(T, t) && valid(T, ot) && i3(i) && i3(j)
    &&& tn(T[t.0 as int], i) == ot && j == opp(T[t.0 as int], i, T[ot.0 as int])
    &&& !tc(T[t.0 as int], i)
    &&& orient(pp(P, tp(T[t.0 as int], i)), pp(P, tp(T[t.0 as int], nx(i))), pp(P, tp(T[ot.0 as int], j))) > 0real
    &&& orient(pp(P, tp(T[t.0 as int], pv(i))), pp(P, tp(T[t.0 as int], i)), pp(P, tp(T[ot.0 as int], j))) > 0real
}
/// the edge e of x is the edge from a to b
pub open spec fn is_de(x: InnerTriangle, e: int, a: PointId, b: PointId) -> bool { tp(x, nx(e)) == a && tp(x, pv(e)) == b }
/// a third triangle before and after the rotation of t and ot
pub open spec fn rot_other(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int, x: int, e: int) -> bool {
    let a = T0[t.0 as int]; let b = T0[ot.0 as int];
    &&& tp(T1[x], e) == tp(T0[x], e)
    &&& tn(T1[x], e) == (if tn(T0[x], e) == t && is_de(T0[x], e, tp(a, nx(i)), tp(a, i)) { ot } else if tn(T0[x], e) == ot && is_de(T0[x], e, tp(b, nx(j)), tp(b, j)) { t } else { tn(T0[x], e) })
    &&& tc(T1[x], e) == tc(T0[x], e)
    &&& td(T1[x], e) == (td(T0[x], e) && tn(T0[x], e) != t && tn(T0[x], e) != ot)
}
pub open spec fn rot_pair(a: InnerTriangle, b: InnerTriangle, a1: InnerTriangle, b1: InnerTriangle, t: TriangleId, ot: TriangleId, i: int, j: int) -> bool {
    &&& tp(a1, i) == tp(a, pv(i)) && tp(a1, nx(i)) == tp(a, i) && tp(a1, pv(i)) == tp(b, j)
    &&& tp(b1, j) == tp(b, pv(j)) && tp(b1, nx(j)) == tp(b, j) && tp(b1, pv(j)) == tp(a, i)
    &&& tn(a1, i) == ot && tn(a1, nx(i)) == tn(b, pv(j)) && tn(a1, pv(i)) == tn(a, nx(i))
    &&& tn(b1, j) == t && tn(b1, nx(j)) == tn(a, pv(i)) && tn(b1, pv(j)) == tn(b, nx(j))
    &&& !tc(a1, i) && tc(a1, nx(i)) == tc(b, pv(j)) && tc(a1, pv(i)) == tc(a, nx(i))
    &&& !tc(b1, j) && tc(b1, nx(j)) == tc(a, pv(i)) && tc(b1, pv(j)) == tc(b, nx(j))
    &&& forall|e: int| #![trigger td(a1, e)] i3(e) && td(a1, e) ==> tn(a1, e) == inv()
    &&& forall|e: int| #![trigger td(b1, e)] i3(e) && td(b1, e) ==> tn(b1, e) == inv()
    &&& a1.interior == a.interior && b1.interior == b.interior
}
pub open spec fn rotated(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int) -> bool {
    &&& T1.len() == T0.len()
    &&& rot_pair(T0[t.0 as int], T0[ot.0 as int], T1[t.0 as int], T1[ot.0 as int], t, ot, i, j)
    &&& forall|x: int, e: int| in3(T0, x, e) && x != t.0 && x != ot.0 ==> #[trigger] rot_other(T0, T1, t, ot, i, j, x, e)
    &&& forall|x: int| 0 <= x < T0.len() ==> (#[trigger] T1[x]).interior == T0[x].interior
}
pub proof fn rot_six(P: Seq<Point>, T: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int)
    requires mesh(P, T), rot_req(P, T, t, ot, i, j)
    ensures ({ let a = T[t.0 as int]; let b = T[ot.0 as int]; six_ok(T, t, ot, tn(a, pv(i)), tn(a, nx(i)), tn(b, pv(j)), tn(b, nx(j))) }),
        t != ot, rev_edge(T[t.0 as int], i, T[ot.0 as int], j), tn(T[ot.0 as int], j) == t, !tc(T[ot.0 as int], j),
        tp(T[t.0 as int], i) != tp(T[ot.0 as int], j),
{
    let a = T[t.0 as int]; let b = T[ot.0 as int];
    let _ = nb_at(P, T, t.0 as int, i);
    let (p, bb, c, op) = (tp(a, i), tp(a, nx(i)), tp(a, pv(i)), tp(b, j));
    assert(tp(b, nx(j)) == c && tp(b, pv(j)) == bb);
    orient_perm(pp(P, p), pp(P, bb), pp(P, op));
    orient_perm(pp(P, c), pp(P, p), pp(P, op));
    good3_perm(pp(P, tp(a, 0)), pp(P, tp(a, 1)), pp(P, tp(a, 2)));
    good3_perm(pp(P, tp(b, 0)), pp(P, tp(b, 1)), pp(P, tp(b, 2)));
    assert(p != op) by { orient_perm(pp(P, p), pp(P, bb), pp(P, p)); }
    let (n1, n2, n3, n4) = (tn(a, pv(i)), tn(a, nx(i)), tn(b, pv(j)), tn(b, nx(j)));
    if n1 != inv() { let k = nb_at(P, T, t.0 as int, pv(i)); let u = T[n1.0 as int]; good3_perm(pp(P, tp(u, 0)), pp(P, tp(u, 1)), pp(P, tp(u, 2))); assert(is_de(u, k, bb, p)); assert(n1 != ot); }
    if n2 != inv() { let k = nb_at(P, T, t.0 as int, nx(i)); let u = T[n2.0 as int]; good3_perm(pp(P, tp(u, 0)), pp(P, tp(u, 1)), pp(P, tp(u, 2))); assert(is_de(u, k, p, c)); assert(n2 != ot); }
    if n3 != inv() { let k = nb_at(P, T, ot.0 as int, pv(j)); let u = T[n3.0 as int]; good3_perm(pp(P, tp(u, 0)), pp(P, tp(u, 1)), pp(P, tp(u, 2))); assert(is_de(u, k, c, op)); assert(n3 != t); }
    if n4 != inv() { let k = nb_at(P, T, ot.0 as int, nx(j)); let u = T[n4.0 as int]; good3_perm(pp(P, tp(u, 0)), pp(P, tp(u, 1)), pp(P, tp(u, 2))); assert(is_de(u, k, op, bb)); assert(n4 != t); }
    assert(apart(n1, n2)) by { if n1 != inv() && n1 == n2 { two_de(P, T[n1.0 as int], bb, p, c); good3_cyc(P, a, i); } }
    assert(apart(n3, n4)) by { if n3 != inv() && n3 == n4 { two_de(P, T[n3.0 as int], c, op, bb); good3_cyc(P, b, j);  } }
    assert(apart(n1, n4)) by { if n1 != inv() && n1 == n4 { two_de(P, T[n1.0 as int], op, bb, p); } }
    assert(apart(n2, n3)) by { if n2 != inv() && n2 == n3 { two_de(P, T[n2.0 as int], p, c, op); } }
}
pub proof fn good3_cyc(P: Seq<Point>, a: InnerTriangle, i: int)
    requires tri_ok(P, a), i3(i)
    ensures good3(pp(P, tp(a, i)), pp(P, tp(a, nx(i))), pp(P, tp(a, pv(i)))), !good3(pp(P, tp(a, nx(i))), pp(P, tp(a, i)), pp(P, tp(a, pv(i)))), !good3(pp(P, tp(a, pv(i))), pp(P, tp(a, nx(i))), pp(P, tp(a, i)))
{
    good3_perm(pp(P, tp(a, 0)), pp(P, tp(a, 1)), pp(P, tp(a, 2)));
    good3_perm(pp(P, tp(a, 1)), pp(P, tp(a, 2)), pp(P, tp(a, 0)));
    good3_perm(pp(P, tp(a, 2)), pp(P, tp(a, 0)), pp(P, tp(a, 1)));
}
pub proof fn two_de(P: Seq<Point>, u: InnerTriangle, a: PointId, b: PointId, c: PointId)
    requires tri_ok(P, u), exists|k: int| i3(k) && #[trigger] is_de(u, k, a, b), exists|k: int| i3(k) && #[trigger] is_de(u, k, b, c)
    ensures good3(pp(P, a), pp(P, b), pp(P, c))
{
    tri_dist(P, u);
    good3_perm(pp(P, tp(u, 0)), pp(P, tp(u, 1)), pp(P, tp(u, 2)));
}
pub proof fn rot_de(P: Seq<Point>, T: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int, x: int, e: int)
    requires mesh(P, T), rot_req(P, T, t, ot, i, j), in3(T, x, e), x != t.0, x != ot.0
    ensures
        tn(T[x], e) == t ==> (is_de(T[x], e, tp(T[t.0 as int], nx(i)), tp(T[t.0 as int], i)) && tn(T[t.0 as int], pv(i)).0 == x && opp(T[x], e, T[t.0 as int]) == pv(i))
            || (is_de(T[x], e, tp(T[t.0 as int], i), tp(T[t.0 as int], pv(i))) && !is_de(T[x], e, tp(T[t.0 as int], nx(i)), tp(T[t.0 as int], i)) && tn(T[t.0 as int], nx(i)).0 == x && opp(T[x], e, T[t.0 as int]) == nx(i)),
        tn(T[x], e) == ot ==> (is_de(T[x], e, tp(T[ot.0 as int], nx(j)), tp(T[ot.0 as int], j)) && tn(T[ot.0 as int], pv(j)).0 == x && opp(T[x], e, T[ot.0 as int]) == pv(j))
            || (is_de(T[x], e, tp(T[ot.0 as int], j), tp(T[ot.0 as int], pv(j))) && !is_de(T[x], e, tp(T[ot.0 as int], nx(j)), tp(T[ot.0 as int], j)) && tn(T[ot.0 as int], nx(j)).0 == x && opp(T[x], e, T[ot.0 as int]) == nx(j)),
{
    rot_six(P, T, t, ot, i, j);
    if tn(T[x], e) == t || tn(T[x], e) == ot { let k = nb_at(P, T, x, e); }
}
pub proof fn rot_mesh(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int)
    requires mesh(P, T0), rot_req(P, T0, t, ot, i, j), rotated(T0, T1, t, ot, i, j)
    ensures mesh(P, T1)
{
    rot_six(P, T0, t, ot, i, j);
    let a = T0[t.0 as int]; let b = T0[ot.0 as int]; let a1 = T1[t.0 as int]; let b1 = T1[ot.0 as int];
    assert forall|x: int| 0 <= x < T1.len() implies tri_ok(P, #[trigger] T1[x]) by {
        assert(tri_ok(P, T0[x])); assert(tri_ok(P, a)); assert(tri_ok(P, b));
        if x == t.0 { 
            good3_perm(pp(P, tp(a1, i)), pp(P, tp(a1, nx(i))), pp(P, tp(a1, pv(i))));
        } else if x == ot.0 {
            orient_perm(pp(P, tp(a, i)), pp(P, tp(a, nx(i))), pp(P, tp(b, j)));
            good3_perm(pp(P, tp(b1, j)), pp(P, tp(b1, nx(j))), pp(P, tp(b1, pv(j))));
        } else {
            assert(rot_other(T0, T1, t, ot, i, j, x, 0) && rot_other(T0, T1, t, ot, i, j, x, 1) && rot_other(T0, T1, t, ot, i, j, x, 2));
        }
    }
    assert forall|x: int, e: int| in3(T1, x, e) implies #[trigger] nb(T1, x, e) by {
        rot_nb(P, T0, T1, t, ot, i, j, x, e);
    }
}
pub proof fn rot_nb(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int, x: int, e: int)
    requires mesh(P, T0), rot_req(P, T0, t, ot, i, j), rotated(T0, T1, t, ot, i, j), forall|x: int| 0 <= x < T1.len() ==> tri_ok(P, #[trigger] T1[x]), in3(T1, x, e)
    ensures nb(T1, x, e)
{
    rot_six(P, T0, t, ot, i, j);
    let a = T0[t.0 as int]; let b = T0[ot.0 as int]; let a1 = T1[t.0 as int]; let b1 = T1[ot.0 as int];
    let y = tn(T1[x], e);
    if y != inv() {
        if x == t.0 {
            if e == i { opp_is(P, a1, e, b1, j); }
            else if e == nx(i) {
                let k = nb_at(P, T0, ot.0 as int, pv(j));
                assert(rot_other(T0, T1, t, ot, i, j, y.0 as int, k));
                assert(rot_other(T0, T1, t, ot, i, j, y.0 as int, nx(k)) && rot_other(T0, T1, t, ot, i, j, y.0 as int, pv(k)));
                opp_is(P, a1, e, T1[y.0 as int], k);
            } else {
                let k = nb_at(P, T0, t.0 as int, nx(i));
                assert(rot_other(T0, T1, t, ot, i, j, y.0 as int, k));
                assert(rot_other(T0, T1, t, ot, i, j, y.0 as int, nx(k)) && rot_other(T0, T1, t, ot, i, j, y.0 as int, pv(k)));
                rot_de(P, T0, t, ot, i, j, y.0 as int, k);
                tri_dist(P, a); tri_dist(P, b);
                opp_is(P, a1, e, T1[y.0 as int], k);
            }
        } else if x == ot.0 {
            if e == j { opp_is(P, b1, e, a1, i); }
            else if e == nx(j) {
                let k = nb_at(P, T0, t.0 as int, pv(i));
                assert(rot_other(T0, T1, t, ot, i, j, y.0 as int, k));
                assert(rot_other(T0, T1, t, ot, i, j, y.0 as int, nx(k)) && rot_other(T0, T1, t, ot, i, j, y.0 as int, pv(k)));
                opp_is(P, b1, e, T1[y.0 as int], k);
            } else {
                let k = nb_at(P, T0, ot.0 as int, nx(j));
                assert(rot_other(T0, T1, t, ot, i, j, y.0 as int, k));
                assert(rot_other(T0, T1, t, ot, i, j, y.0 as int, nx(k)) && rot_other(T0, T1, t, ot, i, j, y.0 as int, pv(k)));
                rot_de(P, T0, t, ot, i, j, y.0 as int, k);
                tri_dist(P, a); tri_dist(P, b);
                opp_is(P, b1, e, T1[y.0 as int], k);
            }
        } else {
            assert(rot_other(T0, T1, t, ot, i, j, x, 0) && rot_other(T0, T1, t, ot, i, j, x, 1) && rot_other(T0, T1, t, ot, i, j, x, 2));
            let y0 = tn(T0[x], e);
            let k = nb_at(P, T0, x, e);
            if y0 == t || y0 == ot {
                rot_de(P, T0, t, ot, i, j, x, e);
                tri_dist(P, a); tri_dist(P, b);
                if y0 == t {
                    if y == ot { opp_is(P, T1[x], e, b1, nx(j)); } else { opp_is(P, T1[x], e, a1, pv(i)); }
                } else {
                    if y == t { opp_is(P, T1[x], e, a1, nx(i)); } else { opp_is(P, T1[x], e, b1, pv(j)); }
                }
            } else {
                assert(rot_other(T0, T1, t, ot, i, j, y.0 as int, 0) && rot_other(T0, T1, t, ot, i, j, y.0 as int, 1) && rot_other(T0, T1, t, ot, i, j, y.0 as int, 2));
                opp_is(P, T1[x], e, T1[y.0 as int], k);
            }
        }
    }
}

// ---- boundary edges, constrained edges, local Delaunay property
pub open spec fn bd(T: Seq<InnerTriangle>, i: int, e: int) -> bool { in3(T, i, e) && tn(T[i], e) == inv() }
/// a constrained edge joins a and b
pub open spec fn cedge(T: Seq<InnerTriangle>, a: PointId, b: PointId) -> bool { exists|i: int, e: int| in3(T, i, e) && tc(T[i], e) && #[trigger] joins(T[i], e, a, b) }
/// a is a corner of some triangle
#[verifier::opaque]
pub open spec fn vert(T: Seq<InnerTriangle>, a: PointId) -> bool { exists|i: int, e: int| in3(T, i, e) && #[trigger] tp(T[i], e) == a }
/// constrained edges and corners stay
pub open spec fn cmono(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>) -> bool {
    &&& forall|a: PointId, b: PointId| cedge(T0, a, b) ==> #[trigger] cedge(T1, a, b)
    &&& forall|a: PointId| vert(T0, a) ==> #[trigger] vert(T1, a)
}
/// no edge has become constrained
pub open spec fn cback(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>) -> bool { forall|a: PointId, b: PointId| #[trigger] cedge(T1, a, b) ==> cedge(T0, a, b) }
pub proof fn cback_same(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>)
    requires T1.len() >= T0.len(), forall|i: int, e: int| #![trigger tc(T1[i], e)] in3(T1, i, e) && tc(T1[i], e) ==> i < T0.len() && tc(T0[i], e) && T1[i].points == T0[i].points
    ensures cback(T0, T1)
{
    assert forall|a: PointId, b: PointId| #[trigger] cedge(T1, a, b) implies cedge(T0, a, b) by {
        let (x, e) = choose|x: int, e: int| in3(T1, x, e) && tc(T1[x], e) && #[trigger] joins(T1[x], e, a, b);
        cedge_is(T0, x, e, a, b);
    }
}
pub proof fn vert_is(T: Seq<InnerTriangle>, i: int, e: int)
    requires in3(T, i, e)
    ensures vert(T, tp(T[i], e))
{ reveal(vert); }
pub proof fn vert_at(T: Seq<InnerTriangle>, a: PointId) -> (r: (int, int))
    requires vert(T, a)
    ensures in3(T, r.0, r.1), tp(T[r.0], r.1) == a
{ reveal(vert); choose|i: int, e: int| in3(T, i, e) && #[trigger] tp(T[i], e) == a }
pub proof fn vert_pts(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>)
    requires T1.len() >= T0.len(), forall|x: int| 0 <= x < T0.len() ==> (#[trigger] T1[x]).points == T0[x].points
    ensures forall|a: PointId| vert(T0, a) ==> #[trigger] vert(T1, a)
{
    assert forall|a: PointId| vert(T0, a) implies #[trigger] vert(T1, a) by { let (i, e) = vert_at(T0, a); assert(T1[i].points == T0[i].points); vert_is(T1, i, e); }
}
/// the points of the front are corners
pub proof fn front_vert(T: Seq<InnerTriangle>, I: Seq<PointId>, G: Seq<TriangleId>, h: PointId, l: PointId)
    requires front(T, I, G, h, l)
    ensures forall|x: PointId| #[trigger] I.contains(x) ==> vert(T, x)
{
    assert forall|x: PointId| #[trigger] I.contains(x) implies vert(T, x) by {
        let m = choose|m: int| 0 <= m < I.len() && I[m] == x;
        let k = if m == I.len() - 1 { m - 1 } else { m };
        assert(fpart(T, I, G, k));
        let e = choose|e: int| bd(T, G[k].0 as int, e) && #[trigger] fe(T, I, G[k].0 as int, e, k);
        vert_is(T, G[k].0 as int, pv(e)); vert_is(T, G[k].0 as int, nx(e));
    }
}
/// the first c points of the sweep are corners
pub open spec fn all_vert(P: Points, T: Seq<InnerTriangle>, c: int) -> bool { forall|m: int| 0 <= m < c ==> vert(T, #[trigger] P.y_sorted@[m]) }
pub proof fn avert_mono(P: Points, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, c: int)
    requires all_vert(P, T0, c), cmono(T0, T1)
    ensures all_vert(P, T1, c)
{ assert forall|m: int| 0 <= m < c implies vert(T1, #[trigger] P.y_sorted@[m]) by { assert(vert(T0, P.y_sorted@[m])); } }
/// the opposite point of the neighbor is not inside the circle of the triangle
pub open spec fn loc(P: Seq<Point>, T: Seq<InnerTriangle>, i: int, e: int) -> bool {
    let u = T[tn(T[i], e).0 as int];
    incirc(pp(P, tp(T[i], e)), pp(P, tp(T[i], nx(e))), pp(P, tp(T[i], pv(e))), pp(P, tp(u, opp(T[i], e, u)))) <= 0real
}
/// the delaunay marks are right
pub open spec fn dflags(P: Seq<Point>, T: Seq<InnerTriangle>) -> bool {
    forall|i: int, e: int| #![trigger td(T[i], e)] in3(T, i, e) && td(T[i], e) && tn(T[i], e) != inv() ==> loc(P, T, i, e)
}
pub open spec fn ill(P: Seq<Point>, T: Seq<InnerTriangle>, i: int, e: int) -> bool { in3(T, i, e) && tn(T[i], e) != inv() && !tc(T[i], e) && !loc(P, T, i, e) }
/// x and y share an edge that is neither constrained nor locally Delaunay
pub open spec fn illp(P: Seq<Point>, T: Seq<InnerTriangle>, x: TriangleId, y: TriangleId) -> bool { exists|e: int| #[trigger] ill(P, T, x.0 as int, e) && tn(T[x.0 as int], e) == y }
/// at one of them
pub open spec fn legal_but(P: Seq<Point>, T: Seq<InnerTriangle>, S: Seq<TriangleId>) -> bool { forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T, x, y) ==> S.contains(x) || S.contains(y) }

pub proof fn loc_sym(P: Seq<Point>, T: Seq<InnerTriangle>, i: int, e: int) -> (j: int)
    requires mesh(P, T), in3(T, i, e), tn(T[i], e) != inv()
    ensures i3(j), valid(T, tn(T[i], e)), j == opp(T[i], e, T[tn(T[i], e).0 as int]), tn(T[tn(T[i], e).0 as int], j).0 == i, loc(P, T, tn(T[i], e).0 as int, j) == loc(P, T, i, e), tc(T[tn(T[i], e).0 as int], j) == tc(T[i], e)
{
    let j = nb_at(P, T, i, e);
    let u = T[tn(T[i], e).0 as int];
    assert(tn(u, j) != inv());
    opp_is(P, u, j, T[i], e);
    incirc_perm(pp(P, tp(T[i], e)), pp(P, tp(T[i], nx(e))), pp(P, tp(T[i], pv(e))), pp(P, tp(u, j)));
    j
}
pub proof fn illp_sym(P: Seq<Point>, T: Seq<InnerTriangle>, x: TriangleId, y: TriangleId)
    requires mesh(P, T), illp(P, T, x, y)
    ensures illp(P, T, y, x), valid(T, x), valid(T, y)
{
    let e = choose|e: int| #[trigger] ill(P, T, x.0 as int, e) && tn(T[x.0 as int], e) == y;
    let j = loc_sym(P, T, x.0 as int, e);
    assert(ill(P, T, y.0 as int, j));
}
pub proof fn rot_dfl(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int)
    requires mesh(P, T0), rot_req(P, T0, t, ot, i, j), rotated(T0, T1, t, ot, i, j), dflags(P, T0)
    ensures dflags(P, T1)
{
    assert forall|x: int, e: int| #![trigger td(T1[x], e)] in3(T1, x, e) && td(T1[x], e) && tn(T1[x], e) != inv() implies loc(P, T1, x, e) by {
        if x != t.0 && x != ot.0 {
            let y = tn(T0[x], e);
            assert(rot_other(T0, T1, t, ot, i, j, x, e) && rot_other(T0, T1, t, ot, i, j, x, nx(e)) && rot_other(T0, T1, t, ot, i, j, x, pv(e)));
            let k = nb_at(P, T0, x, e);
            assert(rot_other(T0, T1, t, ot, i, j, y.0 as int, 0) && rot_other(T0, T1, t, ot, i, j, y.0 as int, 1) && rot_other(T0, T1, t, ot, i, j, y.0 as int, 2));
            assert(loc(P, T0, x, e));
        }
    }
}
pub proof fn rot_ill(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int)
    requires mesh(P, T0), rot_req(P, T0, t, ot, i, j), rotated(T0, T1, t, ot, i, j)
    ensures forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T1, x, y) && x != t && x != ot && y != t && y != ot ==> illp(P, T0, x, y)
{
    assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T1, x, y) && x != t && x != ot && y != t && y != ot implies illp(P, T0, x, y) by {
        let e = choose|e: int| #[trigger] ill(P, T1, x.0 as int, e) && tn(T1[x.0 as int], e) == y;
        let xi = x.0 as int; let yi = y.0 as int;
        assert(rot_other(T0, T1, t, ot, i, j, xi, e) && rot_other(T0, T1, t, ot, i, j, xi, nx(e)) && rot_other(T0, T1, t, ot, i, j, xi, pv(e)));
        let k = nb_at(P, T0, xi, e);
        assert(rot_other(T0, T1, t, ot, i, j, yi, 0) && rot_other(T0, T1, t, ot, i, j, yi, 1) && rot_other(T0, T1, t, ot, i, j, yi, 2));
        assert(ill(P, T0, xi, e));
    }
}
pub proof fn cedge_is(T: Seq<InnerTriangle>, i: int, e: int, a: PointId, b: PointId)
    requires in3(T, i, e), tc(T[i], e), joins(T[i], e, a, b)
    ensures cedge(T, a, b), cedge(T, b, a)
{ assert(joins(T[i], e, b, a)); }
pub proof fn rot_mono(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int)
    requires mesh(P, T0), rot_req(P, T0, t, ot, i, j), rotated(T0, T1, t, ot, i, j)
    ensures cmono(T0, T1), cback(T0, T1)
{
    rot_six(P, T0, t, ot, i, j);
    assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(T1, a, b) by {
        let (x, e) = choose|x: int, e: int| in3(T0, x, e) && tc(T0[x], e) && #[trigger] joins(T0[x], e, a, b);
        if x == t.0 {
            if e == nx(i) { cedge_is(T1, t.0 as int, pv(i), a, b); } else { cedge_is(T1, ot.0 as int, nx(j), a, b); }
        } else if x == ot.0 {
            if e == nx(j) { cedge_is(T1, ot.0 as int, pv(j), a, b); } else { cedge_is(T1, t.0 as int, nx(i), a, b); }
        } else {
            assert(rot_other(T0, T1, t, ot, i, j, x, e) && rot_other(T0, T1, t, ot, i, j, x, nx(e)) && rot_other(T0, T1, t, ot, i, j, x, pv(e)));
            cedge_is(T1, x, e, a, b);
        }
    }
    assert forall|a: PointId| vert(T0, a) implies #[trigger] vert(T1, a) by {
        let (x, e) = vert_at(T0, a); let (ti, oi) = (t.0 as int, ot.0 as int);
        vert_is(T1, ti, i); vert_is(T1, ti, nx(i)); vert_is(T1, ti, pv(i)); vert_is(T1, oi, j); vert_is(T1, oi, nx(j)); vert_is(T1, oi, pv(j));
        if x != ti && x != oi { assert(rot_other(T0, T1, t, ot, i, j, x, e)); vert_is(T1, x, e); }
    }
    assert forall|a: PointId, b: PointId| #[trigger] cedge(T1, a, b) implies cedge(T0, a, b) by {
        let (x, e) = choose|x: int, e: int| in3(T1, x, e) && tc(T1[x], e) && #[trigger] joins(T1[x], e, a, b);
        if x == t.0 {
            if e == pv(i) { cedge_is(T0, t.0 as int, nx(i), a, b); } else { cedge_is(T0, ot.0 as int, pv(j), a, b); }
        } else if x == ot.0 {
            if e == pv(j) { cedge_is(T0, ot.0 as int, nx(j), a, b); } else { cedge_is(T0, t.0 as int, pv(i), a, b); }
        } else {
            assert(rot_other(T0, T1, t, ot, i, j, x, e) && rot_other(T0, T1, t, ot, i, j, x, nx(e)) && rot_other(T0, T1, t, ot, i, j, x, pv(e)));
            cedge_is(T0, x, e, a, b);
        }
    }
}

// ---- adding a triangle, linking two triangles
pub open spec fn fresh(t: InnerTriangle) -> bool {
    &&& forall|i: int| i3(i) ==> #[trigger] tn(t, i) == inv()
    &&& forall|i: int| i3(i) ==> !(#[trigger] tc(t, i))
    &&& forall|i: int| i3(i) ==> !(#[trigger] td(t, i))
    &&& !t.interior
}
pub proof fn push_mesh(P: Seq<Point>, T0: Seq<InnerTriangle>, t: InnerTriangle)
    requires mesh(P, T0), tri_ok(P, t), fresh(t), T0.len() < usize::MAX - 1
    ensures mesh(P, T0.push(t)), dflags(P, T0) ==> dflags(P, T0.push(t)), cmono(T0, T0.push(t)), cback(T0, T0.push(t)),
        forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T0.push(t), x, y) ==> illp(P, T0, x, y),
{
    let T1 = T0.push(t);
    assert forall|x: int, e: int| in3(T1, x, e) implies #[trigger] nb(T1, x, e) by { if x < T0.len() { assert(nb(T0, x, e)); } }
    if dflags(P, T0) {
        assert forall|x: int, e: int| #![trigger td(T1[x], e)] in3(T1, x, e) && td(T1[x], e) && tn(T1[x], e) != inv() implies loc(P, T1, x, e) by { assert(nb(T0, x, e)); assert(td(T0[x], e)); }
    }
    vert_pts(T0, T1);
    assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(T1, a, b) by {
        let (x, e) = choose|x: int, e: int| in3(T0, x, e) && tc(T0[x], e) && #[trigger] joins(T0[x], e, a, b);
        cedge_is(T1, x, e, a, b);
    }
    assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T1, x, y) implies illp(P, T0, x, y) by {
        let e = choose|e: int| #[trigger] ill(P, T1, x.0 as int, e) && tn(T1[x.0 as int], e) == y;
        if x.0 < T0.len() { assert(nb(T0, x.0 as int, e)); assert(ill(P, T0, x.0 as int, e)); }
    }
    cback_same(T0, T1);
}
/// T1 is T0 with the boundary edges i of l and j of r linked
pub open spec fn linked(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, l: TriangleId, r: TriangleId, i: int, j: int) -> bool {
    &&& l != r && valid(T0, l) && valid(T0, r)
    &&& link2(l, r, T0[l.0 as int], T0[r.0 as int], T1[l.0 as int], T1[r.0 as int], i, j)
    &&& T1.len() == T0.len()
    &&& forall|x: int| 0 <= x < T0.len() && x != l.0 && x != r.0 ==> #[trigger] T1[x] == T0[x]
}
/// mark_neighbor links the two edges
pub proof fn link_is(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, l: TriangleId, r: TriangleId, i: int, j: int)
    requires mesh(P, T0), i3(i), i3(j), valid(T0, l), valid(T0, r), l != r, rev_edge(T0[l.0 as int], i, T0[r.0 as int], j),
        exists|l1: InnerTriangle, r1: InnerTriangle| #[trigger] linked2(l, r, T0[l.0 as int], T0[r.0 as int], l1, r1) && T1 == T0.update(l.0 as int, l1).update(r.0 as int, r1)
    ensures linked(T0, T1, l, r, i, j)
{
    let (l1, r1) = choose|l1: InnerTriangle, r1: InnerTriangle| #[trigger] linked2(l, r, T0[l.0 as int], T0[r.0 as int], l1, r1) && T1 == T0.update(l.0 as int, l1).update(r.0 as int, r1);
    let l0 = T0[l.0 as int]; let r0 = T0[r.0 as int];
    link2_is(P, l, r, l0, r0, l1, r1, i, j);
    assert(T1[l.0 as int] == l1 && T1[r.0 as int] == r1);
}
pub proof fn link2_is(P: Seq<Point>, l: TriangleId, r: TriangleId, l0: InnerTriangle, r0: InnerTriangle, l1: InnerTriangle, r1: InnerTriangle, i: int, j: int)
    requires i3(i), i3(j), tri_ok(P, l0), tri_ok(P, r0), rev_edge(l0, i, r0, j), linked2(l, r, l0, r0, l1, r1)
    ensures link2(l, r, l0, r0, l1, r1, i, j)
{
    tri_dist(P, l0); tri_dist(P, r0);
    if exists|i: int, j: int| #[trigger] link2(l, r, l0, r0, l1, r1, i, j) {
        let (i2, j2) = choose|i: int, j: int| #[trigger] link2(l, r, l0, r0, l1, r1, i, j);
        rev_unique(P, l0, i, r0, j, i2, j2);
    }
}
pub proof fn link_mesh(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, l: TriangleId, r: TriangleId, i: int, j: int)
    requires mesh(P, T0), linked(T0, T1, l, r, i, j), bd(T0, l.0 as int, i), bd(T0, r.0 as int, j)
    ensures mesh(P, T1), dflags(P, T0) ==> dflags(P, T1), cmono(T0, T1), cback(T0, T1),
        forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T1, x, y) ==> illp(P, T0, x, y) || (x == l && y == r) || (x == r && y == l),
        forall|x: int, e: int| #[trigger] bd(T1, x, e) <==> bd(T0, x, e) && !(x == l.0 && e == i) && !(x == r.0 && e == j),
        forall|x: int| 0 <= x < T0.len() ==> (#[trigger] T1[x]).points == T0[x].points && T1[x].interior == T0[x].interior,
{
    let li = l.0 as int; let ri = r.0 as int;
    assert(tri_ok(P, T0[li]) && tri_ok(P, T0[ri]));
    assert forall|x: int| 0 <= x < T0.len() implies (#[trigger] T1[x]).points == T0[x].points && T1[x].interior == T0[x].interior by {}
    assert forall|x: int| 0 <= x < T1.len() implies tri_ok(P, #[trigger] T1[x]) by { assert(tri_ok(P, T0[x])); }
    assert forall|x: int, e: int| in3(T1, x, e) implies #[trigger] nb(T1, x, e) by {
        if x == li && e == i { opp_is(P, T1[li], i, T1[ri], j); }
        else if x == ri && e == j { opp_is(P, T1[ri], j, T1[li], i); }
        else {
            assert(tn(T1[x], e) == tn(T0[x], e));
            if tn(T0[x], e) != inv() {
                let k = nb_at(P, T0, x, e); let y = tn(T0[x], e).0 as int;
                assert(tn(T0[y], k) != inv());
                assert(tn(T1[y], k) == tn(T0[y], k));
                assert(tc(T1[y], k) == tc(T0[y], k));
                assert(tc(T1[x], e) == tc(T0[x], e));
            }
        }
    }
    if dflags(P, T0) {
        assert forall|x: int, e: int| #![trigger td(T1[x], e)] in3(T1, x, e) && td(T1[x], e) && tn(T1[x], e) != inv() implies loc(P, T1, x, e) by { assert(td(T0[x], e)); assert(tn(T0[x], e) == tn(T1[x], e)); assert(nb(T0, x, e)); }
    }
    vert_pts(T0, T1);
    assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(T1, a, b) by {
        let (x, e) = choose|x: int, e: int| in3(T0, x, e) && tc(T0[x], e) && #[trigger] joins(T0[x], e, a, b);
        assert(tc(T1[x], e));
        cedge_is(T1, x, e, a, b);
    }
    assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T1, x, y) implies illp(P, T0, x, y) || (x == l && y == r) || (x == r && y == l) by {
        let e = choose|e: int| #[trigger] ill(P, T1, x.0 as int, e) && tn(T1[x.0 as int], e) == y;
        if !(x == l && e == i) && !(x == r && e == j) {
            assert(tn(T0[x.0 as int], e) == y); assert(tc(T1[x.0 as int], e) == tc(T0[x.0 as int], e));
            assert(nb(T0, x.0 as int, e));
            assert(ill(P, T0, x.0 as int, e));
        }
    }
    assert forall|x: int, e: int| #[trigger] bd(T1, x, e) <==> bd(T0, x, e) && !(x == l.0 && e == i) && !(x == r.0 && e == j) by {}
    assert forall|a: PointId, b: PointId| #[trigger] cedge(T1, a, b) implies cedge(T0, a, b) by {
        let (x, e) = choose|x: int, e: int| in3(T1, x, e) && tc(T1[x], e) && #[trigger] joins(T1[x], e, a, b);
        if !tc(T0[x], e) {
            assert(tc(T0[li], i) || tc(T0[ri], j));
            assert(rev_edge(T0[li], i, T0[ri], j));
            if x == li && e == i { assert(joins(T0[ri], j, a, b)); cedge_is(T0, ri, j, a, b); }
            else { assert(x == ri && e == j); assert(joins(T0[li], i, a, b)); cedge_is(T0, li, i, a, b); }
        } else { assert(joins(T0[x], e, a, b)); cedge_is(T0, x, e, a, b); }
    }
}

// ---- the state of a sweeper
pub open spec fn sP(s: &Sweeper) -> Seq<Point> { s.points.points@ }
pub open spec fn sT(s: &Sweeper) -> Seq<InnerTriangle> { s.triangles.triangles@ }
pub open spec fn sF(s: &Sweeper) -> Seq<Entry> { s.advancing_front.nodes@ }
/// what no function of the sweep changes
#[verifier::prophetic]
pub open spec fn frame<'a>(s0: &Sweeper<'a>, s1: &Sweeper<'a>) -> bool {
    &&& s1.points == s0.points && s1.result == s0.result
    &&& *final(s1.triangles) == *final(s0.triangles) && *final(s1.advancing_front) == *final(s0.advancing_front)
}
/// after turning the two triangles, before their neighbors are linked again
pub open spec fn rot_a0(P: Seq<Point>, a: InnerTriangle, b: InnerTriangle, a0: InnerTriangle, b0: InnerTriangle, i: int, j: int) -> bool {
    &&& tp(a0, i) == tp(a, pv(i)) && tp(a0, nx(i)) == tp(a, i) && tp(a0, pv(i)) == tp(b, j)
    &&& tp(b0, j) == tp(b, pv(j)) && tp(b0, nx(j)) == tp(b, j) && tp(b0, pv(j)) == tp(a, i)
    &&& a0.edge_attrs@[i] == a.edge_attrs@[i] && a0.edge_attrs@[nx(i)] == b.edge_attrs@[pv(j)] && a0.edge_attrs@[pv(i)] == a.edge_attrs@[nx(i)]
    &&& b0.edge_attrs@[j] == b.edge_attrs@[j] && b0.edge_attrs@[nx(j)] == a.edge_attrs@[pv(i)] && b0.edge_attrs@[pv(j)] == b.edge_attrs@[nx(j)]
    &&& forall|e: int| i3(e) ==> #[trigger] tn(a0, e) == inv()
    &&& forall|e: int| i3(e) ==> #[trigger] tn(b0, e) == inv()
    &&& a0.interior == a.interior && b0.interior == b.interior
}
/// x1, c1 are x, c after linking edge e of x to edge k of the triangle m
pub open spec fn lk(P: Seq<Point>, t: TriangleId, m: TriangleId, x: InnerTriangle, c: InnerTriangle, x1: InnerTriangle, c1: InnerTriangle) -> bool {
    if m == inv() { x1 == x } else { linked2(t, m, x, c, x1, c1) }
}
pub open spec fn rot_asm(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int, a0: InnerTriangle, a1: InnerTriangle, a2: InnerTriangle, b0: InnerTriangle, b1: InnerTriangle, b2: InnerTriangle) -> bool {
    let a = T0[t.0 as int]; let b = T0[ot.0 as int];
    let (n1, n2, n3, n4) = (tn(a, pv(i)), tn(a, nx(i)), tn(b, pv(j)), tn(b, nx(j)));
    &&& rot_a0(P, a, b, a0, b0, i, j)
    &&& linked2(t, ot, a0, b0, a1, b1)
    &&& lk(P, t, n2, a1, T0[n2.0 as int], a2, T1[n2.0 as int])
    &&& lk(P, t, n3, a2, T0[n3.0 as int], T1[t.0 as int], T1[n3.0 as int])
    &&& lk(P, ot, n1, b1, T0[n1.0 as int], b2, T1[n1.0 as int])
    &&& lk(P, ot, n4, b2, T0[n4.0 as int], T1[ot.0 as int], T1[n4.0 as int])
    &&& T1.len() == T0.len()
    &&& forall|x: int| 0 <= x < T0.len() && x != t.0 && x != ot.0 && x != n1.0 && x != n2.0 && x != n3.0 && x != n4.0 ==> #[trigger] T1[x] == T0[x]
}
pub proof fn rot_asm_is(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int, a0: InnerTriangle, a1: InnerTriangle, a2: InnerTriangle, b0: InnerTriangle, b1: InnerTriangle, b2: InnerTriangle)
    requires mesh(P, T0), rot_req(P, T0, t, ot, i, j), rot_asm(P, T0, T1, t, ot, i, j, a0, a1, a2, b0, b1, b2)
    ensures rotated(T0, T1, t, ot, i, j), rot_rets(T0, t, ot, i, j)
{
    let ti = t.0 as int; let oi = ot.0 as int;
    let a = T0[t.0 as int]; let b = T0[ot.0 as int];
    let (n1, n2, n3, n4) = (tn(a, pv(i)), tn(a, nx(i)), tn(b, pv(j)), tn(b, nx(j)));
    rot_six(P, T0, t, ot, i, j);
    assert(tri_ok(P, a) && tri_ok(P, b));
    tri_dist(P, a); tri_dist(P, b);
    good3_perm(pp(P, tp(a0, i)), pp(P, tp(a0, nx(i))), pp(P, tp(a0, pv(i))));
    orient_perm(pp(P, tp(a, i)), pp(P, tp(a, nx(i))), pp(P, tp(b, j)));
    good3_perm(pp(P, tp(b0, j)), pp(P, tp(b0, nx(j))), pp(P, tp(b0, pv(j))));
    assert(tri_ok(P, a0) && tri_ok(P, b0));
    link2_is(P, t, ot, a0, b0, a1, b1, i, j);
    let a3 = T1[ti]; let b3 = T1[oi];
    let k2 = if n2 != inv() { let k = nb_at(P, T0, ti, nx(i)); link2_is(P, t, n2, a1, T0[n2.0 as int], a2, T1[n2.0 as int], pv(i), k); k } else { 0 };
    let k3 = if n3 != inv() { let k = nb_at(P, T0, oi, pv(j)); link2_is(P, t, n3, a2, T0[n3.0 as int], a3, T1[n3.0 as int], nx(i), k); k } else { 0 };
    let k1 = if n1 != inv() { let k = nb_at(P, T0, ti, pv(i)); link2_is(P, ot, n1, b1, T0[n1.0 as int], b2, T1[n1.0 as int], nx(j), k); k } else { 0 };
    let k4 = if n4 != inv() { let k = nb_at(P, T0, oi, nx(j)); link2_is(P, ot, n4, b2, T0[n4.0 as int], b3, T1[n4.0 as int], pv(j), k); k } else { 0 };
    assert(rot_pair(a, b, a3, b3, t, ot, i, j)) by {
        rot_pair1(a0, a1, a2, a3, ot, i, pv(i), n2, tc(a, nx(i)), nx(i), n3, tc(b, pv(j)));
        rot_pair1(b0, b1, b2, b3, t, j, nx(j), n1, tc(a, pv(i)), pv(j), n4, tc(b, nx(j)));
    }
    assert forall|x: int, e: int| in3(T0, x, e) && x != ti && x != oi implies #[trigger] rot_other(T0, T1, t, ot, i, j, x, e) by {
        if x == n1.0 { rot_oth1(P, T0, T1, t, ot, i, j, x, e, k1); }
        else if x == n2.0 { rot_oth2(P, T0, T1, t, ot, i, j, x, e, k2); }
        else if x == n3.0 { rot_oth1(P, T0, T1, ot, t, j, i, x, e, k3); }
        else if x == n4.0 { rot_oth2(P, T0, T1, ot, t, j, i, x, e, k4); }
        else { rot_de(P, T0, t, ot, i, j, x, e); }
    }
    assert(n1 == inv() <==> bd(T0, ti, pv(i))); assert(n2 == inv() <==> bd(T0, ti, nx(i))); assert(n3 == inv() <==> bd(T0, oi, pv(j))); assert(n4 == inv() <==> bd(T0, oi, nx(j)));
    assert(!bd(T0, ti, i) && !bd(T0, oi, j));
}
pub open spec fn rot_rets(T0: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int) -> bool {
    let a = T0[t.0 as int]; let b = T0[ot.0 as int];
    (tn(a, pv(i)) == inv() || tn(a, nx(i)) == inv() || tn(b, pv(j)) == inv() || tn(b, nx(j)) == inv()) == exists|e: int| bd(T0, t.0 as int, e) || bd(T0, ot.0 as int, e)
}
proof fn rev_unique2(P: Seq<Point>, a: InnerTriangle, u: InnerTriangle, f: int, k: int, e: int)
    requires tri_ok(P, a), tri_ok(P, u), i3(f), i3(k), i3(e), rev_edge(a, f, u, k)
    ensures e != k ==> !is_de(u, e, tp(a, pv(f)), tp(a, nx(f)))
{ if e != k && is_de(u, e, tp(a, pv(f)), tp(a, nx(f))) { rev_unique(P, a, f, u, k, f, e); } }
proof fn rot_pair1(a0: InnerTriangle, a1: InnerTriangle, a2: InnerTriangle, a3: InnerTriangle, ot: TriangleId, i: int, f: int, n2: TriangleId, c2: bool, g: int, n3: TriangleId, c3: bool)
    requires i3(i), (f == pv(i) && g == nx(i)) || (f == nx(i) && g == pv(i)), !tc(a0, i), tc(a0, f) == c2, tc(a0, g) == c3,
        forall|e: int| i3(e) ==> #[trigger] tn(a0, e) == inv(),
        linkpost(a0, a1, i, ot, false),
        n2 == inv() ==> a2 == a1, n2 != inv() ==> linkpost(a1, a2, f, n2, c2),
        n3 == inv() ==> a3 == a2, n3 != inv() ==> linkpost(a2, a3, g, n3, c3),
    ensures a3.points == a0.points, a3.interior == a0.interior, tn(a3, i) == ot, tn(a3, g) == n3, tn(a3, f) == n2,
        !tc(a3, i), tc(a3, f) == c2, tc(a3, g) == c3,
        forall|e: int| #![trigger td(a3, e)] i3(e) && td(a3, e) ==> tn(a3, e) == inv()
{
    assert(tn(a0, f) == inv() && tn(a0, g) == inv());
    assert(tn(a1, f) == inv() && tn(a1, g) == inv());
    assert(tc(a1, f) == c2 && tc(a1, g) == c3 && !tc(a1, i) && !td(a1, i));
    assert(tn(a2, f) == n2 && tn(a2, g) == inv());
    assert(tc(a2, f) == c2 && tc(a2, g) == c3 && !tc(a2, i) && !td(a2, i));
    assert(n2 != inv() ==> !td(a2, f));
    assert(tn(a3, f) == n2 && tn(a3, g) == n3);
    assert(tc(a3, f) == c2 && tc(a3, g) == c3 && !tc(a3, i) && !td(a3, i));
    assert(n2 != inv() ==> !td(a3, f)); assert(n3 != inv() ==> !td(a3, g));
}
pub proof fn rot_req_sym(P: Seq<Point>, T: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int)
    requires mesh(P, T), rot_req(P, T, t, ot, i, j)
    ensures rot_req(P, T, ot, t, j, i)
{
    rot_six(P, T, t, ot, i, j);
    let a = T[t.0 as int]; let b = T[ot.0 as int];
    let k = nb_at(P, T, ot.0 as int, j);
    opp_is(P, b, j, a, i);
    orient_perm(pp(P, tp(a, i)), pp(P, tp(a, nx(i))), pp(P, tp(b, j)));
    orient_perm(pp(P, tp(a, pv(i))), pp(P, tp(a, i)), pp(P, tp(b, j)));
}
/// the neighbor across the edge between nx(i) and i, which moves to the other triangle
proof fn rot_oth1(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int, x: int, e: int, k: int)
    requires mesh(P, T0), rot_req(P, T0, t, ot, i, j) || rot_req(P, T0, ot, t, j, i), in3(T0, x, e), x != t.0, x != ot.0, i3(k), i3(i), i3(j),
        tn(T0[t.0 as int], pv(i)).0 == x, rev_edge(T0[t.0 as int], pv(i), T0[x], k), tn(T0[x], k) == t, tc(T0[x], k) == tc(T0[t.0 as int], pv(i)), linkpost(T0[x], T1[x], k, ot, tc(T0[t.0 as int], pv(i))),
    ensures rot_other(T0, T1, t, ot, i, j, x, e), rot_other(T0, T1, ot, t, j, i, x, e)
{
    if rot_req(P, T0, t, ot, i, j) { rot_req_sym(P, T0, t, ot, i, j); } else { rot_req_sym(P, T0, ot, t, j, i); }
    rot_de(P, T0, t, ot, i, j, x, e);
    rot_de(P, T0, t, ot, i, j, x, k);
    rot_six(P, T0, t, ot, i, j);
    assert(tri_ok(P, T0[t.0 as int]) && tri_ok(P, T0[x]));
    rev_unique2(P, T0[t.0 as int], T0[x], pv(i), k, e);
    if tn(T0[x], e) == t || tn(T0[x], e) == ot { let q = nb_at(P, T0, x, e); }
    assert(e != k ==> tn(T0[x], e) != t && tn(T0[x], e) != ot);
}
/// the neighbor across the edge between i and pv(i), which stays
proof fn rot_oth2(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int, x: int, e: int, k: int)
    requires mesh(P, T0), rot_req(P, T0, t, ot, i, j) || rot_req(P, T0, ot, t, j, i), in3(T0, x, e), x != t.0, x != ot.0, i3(k), i3(i), i3(j),
        tn(T0[t.0 as int], nx(i)).0 == x, rev_edge(T0[t.0 as int], nx(i), T0[x], k), tn(T0[x], k) == t, tc(T0[x], k) == tc(T0[t.0 as int], nx(i)), linkpost(T0[x], T1[x], k, t, tc(T0[t.0 as int], nx(i))),
    ensures rot_other(T0, T1, t, ot, i, j, x, e), rot_other(T0, T1, ot, t, j, i, x, e)
{
    if rot_req(P, T0, t, ot, i, j) { rot_req_sym(P, T0, t, ot, i, j); } else { rot_req_sym(P, T0, ot, t, j, i); }
    rot_de(P, T0, t, ot, i, j, x, e);
    rot_de(P, T0, t, ot, i, j, x, k);
    rot_six(P, T0, t, ot, i, j);
    assert(tri_ok(P, T0[t.0 as int]) && tri_ok(P, T0[x]));
    rev_unique2(P, T0[t.0 as int], T0[x], nx(i), k, e);
    if tn(T0[x], e) == t || tn(T0[x], e) == ot { let q = nb_at(P, T0, x, e); }
    assert(e != k ==> tn(T0[x], e) != t && tn(T0[x], e) != ot);
}

// ---- the advancing front against the mesh: ids I in order, G[k] the triangle below the part I[k], I[k+1]
pub open spec fn ids(F: Seq<Entry>) -> Seq<PointId> { Seq::new(F.len(), |k: int| fid(F, k)) }
pub open spec fn tris(F: Seq<Entry>) -> Seq<TriangleId> { Seq::new(F.len(), |k: int| ftri(F, k)) }
/// edge e of i is the part k of the front
pub open spec fn fe(T: Seq<InnerTriangle>, I: Seq<PointId>, i: int, e: int, k: int) -> bool { tp(T[i], pv(e)) == I[k] && tp(T[i], nx(e)) == I[k + 1] }
pub open spec fn fpart(T: Seq<InnerTriangle>, I: Seq<PointId>, G: Seq<TriangleId>, k: int) -> bool { exists|e: int| bd(T, G[k].0 as int, e) && #[trigger] fe(T, I, G[k].0 as int, e, k) }
pub open spec fn fhit(T: Seq<InnerTriangle>, I: Seq<PointId>, G: Seq<TriangleId>, i: int, e: int, k: int) -> bool { 0 <= k < I.len() - 1 && G[k].0 == i && fe(T, I, i, e, k) }
pub open spec fn is_base(t: InnerTriangle, e: int, h: PointId, l: PointId) -> bool { tp(t, nx(e)) == h && tp(t, pv(e)) == l }
/// the boundary of the mesh is the front and the base line from head to tail
pub open spec fn front(T: Seq<InnerTriangle>, I: Seq<PointId>, G: Seq<TriangleId>, h: PointId, l: PointId) -> bool {
    &&& I.len() >= 2 && G.len() == I.len() && I[0] == h && I[I.len() - 1] == l
    &&& forall|k: int| 0 <= k < I.len() - 1 ==> #[trigger] fpart(T, I, G, k)
    &&& forall|i: int, e: int| #[trigger] bd(T, i, e) ==> is_base(T[i], e, h, l) || exists|k: int| #[trigger] fhit(T, I, G, i, e, k)
}
/// ids of the problem, ascending in (x, y)
pub open spec fn isorted(P: Seq<Point>, I: Seq<PointId>) -> bool {
    &&& forall|k: int| 0 <= k < I.len() ==> (#[trigger] I[k]).0 < P.len()
    &&& forall|a: int, b: int| #![trigger I[a], I[b]] 0 <= a < b < I.len() ==> lt(pp(P, I[a]), pp(P, I[b]))
}
/// the keys of the front are the positions of its points
pub open spec fn keyed(P: Seq<Point>, F: Seq<Entry>) -> bool { forall|k: int| 0 <= k < F.len() ==> fid(F, k).0 < P.len() && #[trigger] F[k].key.0 == P[fid(F, k).0 as int] }
/// the stored triangles are G, but maybe not those in L
pub open spec fn lag(F: Seq<Entry>, G: Seq<TriangleId>, L: Seq<TriangleId>) -> bool { G.len() == F.len() && forall|k: int| #![trigger G[k]] 0 <= k < F.len() - 1 ==> G[k] == ftri(F, k) || L.contains(G[k]) }

pub proof fn fe_unique(P: Seq<Point>, T: Seq<InnerTriangle>, I: Seq<PointId>, i: int, e: int, k: int, f: int, m: int)
    requires isorted(P, I), 0 <= k < I.len() - 1, 0 <= m < I.len() - 1, fe(T, I, i, e, k), fe(T, I, i, f, m), i3(e), i3(f), tri_ok(P, T[i])
    ensures k == m <==> e == f
{ tri_dist(P, T[i]); }
/// the triangles below the front after a rotation
pub open spec fn rot_g(T: Seq<InnerTriangle>, I: Seq<PointId>, G: Seq<TriangleId>, t: TriangleId, ot: TriangleId, i: int, j: int) -> Seq<TriangleId> {
    Seq::new(G.len(), |k: int| if 0 <= k < I.len() - 1 && G[k] == t && fe(T, I, t.0 as int, pv(i), k) { ot } else if 0 <= k < I.len() - 1 && G[k] == ot && fe(T, I, ot.0 as int, pv(j), k) { t } else { G[k] })
}
pub proof fn rot_front(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, I: Seq<PointId>, G: Seq<TriangleId>, h: PointId, l: PointId, t: TriangleId, ot: TriangleId, i: int, j: int)
    requires mesh(P, T0), mesh(P, T1), rot_req(P, T0, t, ot, i, j), rotated(T0, T1, t, ot, i, j), front(T0, I, G, h, l), isorted(P, I)
    ensures front(T1, I, rot_g(T0, I, G, t, ot, i, j), h, l),
        (forall|e: int| !bd(T0, t.0 as int, e) && !bd(T0, ot.0 as int, e)) ==> forall|k: int| 0 <= k < I.len() - 1 ==> #[trigger] rot_g(T0, I, G, t, ot, i, j)[k] == G[k],
{
    rot_six(P, T0, t, ot, i, j);
    let ti = t.0 as int; let oi = ot.0 as int;
    let G1 = rot_g(T0, I, G, t, ot, i, j);
    assert(tri_ok(P, T0[ti]) && tri_ok(P, T0[oi]));
    tri_dist(P, T0[ti]); tri_dist(P, T0[oi]);
    assert forall|k: int| 0 <= k < I.len() - 1 implies #[trigger] fpart(T1, I, G1, k) by {
        assert(fpart(T0, I, G, k));
        let e = choose|e: int| bd(T0, G[k].0 as int, e) && #[trigger] fe(T0, I, G[k].0 as int, e, k);
        let x = G[k].0 as int;
        if x == ti {
            assert(e != i);
            if e == nx(i) { assert(!fe(T0, I, ti, pv(i), k)); assert(G1[k] == t); assert(fe(T1, I, ti, pv(i), k)); assert(bd(T1, ti, pv(i))); } else { assert(G1[k] == ot); assert(fe(T1, I, oi, nx(j), k)); assert(bd(T1, oi, nx(j))); }
        } else if x == oi {
            assert(e != j);
            if e == nx(j) { assert(!fe(T0, I, oi, pv(j), k)); assert(G1[k] == ot); assert(fe(T1, I, oi, pv(j), k)); assert(bd(T1, oi, pv(j))); } else { assert(G1[k] == t); assert(fe(T1, I, ti, nx(i), k)); assert(bd(T1, ti, nx(i))); }
        } else {
            assert(rot_other(T0, T1, t, ot, i, j, x, e) && rot_other(T0, T1, t, ot, i, j, x, nx(e)) && rot_other(T0, T1, t, ot, i, j, x, pv(e)));
            assert(G1[k].0 == x); assert(fe(T1, I, x, e, k)); assert(bd(T1, x, e));
        }
    }
    assert forall|x: int, e: int| #[trigger] bd(T1, x, e) implies is_base(T1[x], e, h, l) || exists|k: int| #[trigger] fhit(T1, I, G1, x, e, k) by {
        let (y, f) = if x == ti { if e == pv(i) { (ti, nx(i)) } else { (oi, pv(j)) } } else if x == oi { if e == pv(j) { (oi, nx(j)) } else { (ti, pv(i)) } } else { (x, e) };
        if x != ti && x != oi { assert(rot_other(T0, T1, t, ot, i, j, x, e) && rot_other(T0, T1, t, ot, i, j, x, nx(e)) && rot_other(T0, T1, t, ot, i, j, x, pv(e))); }
        assert(bd(T0, y, f));
        if !is_base(T0[y], f, h, l) {
            let k = choose|k: int| #[trigger] fhit(T0, I, G, y, f, k);
            assert(fhit(T1, I, G1, x, e, k));
        }
    }
    if forall|e: int| !bd(T0, ti, e) && !bd(T0, oi, e) {
        assert forall|k: int| 0 <= k < I.len() - 1 implies #[trigger] G1[k] == G[k] by {
            assert(fpart(T0, I, G, k));
            let e = choose|e: int| bd(T0, G[k].0 as int, e) && #[trigger] fe(T0, I, G[k].0 as int, e, k);
        }
    }
}
/// only the edges, not their marks, matter
pub open spec fn same_net(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>) -> bool {
    T1.len() == T0.len() && forall|i: int| 0 <= i < T0.len() ==> (#[trigger] T1[i]).points == T0[i].points && T1[i].neighbors == T0[i].neighbors && T1[i].interior == T0[i].interior
}
pub open spec fn same_pn(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>) -> bool {
    T1.len() == T0.len() && forall|i: int| 0 <= i < T0.len() ==> (#[trigger] T1[i]).points == T0[i].points && T1[i].neighbors == T0[i].neighbors
}
pub open spec fn same_con(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>) -> bool { forall|i: int, e: int| #![trigger tc(T1[i], e)] in3(T0, i, e) ==> tc(T1[i], e) == tc(T0[i], e) }
pub proof fn front_net(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, I: Seq<PointId>, G: Seq<TriangleId>, G1: Seq<TriangleId>, h: PointId, l: PointId)
    requires front(T0, I, G, h, l), same_pn(T0, T1), G1.len() == G.len(), forall|k: int| 0 <= k < I.len() - 1 ==> #[trigger] G1[k] == G[k]
    ensures front(T1, I, G1, h, l)
{
    assert forall|x: int, e: int| #[trigger] bd(T1, x, e) implies is_base(T1[x], e, h, l) || exists|k: int| #[trigger] fhit(T1, I, G1, x, e, k) by {
        assert(bd(T0, x, e));
        if !is_base(T0[x], e, h, l) { let k = choose|k: int| #[trigger] fhit(T0, I, G, x, e, k); assert(fhit(T1, I, G1, x, e, k)); }
    }
    assert forall|k: int| 0 <= k < I.len() - 1 implies #[trigger] fpart(T1, I, G1, k) by {
        assert(fpart(T0, I, G, k));
        let e = choose|e: int| bd(T0, G[k].0 as int, e) && #[trigger] fe(T0, I, G[k].0 as int, e, k);
        assert(bd(T1, G1[k].0 as int, e) && fe(T1, I, G1[k].0 as int, e, k));
    }
}
/// marking an edge as locally Delaunay
pub proof fn net_con(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>)
    requires mesh(P, T0), same_net(T0, T1), same_con(T0, T1)
    ensures mesh(P, T1), cmono(T0, T1), cback(T0, T1), forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T1, x, y) ==> illp(P, T0, x, y),
        forall|i: int, e: int| in3(T0, i, e) && tn(T0[i], e) != inv() ==> #[trigger] loc(P, T1, i, e) == loc(P, T0, i, e),
{
    assert forall|i: int, e: int| in3(T0, i, e) && tn(T0[i], e) != inv() implies #[trigger] loc(P, T1, i, e) == loc(P, T0, i, e) by { assert(nb(T0, i, e)); }
    assert forall|i: int| 0 <= i < T1.len() implies tri_ok(P, #[trigger] T1[i]) by { assert(tri_ok(P, T0[i])); }
    assert forall|i: int, e: int| in3(T1, i, e) implies #[trigger] nb(T1, i, e) by {
        assert(nb(T0, i, e)); assert(tc(T1[i], e) == tc(T0[i], e));
        if tn(T0[i], e) != inv() { let y = tn(T0[i], e).0 as int; let j = opp(T0[i], e, T0[y]); assert(tc(T1[y], j) == tc(T0[y], j)); }
    }
    vert_pts(T0, T1);
    assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(T1, a, b) by {
        let (x, e) = choose|x: int, e: int| in3(T0, x, e) && tc(T0[x], e) && #[trigger] joins(T0[x], e, a, b);
        assert(tc(T1[x], e)); cedge_is(T1, x, e, a, b);
    }
    assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T1, x, y) implies illp(P, T0, x, y) by {
        let e = choose|e: int| #[trigger] ill(P, T1, x.0 as int, e) && tn(T1[x.0 as int], e) == y;
        assert(tc(T1[x.0 as int], e) == tc(T0[x.0 as int], e)); assert(loc(P, T1, x.0 as int, e) == loc(P, T0, x.0 as int, e));
        assert(ill(P, T0, x.0 as int, e));
    }
    cback_same(T0, T1);
}
pub proof fn f_sorted(P: Seq<Point>, F: Seq<Entry>)
    requires fsorted(F), keyed(P, F)
    ensures isorted(P, ids(F)), forall|k: int| #![trigger ids(F)[k]] 0 <= k < F.len() ==> fk(F, k) == pp(P, ids(F)[k])
{
    assert forall|k: int| #![trigger ids(F)[k]] 0 <= k < F.len() implies fk(F, k) == pp(P, ids(F)[k]) && ids(F)[k].0 < P.len() by { assert(F[k].key.0 == P[fid(F, k).0 as int]); }
}
pub open spec fn env(P: Points) -> bool { points_ok(P) && helpers(P) && distinct(P.points@) && P.points@.len() > 2 }
pub open spec fn queues(s: &Sweeper) -> bool { s.legalize_task_queue@.len() == 0 && s.legalize_remap_tids@.len() == 0 && s.triangle_id_queue@.len() == 0 }
/// all but the link between front and mesh
pub open spec fn noint(T: Seq<InnerTriangle>) -> bool { forall|i: int| 0 <= i < T.len() ==> !(#[trigger] T[i]).interior }
pub open spec fn all_valid(T: Seq<InnerTriangle>, S: Seq<TriangleId>) -> bool { forall|i: int| 0 <= i < S.len() ==> valid(T, #[trigger] S[i]) }
pub open spec fn base_ok(s: &Sweeper) -> bool {
    &&& env(*s.points) && queues(s)
    &&& mesh(sP(s), sT(s)) && dflags(sP(s), sT(s)) && noint(sT(s))
    &&& af_ok(*s.advancing_front) && keyed(sP(s), sF(s))
}
pub open spec fn fronts(s: &Sweeper, G: Seq<TriangleId>) -> bool { front(sT(s), ids(sF(s)), G, s.points.head, s.points.tail) }
pub open spec fn front_ok(s: &Sweeper) -> bool { fronts(s, tris(sF(s))) }
/// up to the triangles in L
pub open spec fn front_lag(s: &Sweeper, L: Seq<TriangleId>) -> bool { exists|G: Seq<TriangleId>| #[trigger] fronts(s, G) && lag(sF(s), G, L) }
/// the state between two steps
pub open spec fn sok(s: &Sweeper) -> bool { base_ok(s) && front_ok(s) }
pub open spec fn obs_mesh(s: &Sweeper) -> bool { mesh(sP(s), sT(s)) }
pub open spec fn obs_front(s: &Sweeper) -> bool { fsorted(sF(s)) && keyed(sP(s), sF(s)) && front_ok(s) }

pub proof fn id_range(P: Points, F: Seq<Entry>, id: PointId)
    requires env(P), fsorted(F), keyed(P.points@, F), F.len() >= 2, fid(F, 0) == P.head, fid(F, F.len() - 1) == P.tail, id.0 < P.points@.len()
    ensures in_range(F, pp(P.points@, id))
{
    assert(F[0].key.0 == P.points@[fid(F, 0).0 as int]); assert(F[F.len() - 1].key.0 == P.points@[fid(F, F.len() - 1).0 as int]);
    assert(lt(fk(F, 0), fk(F, F.len() - 1)));
    let n = P.points@.len() - 2;
    if id.0 < n { assert(pp(P.points@, P.head).0 < p2(P.points@[id.0 as int]).0); }
}
/// the entries at the start of the boundary edges 0..n of t have t as their triangle, nothing else is changed
pub open spec fn mapped(T: Seq<InnerTriangle>, F0: Seq<Entry>, F1: Seq<Entry>, t: TriangleId, n: int) -> bool {
    &&& F1.len() == F0.len()
    &&& forall|k: int| 0 <= k < F0.len() ==> (#[trigger] F1[k]).key == F0[k].key && F1[k].node.point_id == F0[k].node.point_id
    &&& forall|k: int| #![trigger F1[k]] 0 <= k < F0.len() ==> F1[k].node.triangle == F0[k].node.triangle || (F1[k].node.triangle == t && exists|e: int| 0 <= e < n && #[trigger] bd(T, t.0 as int, e) && fid(F0, k) == tp(T[t.0 as int], pv(e)))
    &&& forall|k: int, e: int| 0 <= k < F0.len() && 0 <= e < n && #[trigger] bd(T, t.0 as int, e) && #[trigger] fid(F0, k) == tp(T[t.0 as int], pv(e)) ==> ftri(F1, k) == t
}
pub proof fn mapped_step(P: Points, T: Seq<InnerTriangle>, F0: Seq<Entry>, F1: Seq<Entry>, F2: Seq<Entry>, t: TriangleId, i: int, point: Point)
    requires env(P), mesh(P.points@, T), valid(T, t), i3(i), keyed(P.points@, F0), fsorted(F0), mapped(T, F0, F1, t, i), bd(T, t.0 as int, i), p2(point) == pp(P.points@, tp(T[t.0 as int], pv(i))),
        exists|k: int| #[trigger] retri(F1, F2, k, point, t)
    ensures mapped(T, F0, F2, t, i + 1), keyed(P.points@, F2)
{
    let k = choose|k: int| #[trigger] retri(F1, F2, k, point, t);
    assert(F0[k].key.0 == P.points@[fid(F0, k).0 as int]);
    assert(tri_ok(P.points@, T[t.0 as int]));
    let q = tp(T[t.0 as int], pv(i));
    assert(F1[k].key == F0[k].key);
    assert(fk(F1, k) == p2(point));
    assert(fid(F0, k) == q);
    assert forall|m: int, e: int| 0 <= m < F0.len() && 0 <= e < i + 1 && #[trigger] bd(T, t.0 as int, e) && #[trigger] fid(F0, m) == tp(T[t.0 as int], pv(e)) implies ftri(F2, m) == t by {
        if e == i { assert(F0[m].key.0 == P.points@[q.0 as int]); assert(F1[m].key == F0[m].key); assert(fk(F0, m) == fk(F0, k)); assert(m == k); } else { assert(ftri(F1, m) == t); }
    }
    assert forall|m: int| #![trigger F2[m]] 0 <= m < F0.len() implies F2[m].node.triangle == F0[m].node.triangle || (F2[m].node.triangle == t && exists|e: int| 0 <= e < i + 1 && #[trigger] bd(T, t.0 as int, e) && fid(F0, m) == tp(T[t.0 as int], pv(e))) by {
        assert(F1[m].node.triangle == F0[m].node.triangle || F1[m].node.triangle == t);
    }
    assert forall|m: int| 0 <= m < F2.len() implies fid(F2, m).0 < P.points@.len() && #[trigger] F2[m].key.0 == P.points@[fid(F2, m).0 as int] by { assert(F0[m].key.0 == P.points@[fid(F0, m).0 as int]); assert(F1[m].key == F0[m].key); }
}

// ---- legalization
/// an edge that is not locally Delaunay lies at a triangle of S, or was there before, away from tid
pub open spec fn leg(P: Seq<Point>, T0: Seq<InnerTriangle>, T: Seq<InnerTriangle>, S: Seq<TriangleId>, tid: TriangleId) -> bool {
    forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T, x, y) ==> S.contains(x) || S.contains(y) || (illp(P, T0, x, y) && x != tid && y != tid)
}
pub proof fn push_has(S: Seq<TriangleId>, a: TriangleId)
    ensures forall|x: TriangleId| #[trigger] S.push(a).contains(x) <==> x == a || S.contains(x)
{
    let R = S.push(a);
    assert(R[S.len() as int] == a);
    assert forall|x: TriangleId| #[trigger] S.push(a).contains(x) <==> x == a || S.contains(x) by {
        if S.contains(x) { let i = choose|i: int| 0 <= i < S.len() && S[i] == x; assert(R[i] == x); }
        if R.contains(x) { let i = choose|i: int| 0 <= i < R.len() && R[i] == x; if i < S.len() { assert(S[i] == x); } }
    }
}
pub proof fn leg_pop(P: Seq<Point>, T0: Seq<InnerTriangle>, T: Seq<InnerTriangle>, Q: Seq<TriangleId>, Q1: Seq<TriangleId>, cur: TriangleId, tid: TriangleId)
    requires leg(P, T0, T, Q, tid), Q.len() > 0, Q1 == Q.drop_last(), cur == Q.last()
    ensures leg(P, T0, T, Q1.push(cur), tid)
{ assert(Q1.push(cur) =~= Q); }
/// all edges of cur are fine
pub proof fn leg_done(P: Seq<Point>, T0: Seq<InnerTriangle>, T: Seq<InnerTriangle>, Q: Seq<TriangleId>, cur: TriangleId, tid: TriangleId)
    requires mesh(P, T), leg(P, T0, T, Q.push(cur), tid), forall|e: int| i3(e) ==> !#[trigger] ill(P, T, cur.0 as int, e)
    ensures leg(P, T0, T, Q, tid)
{
    push_has(Q, cur);
    assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T, x, y) implies Q.contains(x) || Q.contains(y) || (illp(P, T0, x, y) && x != tid && y != tid) by {
        illp_sym(P, T, x, y);
        assert(!illp(P, T, cur, y) && !illp(P, T, cur, x)) by { }
    }
}
/// T2 is T1 with the shared edge of t and ot marked as Delaunay
pub open spec fn dmarked(T1: Seq<InnerTriangle>, T2: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int) -> bool {
    &&& T2.len() == T1.len()
    &&& set_dflag(T1[t.0 as int], T2[t.0 as int], i, true) && set_dflag(T1[ot.0 as int], T2[ot.0 as int], j, true)
    &&& forall|x: int| 0 <= x < T1.len() && x != t.0 && x != ot.0 ==> #[trigger] T2[x] == T1[x]
}
/// the edge i of t is not locally Delaunay: it can be flipped
pub proof fn ill_req(P: Seq<Point>, T: Seq<InnerTriangle>, t: TriangleId, i: int) -> (j: int)
    requires mesh(P, T), in3(T, t.0 as int, i), tn(T[t.0 as int], i) != inv(), !tc(T[t.0 as int], i), !loc(P, T, t.0 as int, i)
    ensures rot_req(P, T, t, tn(T[t.0 as int], i), i, j)
{
    let j = nb_at(P, T, t.0 as int, i);
    let a = T[t.0 as int]; let b = T[tn(a, i).0 as int];
    good3_cyc(P, a, i); good3_cyc(P, b, j);
    flip_convex(pp(P, tp(a, i)), pp(P, tp(a, nx(i))), pp(P, tp(a, pv(i))), pp(P, tp(b, j)));
    orient_perm(pp(P, tp(a, pv(i))), pp(P, tp(a, i)), pp(P, tp(b, j)));
    j
}
pub proof fn leg_rot(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, T2: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, i: int, j: int)
    requires mesh(P, T0), dflags(P, T0), rot_req(P, T0, t, ot, i, j), rotated(T0, T1, t, ot, i, j), dmarked(T1, T2, t, ot, i, j), !loc(P, T0, t.0 as int, i)
    ensures mesh(P, T2), dflags(P, T2), cmono(T0, T2), cback(T0, T2), same_net(T1, T2), same_con(T1, T2),
        forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T2, x, y) && x != t && x != ot && y != t && y != ot ==> illp(P, T0, x, y),
{
    rot_six(P, T0, t, ot, i, j);
    rot_mesh(P, T0, T1, t, ot, i, j); rot_dfl(P, T0, T1, t, ot, i, j); rot_ill(P, T0, T1, t, ot, i, j); rot_mono(P, T0, T1, t, ot, i, j);
    let a = T0[t.0 as int]; let b = T0[ot.0 as int]; let a1 = T1[t.0 as int]; let b1 = T1[ot.0 as int];
    assert(tri_ok(P, T1[t.0 as int]) && tri_ok(P, T1[ot.0 as int]));
    assert(rev_edge(a1, i, b1, j));
    opp_is(P, a1, i, b1, j);
    incirc_perm(pp(P, tp(a, i)), pp(P, tp(a, nx(i))), pp(P, tp(a, pv(i))), pp(P, tp(b, j)));
    assert(tn(a1, i) == ot);
    assert(loc(P, T1, t.0 as int, i));
    let jj = loc_sym(P, T1, t.0 as int, i);
    assert(loc(P, T1, ot.0 as int, j));
    assert(same_net(T1, T2));
    assert(same_con(T1, T2));
    net_con(P, T1, T2);
    assert forall|x: int, e: int| #![trigger td(T2[x], e)] in3(T2, x, e) && td(T2[x], e) && tn(T2[x], e) != inv() implies loc(P, T2, x, e) by {
        assert(tn(T2[x], e) == tn(T1[x], e));
        assert(loc(P, T2, x, e) == loc(P, T1, x, e));
        if !(x == t.0 && e == i) && !(x == ot.0 && e == j) { assert(td(T1[x], e)); }
    }
    assert forall|x: PointId, y: PointId| cedge(T0, x, y) implies #[trigger] cedge(T2, x, y) by { assert(cedge(T1, x, y)); }
}
pub proof fn leg_next(P: Seq<Point>, T00: Seq<InnerTriangle>, T0: Seq<InnerTriangle>, T2: Seq<InnerTriangle>, t: TriangleId, ot: TriangleId, Q: Seq<TriangleId>, tid: TriangleId)
    requires leg(P, T00, T0, Q.push(t), tid), forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T2, x, y) && x != t && x != ot && y != t && y != ot ==> illp(P, T0, x, y)
    ensures leg(P, T00, T2, Q.push(t).push(ot), tid)
{
    push_has(Q, t); push_has(Q.push(t), ot);
}
pub proof fn lag_rot(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, T2: Seq<InnerTriangle>, F: Seq<Entry>, G: Seq<TriangleId>, h: PointId, l: PointId, t: TriangleId, ot: TriangleId, i: int, j: int, L0: Seq<TriangleId>, L1: Seq<TriangleId>)
    requires mesh(P, T0), mesh(P, T1), rot_req(P, T0, t, ot, i, j), rotated(T0, T1, t, ot, i, j), same_net(T1, T2), front(T0, ids(F), G, h, l), isorted(P, ids(F)), lag(F, G, L0),
        if exists|e: int| bd(T0, t.0 as int, e) || bd(T0, ot.0 as int, e) { L1 == L0.push(t).push(ot) } else { L1 == L0 }
    ensures front(T2, ids(F), rot_g(T0, ids(F), G, t, ot, i, j), h, l), lag(F, rot_g(T0, ids(F), G, t, ot, i, j), L1)
{
    rot_front(P, T0, T1, ids(F), G, h, l, t, ot, i, j);
    let G1 = rot_g(T0, ids(F), G, t, ot, i, j);
    front_net(T1, T2, ids(F), G1, G1, h, l);
    push_has(L0, t); push_has(L0.push(t), ot);
}
pub proof fn map_lag(P: Seq<Point>, T: Seq<InnerTriangle>, F0: Seq<Entry>, F1: Seq<Entry>, G: Seq<TriangleId>, h: PointId, l: PointId, x: TriangleId, L0: Seq<TriangleId>, L1: Seq<TriangleId>)
    requires front(T, ids(F0), G, h, l), isorted(P, ids(F0)), mapped(T, F0, F1, x, 3), lag(F0, G, L0), forall|y: TriangleId| #[trigger] L0.contains(y) ==> y == x || L1.contains(y)
    ensures lag(F1, G, L1), ids(F1) =~= ids(F0)
{
    let I = ids(F0);
    assert forall|k: int| #![trigger ids(F1)[k]] 0 <= k < F0.len() implies ids(F1)[k] == I[k] by { assert(F1[k].node.point_id == F0[k].node.point_id); }
    assert forall|k: int| #![trigger G[k]] 0 <= k < F1.len() - 1 implies G[k] == ftri(F1, k) || L1.contains(G[k]) by {
        assert(fpart(T, I, G, k));
        assert(I[k] == fid(F0, k));
        if G[k] == x {
            let e = choose|e: int| bd(T, x.0 as int, e) && #[trigger] fe(T, I, x.0 as int, e, k);
            assert(fid(F0, k) == tp(T[x.0 as int], pv(e)));
            assert(ftri(F1, k) == x);
        } else {
            assert(G[k] == ftri(F0, k) || L0.contains(G[k]));
            if F1[k].node.triangle != F0[k].node.triangle {
                let e = choose|e: int| 0 <= e < 3 && #[trigger] bd(T, x.0 as int, e) && fid(F0, k) == tp(T[x.0 as int], pv(e));
                if is_base(T[x.0 as int], e, h, l) { assert(I[k] == I[I.len() - 1]); assert(false); }
                else { let m = choose|m: int| #[trigger] fhit(T, I, G, x.0 as int, e, m); assert(I[m] == I[k]); assert(m == k); }
            }
        }
    }
}
pub proof fn lag_none(T: Seq<InnerTriangle>, F: Seq<Entry>, G: Seq<TriangleId>, h: PointId, l: PointId, L: Seq<TriangleId>)
    requires front(T, ids(F), G, h, l), lag(F, G, L), L.len() == 0
    ensures front(T, ids(F), tris(F), h, l)
{
    assert forall|k: int| 0 <= k < ids(F).len() - 1 implies #[trigger] tris(F)[k] == G[k] by { assert(!L.contains(G[k])); }
    front_net(T, T, ids(F), G, tris(F), h, l);
}
pub proof fn skip_has(L: Seq<TriangleId>, k: int)
    requires 0 <= k < L.len()
    ensures forall|y: TriangleId| #[trigger] L.skip(k).contains(y) ==> y == L[k] || L.skip(k + 1).contains(y)
{
    assert forall|y: TriangleId| #[trigger] L.skip(k).contains(y) implies y == L[k] || L.skip(k + 1).contains(y) by {
        let i = choose|i: int| 0 <= i < L.skip(k).len() && L.skip(k)[i] == y;
        if i > 0 { assert(L.skip(k + 1)[i - 1] == y); }
    }
}

/// what every step keeps: constrained edges, and no new edge that is not locally Delaunay
pub open spec fn keeps(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>) -> bool {
    &&& cmono(T0, T1) && cback(T0, T1) && T1.len() >= T0.len()
    &&& forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T1, x, y) ==> illp(P, T0, x, y)
}
/// corner k of the front is not reflex
pub open spec fn cor(P: Seq<Point>, I: Seq<PointId>, k: int) -> bool { good3(pp(P, I[k - 1]), pp(P, I[k]), pp(P, I[k + 1])) }
/// point id, at corner k, has been taken out of the front
pub open spec fn filled(P: Seq<Point>, I0: Seq<PointId>, I1: Seq<PointId>, k: int, id: PointId, f: FillOne) -> bool {
    &&& 0 < k < I0.len() - 1 && I0[k] == id && I1 == I0.remove(k)
    &&& nid(P, f.prev) && f.prev.point_id == I0[k - 1] && nid(P, f.next) && f.next.point_id == I0[k + 1]
}
pub open spec fn fill_res(P: Seq<Point>, I0: Seq<PointId>, I1: Seq<PointId>, id: PointId, f: FillOne) -> bool { exists|k: int| #[trigger] filled(P, I0, I1, k, id, f) }
// ---- growing the front
/// a vector of values of non-zero size has at most isize::MAX elements
#[verifier::external_body]
pub proof fn ax_len_tri(v: Vec<InnerTriangle>) ensures v@.len() < usize::MAX - 1 { unimplemented!() }
#[verifier::external_body]
pub proof fn ax_len_entry(v: Vec<Entry>) ensures v@.len() < usize::MAX - 1 { unimplemented!() }

pub open spec fn nid(P: Seq<Point>, n: NodeId) -> bool { n.point_id.0 < P.len() && p2(n.point) == pp(P, n.point_id) }
pub proof fn nid_is(P: Seq<Point>, F: Seq<Entry>, n: NodeId)
    requires keyed(P, F), distinct(P), nid(P, n)
    ensures nid_ok(F, n), forall|k: int| #![trigger F[k]] 0 <= k < F.len() ==> (fk(F, k) == p2(n.point) <==> fid(F, k) == n.point_id)
{
    assert forall|k: int| #![trigger F[k]] 0 <= k < F.len() implies (fk(F, k) == p2(n.point) <==> fid(F, k) == n.point_id) by {
        let i = fid(F, k).0 as int; let j = n.point_id.0 as int;
        assert(F[k].key.0 == P[i]);
        if i != j { if i < j { assert(p2(P[i]) != p2(P[j])); } else { assert(p2(P[j]) != p2(P[i])); } }
    }
}
/// the triangle n fills the corner k of the front
pub open spec fn fill_tri(T0: Seq<InnerTriangle>, I: Seq<PointId>, k: int, t: InnerTriangle) -> bool { tp(t, 0) == I[k - 1] && tp(t, 1) == I[k] && tp(t, 2) == I[k + 1] && fresh(t) }
pub open spec fn marked(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, l: TriangleId, r: TriangleId) -> bool {
    l != r && valid(T0, l) && valid(T0, r) && exists|l1: InnerTriangle, r1: InnerTriangle| #[trigger] linked2(l, r, T0[l.0 as int], T0[r.0 as int], l1, r1) && T1 == T0.update(l.0 as int, l1).update(r.0 as int, r1)
}
pub open spec fn ill_keep(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, n: TriangleId) -> bool { forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T1, x, y) ==> illp(P, T0, x, y) || x == n || y == n }
pub proof fn fill_front(P: Seq<Point>, T0: Seq<InnerTriangle>, T2: Seq<InnerTriangle>, T3: Seq<InnerTriangle>, I: Seq<PointId>, G: Seq<TriangleId>, h: PointId, l: PointId, k: int, t: InnerTriangle, n: TriangleId)
    requires mesh(P, T0), dflags(P, T0), noint(T0), T0.len() < usize::MAX - 1, front(T0, I, G, h, l), isorted(P, I), 0 < k < I.len() - 1, fill_tri(T0, I, k, t), n.0 == T0.len(),
        good3(pp(P, I[k - 1]), pp(P, I[k]), pp(P, I[k + 1])),
        marked(T0.push(t), T2, n, G[k - 1]), marked(T2, T3, n, G[k])
    ensures mesh(P, T3), dflags(P, T3), noint(T3), cmono(T0, T3), cback(T0, T3), T3.len() == T0.len() + 1, ill_keep(P, T0, T3, n),
        front(T3, I.remove(k), G.update(k - 1, n).remove(k), h, l),
{
    let T1 = T0.push(t); let ni = n.0 as int;
    let I1 = I.remove(k); let G1 = G.update(k - 1, n).remove(k);
    assert(tri_ok(P, t));
    push_mesh(P, T0, t);
    assert(fpart(T0, I, G, k - 1) && fpart(T0, I, G, k));
    let ea = choose|e: int| bd(T0, G[k - 1].0 as int, e) && #[trigger] fe(T0, I, G[k - 1].0 as int, e, k - 1);
    let eb = choose|e: int| bd(T0, G[k].0 as int, e) && #[trigger] fe(T0, I, G[k].0 as int, e, k);
    let a = G[k - 1].0 as int; let b = G[k].0 as int;
    assert(tri_ok(P, T0[a]));
    if a == b { fe_unique(P, T0, I, a, ea, k - 1, eb, k); }
    assert(bd(T1, a, ea) && bd(T1, ni, 2) && bd(T1, ni, 0) && bd(T1, ni, 1) && bd(T1, b, eb));
    link_is(P, T1, T2, n, G[k - 1], 2, ea);
    link_mesh(P, T1, T2, n, G[k - 1], 2, ea);
    assert(bd(T2, ni, 0) && bd(T2, b, eb));
    assert(T2[b].points == T1[b].points && T2[ni].points == T1[ni].points);
    link_is(P, T2, T3, n, G[k], 0, eb);
    link_mesh(P, T2, T3, n, G[k], 0, eb);
    assert forall|x: int| 0 <= x < T3.len() implies (#[trigger] T3[x]).points == T1[x].points && !T3[x].interior by { assert(T2[x].points == T1[x].points && T2[x].interior == T1[x].interior); if x < T0.len() { assert(!T0[x].interior); } }
    assert forall|x: int, e: int| #[trigger] bd(T3, x, e) <==> (x < ni && bd(T0, x, e) && !(x == a && e == ea) && !(x == b && e == eb)) || (x == ni && e == 1) by {
        assert(bd(T3, x, e) <==> bd(T2, x, e) && !(x == ni && e == 0) && !(x == b && e == eb));
        assert(bd(T2, x, e) <==> bd(T1, x, e) && !(x == ni && e == 2) && !(x == a && e == ea));
    }
    assert forall|q: int| 0 <= q < I1.len() - 1 implies #[trigger] fpart(T3, I1, G1, q) by {
        if q == k - 1 { assert(G1[q] == n && I1[q] == I[k - 1] && I1[q + 1] == I[k + 1]); assert(bd(T3, ni, 1)); assert(T3[ni].points == t.points); assert(fe(T3, I1, G1[q].0 as int, 1, q)); }
        else {
            let m = if q < k - 1 { q } else { q + 1 };
            assert(fpart(T0, I, G, m));
            let x = G[m].0 as int;
            let e = choose|e: int| bd(T0, G[m].0 as int, e) && #[trigger] fe(T0, I, G[m].0 as int, e, m);
            assert(tri_ok(P, T0[x]));
            if x == a { fe_unique(P, T0, I, a, ea, k - 1, e, m); }
            if x == b { fe_unique(P, T0, I, b, eb, k, e, m); }
            assert(G1[q] == G[m] && I1[q] == I[m] && I1[q + 1] == I[m + 1]);
            assert(x < ni && !(x == a && e == ea) && !(x == b && e == eb));
            assert(bd(T3, x, e)); assert(T3[x].points == T0[x].points);
            assert(fe(T3, I1, G1[q].0 as int, e, q));
        }
    }
    assert forall|x: int, e: int| #[trigger] bd(T3, x, e) implies is_base(T3[x], e, h, l) || exists|q: int| #[trigger] fhit(T3, I1, G1, x, e, q) by {
        if x == ni { assert(fhit(T3, I1, G1, x, e, k - 1)); }
        else {
            assert(bd(T0, x, e)); assert(T3[x].points == T0[x].points);
            if !is_base(T0[x], e, h, l) {
                let m = choose|m: int| #[trigger] fhit(T0, I, G, x, e, m);
                assert(tri_ok(P, T0[x]));
                if m == k - 1 { fe_unique(P, T0, I, a, ea, k - 1, e, m); }
                if m == k { fe_unique(P, T0, I, b, eb, k, e, m); }
                assert(fhit(T3, I1, G1, x, e, if m < k - 1 { m } else { m - 1 }));
            }
        }
    }
    assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T3, x, y) implies illp(P, T0, x, y) || x == n || y == n by {
        if x != n && y != n { assert(illp(P, T2, x, y)); assert(illp(P, T1, x, y)); }
    }
    assert forall|x: PointId, y: PointId| cedge(T0, x, y) implies #[trigger] cedge(T3, x, y) by { assert(cedge(T1, x, y)); assert(cedge(T2, x, y)); }
}
/// legalizing the new triangle leaves nothing at it
pub proof fn leg_keep(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, T2: Seq<InnerTriangle>, n: TriangleId)
    requires ill_keep(P, T0, T1, n), leg(P, T1, T2, seq![], n)
    ensures forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T2, x, y) ==> illp(P, T0, x, y)
{}

// ---- steps of the front
/// only points of I0 are left
pub open spec fn sub(I0: Seq<PointId>, I1: Seq<PointId>) -> bool { forall|x: PointId| #[trigger] I1.contains(x) ==> I0.contains(x) }
/// the points from key on are all left
pub open spec fn kept(P: Seq<Point>, I0: Seq<PointId>, I1: Seq<PointId>, key: R2) -> bool { forall|k: int| #![trigger I0[k]] 0 <= k < I0.len() && le(key, pp(P, I0[k])) ==> I1.contains(I0[k]) }
pub open spec fn stp(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, I0: Seq<PointId>, I1: Seq<PointId>) -> bool { keeps(P, T0, T1) && sub(I0, I1) }
pub proof fn stp_trans(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, T2: Seq<InnerTriangle>, I0: Seq<PointId>, I1: Seq<PointId>, I2: Seq<PointId>)
    requires stp(P, T0, T1, I0, I1), stp(P, T1, T2, I1, I2)
    ensures stp(P, T0, T2, I0, I2)
{
    assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(T2, a, b) by { assert(cedge(T1, a, b)); }
    assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T2, x, y) implies illp(P, T0, x, y) by { assert(illp(P, T1, x, y)); }
    assert forall|x: PointId| #[trigger] I2.contains(x) implies I0.contains(x) by { assert(I1.contains(x)); }
}
pub proof fn kept_trans(P: Seq<Point>, I0: Seq<PointId>, I1: Seq<PointId>, I2: Seq<PointId>, k1: R2, k2: R2)
    requires kept(P, I0, I1, k1), kept(P, I1, I2, k2), le(k2, k1)
    ensures kept(P, I0, I2, k1)
{
    assert forall|k: int| #![trigger I0[k]] 0 <= k < I0.len() && le(k1, pp(P, I0[k])) implies I2.contains(I0[k]) by {
        assert(I1.contains(I0[k]));
        let m = choose|m: int| 0 <= m < I1.len() && I1[m] == I0[k];
        assert(le(k2, pp(P, I1[m])));
    }
}
pub proof fn at_uniq(P: Seq<Point>, I: Seq<PointId>, a: int, b: int)
    requires isorted(P, I), 0 <= a < I.len(), 0 <= b < I.len()
    ensures pp(P, I[a]) == pp(P, I[b]) <==> a == b, I[a] == I[b] <==> a == b, lt(pp(P, I[a]), pp(P, I[b])) <==> a < b, le(pp(P, I[a]), pp(P, I[b])) <==> a <= b
{
    if a < b { assert(lt(pp(P, I[a]), pp(P, I[b]))); }
    if b < a { assert(lt(pp(P, I[b]), pp(P, I[a]))); }
}
pub proof fn fill_is(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, I0: Seq<PointId>, I1: Seq<PointId>, id: PointId, f: FillOne, k: int)
    requires isorted(P, I0), fill_res(P, I0, I1, id, f), keeps(P, T0, T1), 0 <= k < I0.len(), I0[k] == id
    ensures filled(P, I0, I1, k, id, f), stp(P, T0, T1, I0, I1), isorted(P, I1), forall|m: int| #![trigger I0[m]] 0 <= m < I0.len() && m != k ==> I1.contains(I0[m])
{
    let k2 = choose|k: int| #[trigger] filled(P, I0, I1, k, id, f);
    at_uniq(P, I0, k, k2);
    assert forall|x: PointId| #[trigger] I1.contains(x) implies I0.contains(x) by {
        let m = choose|m: int| 0 <= m < I1.len() && I1[m] == x;
        assert(I0[if m < k { m } else { m + 1 }] == x);
    }
    assert forall|m: int| #![trigger I0[m]] 0 <= m < I0.len() && m != k implies I1.contains(I0[m]) by { assert(I1[if m < k { m } else { m - 1 }] == I0[m]); }
}
pub proof fn fill_any(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, I0: Seq<PointId>, I1: Seq<PointId>, id: PointId, f: FillOne)
    requires isorted(P, I0), fill_res(P, I0, I1, id, f), keeps(P, T0, T1)
    ensures stp(P, T0, T1, I0, I1)
{
    let k = choose|k: int| #[trigger] filled(P, I0, I1, k, id, f);
    fill_is(P, T0, T1, I0, I1, id, f, k);
}
pub proof fn stp_same(P: Seq<Point>, T: Seq<InnerTriangle>, I: Seq<PointId>)
    ensures stp(P, T, T, I, I), forall|key: R2| kept(P, I, I, key)
{}
// ---- basins
pub open spec fn py(P: Seq<Point>, I: Seq<PointId>, k: int) -> real { pp(P, I[k]).1 }
pub open spec fn dn(P: Seq<Point>, I: Seq<PointId>, m: int) -> bool { py(P, I, m) >= py(P, I, m + 1) }
pub open spec fn up(P: Seq<Point>, I: Seq<PointId>, m: int) -> bool { py(P, I, m) < py(P, I, m + 1) }
pub open spec fn desc(P: Seq<Point>, I: Seq<PointId>, a: int, b: int) -> bool { forall|m: int| a <= m < b ==> #[trigger] dn(P, I, m) }
pub open spec fn asce(P: Seq<Point>, I: Seq<PointId>, a: int, b: int) -> bool { forall|m: int| a <= m < b ==> #[trigger] up(P, I, m) }
/// corner k lies between the left and the right end of the basin, falling before and rising after it
pub open spec fn bas(P: Seq<Point>, I: Seq<PointId>, b: Basin, lf: int, k: int, rt: int) -> bool {
    &&& 0 <= lf < k < rt < I.len() && p2(b.left) == pp(P, I[lf]) && p2(b.right) == pp(P, I[rt])
    &&& (lf == k - 1 || desc(P, I, lf, k)) && (rt == k + 1 || asce(P, I, k, rt)) && cor(P, I, k)
}
pub open spec fn bas_at(P: Seq<Point>, I: Seq<PointId>, b: Basin, id: PointId) -> bool { exists|lf: int, k: int, rt: int| #[trigger] bas(P, I, b, lf, k, rt) && I[k] == id }
pub proof fn bas_next(P: Seq<Point>, I: Seq<PointId>, b: Basin, lf: int, k: int, rt: int)
    requires isorted(P, I), bas(P, I, b, lf, k, rt), k + 1 < rt, (lf == k - 1 && orient(pp(P, I[k]), pp(P, I[k + 1]), pp(P, I[k + 2])) >= 0real) || (lf < k - 1 && py(P, I, k - 1) >= py(P, I, k + 1))
    ensures bas_at(P, I.remove(k), b, I[k + 1])
{
    let J = I.remove(k);
    let (a, n, c, d) = (pp(P, I[k - 1]), pp(P, I[k]), pp(P, I[k + 1]), pp(P, I[k + 2]));
    assert(up(P, I, k) && up(P, I, k + 1));
    if lf == k - 1 { rise(a, n, c, d); asc_good(a, c, d); } else { valley(a, c, d); }
    if lf < k - 1 { assert forall|m: int| lf <= m < k implies #[trigger] dn(P, J, m) by { assert(dn(P, I, m)); } }
    assert forall|m: int| k <= m < rt - 1 implies #[trigger] up(P, J, m) by { assert(up(P, I, m + 1)); }
    assert(bas(P, J, b, lf, k, rt - 1));
}
pub proof fn bas_prev(P: Seq<Point>, I: Seq<PointId>, b: Basin, lf: int, k: int, rt: int)
    requires isorted(P, I), bas(P, I, b, lf, k, rt), lf < k - 1, (rt == k + 1 && orient(pp(P, I[k]), pp(P, I[k - 1]), pp(P, I[k - 2])) <= 0real) || (rt > k + 1 && py(P, I, k - 1) < py(P, I, k + 1))
    ensures bas_at(P, I.remove(k), b, I[k - 1])
{
    let J = I.remove(k);
    let (z, a, n, c) = (pp(P, I[k - 2]), pp(P, I[k - 1]), pp(P, I[k]), pp(P, I[k + 1]));
    assert(dn(P, I, k - 2) && dn(P, I, k - 1));
    orient_perm(n, a, z);
    if rt == k + 1 { fall(z, a, n, c); asc_good(z, a, c); } else { valley(z, a, c); }
    assert forall|m: int| lf <= m < k - 1 implies #[trigger] dn(P, J, m) by { assert(dn(P, I, m)); }
    if rt > k + 1 { assert forall|m: int| k - 1 <= m < rt - 1 implies #[trigger] up(P, J, m) by { if m >= k { assert(up(P, I, m + 1)); } } }
    assert(bas(P, J, b, lf, k - 1, rt - 1));
}
pub proof fn front_ends(s: &Sweeper)
    requires front_ok(s)
    ensures sF(s).len() >= 2, fid(sF(s), 0) == s.points.head, fid(sF(s), sF(s).len() - 1) == s.points.tail
{
    let I = ids(sF(s));
    assert(I[0] == fid(sF(s), 0) && I[I.len() - 1] == fid(sF(s), sF(s).len() - 1));
}
// ---- filling below an edge
pub open spec fn rcon_at(P: Seq<Point>, I: Seq<PointId>, id: PointId, k: int) -> bool { 0 <= k && k + 2 < I.len() && I[k] == id && cor(P, I, k + 1) }
/// the corner after id is not reflex
pub open spec fn rcon(P: Seq<Point>, I: Seq<PointId>, id: PointId) -> bool { exists|k: int| #[trigger] rcon_at(P, I, id, k) }
pub open spec fn lcon_at(P: Seq<Point>, I: Seq<PointId>, id: PointId, k: int) -> bool { 2 <= k < I.len() && I[k] == id && cor(P, I, k - 1) }
/// the corner before id is not reflex
pub open spec fn lcon(P: Seq<Point>, I: Seq<PointId>, id: PointId) -> bool { exists|k: int| #[trigger] lcon_at(P, I, id, k) }
/// three entries in a row that turn left make a corner
pub proof fn turn(P: Seq<Point>, F: Seq<Entry>, k: int)
    requires fsorted(F), keyed(P, F), 0 < k < F.len() - 1, orient(fk(F, k - 1), fk(F, k), fk(F, k + 1)) >= 0real
    ensures cor(P, ids(F), k), rcon(P, ids(F), fid(F, k - 1)), lcon(P, ids(F), fid(F, k + 1))
{
    f_sorted(P, F); let I = ids(F);
    assert(I[k] == fid(F, k) && I[k - 1] == fid(F, k - 1) && I[k + 1] == fid(F, k + 1));
    asc_good(pp(P, I[k - 1]), pp(P, I[k]), pp(P, I[k + 1]));
    assert(rcon_at(P, I, fid(F, k - 1), k - 1)); assert(lcon_at(P, I, fid(F, k + 1), k + 1));
}
/// what filling the corner at id does to the points right of key
pub proof fn fill_kept(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, I0: Seq<PointId>, I1: Seq<PointId>, id: PointId, f: FillOne, key: R2)
    requires isorted(P, I0), fill_res(P, I0, I1, id, f), keeps(P, T0, T1), lt(pp(P, id), key)
    ensures stp(P, T0, T1, I0, I1), kept(P, I0, I1, key)
{
    let k = choose|k: int| #[trigger] filled(P, I0, I1, k, id, f);
    fill_is(P, T0, T1, I0, I1, id, f, k);
}
// ---- a new point
/// the triangle n joins a new point to part k of the front
pub open spec fn pt_tri(I: Seq<PointId>, k: int, p: PointId, t: InnerTriangle) -> bool { tp(t, 0) == p && tp(t, 1) == I[k] && tp(t, 2) == I[k + 1] && fresh(t) }
pub proof fn pt_front(P: Seq<Point>, T0: Seq<InnerTriangle>, T2: Seq<InnerTriangle>, I: Seq<PointId>, G: Seq<TriangleId>, h: PointId, l: PointId, k: int, t: InnerTriangle, n: TriangleId, p: PointId)
    requires mesh(P, T0), dflags(P, T0), noint(T0), T0.len() < usize::MAX - 1, front(T0, I, G, h, l), isorted(P, I), 0 <= k < I.len() - 1, pt_tri(I, k, p, t), n.0 == T0.len(), p.0 < P.len(),
        good3(pp(P, p), pp(P, I[k]), pp(P, I[k + 1])), lt(pp(P, I[k]), pp(P, p)), lt(pp(P, p), pp(P, I[k + 1])),
        marked(T0.push(t), T2, G[k], n)
    ensures mesh(P, T2), dflags(P, T2), noint(T2), cmono(T0, T2), cback(T0, T2), vert(T2, p), T2.len() == T0.len() + 1, ill_keep(P, T0, T2, n),
        front(T2, I.insert(k + 1, p), G.update(k, n).insert(k + 1, n), h, l),
{
    let T1 = T0.push(t); let ni = n.0 as int;
    let I1 = I.insert(k + 1, p); let G1 = G.update(k, n).insert(k + 1, n);
    assert(tri_ok(P, t));
    push_mesh(P, T0, t);
    assert(fpart(T0, I, G, k));
    let ea = choose|e: int| bd(T0, G[k].0 as int, e) && #[trigger] fe(T0, I, G[k].0 as int, e, k);
    let a = G[k].0 as int;
    assert(tri_ok(P, T0[a]));
    assert(bd(T1, a, ea) && bd(T1, ni, 2) && bd(T1, ni, 0) && bd(T1, ni, 1));
    link_is(P, T1, T2, G[k], n, ea, 0);
    link_mesh(P, T1, T2, G[k], n, ea, 0);
    assert forall|x: int| 0 <= x < T2.len() implies (#[trigger] T2[x]).points == T1[x].points && !T2[x].interior by { if x < T0.len() { assert(!T0[x].interior); } }
    vert_is(T2, ni, 0);
    assert forall|x: int, e: int| #[trigger] bd(T2, x, e) <==> (x < ni && bd(T0, x, e) && !(x == a && e == ea)) || (x == ni && (e == 1 || e == 2)) by {
        assert(bd(T2, x, e) <==> bd(T1, x, e) && !(x == ni && e == 0) && !(x == a && e == ea));
    }
    assert forall|q: int| 0 <= q < I1.len() - 1 implies #[trigger] fpart(T2, I1, G1, q) by {
        if q == k { assert(G1[q] == n); assert(bd(T2, ni, 2)); assert(fe(T2, I1, ni, 2, q)); }
        else if q == k + 1 { assert(G1[q] == n); assert(bd(T2, ni, 1)); assert(fe(T2, I1, ni, 1, q)); }
        else {
            let m = if q < k { q } else { q - 1 };
            assert(fpart(T0, I, G, m));
            let x = G[m].0 as int;
            let e = choose|e: int| bd(T0, G[m].0 as int, e) && #[trigger] fe(T0, I, G[m].0 as int, e, m);
            assert(tri_ok(P, T0[x]));
            if x == a { fe_unique(P, T0, I, a, ea, k, e, m); }
            assert(G1[q] == G[m]);
            assert(bd(T2, x, e)); assert(T2[x].points == T0[x].points);
            assert(fe(T2, I1, x, e, q));
        }
    }
    assert forall|x: int, e: int| #[trigger] bd(T2, x, e) implies is_base(T2[x], e, h, l) || exists|q: int| #[trigger] fhit(T2, I1, G1, x, e, q) by {
        if x == ni { assert(fhit(T2, I1, G1, x, e, if e == 2 { k } else { k + 1 })); }
        else {
            assert(bd(T0, x, e)); assert(T2[x].points == T0[x].points);
            if !is_base(T0[x], e, h, l) {
                let m = choose|m: int| #[trigger] fhit(T0, I, G, x, e, m);
                assert(tri_ok(P, T0[x]));
                if m == k { fe_unique(P, T0, I, a, ea, k, e, m); }
                assert(fhit(T2, I1, G1, x, e, if m < k { m } else { m + 1 }));
            }
        }
    }
    assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T2, x, y) implies illp(P, T0, x, y) || x == n || y == n by {
        if x != n && y != n { assert(illp(P, T1, x, y)); }
    }
    assert forall|x: PointId, y: PointId| cedge(T0, x, y) implies #[trigger] cedge(T2, x, y) by { assert(cedge(T1, x, y)); }
}
/// the front holds points of I0 and p only
pub open spec fn grown(I0: Seq<PointId>, I1: Seq<PointId>, p: PointId) -> bool { forall|x: PointId| #[trigger] I1.contains(x) ==> x == p || I0.contains(x) }
/// all of the front is before p in the sweep
pub open spec fn before(P: Seq<Point>, I: Seq<PointId>, p: PointId) -> bool { forall|k: int| 0 <= k < I.len() ==> ylt(pp(P, #[trigger] I[k]), pp(P, p)) }

// ---- edges
/// nothing but the triangles of S is left to legalize
pub open spec fn es(s: &Sweeper, S: Seq<TriangleId>) -> bool { sok(s) && legal_but(sP(s), sT(s), S) && all_valid(sT(s), S) }
/// what the flips of an edge event keep
pub open spec fn flipped(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, F0: Seq<Entry>, F1: Seq<Entry>) -> bool { T1.len() == T0.len() && cmono(T0, T1) && ids(F1) == ids(F0) }
/// edge i of t has been marked as constrained, on both sides
pub open spec fn con_add(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, i: int) -> bool {
    let n = tn(T0[t.0 as int], i);
    let j = opp(T0[t.0 as int], i, T0[n.0 as int]);
    &&& T1.len() == T0.len() && set_flag(T0[t.0 as int], T1[t.0 as int], i, true)
    &&& n != inv() ==> set_flag(T0[n.0 as int], T1[n.0 as int], j, true)
    &&& forall|x: int| 0 <= x < T0.len() && x != t.0 && x != n.0 ==> #[trigger] T1[x] == T0[x]
}
pub proof fn con_mesh(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, i: int)
    requires mesh(P, T0), in3(T0, t.0 as int, i), con_add(T0, T1, t, i)
    ensures mesh(P, T1), same_net(T0, T1), cmono(T0, T1), dflags(P, T0) ==> dflags(P, T1), noint(T0) ==> noint(T1),
        forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T1, x, y) ==> illp(P, T0, x, y),
        tc(T1[t.0 as int], i), forall|a: PointId, b: PointId| joins(T0[t.0 as int], i, a, b) ==> #[trigger] cedge(T1, a, b),
{
    let ti = t.0 as int; let n = tn(T0[ti], i); let ni = n.0 as int; let j = opp(T0[ti], i, T0[ni]);
    if n != inv() { let k = nb_at(P, T0, ti, i); assert(k == j); }
    assert(same_net(T0, T1));
    assert forall|x: int, e: int| in3(T0, x, e) implies #[trigger] tc(T1[x], e) == (tc(T0[x], e) || (x == ti && e == i) || (n != inv() && x == ni && e == j)) by { }
    assert forall|x: int, e: int| in3(T0, x, e) implies #[trigger] td(T1[x], e) == td(T0[x], e) by { }
    assert forall|x: int| 0 <= x < T1.len() implies tri_ok(P, #[trigger] T1[x]) by { assert(tri_ok(P, T0[x])); }
    assert forall|x: int, e: int| in3(T1, x, e) implies #[trigger] nb(T1, x, e) by {
        assert(nb(T0, x, e));
        if tn(T0[x], e) != inv() {
            let y = tn(T0[x], e).0 as int; let k = nb_at(P, T0, x, e);
            assert(tc(T1[y], k) == (tc(T0[y], k) || (y == ti && k == i) || (n != inv() && y == ni && k == j)));
            if y == ti && k == i { assert(n.0 == x); opp_is(P, T0[ti], i, T0[x], e); }
            if n != inv() && y == ni && k == j { assert(x == ti); opp_is(P, T0[ni], j, T0[ti], i); opp_is(P, T0[ni], k, T0[x], e); }
            if x == ti && e == i { assert(y == ni && k == j); }
            if n != inv() && x == ni && e == j { assert(y == ti); opp_is(P, T0[ni], j, T0[ti], i); }
        }
    }
    vert_pts(T0, T1);
    assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(T1, a, b) by {
        let (x, e) = choose|x: int, e: int| in3(T0, x, e) && tc(T0[x], e) && #[trigger] joins(T0[x], e, a, b);
        assert(tc(T1[x], e)); cedge_is(T1, x, e, a, b);
    }
    assert forall|x: int, e: int| in3(T0, x, e) && tn(T0[x], e) != inv() implies #[trigger] loc(P, T1, x, e) == loc(P, T0, x, e) by { assert(nb(T0, x, e)); }
    assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T1, x, y) implies illp(P, T0, x, y) by {
        let e = choose|e: int| #[trigger] ill(P, T1, x.0 as int, e) && tn(T1[x.0 as int], e) == y;
        assert(loc(P, T1, x.0 as int, e) == loc(P, T0, x.0 as int, e));
        assert(!tc(T1[x.0 as int], e));
        assert(ill(P, T0, x.0 as int, e));
    }
    if dflags(P, T0) {
        assert forall|x: int, e: int| #![trigger td(T1[x], e)] in3(T1, x, e) && td(T1[x], e) && tn(T1[x], e) != inv() implies loc(P, T1, x, e) by { assert(td(T0[x], e)); assert(loc(P, T1, x, e) == loc(P, T0, x, e)); }
    }
    if noint(T0) { assert forall|x: int| 0 <= x < T1.len() implies !(#[trigger] T1[x]).interior by { assert(!T0[x].interior); } }
    assert forall|a: PointId, b: PointId| joins(T0[ti], i, a, b) implies #[trigger] cedge(T1, a, b) by { assert(joins(T1[ti], i, a, b)); cedge_is(T1, ti, i, a, b); }
}
/// it keeps the state of an edge event
pub proof fn con_es(s0: &Sweeper, s1: &Sweeper, S: Seq<TriangleId>, t: TriangleId, i: int)
    requires es(s0, S), in3(sT(s0), t.0 as int, i), con_add(sT(s0), sT(s1), t, i), s1.points == s0.points, *s1.advancing_front == *s0.advancing_front, queues(s1)
    ensures es(s1, S), flipped(sT(s0), sT(s1), sF(s0), sF(s1)), forall|a: PointId, b: PointId| joins(sT(s0)[t.0 as int], i, a, b) ==> #[trigger] cedge(sT(s1), a, b),
{
    con_mesh(sP(s0), sT(s0), sT(s1), t, i);
    front_net(sT(s0), sT(s1), ids(sF(s0)), tris(sF(s0)), tris(sF(s0)), s0.points.head, s0.points.tail);
}
/// x lies on the segment from a to b
pub open spec fn onseg(P: Seq<Point>, a: PointId, b: PointId, x: PointId) -> bool { orient(pp(P, a), pp(P, b), pp(P, x)) == 0real && btw(pp(P, a), pp(P, b), pp(P, x)) }
/// The hypothesis of C17, not proved (a bounded search stands in): in no run does `edge_event_process`, when
/// `flip_edge_event` calls it for a segment other than the edge that is being inserted, add a mark off that edge.
/// A constant nothing else is known about: what does not mention it does not rest on it.
pub uninterp spec fn quiet() -> bool;
/// every edge that has become constrained lies on the segment from p to q
#[verifier::opaque]
pub open spec fn madd(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, p: PointId, q: PointId) -> bool {
    quiet() ==> forall|a: PointId, b: PointId| #[trigger] cedge(T1, a, b) ==> cedge(T0, a, b) || (onseg(P, p, q, a) && onseg(P, p, q, b))
}
pub proof fn onseg_ends(P: Seq<Point>, p: PointId, q: PointId)
    ensures onseg(P, p, q, p), onseg(P, p, q, q)
{ orient_perm(pp(P, p), pp(P, q), pp(P, p)); orient_perm(pp(P, p), pp(P, q), pp(P, q)); }
/// a segment with the same lower end is a part
pub proof fn onseg_sub(P: Seq<Point>, a: PointId, m: PointId, b: PointId, x: PointId)
    requires pp(P, a) != pp(P, m), orient(pp(P, b), pp(P, m), pp(P, a)) == 0real, btw(pp(P, b), pp(P, a), pp(P, m)), onseg(P, a, m, x)
    ensures onseg(P, a, b, x)
{ on_line(pp(P, a), pp(P, m), pp(P, b), pp(P, x)); }
pub proof fn onseg_mid(P: Seq<Point>, a: PointId, m: PointId, b: PointId)
    requires orient(pp(P, b), pp(P, m), pp(P, a)) == 0real, btw(pp(P, b), pp(P, a), pp(P, m))
    ensures onseg(P, a, b, m)
{ orient_perm(pp(P, b), pp(P, m), pp(P, a)); orient_perm(pp(P, a), pp(P, b), pp(P, m)); }
pub proof fn madd_back(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, p: PointId, q: PointId)
    requires cback(T0, T1)
    ensures madd(P, T0, T1, p, q)
{ reveal(madd); }
pub proof fn madd_off(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, p: PointId, q: PointId)
    requires !quiet()
    ensures madd(P, T0, T1, p, q)
{ reveal(madd); }
pub proof fn madd_trans(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, T2: Seq<InnerTriangle>, p: PointId, q: PointId)
    requires madd(P, T0, T1, p, q), madd(P, T1, T2, p, q)
    ensures madd(P, T0, T2, p, q)
{ reveal(madd); }
pub proof fn madd_sub(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, a: PointId, m: PointId, b: PointId)
    requires madd(P, T0, T1, a, m), pp(P, a) != pp(P, m), orient(pp(P, b), pp(P, m), pp(P, a)) == 0real, btw(pp(P, b), pp(P, a), pp(P, m))
    ensures madd(P, T0, T1, a, b)
{
    reveal(madd);
    assert forall|x: PointId, y: PointId| #[trigger] cedge(T1, x, y) && quiet() implies cedge(T0, x, y) || (onseg(P, a, b, x) && onseg(P, a, b, y)) by {
        if !cedge(T0, x, y) { onseg_sub(P, a, m, b, x); onseg_sub(P, a, m, b, y); }
    }
}
/// marking an edge of t
pub proof fn madd_con(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, t: TriangleId, i: int, u: PointId, v: PointId, p: PointId, q: PointId)
    requires mesh(P, T0), in3(T0, t.0 as int, i), con_add(T0, T1, t, i), joins(T0[t.0 as int], i, u, v), onseg(P, p, q, u), onseg(P, p, q, v)
    ensures madd(P, T0, T1, p, q)
{
    reveal(madd);
    let ti = t.0 as int; let n = tn(T0[ti], i); let ni = n.0 as int; let j = opp(T0[ti], i, T0[ni]);
    if n != inv() { let k = nb_at(P, T0, ti, i); assert(k == j); }
    assert forall|a: PointId, b: PointId| #[trigger] cedge(T1, a, b) implies cedge(T0, a, b) || (onseg(P, p, q, a) && onseg(P, p, q, b)) by {
        let (x, e) = choose|x: int, e: int| in3(T1, x, e) && tc(T1[x], e) && #[trigger] joins(T1[x], e, a, b);
        assert(T1[x].points == T0[x].points);
        assert(joins(T0[x], e, a, b));
        if tc(T0[x], e) { cedge_is(T0, x, e, a, b); }
        else if x == ti && e == i { }
        else { assert(n != inv() && x == ni && e == j); opp_is(P, T0[ti], i, T0[ni], j); assert(rev_edge(T0[ti], i, T0[ni], j)); }
    }
}
/// every constrained edge lies on an edge of the problem
#[verifier::opaque]
pub open spec fn only_in(P: Points, T: Seq<InnerTriangle>) -> bool {
    quiet() ==> forall|a: PointId, b: PointId| #[trigger] cedge(T, a, b) ==> exists|id: PointId, k: int| #[trigger] inp(P, id, k, a, b)
}
pub open spec fn inp(P: Points, id: PointId, k: int, a: PointId, b: PointId) -> bool {
    id.0 < P.edges@.len() && 0 <= k < ev(P.edges@[id.0 as int]).len() && onseg(P.points@, ev(P.edges@[id.0 as int])[k], id, a) && onseg(P.points@, ev(P.edges@[id.0 as int])[k], id, b)
}
pub proof fn only_back(P: Points, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>)
    requires only_in(P, T0), cback(T0, T1)
    ensures only_in(P, T1)
{ reveal(only_in); assert forall|a: PointId, b: PointId| #[trigger] cedge(T1, a, b) && quiet() implies exists|id: PointId, k: int| #[trigger] inp(P, id, k, a, b) by { assert(cedge(T0, a, b)); } }
pub proof fn only_add(P: Points, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, id: PointId, k: int)
    requires only_in(P, T0), id.0 < P.edges@.len(), 0 <= k < ev(P.edges@[id.0 as int]).len(), madd(P.points@, T0, T1, ev(P.edges@[id.0 as int])[k], id)
    ensures only_in(P, T1)
{
    reveal(only_in); reveal(madd);
    assert forall|a: PointId, b: PointId| #[trigger] cedge(T1, a, b) && quiet() implies exists|id: PointId, k: int| #[trigger] inp(P, id, k, a, b) by {
        if !cedge(T0, a, b) { assert(inp(P, id, k, a, b)); }
    }
}
/// a chain of constrained edges from a to b, through points on the segment from a to b
pub open spec fn chain(P: Seq<Point>, T: Seq<InnerTriangle>, c: Seq<PointId>, a: PointId, b: PointId) -> bool {
    &&& c.len() >= 2 && c[0] == a && c.last() == b
    &&& forall|k: int| 0 <= k < c.len() - 1 ==> #[trigger] clink(T, c, k)
    &&& forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).0 < P.len() && orient(pp(P, a), pp(P, b), pp(P, c[k])) == 0real && btw(pp(P, a), pp(P, b), pp(P, c[k]))
}
pub open spec fn clink(T: Seq<InnerTriangle>, c: Seq<PointId>, k: int) -> bool { cedge(T, c[k], c[k + 1]) }
pub open spec fn covered(P: Seq<Point>, T: Seq<InnerTriangle>, a: PointId, b: PointId) -> bool { exists|c: Seq<PointId>| #[trigger] chain(P, T, c, a, b) }
pub proof fn cov_one(P: Seq<Point>, T: Seq<InnerTriangle>, a: PointId, b: PointId)
    requires cedge(T, a, b), a.0 < P.len(), b.0 < P.len()
    ensures covered(P, T, a, b)
{
    let c = seq![a, b];
    orient_perm(pp(P, a), pp(P, b), pp(P, a)); orient_perm(pp(P, a), pp(P, b), pp(P, b));
    assert(clink(T, c, 0));
    assert(chain(P, T, c, a, b));
}
pub proof fn cov_mono(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, a: PointId, b: PointId)
    requires covered(P, T0, a, b), cmono(T0, T1)
    ensures covered(P, T1, a, b)
{
    let c = choose|c: Seq<PointId>| #[trigger] chain(P, T0, c, a, b);
    assert forall|k: int| 0 <= k < c.len() - 1 implies #[trigger] clink(T1, c, k) by { assert(clink(T0, c, k)); }
    assert(chain(P, T1, c, a, b));
}
pub proof fn cov_step(P: Seq<Point>, T: Seq<InnerTriangle>, a: PointId, m: PointId, b: PointId)
    requires covered(P, T, a, m), cedge(T, m, b), b.0 < P.len(), pp(P, a) != pp(P, m), orient(pp(P, b), pp(P, m), pp(P, a)) == 0real, btw(pp(P, b), pp(P, a), pp(P, m))
    ensures covered(P, T, a, b)
{
    let c = choose|c: Seq<PointId>| #[trigger] chain(P, T, c, a, m);
    let d = c.push(b);
    assert(c[c.len() - 1].0 < P.len());
    assert forall|k: int| 0 <= k < d.len() - 1 implies #[trigger] clink(T, d, k) by { if k < c.len() - 1 { assert(clink(T, c, k)); } }
    assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).0 < P.len() && orient(pp(P, a), pp(P, b), pp(P, d[k])) == 0real && btw(pp(P, a), pp(P, b), pp(P, d[k])) by {
        if k < c.len() { assert(c[k].0 < P.len()); on_line(pp(P, a), pp(P, m), pp(P, b), pp(P, c[k])); } else { orient_perm(pp(P, a), pp(P, b), pp(P, b)); }
    }
    assert(d[0] == c[0]);
    assert(chain(P, T, d, a, b));
}
pub open spec fn marks(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, p: PointId, q: PointId, t: TriangleId, i: int) -> bool { i3(i) && joins(T0[t.0 as int], i, p, q) && con_add(T0, T1, t, i) }
pub open spec fn marking(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, p: PointId, q: PointId, t: TriangleId, ret: bool) -> bool {
    if ret { exists|i: int| #[trigger] marks(T0, T1, p, q, t, i) } else { T1 == T0 && forall|i: int| i3(i) ==> !(#[trigger] joins(T0[t.0 as int], i, p, q)) }
}
/// the entry of a supplied point has a triangle
pub proof fn ent_tri(s: &Sweeper, k: int, id: PointId)
    requires sok(s), 0 <= k < sF(s).len(), fk(sF(s), k) == pp(sP(s), id), id.0 < sP(s).len() - 2
    ensures fid(sF(s), k) == id, valid(sT(s), ftri(sF(s), k)), k < sF(s).len() - 1
{
    let F = sF(s); let P = sP(s);
    front_ends(s);
    assert(F[k].key.0 == P[fid(F, k).0 as int]);
    let (i, j) = (fid(F, k).0 as int, id.0 as int);
    if i != j { if i < j { assert(p2(P[i]) != p2(P[j])); } else { assert(p2(P[j]) != p2(P[i])); } }
    assert(fpart(sT(s), ids(F), tris(F), k));
    assert(tris(F)[k] == ftri(F, k));
}
pub proof fn cedge_sym(T: Seq<InnerTriangle>, a: PointId, b: PointId)
    requires cedge(T, a, b)
    ensures cedge(T, b, a)
{
    let (x, e) = choose|x: int, e: int| in3(T, x, e) && tc(T[x], e) && #[trigger] joins(T[x], e, a, b);
    cedge_is(T, x, e, a, b);
}
pub proof fn not_end(P: Seq<Point>, t: InnerTriangle, m: PointId, eq: PointId, ep: PointId)
    requires tdist(t), has(t, eq), m == tp(t, nx(ix(t, eq))) || m == tp(t, pv(ix(t, eq))), forall|i: int| i3(i) ==> !(#[trigger] joins(t, i, ep, eq))
    ensures ep != m
{
    let i = ix(t, eq);
    if ep == m { assert(joins(t, pv(i), ep, eq) || joins(t, nx(i), ep, eq)); }
}
pub proof fn neq(P: Points, a: PointId, b: PointId)
    requires env(P), a.0 < P.points@.len(), b.0 < P.points@.len(), a != b
    ensures pp(P.points@, a) != pp(P.points@, b)
{
    if a.0 < b.0 { assert(p2(P.points@[a.0 as int]) != p2(P.points@[b.0 as int])); } else { assert(p2(P.points@[b.0 as int]) != p2(P.points@[a.0 as int])); }
}
pub proof fn joins_uniq(t: InnerTriangle, a: PointId, b: PointId)
    requires tdist(t)
    ensures forall|i: int, j: int| i3(i) && i3(j) && #[trigger] joins(t, i, a, b) && #[trigger] joins(t, j, a, b) ==> i == j || a == b
{ }
pub proof fn map_has(a: TriangleId, b: TriangleId)
    ensures forall|y: TriangleId| #[trigger] Seq::<TriangleId>::empty().push(a).push(b).contains(y) ==> y == a || seq![b].contains(y), forall|y: TriangleId| #[trigger] seq![b].contains(y) ==> y == b || Seq::<TriangleId>::empty().contains(y)
{ assert(seq![b][0] == b); }
pub proof fn f_ends(F0: Seq<Entry>, F1: Seq<Entry>)
    requires ids(F1) == ids(F0), F0.len() >= 2
    ensures F1.len() == F0.len(), fid(F1, 0) == fid(F0, 0), fid(F1, F0.len() - 1) == fid(F0, F0.len() - 1)
{ let n = F0.len(); assert(ids(F0).len() == n && ids(F1).len() == F1.len()); assert(ids(F1)[0] == fid(F1, 0) && ids(F0)[0] == fid(F0, 0) && ids(F1)[n - 1] == fid(F1, n - 1) && ids(F0)[n - 1] == fid(F0, n - 1)); }
/// a rotation that leaves the front alone
pub proof fn rot_es(s0: &Sweeper, s1: &Sweeper, t: TriangleId, ot: TriangleId, i: int, j: int, L: Seq<TriangleId>)
    requires sok(s0), rot_req(sP(s0), sT(s0), t, ot, i, j), rotated(sT(s0), sT(s1), t, ot, i, j), s1.points == s0.points, *s1.advancing_front == *s0.advancing_front, queues(s1), L == Seq::<TriangleId>::empty().push(t).push(ot)
    ensures base_ok(s1), cmono(sT(s0), sT(s1)), cback(sT(s0), sT(s1)), isorted(sP(s0), ids(sF(s0))),
        forall|x: TriangleId, y: TriangleId| #[trigger] illp(sP(s0), sT(s1), x, y) && x != t && x != ot && y != t && y != ot ==> illp(sP(s0), sT(s0), x, y),
        front(sT(s1), ids(sF(s0)), rot_g(sT(s0), ids(sF(s0)), tris(sF(s0)), t, ot, i, j), s0.points.head, s0.points.tail),
        if exists|e: int| bd(sT(s0), t.0 as int, e) || bd(sT(s0), ot.0 as int, e) { lag(sF(s0), rot_g(sT(s0), ids(sF(s0)), tris(sF(s0)), t, ot, i, j), L) } else { front_ok(s1) },
{
    let (P, T0, T1, F) = (sP(s0), sT(s0), sT(s1), sF(s0));
    rot_mesh(P, T0, T1, t, ot, i, j); rot_dfl(P, T0, T1, t, ot, i, j); rot_ill(P, T0, T1, t, ot, i, j); rot_mono(P, T0, T1, t, ot, i, j); rot_six(P, T0, t, ot, i, j);
    f_sorted(P, F);
    let E = Seq::<TriangleId>::empty();
    assert(lag(F, tris(F), E));
    let b = exists|e: int| bd(T0, t.0 as int, e) || bd(T0, ot.0 as int, e);
    lag_rot(P, T0, T1, T1, F, tris(F), s0.points.head, s0.points.tail, t, ot, i, j, E, if b { L } else { E });
    assert forall|x: int| 0 <= x < T1.len() implies !(#[trigger] T1[x]).interior by { assert(!T0[x].interior); }
    if !b { lag_none(T1, F, rot_g(T0, ids(F), tris(F), t, ot, i, j), s0.points.head, s0.points.tail, E); }
}

// ---- the sweep
pub open spec fn legal(P: Seq<Point>, T: Seq<InnerTriangle>) -> bool { legal_but(P, T, seq![]) }
/// what the check of one triangle reports for edge e
pub open spec fn rep(P: Seq<Point>, T: Seq<InnerTriangle>, i: int, e: int) -> TriangleId { if ill(P, T, i, e) { tn(T[i], e) } else { inv() } }
/// R lists the pairs of neighbors with an edge that is not legal, for the triangles before n
pub open spec fn illist(P: Seq<Point>, T: Seq<InnerTriangle>, R: Seq<(TriangleId, TriangleId)>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < R.len() ==> illp(P, T, (#[trigger] R[k]).0, R[k].1)
    &&& forall|x: TriangleId, y: TriangleId| x.0 < n && #[trigger] illp(P, T, x, y) ==> R.contains((x, y))
}
/// the same, when of triangle n the edges before m have been listed
pub open spec fn illist_to(P: Seq<Point>, T: Seq<InnerTriangle>, R: Seq<(TriangleId, TriangleId)>, n: int, m: int) -> bool {
    &&& illist(P, T, R, n)
    &&& forall|e: int| 0 <= e < m && #[trigger] ill(P, T, n, e) ==> R.contains((TriangleId(n as usize), tn(T[n], e)))
}
pub proof fn list_push(P: Seq<Point>, T: Seq<InnerTriangle>, R: Seq<(TriangleId, TriangleId)>, n: int, m: int)
    requires illist_to(P, T, R, n, m), in3(T, n, m), T.len() <= usize::MAX, ill(P, T, n, m)
    ensures illist_to(P, T, R.push((TriangleId(n as usize), tn(T[n], m))), n, m + 1)
{
    let x = TriangleId(n as usize);
    let R1 = R.push((x, tn(T[n], m)));
    assert(illp(P, T, x, tn(T[n], m))) by { assert(ill(P, T, x.0 as int, m)); }
    assert(R1[R.len() as int] == (x, tn(T[n], m)));
    assert forall|k: int| 0 <= k < R1.len() implies illp(P, T, (#[trigger] R1[k]).0, R1[k].1) by { if k < R.len() { assert(R1[k] == R[k]); } }
    assert forall|a: TriangleId, b: TriangleId| a.0 < n && #[trigger] illp(P, T, a, b) implies R1.contains((a, b)) by { let k = choose|k: int| 0 <= k < R.len() && R[k] == (a, b); assert(R1[k] == (a, b)); }
    assert forall|e: int| 0 <= e < m + 1 && #[trigger] ill(P, T, n, e) implies R1.contains((x, tn(T[n], e))) by { if e < m { let k = choose|k: int| 0 <= k < R.len() && R[k] == (x, tn(T[n], e)); assert(R1[k] == (x, tn(T[n], e))); } }
}
pub open spec fn numbered(v: Seq<TriangleId>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).0 == i }
pub proof fn list_alls(P: Seq<Point>, T: Seq<InnerTriangle>)
    ensures forall|R: Seq<(TriangleId, TriangleId)>| #[trigger] illist(P, T, R, T.len() as int) ==> (R.len() == 0) == legal(P, T)
{
    assert forall|R: Seq<(TriangleId, TriangleId)>| #[trigger] illist(P, T, R, T.len() as int) implies (R.len() == 0) == legal(P, T) by { list_all(P, T, R); }
}
pub proof fn list_next(P: Seq<Point>, T: Seq<InnerTriangle>, R: Seq<(TriangleId, TriangleId)>, n: int)
    requires illist_to(P, T, R, n, 3)
    ensures illist(P, T, R, n + 1)
{
    assert forall|a: TriangleId, b: TriangleId| a.0 < n + 1 && #[trigger] illp(P, T, a, b) implies R.contains((a, b)) by {
        if a.0 == n { let e = choose|e: int| #[trigger] ill(P, T, a.0 as int, e) && tn(T[a.0 as int], e) == b; assert(ill(P, T, n, e)); }
    }
}
pub proof fn list_all(P: Seq<Point>, T: Seq<InnerTriangle>, R: Seq<(TriangleId, TriangleId)>)
    requires illist(P, T, R, T.len() as int)
    ensures (R.len() == 0) == legal(P, T)
{
    if R.len() == 0 {
        assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T, x, y) implies Seq::<TriangleId>::empty().contains(x) || Seq::<TriangleId>::empty().contains(y) by {
            let e = choose|e: int| #[trigger] ill(P, T, x.0 as int, e) && tn(T[x.0 as int], e) == y;
            assert(R.contains((x, y)));
        }
        assert(seq![] =~= Seq::<TriangleId>::empty());
    } else {
        assert(illp(P, T, R[0].0, R[0].1));
        if legal(P, T) { assert(seq![].contains(R[0].0) || seq![].contains(R[0].1)); }
    }
}
/// the calls for one point with the edges E, of which k have been processed
pub open spec fn point_log(id: PointId, E: Seq<PointId>, k: int) -> Seq<Ev>
    decreases k
{ if k <= 0 { seq![Ev::Enter(id), Ev::Exit(id)] } else { point_log(id, E, k - 1).push(Ev::Edge(E[k - 1], id)) } }
/// the calls for the points up to c in the order of the sweep; the first one has none
pub open spec fn sweep_log(P: Points, c: int) -> Seq<Ev>
    decreases c
{ if c <= 1 { seq![] } else { let id = P.y_sorted@[c - 1]; sweep_log(P, c - 1) + point_log(id, ev(P.edges@[id.0 as int]), ev(P.edges@[id.0 as int]).len() as int) } }
/// edge k of point m of the sweep
pub open spec fn ecov(P: Points, T: Seq<InnerTriangle>, m: int, k: int) -> bool { let id = P.y_sorted@[m]; covered(P.points@, T, ev(P.edges@[id.0 as int])[k], id) }
pub open spec fn all_cov(P: Points, T: Seq<InnerTriangle>, c: int) -> bool { forall|m: int, k: int| 0 <= m < c && 0 <= k < ev(P.edges@[P.y_sorted@[m].0 as int]).len() ==> #[trigger] ecov(P, T, m, k) }
pub proof fn acov_mono(P: Points, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, c: int)
    requires all_cov(P, T0, c), cmono(T0, T1)
    ensures all_cov(P, T1, c)
{
    assert forall|m: int, k: int| 0 <= m < c && 0 <= k < ev(P.edges@[P.y_sorted@[m].0 as int]).len() implies #[trigger] ecov(P, T1, m, k) by {
        assert(ecov(P, T0, m, k)); cov_mono(P.points@, T0, T1, ev(P.edges@[P.y_sorted@[m].0 as int])[k], P.y_sorted@[m]);
    }
}
pub proof fn cm_trans(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, T2: Seq<InnerTriangle>)
    requires cmono(T0, T1), cmono(T1, T2)
    ensures cmono(T0, T2)
{ assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(T2, a, b) by { assert(cedge(T1, a, b)); } }
/// every supplied point is a corner
pub open spec fn all_used(P: Points, T: Seq<InnerTriangle>) -> bool { forall|q: PointId| q.0 < P.points@.len() - 2 ==> #[trigger] vert(T, q) }
pub proof fn used_all(P: Points, T: Seq<InnerTriangle>)
    requires points_ok(P), P.points@.len() > 2, all_vert(P, T, P.points@.len() - 2)
    ensures all_used(P, T)
{
    let n = P.points@.len() - 2;
    assert forall|q: PointId| q.0 < n implies #[trigger] vert(T, q) by {
        onto(P.y_sorted@, n, q.0 as int);
        let m = choose|m: int| 0 <= m < n && #[trigger] P.y_sorted@[m].0 == q.0;
        assert(P.y_sorted@[m] == q);
    }
}
/// the front consists of points that have been processed
pub open spec fn seen(P: Points, I: Seq<PointId>, c: int) -> bool { forall|x: PointId| #[trigger] I.contains(x) ==> x == P.head || x == P.tail || exists|m: int| 0 <= m < c && #[trigger] P.y_sorted@[m] == x }
pub proof fn seen_before(P: Points, I: Seq<PointId>, c: int)
    requires env(P), seen(P, I, c), 0 < c < P.points@.len() - 2
    ensures before(P.points@, I, P.y_sorted@[c])
{
    distinct_take(P);
    let q = P.y_sorted@[c];
    assert forall|k: int| 0 <= k < I.len() implies ylt(pp(P.points@, #[trigger] I[k]), pp(P.points@, q)) by {
        assert(I.contains(I[k]));
        if I[k] == P.head || I[k] == P.tail { assert(pp(P.points@, P.head).1 < p2(P.points@[q.0 as int]).1); }
    }
}
pub proof fn distinct_take(P: Points)
    requires distinct(P.points@), P.points@.len() >= 2
    ensures distinct(P.points@.take(P.points@.len() - 2))
{
    let n = P.points@.len() - 2; let Q = P.points@.take(n);
    assert forall|i: int, j: int| 0 <= i < j < Q.len() implies p2(#[trigger] Q[i]) != p2(#[trigger] Q[j]) by { assert(Q[i] == P.points@[i] && Q[j] == P.points@[j]); }
}
pub proof fn seen_grow(P: Points, I0: Seq<PointId>, I1: Seq<PointId>, c: int)
    requires seen(P, I0, c), grown(I0, I1, P.y_sorted@[c]), c >= 0
    ensures seen(P, I1, c + 1)
{
    assert forall|x: PointId| #[trigger] I1.contains(x) implies x == P.head || x == P.tail || exists|m: int| 0 <= m < c + 1 && #[trigger] P.y_sorted@[m] == x by {
        if x == P.y_sorted@[c] { } else { assert(I0.contains(x)); }
    }
}
pub proof fn seen_sub(P: Points, I0: Seq<PointId>, I1: Seq<PointId>, c: int)
    requires seen(P, I0, c), sub(I0, I1)
    ensures seen(P, I1, c)
{ assert forall|x: PointId| #[trigger] I1.contains(x) implies x == P.head || x == P.tail || exists|m: int| 0 <= m < c && #[trigger] P.y_sorted@[m] == x by { assert(I0.contains(x)); } }
/// every id is in the order of the sweep
pub proof fn onto(S: Seq<PointId>, n: int, i: int)
    requires S.len() == n, 0 <= i < n, forall|k: int| 0 <= k < n ==> 0 <= (#[trigger] S[k]).0 < n, forall|k: int, m: int| #![trigger S[k], S[m]] 0 <= k < m < n ==> S[k] != S[m]
    ensures exists|m: int| 0 <= m < n && #[trigger] S[m].0 == i
{
    let Z = Seq::new(n as nat, |k: int| S[k].0 as int);
    assert(Z.no_duplicates()) by { assert forall|k: int, m: int| 0 <= k < n && 0 <= m < n && k != m implies Z[k] != Z[m] by { if k < m { assert(S[k] != S[m]); } else { assert(S[m] != S[k]); } } }
    Z.unique_seq_to_set();
    let R = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert(Z.to_set().subset_of(R)) by { assert forall|x: int| Z.to_set().contains(x) implies R.contains(x) by { let k = choose|k: int| 0 <= k < Z.len() && Z[k] == x; assert(S[k].0 < n); } }
    vstd::set_lib::lemma_subset_equality(Z.to_set(), R);
    assert(R.contains(i)); assert(Z.to_set().contains(i)); assert(Z.contains(i));
    let k = choose|k: int| 0 <= k < Z.len() && Z[k] == i;
    assert(S[k].0 == i);
}
pub proof fn first_none(P: Points)
    requires env(P)
    ensures ev(P.edges@[P.y_sorted@[0].0 as int]).len() == 0
{
    let n = P.points@.len() - 2; let q = P.y_sorted@[0]; let E = ev(P.edges@[q.0 as int]);
    distinct_take(P);
    if E.len() > 0 {
        let p = E[0];
        assert(ev(P.edges@[q.0 as int])[0].0 < n);
        onto(P.y_sorted@, n, p.0 as int);
        let m = choose|m: int| 0 <= m < n && #[trigger] P.y_sorted@[m].0 == p.0;
        assert(ylt(pp(P.points@, p), pp(P.points@, q)));
        if m > 0 { assert(ylt(pp(P.points@, q), pp(P.points@, P.y_sorted@[m]))); }
    }
}

// ---- the inside
pub open spec fn hopat(T: Seq<InnerTriangle>, a: int, e: int, b: int) -> bool { in3(T, a, e) && !tc(T[a], e) && tn(T[a], e) != inv() && tn(T[a], e).0 == b }
/// b is a neighbor of a across an edge without mark
pub open spec fn hop(T: Seq<InnerTriangle>, a: int, b: int) -> bool { exists|e: int| #[trigger] hopat(T, a, e, b) }
pub open spec fn khop(T: Seq<InnerTriangle>, c: Seq<int>, k: int) -> bool { hop(T, c[k], c[k + 1]) }
pub open spec fn path(T: Seq<InnerTriangle>, c: Seq<int>, a: int, b: int) -> bool { c.len() > 0 && c[0] == a && c[c.len() - 1] == b && forall|k: int| 0 <= k < c.len() - 1 ==> #[trigger] khop(T, c, k) }
/// b is connected to a without crossing an edge with mark
pub open spec fn reach(T: Seq<InnerTriangle>, a: int, b: int) -> bool { exists|c: Seq<int>| #[trigger] path(T, c, a, b) }
/// a helper point, or an edge without mark and without neighbor
pub open spec fn oedge(P: Points, T: Seq<InnerTriangle>, a: int, e: int) -> bool { in3(T, a, e) && (tp(T[a], e) == P.head || tp(T[a], e) == P.tail || (tn(T[a], e) == inv() && !tc(T[a], e))) }
pub open spec fn out0(P: Points, T: Seq<InnerTriangle>, a: int) -> bool { exists|e: int| #[trigger] oedge(P, T, a, e) }
/// connected to the outside
pub open spec fn outside(P: Points, T: Seq<InnerTriangle>, b: int) -> bool { exists|a: int| out0(P, T, a) && #[trigger] reach(T, a, b) }
/// s is across edge e of a, which has a mark
pub open spec fn across(T: Seq<InnerTriangle>, a: int, e: int, s: int) -> bool { in3(T, a, e) && tc(T[a], e) && tn(T[a], e) != inv() && tn(T[a], e).0 == s }
/// just across an edge with mark from the outside
pub open spec fn seed(P: Points, T: Seq<InnerTriangle>, s: int) -> bool {
    (exists|e: int| #[trigger] bd(T, s, e) && tc(T[s], e)) || (exists|a: int, e: int| outside(P, T, a) && #[trigger] across(T, a, e, s))
}
pub open spec fn from_seed(P: Points, T: Seq<InnerTriangle>, s: int, x: int) -> bool { seed(P, T, s) && !outside(P, T, s) && reach(T, s, x) }
pub open spec fn inside(P: Points, T: Seq<InnerTriangle>, x: int) -> bool { !outside(P, T, x) && exists|s: int| #[trigger] from_seed(P, T, s, x) }
/// the result: exactly the inside, each triangle once
pub open spec fn inside_ok(P: Points, T: Seq<InnerTriangle>, R: Seq<TriangleId>) -> bool {
    &&& R.no_duplicates()
    &&& forall|i: int| 0 <= i < R.len() ==> valid(T, #[trigger] R[i])
    &&& forall|t: TriangleId| valid(T, t) ==> (#[trigger] R.contains(t) <==> inside(P, T, t.0 as int))
}
pub proof fn reach_refl(T: Seq<InnerTriangle>, a: int)
    ensures reach(T, a, a)
{ assert(path(T, seq![a], a, a)); }
pub proof fn reach_step(T: Seq<InnerTriangle>, a: int, b: int, d: int)
    requires reach(T, a, b), hop(T, b, d)
    ensures reach(T, a, d)
{
    let c = choose|c: Seq<int>| #[trigger] path(T, c, a, b);
    let z = c.push(d);
    assert forall|k: int| 0 <= k < z.len() - 1 implies #[trigger] khop(T, z, k) by { if k < c.len() - 1 { assert(khop(T, c, k)); } }
    assert(path(T, z, a, d));
}
pub proof fn reach_pre(T: Seq<InnerTriangle>, a: int, b: int, d: int)
    requires hop(T, a, b), reach(T, b, d)
    ensures reach(T, a, d)
{
    let c = choose|c: Seq<int>| #[trigger] path(T, c, b, d);
    let z = seq![a] + c;
    assert forall|k: int| 0 <= k < z.len() - 1 implies #[trigger] khop(T, z, k) by { if k > 0 { assert(khop(T, c, k - 1)); assert(z[k] == c[k - 1] && z[k + 1] == c[k]); } else { assert(z[1] == c[0]); } }
    assert(z[z.len() - 1] == c[c.len() - 1]);
    assert(path(T, z, a, d));
}
pub open spec fn closed(T: Seq<InnerTriangle>, X: spec_fn(int) -> bool) -> bool { forall|x: int, y: int| X(x) && #[trigger] hop(T, x, y) ==> X(y) }
pub proof fn closed_reach(T: Seq<InnerTriangle>, X: spec_fn(int) -> bool, a: int, b: int)
    requires closed(T, X), X(a), reach(T, a, b)
    ensures X(b)
{
    let c = choose|c: Seq<int>| #[trigger] path(T, c, a, b);
    closed_path(T, X, c, c.len() - 1, a, b);
}
pub proof fn closed_path(T: Seq<InnerTriangle>, X: spec_fn(int) -> bool, c: Seq<int>, k: int, a: int, b: int)
    requires closed(T, X), X(a), path(T, c, a, b), 0 <= k < c.len()
    ensures X(c[k])
    decreases k
{ if k > 0 { closed_path(T, X, c, k - 1, a, b); assert(khop(T, c, k - 1)); } }
pub proof fn hop_sym(P: Seq<Point>, T: Seq<InnerTriangle>, a: int, b: int)
    requires mesh(P, T), hop(T, a, b)
    ensures hop(T, b, a), 0 <= a < T.len(), 0 <= b < T.len()
{
    let e = choose|e: int| #[trigger] hopat(T, a, e, b);
    let j = nb_at(P, T, a, e);
    assert(hopat(T, b, j, a));
}
pub proof fn reach_sym(P: Seq<Point>, T: Seq<InnerTriangle>, a: int, b: int)
    requires mesh(P, T), reach(T, a, b)
    ensures reach(T, b, a)
{
    let X = |y: int| reach(T, y, a);
    reach_refl(T, a);
    assert forall|x: int, y: int| X(x) && #[trigger] hop(T, x, y) implies X(y) by { hop_sym(P, T, x, y); reach_pre(T, y, x, a); }
    closed_reach(T, X, a, b);
}
pub proof fn reach_in(P: Seq<Point>, T: Seq<InnerTriangle>, a: int, b: int)
    requires mesh(P, T), reach(T, a, b), 0 <= a < T.len()
    ensures 0 <= b < T.len()
{
    let X = |y: int| 0 <= y < T.len();
    assert forall|x: int, y: int| X(x) && #[trigger] hop(T, x, y) implies X(y) by { hop_sym(P, T, x, y); }
    closed_reach(T, X, a, b);
}
pub proof fn outside_step(P: Points, T: Seq<InnerTriangle>, x: int, y: int)
    requires outside(P, T, x), hop(T, x, y)
    ensures outside(P, T, y)
{ let a = choose|a: int| out0(P, T, a) && #[trigger] reach(T, a, x); reach_step(T, a, x, y); }
/// what is connected to something inside is not outside
pub proof fn not_out(P: Points, T: Seq<InnerTriangle>, s: int, x: int)
    requires mesh(P.points@, T), reach(T, s, x), !outside(P, T, s)
    ensures !outside(P, T, x)
{
    if outside(P, T, x) {
        let X = |y: int| outside(P, T, y);
        assert forall|x: int, y: int| X(x) && #[trigger] hop(T, x, y) implies X(y) by { outside_step(P, T, x, y); }
        reach_sym(P.points@, T, s, x);
        closed_reach(T, X, x, s);
    }
}
pub proof fn reach_trans(T: Seq<InnerTriangle>, a: int, b: int, d: int)
    requires reach(T, a, b), reach(T, b, d)
    ensures reach(T, a, d)
{
    let X = |y: int| reach(T, a, y);
    assert forall|x: int, y: int| X(x) && #[trigger] hop(T, x, y) implies X(y) by { reach_step(T, a, x, y); }
    closed_reach(T, X, b, d);
}
/// the same triangles up to the interior marks
pub open spec fn same_tri(a: InnerTriangle, b: InnerTriangle) -> bool { b.points == a.points && b.neighbors == a.neighbors && b.edge_attrs == a.edge_attrs }
pub open spec fn same_int(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>) -> bool { T1.len() == T0.len() && forall|i: int| 0 <= i < T0.len() ==> same_tri(T0[i], #[trigger] T1[i]) }
pub proof fn int_reach(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>)
    requires same_int(T0, T1)
    ensures forall|a: int, b: int| #[trigger] hop(T1, a, b) == hop(T0, a, b), forall|a: int, b: int| #[trigger] reach(T1, a, b) == reach(T0, a, b)
{
    assert forall|a: int, b: int| #[trigger] hop(T1, a, b) == hop(T0, a, b) by {
        if hop(T0, a, b) { let e = choose|e: int| #[trigger] hopat(T0, a, e, b); assert(same_tri(T0[a], T1[a])); assert(hopat(T1, a, e, b)); }
        if hop(T1, a, b) { let e = choose|e: int| #[trigger] hopat(T1, a, e, b); assert(same_tri(T0[a], T1[a])); assert(hopat(T0, a, e, b)); }
    }
    assert forall|a: int, b: int| #[trigger] reach(T1, a, b) == reach(T0, a, b) by {
        if reach(T0, a, b) { let c = choose|c: Seq<int>| #[trigger] path(T0, c, a, b); assert forall|k: int| 0 <= k < c.len() - 1 implies #[trigger] khop(T1, c, k) by { assert(khop(T0, c, k)); } assert(path(T1, c, a, b)); }
        if reach(T1, a, b) { let c = choose|c: Seq<int>| #[trigger] path(T1, c, a, b); assert forall|k: int| 0 <= k < c.len() - 1 implies #[trigger] khop(T0, c, k) by { assert(khop(T1, c, k)); } assert(path(T0, c, a, b)); }
    }
}
pub proof fn int_out1(P: Points, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, x: int)
    requires same_int(T0, T1)
    ensures outside(P, T0, x) ==> outside(P, T1, x), out0(P, T0, x) ==> out0(P, T1, x)
{
    int_reach(T0, T1);
    assert forall|a: int| out0(P, T0, a) implies out0(P, T1, a) by { let e = choose|e: int| #[trigger] oedge(P, T0, a, e); assert(same_tri(T0[a], T1[a])); assert(oedge(P, T1, a, e)); }
    if outside(P, T0, x) { let a = choose|a: int| out0(P, T0, a) && #[trigger] reach(T0, a, x); assert(reach(T1, a, x)); }
}
pub proof fn int_flip(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>)
    requires same_int(T0, T1)
    ensures same_int(T1, T0)
{ assert forall|i: int| 0 <= i < T1.len() implies same_tri(T1[i], #[trigger] T0[i]) by { assert(same_tri(T0[i], T1[i])); } }
pub proof fn int_out(P: Points, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>)
    requires same_int(T0, T1)
    ensures forall|x: int| #[trigger] outside(P, T1, x) == outside(P, T0, x)
{
    int_flip(T0, T1);
    assert forall|x: int| #[trigger] outside(P, T1, x) == outside(P, T0, x) by { int_out1(P, T0, T1, x); int_out1(P, T1, T0, x); }
}
pub proof fn int_seed1(P: Points, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, s: int)
    requires same_int(T0, T1), seed(P, T0, s)
    ensures seed(P, T1, s)
{
    int_out(P, T0, T1);
    if exists|e: int| #[trigger] bd(T0, s, e) && tc(T0[s], e) { let e = choose|e: int| #[trigger] bd(T0, s, e) && tc(T0[s], e); assert(same_tri(T0[s], T1[s])); assert(bd(T1, s, e) && tc(T1[s], e)); }
    else { let (a, e) = choose|a: int, e: int| outside(P, T0, a) && #[trigger] across(T0, a, e, s); assert(same_tri(T0[a], T1[a])); assert(outside(P, T1, a)); assert(across(T1, a, e, s)); }
}
pub proof fn int_inside(P: Points, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>)
    requires same_int(T0, T1)
    ensures forall|x: int| #[trigger] inside(P, T1, x) == inside(P, T0, x)
{
    int_flip(T0, T1); int_out(P, T0, T1); int_reach(T0, T1);
    assert forall|x: int| #[trigger] inside(P, T1, x) == inside(P, T0, x) by {
        if inside(P, T0, x) { let s = choose|s: int| #[trigger] from_seed(P, T0, s, x); int_seed1(P, T0, T1, s); assert(outside(P, T1, s) == outside(P, T0, s)); assert(reach(T1, s, x)); assert(from_seed(P, T1, s, x)); }
        if inside(P, T1, x) { let s = choose|s: int| #[trigger] from_seed(P, T1, s, x); int_seed1(P, T1, T0, s); assert(outside(P, T1, s) == outside(P, T0, s)); assert(reach(T1, s, x)); assert(from_seed(P, T0, s, x)); }
    }
}
/// nothing else depends on the interior marks
pub proof fn int_keep(s0: &Sweeper, s1: &Sweeper)
    requires sok(s0), legal(sP(s0), sT(s0)), same_int(sT(s0), sT(s1)), s1.points == s0.points, *s1.advancing_front == *s0.advancing_front
    ensures obs_mesh(s1), obs_front(s1), legal(sP(s1), sT(s1)), cmono(sT(s0), sT(s1)), cback(sT(s0), sT(s1))
{
    let (P, T0, T1) = (sP(s0), sT(s0), sT(s1));
    assert forall|i: int| 0 <= i < T1.len() implies tri_ok(P, #[trigger] T1[i]) by { assert(tri_ok(P, T0[i])); assert(same_tri(T0[i], T1[i])); }
    assert forall|i: int, e: int| in3(T1, i, e) implies #[trigger] nb(T1, i, e) by { assert(nb(T0, i, e)); assert(same_tri(T0[i], T1[i])); if tn(T0[i], e) != inv() { assert(same_tri(T0[tn(T0[i], e).0 as int], T1[tn(T0[i], e).0 as int])); } }
    assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T1, x, y) implies seq![].contains(x) || seq![].contains(y) by {
        let e = choose|e: int| #[trigger] ill(P, T1, x.0 as int, e) && tn(T1[x.0 as int], e) == y;
        assert(same_tri(T0[x.0 as int], T1[x.0 as int])); assert(nb(T0, x.0 as int, e)); assert(same_tri(T0[y.0 as int], T1[y.0 as int]));
        assert(ill(P, T0, x.0 as int, e)); assert(illp(P, T0, x, y));
    }
    assert forall|x: int| 0 <= x < T0.len() implies (#[trigger] T1[x]).points == T0[x].points by { assert(same_tri(T0[x], T1[x])); }
    vert_pts(T0, T1);
    assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(T1, a, b) by {
        let (x, e) = choose|x: int, e: int| in3(T0, x, e) && tc(T0[x], e) && #[trigger] joins(T0[x], e, a, b);
        assert(same_tri(T0[x], T1[x])); assert(joins(T1[x], e, a, b));
    }
    cback_same(T0, T1);
    f_sorted(P, sF(s0));
    front_net(T0, T1, ids(sF(s0)), tris(sF(s0)), tris(sF(s0)), s0.points.head, s0.points.tail);
}
pub proof fn int_mesh(P: Seq<Point>, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>)
    requires mesh(P, T0), same_int(T0, T1)
    ensures mesh(P, T1)
{
    assert forall|i: int| 0 <= i < T1.len() implies tri_ok(P, #[trigger] T1[i]) by { assert(tri_ok(P, T0[i])); assert(same_tri(T0[i], T1[i])); }
    assert forall|i: int, e: int| in3(T1, i, e) implies #[trigger] nb(T1, i, e) by { assert(nb(T0, i, e)); assert(same_tri(T0[i], T1[i])); if tn(T0[i], e) != inv() { assert(same_tri(T0[tn(T0[i], e).0 as int], T1[tn(T0[i], e).0 as int])); } }
}
/// a seed is searched
pub proof fn seed_step(P: Points, T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, T2: Seq<InnerTriangle>, S: Seq<TriangleId>, k: int)
    requires mesh(P.points@, T0), same_int(T0, T1), same_int(T1, T2), mark_from(T1, T2, S[k].0 as int), inn(T2, S[k].0 as int), 0 <= k < S.len(), seed(P, T0, S[k].0 as int), !outside(P, T0, S[k].0 as int),
        forall|y: int| #[trigger] inn(T1, y) ==> inside(P, T0, y), forall|j: int| 0 <= j < k ==> outside(P, T0, (#[trigger] S[j]).0 as int) || inn(T1, S[j].0 as int)
    ensures same_int(T0, T2), forall|y: int| #[trigger] inn(T2, y) ==> inside(P, T0, y), forall|j: int| 0 <= j < k + 1 ==> outside(P, T0, (#[trigger] S[j]).0 as int) || inn(T2, S[j].0 as int)
{
    let x = S[k].0 as int; int_reach(T0, T1);
    assert forall|i: int| 0 <= i < T0.len() implies same_tri(T0[i], #[trigger] T2[i]) by { assert(same_tri(T0[i], T1[i])); assert(same_tri(T1[i], T2[i])); }
    assert forall|y: int| #[trigger] inn(T2, y) implies inside(P, T0, y) by { if !inn(T1, y) { assert(reach(T1, x, y)); assert(reach(T0, x, y)); not_out(P, T0, x, y); assert(from_seed(P, T0, x, y)); } }
    assert forall|j: int| 0 <= j < k + 1 implies outside(P, T0, (#[trigger] S[j]).0 as int) || inn(T2, S[j].0 as int) by { if j < k { assert(inn(T1, S[j].0 as int) ==> inn(T2, S[j].0 as int)); } }
}
/// the interior marks
pub open spec fn inn(T: Seq<InnerTriangle>, x: int) -> bool { 0 <= x < T.len() && T[x].interior }
pub open spec fn listed(T: Seq<InnerTriangle>, R: Seq<TriangleId>) -> bool {
    &&& R.no_duplicates()
    &&& forall|i: int| 0 <= i < R.len() ==> valid(T, #[trigger] R[i])
    &&& forall|t: TriangleId| valid(T, t) ==> (#[trigger] R.contains(t) <==> inn(T, t.0 as int))
}
pub open spec fn on_stack(S: Seq<(TriangleId, TriangleId)>, y: int) -> bool { exists|k: int| 0 <= k < S.len() && (#[trigger] S[k]).0.0 == y }
/// what is next to a marked triangle (other than u) is marked or waits
pub open spec fn waits(T0: Seq<InnerTriangle>, T: Seq<InnerTriangle>, S: Seq<(TriangleId, TriangleId)>, u: int) -> bool { forall|x: int, y: int| inn(T, x) && x != u && #[trigger] hop(T0, x, y) ==> inn(T, y) || on_stack(S, y) }
pub open spec fn waits_at(T0: Seq<InnerTriangle>, T: Seq<InnerTriangle>, S: Seq<(TriangleId, TriangleId)>, u: int, i: int) -> bool { forall|e: int, y: int| e < i && #[trigger] hopat(T0, u, e, y) ==> inn(T, y) || on_stack(S, y) }
pub open spec fn stack_ok(T0: Seq<InnerTriangle>, T: Seq<InnerTriangle>, S: Seq<(TriangleId, TriangleId)>, id: int) -> bool { forall|k: int| #![trigger S[k]] 0 <= k < S.len() ==> (S[k].0 == inv() || (valid(T0, S[k].0) && reach(T0, id, S[k].0.0 as int))) && (S[k].1 == inv() || inn(T, S[k].1.0 as int)) }
pub open spec fn cl_mark(T: Seq<InnerTriangle>) -> bool { forall|x: int, y: int| inn(T, x) && #[trigger] hop(T, x, y) ==> inn(T, y) }
/// the marks of T1 are those of T0 and some of what is reached from id
pub open spec fn mark_from(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, id: int) -> bool { (forall|x: int| #[trigger] inn(T1, x) ==> inn(T0, x) || reach(T0, id, x)) && (forall|x: int| #[trigger] inn(T0, x) ==> inn(T1, x)) }
pub proof fn stk_push(S: Seq<(TriangleId, TriangleId)>, y: (TriangleId, TriangleId))
    ensures forall|x: int| #[trigger] on_stack(S.push(y), x) <==> on_stack(S, x) || y.0.0 == x
{
    assert forall|x: int| #[trigger] on_stack(S.push(y), x) <==> on_stack(S, x) || y.0.0 == x by {
        if on_stack(S, x) { let k = choose|k: int| 0 <= k < S.len() && (#[trigger] S[k]).0.0 == x; assert(S.push(y)[k].0.0 == x); }
        if y.0.0 == x { assert(S.push(y)[S.len() as int].0.0 == x); }
        if on_stack(S.push(y), x) { let k = choose|k: int| 0 <= k < S.len() + 1 && (#[trigger] S.push(y)[k]).0.0 == x; if k < S.len() { assert(S[k].0.0 == x); } }
    }
}
pub open spec fn has_id(S: Seq<TriangleId>, x: int) -> bool { exists|k: int| 0 <= k < S.len() && (#[trigger] S[k]).0 == x }
pub proof fn has_push(S: Seq<TriangleId>, y: TriangleId)
    ensures forall|x: int| #[trigger] has_id(S.push(y), x) <==> has_id(S, x) || y.0 == x
{
    assert forall|x: int| #[trigger] has_id(S.push(y), x) <==> has_id(S, x) || y.0 == x by {
        if has_id(S, x) { let k = choose|k: int| 0 <= k < S.len() && (#[trigger] S[k]).0 == x; assert(S.push(y)[k].0 == x); }
        if y.0 == x { assert(S.push(y)[S.len() as int].0 == x); }
        if has_id(S.push(y), x) { let k = choose|k: int| 0 <= k < S.len() + 1 && (#[trigger] S.push(y)[k]).0 == x; if k < S.len() { assert(S[k].0 == x); } }
    }
}
#[verifier::opaque]
pub open spec fn pend_ok(P: Points, T: Seq<InnerTriangle>, S: Seq<TriangleId>) -> bool { forall|k: int| #![trigger S[k]] 0 <= k < S.len() ==> valid(T, S[k]) && outside(P, T, S[k].0 as int) }
#[verifier::opaque]
pub open spec fn seeds_ok(P: Points, T: Seq<InnerTriangle>, S: Seq<TriangleId>) -> bool { forall|k: int| #![trigger S[k]] 0 <= k < S.len() ==> valid(T, S[k]) && seed(P, T, S[k].0 as int) }
pub open spec fn put(P: Points, T: Seq<InnerTriangle>, A: Seq<TriangleId>, S: Seq<TriangleId>, s: int, e: int) -> bool { (oedge(P, T, s, e) ==> has_id(A, s)) && (bd(T, s, e) && tc(T[s], e) ==> has_id(S, s) || has_id(A, s)) }
#[verifier::opaque]
pub open spec fn put_to(P: Points, T: Seq<InnerTriangle>, A: Seq<TriangleId>, S: Seq<TriangleId>, x: int, i: int) -> bool { forall|s: int, e: int| in3(T, s, e) && (s < x || (s == x && e < i)) ==> #[trigger] put(P, T, A, S, s, e) }
pub open spec fn done2(T: Seq<InnerTriangle>, X: Seq<bool>, A: Seq<TriangleId>, S: Seq<TriangleId>, x: int, e: int) -> bool {
    tn(T[x], e) != inv() ==> if tc(T[x], e) { has_id(S, tn(T[x], e).0 as int) } else { X[tn(T[x], e).0 as int] || has_id(A, tn(T[x], e).0 as int) }
}
/// a step of the first loop: edge i of triangle x is sorted into A or S
pub proof fn put_step(P: Points, T: Seq<InnerTriangle>, A0: Seq<TriangleId>, S0: Seq<TriangleId>, A1: Seq<TriangleId>, S1: Seq<TriangleId>, id: TriangleId, i: int)
    requires put_to(P, T, A0, S0, id.0 as int, i), pend_ok(P, T, A0), seeds_ok(P, T, S0), in3(T, id.0 as int, i),
        if oedge(P, T, id.0 as int, i) { A1 == A0.push(id) && S1 == S0 } else if bd(T, id.0 as int, i) { A1 == A0 && S1 == S0.push(id) } else { A1 == A0 && S1 == S0 },
    ensures put_to(P, T, A1, S1, id.0 as int, i + 1), pend_ok(P, T, A1), seeds_ok(P, T, S1)
{
    reveal(put_to); reveal(pend_ok); reveal(seeds_ok);
    let x = id.0 as int;
    has_push(A0, id); has_push(S0, id);
    if oedge(P, T, x, i) { out0_out(P, T, x, i); }
    assert forall|s: int, e: int| in3(T, s, e) && (s < x || (s == x && e < i + 1)) implies #[trigger] put(P, T, A1, S1, s, e) by {
        if s < x || e < i { assert(put(P, T, A0, S0, s, e)); }
        assert(has_id(A0.push(id), s) <==> has_id(A0, s) || id.0 == s); assert(has_id(S0.push(id), s) <==> has_id(S0, s) || id.0 == s);
    }
    assert forall|k: int| #![trigger A1[k]] 0 <= k < A1.len() implies valid(T, A1[k]) && outside(P, T, A1[k].0 as int) by { if k < A0.len() { assert(A1[k] == A0[k]); } }
    assert forall|k: int| #![trigger S1[k]] 0 <= k < S1.len() implies valid(T, S1[k]) && seed(P, T, S1[k].0 as int) by { if k < S0.len() { assert(S1[k] == S0[k]); } }
}
pub proof fn put_next(P: Points, T: Seq<InnerTriangle>, A: Seq<TriangleId>, S: Seq<TriangleId>, x: int)
    requires put_to(P, T, A, S, x, 3)
    ensures put_to(P, T, A, S, x + 1, 0)
{ reveal(put_to); assert forall|s: int, e: int| in3(T, s, e) && (s < x + 1 || (s == x + 1 && e < 0)) implies #[trigger] put(P, T, A, S, s, e) by { assert(s < x || (s == x && e < 3)); } }
pub proof fn put_none(P: Points, T: Seq<InnerTriangle>)
    ensures put_to(P, T, seq![], seq![], 0, 0), pend_ok(P, T, seq![]), seeds_ok(P, T, seq![])
{ reveal(put_to); reveal(pend_ok); reveal(seeds_ok); }
/// x is taken from the end of Q
pub proof fn flood_pop(P: Points, T: Seq<InnerTriangle>, X: Seq<bool>, Q: Seq<TriangleId>, A: Seq<TriangleId>, S: Seq<TriangleId>, id: TriangleId)
    requires flood(P, T, X, Q, S, -1, 3), Q =~= A.push(id)
    ensures valid(T, id), X.len() == T.len(), X[id.0 as int] ==> flood(P, T, X, A, S, -1, 3), !X[id.0 as int] ==> flood(P, T, X.update(id.0 as int, true), A, S, id.0 as int, 0)
{
    reveal(flood); reveal(pend_ok);
    let x = id.0 as int; let Y = X.update(x, true);
    assert(Q[Q.len() - 1] == id); has_push(A, id);
    assert forall|k: int| #![trigger A[k]] 0 <= k < A.len() implies valid(T, A[k]) && outside(P, T, A[k].0 as int) by { assert(Q[k] == A[k]); }
    assert forall|p: int, e: int| in3(T, p, e) && Y[p] && (p != x || e < 0) implies #[trigger] done2(T, Y, A, S, p, e) by { assert(X[p]); assert(done2(T, X, Q, S, p, e)); let y = tn(T[p], e).0 as int; assert(has_id(A.push(id), y) <==> has_id(A, y) || id.0 == y); }
    assert forall|s: int| #[trigger] has_id(A.push(id), s) implies has_id(A, s) || s == x by { }
    if X[x] { assert forall|p: int, e: int| in3(T, p, e) && X[p] && (p != -1 || e < 3) implies #[trigger] done2(T, X, A, S, p, e) by { assert(done2(T, X, Q, S, p, e)); let y = tn(T[p], e).0 as int; assert(has_id(A.push(id), y) <==> has_id(A, y) || id.0 == y); } }
    assert forall|s: int| #[trigger] out0(P, T, s) implies Y[s] || has_id(A, s) by { assert(X[s] || has_id(A.push(id), s)); assert(has_id(A.push(id), s) <==> has_id(A, s) || id.0 == s); let e = choose|e: int| #[trigger] oedge(P, T, s, e); }
    assert forall|s: int, e: int| #[trigger] bd(T, s, e) && tc(T[s], e) implies has_id(S, s) || Y[s] || has_id(A, s) by { assert(has_id(S, s) || X[s] || has_id(A.push(id), s)); assert(has_id(A.push(id), s) <==> has_id(A, s) || id.0 == s); }
}
/// edge i of x is followed
pub proof fn flood_edge(P: Points, T: Seq<InnerTriangle>, X: Seq<bool>, A0: Seq<TriangleId>, S0: Seq<TriangleId>, A1: Seq<TriangleId>, S1: Seq<TriangleId>, x: int, i: int)
    requires mesh(P.points@, T), flood(P, T, X, A0, S0, x, i), in3(T, x, i), X[x],
        if tn(T[x], i) == inv() { A1 == A0 && S1 == S0 } else if tc(T[x], i) { A1 == A0 && S1 == S0.push(tn(T[x], i)) } else { A1 == A0.push(tn(T[x], i)) && S1 == S0 },
    ensures flood(P, T, X, A1, S1, x, i + 1)
{
    reveal(flood); reveal(pend_ok); reveal(seeds_ok);
    let n = tn(T[x], i);
    has_push(A0, n); has_push(S0, n); assert(nb(T, x, i));
    if n != inv() { if tc(T[x], i) { assert(across(T, x, i, n.0 as int)); assert(seed(P, T, n.0 as int)); } else { assert(hopat(T, x, i, n.0 as int)); outside_step(P, T, x, n.0 as int); } }
    assert forall|y: int| has_id(A0, y) implies #[trigger] has_id(A1, y) by { assert(has_id(A0.push(n), y)); }
    assert forall|y: int| has_id(S0, y) implies #[trigger] has_id(S1, y) by { assert(has_id(S0.push(n), y)); }
    assert forall|p: int, e: int| in3(T, p, e) && X[p] && (p != x || e < i + 1) implies #[trigger] done2(T, X, A1, S1, p, e) by {
        if p != x || e < i { assert(done2(T, X, A0, S0, p, e)); let y = tn(T[p], e).0 as int; assert(has_id(A0, y) ==> has_id(A1, y)); assert(has_id(S0, y) ==> has_id(S1, y)); }
        else { assert(has_id(A0.push(n), n.0 as int) && has_id(S0.push(n), n.0 as int)); }
    }
    assert forall|s: int| #[trigger] out0(P, T, s) implies X[s] || has_id(A1, s) by { assert(has_id(A0, s) ==> has_id(A1, s)); }
    assert forall|s: int, e: int| #[trigger] bd(T, s, e) && tc(T[s], e) implies has_id(S1, s) || X[s] || has_id(A1, s) by { assert(has_id(A0, s) ==> has_id(A1, s)); assert(has_id(S0, s) ==> has_id(S1, s)); }
    assert forall|k: int| #![trigger A1[k]] 0 <= k < A1.len() implies valid(T, A1[k]) && outside(P, T, A1[k].0 as int) by { if k < A0.len() { assert(A1[k] == A0[k]); } }
    assert forall|k: int| #![trigger S1[k]] 0 <= k < S1.len() implies valid(T, S1[k]) && seed(P, T, S1[k].0 as int) by { if k < S0.len() { assert(S1[k] == S0[k]); } }
}
pub proof fn flood_next(P: Points, T: Seq<InnerTriangle>, X: Seq<bool>, A: Seq<TriangleId>, S: Seq<TriangleId>, x: int)
    requires flood(P, T, X, A, S, x, 3)
    ensures flood(P, T, X, A, S, -1, 3)
{ reveal(flood); assert forall|p: int, e: int| in3(T, p, e) && X[p] && (p != -1 || e < 3) implies #[trigger] done2(T, X, A, S, p, e) by { assert(p != x || e < 3); } }
/// the search from the outside with the edges from i on of triangle u still to come
#[verifier::opaque]
pub open spec fn flood(P: Points, T: Seq<InnerTriangle>, X: Seq<bool>, A: Seq<TriangleId>, S: Seq<TriangleId>, u: int, i: int) -> bool {
    &&& X.len() == T.len()
    &&& forall|x: int| 0 <= x < T.len() && #[trigger] X[x] ==> outside(P, T, x)
    &&& forall|x: int, e: int| in3(T, x, e) && X[x] && (x != u || e < i) ==> #[trigger] done2(T, X, A, S, x, e)
    &&& forall|s: int| #[trigger] out0(P, T, s) ==> X[s] || has_id(A, s)
    &&& forall|s: int, e: int| #[trigger] bd(T, s, e) && tc(T[s], e) ==> has_id(S, s) || X[s] || has_id(A, s)
    &&& pend_ok(P, T, A) && seeds_ok(P, T, S)
}
pub proof fn out0_out(P: Points, T: Seq<InnerTriangle>, x: int, e: int)
    requires oedge(P, T, x, e)
    ensures outside(P, T, x)
{ reach_refl(T, x); assert(out0(P, T, x)); }
pub proof fn flood_start(P: Points, T: Seq<InnerTriangle>, X: Seq<bool>, A: Seq<TriangleId>, S: Seq<TriangleId>)
    requires put_to(P, T, A, S, T.len() as int, 0), pend_ok(P, T, A), seeds_ok(P, T, S), X.len() == T.len(), forall|x: int| 0 <= x < T.len() ==> !(#[trigger] X[x])
    ensures flood(P, T, X, A, S, -1, 3)
{
    reveal(put_to); reveal(flood);
    assert forall|s: int| #[trigger] out0(P, T, s) implies X[s] || has_id(A, s) by { let e = choose|e: int| #[trigger] oedge(P, T, s, e); assert(put(P, T, A, S, s, e)); }
    assert forall|s: int, e: int| #[trigger] bd(T, s, e) && tc(T[s], e) implies has_id(S, s) || X[s] || has_id(A, s) by { assert(put(P, T, A, S, s, e)); }
}
pub proof fn flood_end(P: Points, T: Seq<InnerTriangle>, X: Seq<bool>, A: Seq<TriangleId>, S: Seq<TriangleId>)
    requires mesh(P.points@, T), flood(P, T, X, A, S, -1, 3), A.len() == 0
    ensures X.len() == T.len(), forall|x: int| 0 <= x < T.len() ==> #[trigger] X[x] == outside(P, T, x), forall|s: int| 0 <= s < T.len() && #[trigger] seed(P, T, s) && !outside(P, T, s) ==> has_id(S, s), forall|k: int| #![trigger S[k]] 0 <= k < S.len() ==> valid(T, S[k]) && seed(P, T, S[k].0 as int)
{
    reveal(flood); reveal(seeds_ok);
    assert forall|x: int| !has_id(A, x) by { }
    assert forall|x: int| 0 <= x < T.len() implies #[trigger] X[x] == outside(P, T, x) by {
        if outside(P, T, x) {
            let a = choose|a: int| out0(P, T, a) && #[trigger] reach(T, a, x);
            let Y = |y: int| 0 <= y < T.len() && X[y];
            assert(X[a] && 0 <= a < T.len()) by { let e = choose|e: int| #[trigger] oedge(P, T, a, e); }
            assert forall|p: int, q: int| Y(p) && #[trigger] hop(T, p, q) implies Y(q) by { hop_sym(P.points@, T, p, q); let e = choose|e: int| #[trigger] hopat(T, p, e, q); assert(done2(T, X, A, S, p, e)); }
            closed_reach(T, Y, a, x);
        }
    }
    assert forall|s: int| 0 <= s < T.len() && #[trigger] seed(P, T, s) && !outside(P, T, s) implies has_id(S, s) by {
        if exists|e: int| #[trigger] bd(T, s, e) && tc(T[s], e) { let e = choose|e: int| #[trigger] bd(T, s, e) && tc(T[s], e); }
        else { let (a, e) = choose|a: int, e: int| outside(P, T, a) && #[trigger] across(T, a, e, s); assert(X[a]); assert(done2(T, X, A, S, a, e)); }
    }
}
/// all seeds are done: the marks are the inside
pub proof fn inside_end(P: Points, T0: Seq<InnerTriangle>, T: Seq<InnerTriangle>, S: Seq<TriangleId>, R: Seq<TriangleId>)
    requires mesh(P.points@, T0), same_int(T0, T), listed(T, R), cl_mark(T), forall|x: int| #[trigger] inn(T, x) ==> inside(P, T0, x),
        forall|s: int| 0 <= s < T0.len() && #[trigger] seed(P, T0, s) && !outside(P, T0, s) ==> has_id(S, s),
        forall|k: int| 0 <= k < S.len() ==> valid(T0, #[trigger] S[k]) && (outside(P, T0, S[k].0 as int) || inn(T, S[k].0 as int)),
    ensures inside_ok(P, T, R), forall|x: int| 0 <= x < T.len() ==> (#[trigger] T[x]).interior == inside(P, T, x)
{
    int_reach(T0, T); int_inside(P, T0, T);
    assert forall|x: int| inside(P, T0, x) implies inn(T, x) by {
        let s = choose|s: int| #[trigger] from_seed(P, T0, s, x);
        let k = choose|k: int| 0 <= k < S.len() && (#[trigger] S[k]).0 == s;
        assert(inn(T, s)) by { assert(0 <= s < T0.len()) by { if exists|e: int| #[trigger] bd(T0, s, e) && tc(T0[s], e) { } else { let (a, e) = choose|a: int, e: int| outside(P, T0, a) && #[trigger] across(T0, a, e, s); assert(nb(T0, a, e)); } } assert(has_id(S, s)); }
        let Y = |y: int| inn(T, y);
        assert forall|p: int, q: int| Y(p) && #[trigger] hop(T, p, q) implies Y(q) by { }
        closed_reach(T, Y, s, x);
    }
    assert forall|x: int| 0 <= x < T.len() implies (#[trigger] T[x]).interior == inside(P, T, x) by { assert(inn(T, x) == T[x].interior); assert(inside(P, T, x) == inside(P, T0, x)); }
    assert forall|t: TriangleId| valid(T, t) implies (#[trigger] R.contains(t) <==> inside(P, T, t.0 as int)) by { assert(R.contains(t) <==> inn(T, t.0 as int)); assert(inside(P, T, t.0 as int) == inside(P, T0, t.0 as int)); }
}
/// t gets its mark and is listed
pub proof fn mark_one(T0: Seq<InnerTriangle>, T1: Seq<InnerTriangle>, T2: Seq<InnerTriangle>, R1: Seq<TriangleId>, R2: Seq<TriangleId>, t: TriangleId, id: int)
    requires valid(T1, t), !T1[t.0 as int].interior, same_int(T0, T1), listed(T1, R1), R2 == R1.push(t), mark_from(T0, T1, id), reach(T0, id, t.0 as int),
        T2.len() == T1.len(), forall|x: int| 0 <= x < T1.len() && x != t.0 ==> #[trigger] T2[x] == T1[x], T2[t.0 as int].interior, same_tri(T1[t.0 as int], T2[t.0 as int]),
    ensures same_int(T0, T2), listed(T2, R2), mark_from(T0, T2, id), inn(T2, t.0 as int), forall|x: int| #[trigger] inn(T2, x) <==> inn(T1, x) || x == t.0,
{
    assert forall|i: int| 0 <= i < T0.len() implies same_tri(T0[i], #[trigger] T2[i]) by { assert(same_tri(T0[i], T1[i])); if i != t.0 { assert(T2[i] == T1[i]); } }
    assert forall|x: int| #[trigger] inn(T2, x) <==> inn(T1, x) || x == t.0 by { if x != t.0 && 0 <= x < T1.len() { assert(T2[x] == T1[x]); } }
    assert(!R1.contains(t)) by { assert(R1.contains(t) <==> inn(T1, t.0 as int)); }
    assert forall|i: int| 0 <= i < R2.len() implies valid(T2, #[trigger] R2[i]) by { if i < R1.len() { assert(R2[i] == R1[i]); } }
    assert forall|u: TriangleId| valid(T2, u) implies (#[trigger] R2.contains(u) <==> inn(T2, u.0 as int)) by {
        assert(R1.contains(u) <==> inn(T1, u.0 as int));
        if R2.contains(u) { let k = choose|k: int| 0 <= k < R2.len() && R2[k] == u; if k < R1.len() { assert(R1[k] == u); } }
        if R1.contains(u) { let k = choose|k: int| 0 <= k < R1.len() && R1[k] == u; assert(R2[k] == u); }
        assert(R2[R1.len() as int] == t);
    }
    assert(R2.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < R2.len() && 0 <= j < R2.len() && i != j implies R2[i] != R2[j] by { if i < R1.len() && j < R1.len() { assert(R1[i] != R1[j]); } else if i < R1.len() { assert(R1.contains(R1[i])); } else if j < R1.len() { assert(R1.contains(R1[j])); } } }
}

// ---- the result
/// the first triangle
pub open spec fn first_tri(P: Points, t: InnerTriangle) -> bool {
    &&& tp(t, 0) == P.y_sorted@[0] && tp(t, 1) == P.head && tp(t, 2) == P.tail && !t.interior
    &&& forall|i: int| 0 <= i < 3 ==> #[trigger] tn(t, i) == inv()
    &&& forall|i: int| 0 <= i < 3 ==> !(#[trigger] td(t, i))
    &&& forall|i: int| 0 <= i < 3 ==> !(#[trigger] tc(t, i))
}
pub proof fn first_good(P: Points, t: InnerTriangle)
    requires env(P), first_tri(P, t)
    ensures tri_ok(P.points@, t), lt(pp(P.points@, P.head), pp(P.points@, P.y_sorted@[0])), lt(pp(P.points@, P.y_sorted@[0]), pp(P.points@, P.tail)), P.y_sorted@[0].0 < P.points@.len() - 2
{
    let n = P.points@.len() - 2; let y = P.y_sorted@[0];
    assert(y.0 < n);
    let (a, h, l) = (pp(P.points@, y), pp(P.points@, P.head), pp(P.points@, P.tail));
    assert(h.0 < p2(P.points@[y.0 as int]).0 < l.0 && h.1 < p2(P.points@[y.0 as int]).1);
    assert(a == p2(P.points@[y.0 as int]));
    above(h, a, l);
}
pub proof fn start_ok(s: &Sweeper, t: InnerTriangle, id: TriangleId)
    requires env(*s.points), queues(s), first_tri(*s.points, t), sT(s) =~= seq![t], id.0 == 0, af_ok(*s.advancing_front),
        sF(s) =~= seq![ent(sP(s)[tp(t, 1).0 as int], tp(t, 1), id), ent(sP(s)[tp(t, 0).0 as int], tp(t, 0), id), ent(sP(s)[tp(t, 2).0 as int], tp(t, 2), inv())],
    ensures sok(s), legal(sP(s), sT(s)), seen(*s.points, ids(sF(s)), 1), all_vert(*s.points, sT(s), 1), only_in(*s.points, sT(s))
{
    vert_is(sT(s), 0, 0);
    assert(only_in(*s.points, sT(s))) by { reveal(only_in); assert forall|a: PointId, b: PointId| !(#[trigger] cedge(sT(s), a, b)) by { if cedge(sT(s), a, b) { let (i, e) = choose|i: int, e: int| in3(sT(s), i, e) && tc(sT(s)[i], e) && #[trigger] joins(sT(s)[i], e, a, b); assert(sT(s)[i] == t); assert(!tc(t, e)); } } }
    let (P, T, F) = (sP(s), sT(s), sF(s)); let I = ids(F); let G = tris(F); let h = s.points.head; let l = s.points.tail;
    first_good(*s.points, t);
    assert(T.len() == 1 && T[0] == t && F.len() == 3);
    assert forall|i: int| 0 <= i < T.len() implies tri_ok(P, #[trigger] T[i]) by { }
    assert forall|i: int, e: int| in3(T, i, e) implies #[trigger] nb(T, i, e) by { assert(tn(t, e) == inv()); }
    assert(F[0] == ent(P[tp(t, 1).0 as int], tp(t, 1), id) && F[1] == ent(P[tp(t, 0).0 as int], tp(t, 0), id) && F[2] == ent(P[tp(t, 2).0 as int], tp(t, 2), inv()));
    assert(I[0] == h && I[1] == tp(t, 0) && I[2] == l && G[0] == id && G[1] == id);
    assert forall|k: int| 0 <= k < I.len() - 1 implies #[trigger] fpart(T, I, G, k) by {
        assert(tn(t, 0) == inv() && tn(t, 1) == inv() && tn(t, 2) == inv());
        if k == 0 { assert(bd(T, 0, 2) && fe(T, I, 0, 2, k)); } else { assert(bd(T, 0, 1) && fe(T, I, 0, 1, k)); }
    }
    assert forall|i: int, e: int| #[trigger] bd(T, i, e) implies is_base(T[i], e, h, l) || exists|k: int| #[trigger] fhit(T, I, G, i, e, k) by {
        if e == 1 { assert(fhit(T, I, G, i, e, 1)); } else if e == 2 { assert(fhit(T, I, G, i, e, 0)); }
    }
    assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T, x, y) implies seq![].contains(x) || seq![].contains(y) by { let e = choose|e: int| #[trigger] ill(P, T, x.0 as int, e) && tn(T[x.0 as int], e) == y; assert(tn(t, e) == inv()); }
    assert forall|x: PointId| #[trigger] I.contains(x) implies x == h || x == l || exists|m: int| 0 <= m < 1 && #[trigger] s.points.y_sorted@[m] == x by { let k = choose|k: int| 0 <= k < I.len() && I[k] == x; if k == 1 { assert(s.points.y_sorted@[0] == x); } }
    assert forall|i: int| 0 <= i < T.len() implies !(#[trigger] T[i]).interior by { }
    assert(keyed(P, F)) by { assert forall|k: int| 0 <= k < F.len() implies fid(F, k).0 < P.len() && #[trigger] F[k].key.0 == P[fid(F, k).0 as int] by { } }
}
pub proof fn full_distinct(P: Points)
    requires points_ok(P), helpers(P), distinct(P.points@.take(P.points@.len() - 2)), P.points@.len() > 2
    ensures env(P)
{
    let n = P.points@.len() - 2; let Q = P.points@;
    assert forall|i: int, j: int| 0 <= i < j < Q.len() implies p2(#[trigger] Q[i]) != p2(#[trigger] Q[j]) by {
        if j < n { assert(Q.take(n)[i] == Q[i] && Q.take(n)[j] == Q[j]); }
        else { assert(pp(Q, P.head) == p2(Q[n]) && pp(Q, P.tail) == p2(Q[n + 1])); }
    }
}
/// what a Triangles value shows: triangles of the store, of supplied points only
pub open spec fn tris_ok<PD>(t: Triangles<PD>) -> bool {
    &&& 2 <= t.points.points@.len() <= max_points() + 2
    &&& forall|i: int| 0 <= i < t.result@.len() ==> #[trigger] shown(t.points, t.triangles.triangles@, t.result@, i)
}
pub open spec fn shown(P: Points, T: Seq<InnerTriangle>, R: Seq<TriangleId>, i: int) -> bool {
    let n = P.points@.len() - 2;
    valid(T, R[i]) && tp(T[R[i].0 as int], 0).0 < n && tp(T[R[i].0 as int], 1).0 < n && tp(T[R[i].0 as int], 2).0 < n
}
pub proof fn result_shown(P: Points, T: Seq<InnerTriangle>, R: Seq<TriangleId>, i: int)
    requires points_ok(P), mesh(P.points@, T), inside_ok(P, T, R), 0 <= i < R.len()
    ensures shown(P, T, R, i)
{
    let x = R[i].0 as int; let n = P.points@.len() - 2;
    assert(valid(T, R[i])); assert(R.contains(R[i])); assert(inside(P, T, x)); assert(tri_ok(P.points@, T[x]));
    assert forall|e: int| i3(e) implies (#[trigger] tp(T[x], e)).0 < n by { if tp(T[x], e).0 >= n { assert(tp(T[x], e) == P.head || tp(T[x], e) == P.tail); assert(oedge(P, T, x, e)); out0_out(P, T, x, e); } }
}
/// entries 3i, 3i+1, 3i+2 are the points of triangle i
pub open spec fn listing(T: Seq<InnerTriangle>, R: Seq<TriangleId>, L: Seq<u32>, i: int) -> bool { let t = T[R[i].0 as int]; L[3 * i] == tp(t, 0).0 && L[3 * i + 1] == tp(t, 1).0 && L[3 * i + 2] == tp(t, 2).0 }
pub open spec fn coords<PD>(t: Triangles<PD>, r: Triangle, i: int) -> bool {
    let x = t.triangles.triangles@[t.result@[i].0 as int]; let P = t.points.points@;
    r.points@[0] == P[tp(x, 0).0 as int] && r.points@[1] == P[tp(x, 1).0 as int] && r.points@[2] == P[tp(x, 2).0 as int]
}
