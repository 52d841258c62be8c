// ---- the triangles tile the region between the base line and the front
// (the edges of the mesh against the upward ray from a point p: an edge between two triangles counts
// for one of them and against the other; a triangle counts 1 if p is in it, else 0; the front passes
// above p at most once)

/// the edge a -> b, which runs to the left, passes strictly above p
pub open spec fn over(a: R2, b: R2, p: R2) -> int { if b.0 <= p.0 && p.0 < a.0 && orient(a, b, p) > 0real { 1 } else { 0 } }
pub open spec fn upx(a: R2, b: R2, p: R2) -> int { over(a, b, p) - over(b, a, p) }
pub open spec fn up3(a: R2, b: R2, c: R2, p: R2) -> int { upx(a, b, p) + upx(b, c, p) + upx(c, a, p) }
/// p is in the interior of the triangle
pub open spec fn within(a: R2, b: R2, c: R2, p: R2) -> bool { orient(a, b, p) > 0real && orient(b, c, p) > 0real && orient(c, a, p) > 0real }

/// three vectors of the plane are linearly dependent
proof fn plu(ux: real, uy: real, vx: real, vy: real, wx: real, wy: real)
    ensures vx * (ux * wy - uy * wx) == wx * (ux * vy - uy * vx) + ux * (vx * wy - vy * wx)
{
    crs(ux, uy, vx, vy, wx, wy);
    cm(vx, ux * wy - uy * wx); cm(wx, ux * vy - uy * vx); cm(ux, vx * wy - vy * wx);
}
/// a alone on the left of p
proof fn lone_left(a: R2, b: R2, c: R2, p: R2)
    requires orient(a, b, c) >= 0real, a.0 <= p.0, p.0 < b.0, p.0 < c.0
    ensures 0 <= up3(a, b, c, p) <= 1
{
    let (ux, uy, vx, vy, wx, wy) = (b.0 - a.0, b.1 - a.1, c.0 - a.0, c.1 - a.1, p.0 - a.0, p.1 - a.1);
    crossa(a, b, c); crossa(a, b, p); crossa(a, c, p); orient_perm(a, b, p); orient_perm(a, c, p);
    // u.x cross(w, v) = w.x cross(u, v) + v.x cross(w, u)
    plu(ux, uy, vx, vy, wx, wy);
    if orient(b, a, p) > 0real {
        mul_nn(wx, ux * vy - uy * vx); sgp(vx, ux * wy - uy * wx); sgp(ux, vx * wy - vy * wx);
    }
}
/// a alone on the right
proof fn lone_right(a: R2, b: R2, c: R2, p: R2)
    requires orient(a, b, c) >= 0real, p.0 < a.0, b.0 <= p.0, c.0 <= p.0
    ensures 0 <= up3(a, b, c, p) <= 1
{
    let (ux, uy, vx, vy, wx, wy) = (b.0 - a.0, b.1 - a.1, c.0 - a.0, c.1 - a.1, p.0 - a.0, p.1 - a.1);
    crossa(a, b, c); crossa(a, b, p); crossa(a, c, p); orient_perm(a, b, p); orient_perm(a, c, p);
    plu(ux, uy, vx, vy, wx, wy);
    if orient(a, c, p) > 0real {
        sgp(vx, ux * wy - uy * wx); sgp(wx, ux * vy - uy * vx); sgp(ux, vx * wy - vy * wx);
    }
}
proof fn crossa(a: R2, b: R2, c: R2)
    ensures orient(a, b, c) == (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
{
    reveal(orient);
    orient_exp(a.0, a.1, b.0, b.1, c.0, c.1);
    orient_exp(b.0, b.1, c.0, c.1, a.0, a.1);
    exp2(b.0, a.0, c.1, a.1); exp2(b.1, a.1, c.0, a.0);
}
proof fn sgp(x: real, y: real)
    ensures x > 0real && y > 0real ==> x * y > 0real, x > 0real && y < 0real ==> x * y < 0real, x < 0real && y > 0real ==> x * y < 0real, x < 0real && y < 0real ==> x * y > 0real,
        x >= 0real && y >= 0real ==> x * y >= 0real, x <= 0real && y >= 0real ==> x * y <= 0real, x >= 0real && y <= 0real ==> x * y <= 0real,
        x == 0real || y == 0real ==> x * y == 0real
{
    assert(x > 0real && y > 0real ==> x * y > 0real) by (nonlinear_arith);
    assert(x > 0real && y < 0real ==> x * y < 0real) by (nonlinear_arith);
    assert(x < 0real && y > 0real ==> x * y < 0real) by (nonlinear_arith);
    assert(x < 0real && y < 0real ==> x * y > 0real) by (nonlinear_arith);
    assert(x == 0real || y == 0real ==> x * y == 0real) by (nonlinear_arith);
}
pub proof fn up3_range(a: R2, b: R2, c: R2, p: R2)
    requires orient(a, b, c) >= 0real
    ensures 0 <= up3(a, b, c, p) <= 1
{
    orient_perm(a, b, c);
    if a.0 <= p.0 && p.0 < b.0 && p.0 < c.0 { lone_left(a, b, c, p); }
    if b.0 <= p.0 && p.0 < c.0 && p.0 < a.0 { lone_left(b, c, a, p); }
    if c.0 <= p.0 && p.0 < a.0 && p.0 < b.0 { lone_left(c, a, b, p); }
    if p.0 < a.0 && b.0 <= p.0 && c.0 <= p.0 { lone_right(a, b, c, p); }
    if p.0 < b.0 && c.0 <= p.0 && a.0 <= p.0 { lone_right(b, c, a, p); }
    if p.0 < c.0 && a.0 <= p.0 && b.0 <= p.0 { lone_right(c, a, b, p); }
}
/// p is the mean of the corners with the areas as weights
proof fn bary(a: R2, b: R2, c: R2, p: R2)
    ensures orient(b, c, p) * (a.0 - p.0) + orient(c, a, p) * (b.0 - p.0) + orient(a, b, p) * (c.0 - p.0) == 0real
{
    let (ax, ay, bx, by, cx, cy) = (a.0 - p.0, a.1 - p.1, b.0 - p.0, b.1 - p.1, c.0 - p.0, c.1 - p.1);
    reveal(orient);
    assert(orient(b, c, p) == bx * cy - by * cx); assert(orient(c, a, p) == cx * ay - cy * ax); assert(orient(a, b, p) == ax * by - ay * bx);
    dst(bx * cy, by * cx, ax); dst(cx * ay, cy * ax, bx); dst(ax * by, ay * bx, cx);
    p3(bx, cy, ax); p3(by, cx, ax); p3(cx, ay, bx); p3(cy, ax, bx); p3(ax, by, cx); p3(ay, bx, cx);
    cm(ax, cy); cm(bx, cy); cm(cx, ay); cm(bx, ay); cm(ax, by); cm(cx, by);
}
pub proof fn up3_within(a: R2, b: R2, c: R2, p: R2)
    requires within(a, b, c, p)
    ensures up3(a, b, c, p) == 1
{
    orient_perm(a, b, p); orient_perm(b, c, p); orient_perm(c, a, p);
    bary(a, b, c, p);
    sgp(orient(b, c, p), a.0 - p.0); sgp(orient(c, a, p), b.0 - p.0); sgp(orient(a, b, p), c.0 - p.0);
    if a.0 == p.0 && b.0 == p.0 && c.0 == p.0 { crossa(a, b, p); sgp(b.0 - a.0, p.1 - a.1); sgp(b.1 - a.1, p.0 - a.0); }
}

// ---- finite sums
pub type De = (int, int);
pub open spec fn fsum(s: ISet<De>, f: spec_fn(De) -> int) -> int
    decreases s.len() when s.finite()
{ if s.len() == 0 { 0 } else { let x = s.choose(); f(x) + fsum(s.remove(x), f) } }
pub proof fn fsum_rm(s: ISet<De>, f: spec_fn(De) -> int, x: De)
    requires s.finite(), s.contains(x)
    ensures fsum(s, f) == f(x) + fsum(s.remove(x), f)
    decreases s.len()
{
    let y = s.choose();
    assert(s.len() > 0) by { if s.len() == 0 { assert(s =~= ISet::empty()); } }
    assert(s.contains(y));
    if x != y {
        fsum_rm(s.remove(y), f, x);
        fsum_rm(s.remove(x), f, y);
        assert(s.remove(x).remove(y) =~= s.remove(y).remove(x));
    }
}
/// paired elements cancel
pub proof fn fsum_cancel(s: ISet<De>, f: spec_fn(De) -> int, m: spec_fn(De) -> De)
    requires s.finite(), forall|x: De| #[trigger] s.contains(x) ==> s.contains(m(x)) && m(m(x)) == x && m(x) != x && f(m(x)) == -f(x)
    ensures fsum(s, f) == 0
    decreases s.len()
{
    if s.len() > 0 {
        let x = s.choose();
        assert(s.contains(x));
        let y = m(x); assert(s.contains(y));
        fsum_rm(s, f, x); fsum_rm(s.remove(x), f, y);
        let r = s.remove(x).remove(y);
        assert forall|z: De| #[trigger] r.contains(z) implies r.contains(m(z)) && m(m(z)) == z && m(z) != z && f(m(z)) == -f(z) by { assert(s.contains(z)); if m(z) == x { assert(z == y); } if m(z) == y { assert(m(m(z)) == m(y)); assert(z == x); } }
        fsum_cancel(r, f, m);
    }
}
pub proof fn fsum_split(s: ISet<De>, t: ISet<De>, f: spec_fn(De) -> int)
    requires s.finite(), t.subset_of(s)
    ensures fsum(s, f) == fsum(t, f) + fsum(s.difference(t), f), t.finite(), s.difference(t).finite()
    decreases t.len()
{
    vstd::iset_lib::lemma_iset_subset_finite(s, t);
    vstd::iset_lib::lemma_iset_subset_finite(s, s.difference(t));
    if t.len() == 0 { assert(t =~= ISet::empty()); assert(s.difference(t) =~= s); }
    else {
        let x = t.choose(); assert(t.contains(x));
        fsum_split(s.remove(x), t.remove(x), f);
        fsum_rm(s, f, x); fsum_rm(t, f, x);
        assert(s.remove(x).difference(t.remove(x)) =~= s.difference(t));
    }
}
pub proof fn fsum_none(s: ISet<De>, f: spec_fn(De) -> int)
    requires s.finite(), forall|x: De| #[trigger] s.contains(x) ==> f(x) <= 0
    ensures fsum(s, f) <= 0, (forall|x: De| #[trigger] s.contains(x) ==> f(x) == 0) ==> fsum(s, f) == 0
    decreases s.len()
{
    if s.len() > 0 { let x = s.choose(); assert(s.contains(x)); fsum_rm(s, f, x); assert forall|y: De| #[trigger] s.remove(x).contains(y) implies f(y) <= 0 by { assert(s.contains(y)); } fsum_none(s.remove(x), f);
        if forall|x: De| #[trigger] s.contains(x) ==> f(x) == 0 { assert forall|y: De| #[trigger] s.remove(x).contains(y) implies f(y) == 0 by { assert(s.contains(y)); } } }
}
/// at most one element counts, and it counts 1
pub proof fn fsum_one(s: ISet<De>, f: spec_fn(De) -> int)
    requires s.finite(), forall|x: De| #[trigger] s.contains(x) ==> f(x) <= 1, forall|x: De, y: De| #[trigger] s.contains(x) && #[trigger] s.contains(y) && f(x) > 0 && f(y) > 0 ==> x == y
    ensures fsum(s, f) <= 1,
        (exists|x: De| #[trigger] s.contains(x) && f(x) == 1) && (forall|x: De| #[trigger] s.contains(x) ==> f(x) >= 0) ==> fsum(s, f) == 1
{
    if exists|x: De| #[trigger] s.contains(x) && f(x) > 0 {
        let x = choose|x: De| #[trigger] s.contains(x) && f(x) > 0;
        fsum_rm(s, f, x);
        assert forall|y: De| #[trigger] s.remove(x).contains(y) implies f(y) <= 0 by { assert(s.contains(y)); }
        fsum_none(s.remove(x), f);
        if forall|x: De| #[trigger] s.contains(x) ==> f(x) >= 0 { assert forall|y: De| #[trigger] s.remove(x).contains(y) implies f(y) == 0 by { assert(s.contains(y)); } }
    } else {
        fsum_none(s, f);
    }
}
/// the edges of the first n triangles
pub open spec fn des(n: int) -> ISet<De> { ISet::new(|x: De| 0 <= x.0 < n && 0 <= x.1 < 3) }
pub open spec fn tsum(f: spec_fn(De) -> int, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { tsum(f, n - 1) + f((n - 1, 0)) + f((n - 1, 1)) + f((n - 1, 2)) } }
pub proof fn des_sum(f: spec_fn(De) -> int, n: int)
    requires n >= 0
    ensures des(n).finite(), fsum(des(n), f) == tsum(f, n)
    decreases n
{
    if n == 0 { assert(des(0) =~= ISet::empty()); assert(des(0).len() == 0); }
    else {
        des_sum(f, n - 1);
        let s0 = des(n - 1); let s1 = s0.insert((n - 1, 0)); let s2 = s1.insert((n - 1, 1)); let s3 = s2.insert((n - 1, 2));
        assert(des(n) =~= s3);
        fsum_rm(s3, f, (n - 1, 2)); fsum_rm(s2, f, (n - 1, 1)); fsum_rm(s1, f, (n - 1, 0));
        assert(s3.remove((n - 1, 2)) =~= s2); assert(s2.remove((n - 1, 1)) =~= s1); assert(s1.remove((n - 1, 0)) =~= s0);
    }
}

// ---- the mesh
pub open spec fn up_at(P: Seq<Point>, T: Seq<InnerTriangle>, p: R2) -> spec_fn(De) -> int { |x: De| upx(pp(P, tp(T[x.0], nx(x.1))), pp(P, tp(T[x.0], pv(x.1))), p) }
pub open spec fn mate(T: Seq<InnerTriangle>) -> spec_fn(De) -> De { |x: De| (tn(T[x.0], x.1).0 as int, opp(T[x.0], x.1, T[tn(T[x.0], x.1).0 as int])) }
pub open spec fn in_tri(P: Seq<Point>, t: InnerTriangle, p: R2) -> bool { within(pp(P, tp(t, 0)), pp(P, tp(t, 1)), pp(P, tp(t, 2)), p) }
/// p belongs to t: it is in its interior, or on its lower (or left) border
pub open spec fn has_pt(P: Seq<Point>, t: InnerTriangle, p: R2) -> bool { up3(pp(P, tp(t, 0)), pp(P, tp(t, 1)), pp(P, tp(t, 2)), p) == 1 }
pub open spec fn bds(T: Seq<InnerTriangle>) -> ISet<De> { ISet::new(|x: De| bd(T, x.0, x.1)) }

pub proof fn up_total(P: Seq<Point>, T: Seq<InnerTriangle>, p: R2)
    requires mesh(P, T)
    ensures bds(T).finite(), tsum(up_at(P, T, p), T.len() as int) == fsum(bds(T), up_at(P, T, p))
{
    let f = up_at(P, T, p); let n = T.len() as int; let D = des(n); let B = bds(T); let m = mate(T);
    des_sum(f, n);
    assert(B.subset_of(D));
    fsum_split(D, B, f);
    let I = D.difference(B);
    assert forall|x: De| #[trigger] I.contains(x) implies I.contains(m(x)) && m(m(x)) == x && m(x) != x && f(m(x)) == -f(x) by {
        assert(in3(T, x.0, x.1) && tn(T[x.0], x.1) != inv());
        let j = nb_at(P, T, x.0, x.1); let y = tn(T[x.0], x.1).0 as int;
        assert(m(x) == (y, j));
        assert(tn(T[y], j) != inv()); 
        opp_is(P, T[y], j, T[x.0], x.1);
        assert(f(m(x)) == upx(pp(P, tp(T[y], nx(j))), pp(P, tp(T[y], pv(j))), p));
    }
    fsum_cancel(I, f, m);
}
pub proof fn tri_part(P: Seq<Point>, T: Seq<InnerTriangle>, p: R2, i: int)
    requires mesh(P, T), 0 <= i < T.len()
    ensures ({ let f = up_at(P, T, p); let s = f((i, 0)) + f((i, 1)) + f((i, 2)); 0 <= s <= 1 && (in_tri(P, T[i], p) ==> s == 1) && (s == 1 <==> has_pt(P, T[i], p)) })
{
    assert(tri_ok(P, T[i]));
    let (a, b, c) = (pp(P, tp(T[i], 0)), pp(P, tp(T[i], 1)), pp(P, tp(T[i], 2)));
    up3_range(a, b, c, p);
    if in_tri(P, T[i], p) { up3_within(a, b, c, p); }
}
/// every triangle counts
pub proof fn tsum_lower(P: Seq<Point>, T: Seq<InnerTriangle>, p: R2, n: int)
    requires mesh(P, T), 0 <= n <= T.len()
    ensures tsum(up_at(P, T, p), n) >= 0, forall|i: int| 0 <= i < n && #[trigger] has_pt(P, T[i], p) ==> tsum(up_at(P, T, p), n) >= 1,
        forall|i: int, j: int| 0 <= i < j < n && #[trigger] has_pt(P, T[i], p) && #[trigger] has_pt(P, T[j], p) ==> tsum(up_at(P, T, p), n) >= 2,
        tsum(up_at(P, T, p), n) >= 1 ==> exists|i: int| 0 <= i < n && #[trigger] has_pt(P, T[i], p),
    decreases n
{
    if n > 0 {
        tsum_lower(P, T, p, n - 1); tri_part(P, T, p, n - 1);
        if tsum(up_at(P, T, p), n - 1) >= 1 { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] has_pt(P, T[i], p); assert(has_pt(P, T[i], p)); }
        else if tsum(up_at(P, T, p), n) >= 1 { assert(has_pt(P, T[n - 1], p)); }
    }
}
/// p is strictly below the part k of the front
pub open spec fn under(P: Seq<Point>, I: Seq<PointId>, k: int, p: R2) -> bool { over(pp(P, I[k + 1]), pp(P, I[k]), p) == 1 }
/// p is not strictly below the base line
pub open spec fn on_base(P: Seq<Point>, h: PointId, l: PointId, p: R2) -> bool { over(pp(P, l), pp(P, h), p) == 0 }
/// no two triangles have a point of their interiors in common, and every point between base line and front belongs to exactly one
#[verifier::opaque]
pub open spec fn tiled(P: Seq<Point>, T: Seq<InnerTriangle>, I: Seq<PointId>, h: PointId, l: PointId) -> bool {
    &&& apart_all(P, T)
    &&& forall|p: R2, k: int| 0 <= k < I.len() - 1 && #[trigger] under(P, I, k, p) && on_base(P, h, l, p) ==> (exists|i: int| 0 <= i < T.len() && #[trigger] has_pt(P, T[i], p)) && (forall|i: int, j: int| 0 <= i < j < T.len() ==> !(#[trigger] has_pt(P, T[i], p) && #[trigger] has_pt(P, T[j], p)))
}
/// the interiors of the triangles are disjoint
pub open spec fn apart_all(P: Seq<Point>, T: Seq<InnerTriangle>) -> bool {
    forall|i: int, j: int, p: R2| 0 <= i < j < T.len() ==> !(#[trigger] in_tri(P, T[i], p) && #[trigger] in_tri(P, T[j], p))
}
proof fn bd_part(P: Seq<Point>, T: Seq<InnerTriangle>, I: Seq<PointId>, G: Seq<TriangleId>, h: PointId, l: PointId, p: R2, x: De)
    requires mesh(P, T), isorted(P, I), front(T, I, G, h, l), bd(T, x.0, x.1), pp(P, h).0 < pp(P, l).0
    ensures ({ let v = up_at(P, T, p)(x); v <= 1 && (v > 0 ==> exists|k: int| #[trigger] fhit(T, I, G, x.0, x.1, k) && under(P, I, k, p)) && (v < 0 ==> !on_base(P, h, l, p)) })
{
    if !is_base(T[x.0], x.1, h, l) {
        let k = choose|k: int| #[trigger] fhit(T, I, G, x.0, x.1, k);
        assert(lt(pp(P, I[k]), pp(P, I[k + 1])));
        if up_at(P, T, p)(x) > 0 { assert(fhit(T, I, G, x.0, x.1, k) && under(P, I, k, p)); }
    }
}
pub proof fn tiling(P: Seq<Point>, T: Seq<InnerTriangle>, I: Seq<PointId>, G: Seq<TriangleId>, h: PointId, l: PointId)
    requires mesh(P, T), isorted(P, I), front(T, I, G, h, l), pp(P, h).0 < pp(P, l).0
    ensures tiled(P, T, I, h, l)
{
    reveal(tiled);
    let n = T.len() as int; let B = bds(T);
    assert forall|p: R2| tsum(#[trigger] up_at(P, T, p), n) <= 1 && (on_base(P, h, l, p) && (exists|k: int| 0 <= k < I.len() - 1 && #[trigger] under(P, I, k, p)) ==> tsum(up_at(P, T, p), n) == 1) by {
        let f = up_at(P, T, p);
        up_total(P, T, p);
        assert forall|x: De| #[trigger] B.contains(x) implies f(x) <= 1 by { bd_part(P, T, I, G, h, l, p, x); }
        assert forall|x: De, y: De| #[trigger] B.contains(x) && #[trigger] B.contains(y) && f(x) > 0 && f(y) > 0 implies x == y by {
            bd_part(P, T, I, G, h, l, p, x); bd_part(P, T, I, G, h, l, p, y);
            let k = choose|k: int| #[trigger] fhit(T, I, G, x.0, x.1, k) && under(P, I, k, p);
            let m = choose|k: int| #[trigger] fhit(T, I, G, y.0, y.1, k) && under(P, I, k, p);
            if k < m { assert(le(pp(P, I[k + 1]), pp(P, I[m]))) by { if k + 1 < m { assert(lt(pp(P, I[k + 1]), pp(P, I[m]))); } } }
            if m < k { assert(le(pp(P, I[m + 1]), pp(P, I[k]))) by { if m + 1 < k { assert(lt(pp(P, I[m + 1]), pp(P, I[k]))); } } }
            assert(k == m);
            assert(tri_ok(P, T[x.0])); fe_unique(P, T, I, x.0, x.1, k, y.1, m);
        }
        fsum_one(B, f);
        if on_base(P, h, l, p) && (exists|k: int| 0 <= k < I.len() - 1 && #[trigger] under(P, I, k, p)) {
            let k = choose|k: int| 0 <= k < I.len() - 1 && #[trigger] under(P, I, k, p);
            assert(fpart(T, I, G, k));
            let e = choose|e: int| bd(T, G[k].0 as int, e) && #[trigger] fe(T, I, G[k].0 as int, e, k);
            let x: De = (G[k].0 as int, e);
            assert(B.contains(x)); assert(lt(pp(P, I[k]), pp(P, I[k + 1]))); assert(f(x) == 1);
            assert forall|x: De| #[trigger] B.contains(x) implies f(x) >= 0 by { bd_part(P, T, I, G, h, l, p, x); }
        }
    }
    assert forall|i: int, j: int, p: R2| 0 <= i < j < T.len() implies !(#[trigger] in_tri(P, T[i], p) && #[trigger] in_tri(P, T[j], p)) by {
        tsum_lower(P, T, p, n); tri_part(P, T, p, i); tri_part(P, T, p, j);
        assert(tsum(up_at(P, T, p), n) <= 1);
    }
    assert forall|p: R2, k: int| 0 <= k < I.len() - 1 && #[trigger] under(P, I, k, p) && on_base(P, h, l, p) implies (exists|i: int| 0 <= i < T.len() && #[trigger] has_pt(P, T[i], p)) && (forall|i: int, j: int| 0 <= i < j < T.len() ==> !(#[trigger] has_pt(P, T[i], p) && #[trigger] has_pt(P, T[j], p))) by {
        tsum_lower(P, T, p, n);
        assert(tsum(up_at(P, T, p), n) == 1);
    }
}
/// what an observer finds
pub open spec fn obs_tiled(s: &Sweeper) -> bool { tiled(sP(s), sT(s), ids(sF(s)), s.points.head, s.points.tail) }
/// (also while legalization has not yet written its changes to the front: G are the triangles it will name)
pub proof fn tiles_at(s: &Sweeper, G: Seq<TriangleId>)
    requires env(*s.points), obs_mesh(s), isorted(sP(s), ids(sF(s))), fronts(s, G)
    ensures obs_tiled(s)
{
    tiling(sP(s), sT(s), ids(sF(s)), G, s.points.head, s.points.tail);
}
pub proof fn obs_tiles(s: &Sweeper)
    requires env(*s.points), obs_mesh(s), obs_front(s)
    ensures obs_tiled(s)
{
    f_sorted(sP(s), sF(s)); tiles_at(s, tris(sF(s)));
}
