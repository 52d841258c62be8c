// Plane geometry over the reals (pure specification and proved lemmas).
pub type R2 = (real, real);

#[verifier::opaque]
pub open spec fn orient(a: R2, b: R2, c: R2) -> real {
    (a.0 - c.0) * (b.1 - c.1) - (a.1 - c.1) * (b.0 - c.0)
}

pub open spec fn sq(x: real) -> real { x * x }

#[verifier::opaque]
pub open spec fn incirc(a: R2, b: R2, c: R2, d: R2) -> real {
    (sq(a.0 - d.0) + sq(a.1 - d.1)) * ((b.0 - d.0) * (c.1 - d.1) - (b.1 - d.1) * (c.0 - d.0))
    - (sq(b.0 - d.0) + sq(b.1 - d.1)) * ((a.0 - d.0) * (c.1 - d.1) - (a.1 - d.1) * (c.0 - d.0))
    + (sq(c.0 - d.0) + sq(c.1 - d.1)) * ((a.0 - d.0) * (b.1 - d.1) - (a.1 - d.1) * (b.0 - d.0))
}

/// the order of the advancing front: x, then y
pub open spec fn lt(a: R2, b: R2) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
pub open spec fn le(a: R2, b: R2) -> bool { lt(a, b) || a == b }
/// the order of the sweep: y, then x
pub open spec fn ylt(a: R2, b: R2) -> bool { a.1 < b.1 || (a.1 == b.1 && a.0 < b.0) }
pub open spec fn kcmp(a: R2, b: R2) -> Ordering { if lt(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }

pub open spec fn cyc(a: R2, b: R2, c: R2) -> bool {
    (lt(a, b) && lt(b, c)) || (lt(b, c) && lt(c, a)) || (lt(c, a) && lt(a, b))
}
/// counter clockwise, or collinear and cyclically ascending
pub open spec fn good3(a: R2, b: R2, c: R2) -> bool {
    orient(a, b, c) > 0real || (orient(a, b, c) == 0real && cyc(a, b, c))
}

pub proof fn orient_perm(a: R2, b: R2, c: R2)
    ensures
        orient(a, b, c) == orient(b, c, a),
        orient(a, b, c) == orient(c, a, b),
        orient(a, b, c) == -orient(b, a, c),
        orient(a, b, c) == -orient(a, c, b),
        orient(a, b, c) == -orient(c, b, a),
{
    reveal(orient);
    orient_exp(a.0, a.1, b.0, b.1, c.0, c.1);
    orient_exp(b.0, b.1, c.0, c.1, a.0, a.1);
    orient_exp(c.0, c.1, a.0, a.1, b.0, b.1);
    orient_exp(b.0, b.1, a.0, a.1, c.0, c.1);
    orient_exp(a.0, a.1, c.0, c.1, b.0, b.1);
    orient_exp(c.0, c.1, b.0, b.1, a.0, a.1);
}
/// orientation as a sum of cross products
pub proof fn orient_exp(ax: real, ay: real, bx: real, by: real, cx: real, cy: real)
    ensures (ax - cx) * (by - cy) - (ay - cy) * (bx - cx) == (ax * by - ay * bx) + (bx * cy - by * cx) + (cx * ay - cy * ax),
       ay * bx == bx * ay, ax * by == by * ax, cx * by == by * cx, cy * bx == bx * cy, cx * ay == ay * cx, cy * ax == ax * cy
{
    exp2(ax, cx, by, cy); exp2(ay, cy, bx, cx); mcomm(ax, cy); mcomm(ay, cx); mcomm(by, cx); mcomm(bx, cy); mcomm(cx, cy); mcomm(ax, by); mcomm(ay, bx);
}

pub proof fn good3_perm(a: R2, b: R2, c: R2)
    ensures
        good3(a, b, c) == good3(b, c, a),
        good3(a, b, c) == good3(c, a, b),
        good3(a, b, c) ==> !good3(b, a, c) && !good3(a, c, b) && !good3(c, b, a),
{
    orient_perm(a, b, c);
}

/// in circle determinant: what the algorithm uses
pub proof fn incirc_perm(p: R2, b: R2, c: R2, o: R2)
    ensures
        incirc(p, b, c, o) == incirc(o, c, b, p),
        incirc(p, b, c, o) == -incirc(c, p, o, b),
        incirc(p, b, c, o) == incirc(b, c, p, o),
        incirc(p, b, c, o) == incirc(c, p, b, o),
{
    // translate to the origin o, then compare polynomials
    let (px, py, bx, by, cx, cy) = (p.0 - o.0, p.1 - o.1, b.0 - o.0, b.1 - o.1, c.0 - o.0, c.1 - o.1);
    reveal(incirc);
    incirc_perm1(px, py, bx, by, cx, cy);
    assert(incirc(p, b, c, o) == inc0(px, py, bx, by, cx, cy));
    assert(incirc(b, c, p, o) == inc0(bx, by, cx, cy, px, py));
    assert(incirc(c, p, b, o) == inc0(cx, cy, px, py, bx, by));
    assert((o.0 - p.0, o.1 - p.1, c.0 - p.0, c.1 - p.1, b.0 - p.0, b.1 - p.1) == (-px, -py, cx - px, cy - py, bx - px, by - py));
    assert(incirc(o, c, b, p) == inc0(-px, -py, cx - px, cy - py, bx - px, by - py));
    assert((c.0 - b.0, c.1 - b.1, p.0 - b.0, p.1 - b.1, o.0 - b.0, o.1 - b.1) == (cx - bx, cy - by, px - bx, py - by, -bx, -by));
    assert(incirc(c, p, o, b) == inc0(cx - bx, cy - by, px - bx, py - by, -bx, -by));
}

pub open spec fn inc0(ax: real, ay: real, bx: real, by: real, cx: real, cy: real) -> real {
    (sq(ax) + sq(ay)) * (bx * cy - by * cx) - (sq(bx) + sq(by)) * (ax * cy - ay * cx) + (sq(cx) + sq(cy)) * (ax * by - ay * bx)
}

// (x-y)^2 
proof fn sq_sub(x: real, y: real) ensures sq(x - y) == sq(x) + sq(y) - 2real * (x * y), sq(-x) == sq(x), sq(x) >= 0real
{
    assert((x - y) * (x - y) == x * x + y * y - 2real * (x * y)) by (nonlinear_arith);
    assert((-x) * (-x) == x * x) by (nonlinear_arith);
    assert(x * x >= 0real) by (nonlinear_arith);
}
pub proof fn exp2(a: real, b: real, c: real, d: real) ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d, (a - b) * c == a * c - b * c, a * (c - d) == a * c - a * d
{
    assert((a - b) * (c - d) == a * c - a * d - b * c + b * d) by (nonlinear_arith);
    assert((a - b) * c == a * c - b * c) by (nonlinear_arith);
    assert(a * (c - d) == a * c - a * d) by (nonlinear_arith);
}
// cross products of differences
proof fn cross(px: real, py: real, bx: real, by: real, cx: real, cy: real)
    ensures
        (cx - px) * (by - py) - (cy - py) * (bx - px) == -((px * by - py * bx) + (cx * py - cy * px) + (bx * cy - by * cx)),
        (-px) * (by - py) - (-py) * (bx - px) == -(px * by - py * bx),
        (-px) * (cy - py) - (-py) * (cx - px) == cx * py - cy * px,
        (px - bx) * (-by) - (py - by) * (-bx) == -(px * by - py * bx),
        (cx - bx) * (-by) - (cy - by) * (-bx) == bx * cy - by * cx,
        (cx - bx) * (py - by) - (cy - by) * (px - bx) == (px * by - py * bx) + (cx * py - cy * px) + (bx * cy - by * cx),
{
    exp2(cx, px, by, py); exp2(cy, py, bx, px); exp2(cx, bx, py, by); exp2(cy, by, px, bx);
    exp2(0real, px, by, py); exp2(0real, py, bx, px); exp2(0real, px, cy, py); exp2(0real, py, cx, px);
    exp2(px, bx, 0real, by); exp2(py, by, 0real, bx); exp2(cx, bx, 0real, by); exp2(cy, by, 0real, bx);
    mcomm(px, by); mcomm(px, cy); mcomm(px, py); mcomm(by, bx); mcomm(by, cx); mcomm(by, py); mcomm(bx, cy); mcomm(bx, py); mcomm(cx, py);
    mcomm(cx, cy); mcomm(0real, bx); mcomm(0real, by); mcomm(0real, cx); mcomm(0real, cy); mcomm(0real, px); mcomm(0real, py);
    assert(0real - px == -px && 0real - py == -py && 0real - bx == -bx && 0real - by == -by);
}
// C p + A c + B b == 0
proof fn vec0(px: real, py: real, bx: real, by: real, cx: real, cy: real, A: real, B: real, C: real)
    requires A == px * by - py * bx, B == cx * py - cy * px, C == bx * cy - by * cx
    ensures C * px + A * cx + B * bx == 0real, C * py + A * cy + B * by == 0real
{
    exp2(bx * cy, by * cx, px, 0real); exp2(px * by, py * bx, cx, 0real); exp2(cx * py, cy * px, bx, 0real);
    exp2(bx * cy, by * cx, py, 0real); exp2(px * by, py * bx, cy, 0real); exp2(cx * py, cy * px, by, 0real);
    assert((bx * cy) * px == (cy * px) * bx) by (nonlinear_arith);
    assert((by * cx) * px == (px * by) * cx) by (nonlinear_arith);
    assert((py * bx) * cx == (cx * py) * bx) by (nonlinear_arith);
    assert((bx * cy) * py == (py * bx) * cy) by (nonlinear_arith);
    assert((by * cx) * py == (cx * py) * by) by (nonlinear_arith);
    assert((px * by) * cy == (cy * px) * by) by (nonlinear_arith);
}
proof fn dist3(k: real, a: real, b: real, c: real) ensures k * (a + b + c) == k * a + k * b + k * c { assert(k * (a + b + c) == k * a + k * b + k * c) by (nonlinear_arith); }
proof fn mcomm(a: real, b: real) ensures a * b == b * a, (-a) * b == -(a * b), a * (-b) == -(a * b) {
    assert(a * b == b * a) by (nonlinear_arith);
    assert((-a) * b == -(a * b)) by (nonlinear_arith);
    assert(a * (-b) == -(a * b)) by (nonlinear_arith);
 }
proof fn massoc(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c), a * (b * c) == b * (a * c) { assert((a * b) * c == a * (b * c)) by (nonlinear_arith); assert(a * (b * c) == b * (a * c)) by (nonlinear_arith); }
// q . (C p + A c + B b) == 0
proof fn dot0(qx: real, qy: real, px: real, py: real, bx: real, by: real, cx: real, cy: real, A: real, B: real, C: real)
    requires C * px + A * cx + B * bx == 0real, C * py + A * cy + B * by == 0real
    ensures C * (px * qx + py * qy) + A * (cx * qx + cy * qy) + B * (bx * qx + by * qy) == 0real
{
    assert(qx * (C * px + A * cx + B * bx) == 0real) by (nonlinear_arith) requires C * px + A * cx + B * bx == 0real;
    assert(qy * (C * py + A * cy + B * by) == 0real) by (nonlinear_arith) requires C * py + A * cy + B * by == 0real;
    dist3(qx, C * px, A * cx, B * bx);
    dist3(qy, C * py, A * cy, B * by);
    assert(qx * (C * px) == C * (px * qx)) by (nonlinear_arith);
    assert(qx * (A * cx) == A * (cx * qx)) by (nonlinear_arith);
    assert(qx * (B * bx) == B * (bx * qx)) by (nonlinear_arith);
    assert(qy * (C * py) == C * (py * qy)) by (nonlinear_arith);
    assert(qy * (A * cy) == A * (cy * qy)) by (nonlinear_arith);
    assert(qy * (B * by) == B * (by * qy)) by (nonlinear_arith);
    dist3(C, px * qx, py * qy, 0real);
    dist3(A, cx * qx, cy * qy, 0real);
    dist3(B, bx * qx, by * qy, 0real);
    assert(C * 0real == 0real && A * 0real == 0real && B * 0real == 0real);
}
proof fn m2(a: real, b: real) ensures a * (-2real * b) == -2real * (a * b) { assert(a * (-2real * b) == -2real * (a * b)) by (nonlinear_arith); }
proof fn incirc_perm1(px: real, py: real, bx: real, by: real, cx: real, cy: real)
    ensures
        inc0(px, py, bx, by, cx, cy) == inc0(bx, by, cx, cy, px, py),
        inc0(px, py, bx, by, cx, cy) == inc0(cx, cy, px, py, bx, by),
        inc0(px, py, bx, by, cx, cy) == inc0(-px, -py, cx - px, cy - py, bx - px, by - py),
        inc0(px, py, bx, by, cx, cy) == -inc0(cx - bx, cy - by, px - bx, py - by, -bx, -by),
{
    let A = px * by - py * bx;
    let B = cx * py - cy * px;
    let C = bx * cy - by * cx;
    let (PP, BB, CC) = (sq(px) + sq(py), sq(bx) + sq(by), sq(cx) + sq(cy));
    mcomm(px, by); mcomm(py, bx); mcomm(px, cy); mcomm(py, cx); mcomm(bx, cy); mcomm(by, cx);
    mcomm(BB, B); mcomm(CC, A); mcomm(PP, C);
    assert(px * cy - py * cx == -B);
    assert(bx * py - by * px == -A);
    assert(cx * by - cy * bx == -C);
    let v = C * PP + B * BB + A * CC;
    assert(inc0(px, py, bx, by, cx, cy) == v);
    assert(inc0(bx, by, cx, cy, px, py) == v) by { mcomm(CC, bx * py - by * px); mcomm(BB, cx * py - cy * px); mcomm(PP, bx * cy - by * cx); mcomm(A, CC); }
    assert(inc0(cx, cy, px, py, bx, by) == v) by { mcomm(PP, cx * by - cy * bx); mcomm(C, PP);}
    cross(px, py, bx, by, cx, cy);
    vec0(px, py, bx, by, cx, cy, A, B, C);
    sq_sub(px, cx); sq_sub(py, cy); sq_sub(cx, px); sq_sub(cy, py); sq_sub(bx, px); sq_sub(by, py); sq_sub(px, bx); sq_sub(py, by); sq_sub(cx, bx); sq_sub(cy, by);
    let D = A + B + C;
    {
        dot0(px, py, px, py, bx, by, cx, cy, A, B, C);
        let cp = cx * px + cy * py;
        let bp = bx * px + by * py;
        let x = inc0(-px, -py, cx - px, cy - py, bx - px, by - py);
        assert(x == PP * (-D) - (CC + PP - 2real * cp) * (-A) + (BB + PP - 2real * bp) * B);
        dist3(PP, A, B, C); mcomm(PP, D); dist3(A, CC, PP, -2real * cp); dist3(B, BB, PP, -2real * bp);
        mcomm(A, CC + PP - 2real * cp); mcomm(B, BB + PP - 2real * bp); m2(A, cp); m2(B, bp);
        assert(x == -(PP * A + PP * B + PP * C) + (A * CC + A * PP - 2real * (A * cp)) + (B * BB + B * PP - 2real * (B * bp)));
        mcomm(PP, A); mcomm(PP, B);
        assert(x == v);
    }
    {
        dot0(bx, by, px, py, bx, by, cx, cy, A, B, C);
        let cb = cx * bx + cy * by;
        let pb = px * bx + py * by;
        let x = inc0(cx - bx, cy - by, px - bx, py - by, -bx, -by);
        assert(x == (CC + BB - 2real * cb) * (-A) - (PP + BB - 2real * pb) * C + BB * D);
        dist3(BB, A, B, C); dist3(A, CC, BB, -2real * cb); dist3(C, PP, BB, -2real * pb);
        mcomm(A, CC + BB - 2real * cb); mcomm(C, PP + BB - 2real * pb); m2(A, cb); m2(C, pb);
        assert(x == -(A * CC + A * BB - 2real * (A * cb)) - (C * PP + C * BB - 2real * (C * pb)) + (BB * A + BB * B + BB * C));
        mcomm(BB, A); mcomm(BB, C); 
        assert(x == -v);
    }
}
/// Flip lemma: t = (p, b, c), ot = (op, c, b) not clockwise, op inside the circle of t:
/// then (p, b, op) and (c, p, op) are strictly counter clockwise.
pub proof fn flip_convex(p: R2, b: R2, c: R2, op: R2)
    requires
        orient(p, b, c) >= 0real,
        orient(op, c, b) >= 0real,
        incirc(p, b, c, op) > 0real,
    ensures
        orient(p, b, op) > 0real,
        orient(c, p, op) > 0real,
{
    reveal(orient);
    reveal(incirc);
    let (px, py, bx, by, cx, cy) = (p.0 - op.0, p.1 - op.1, b.0 - op.0, b.1 - op.1, c.0 - op.0, c.1 - op.1);
    flip_convex0(px, py, bx, by, cx, cy);
    orient_shift(p, b, c, op);
    assert(orient(p, b, c) == (px - cx) * (by - cy) - (py - cy) * (bx - cx));
    assert(orient(op, c, b) == (-bx) * (cy - by) - (-by) * (cx - bx));
    assert(orient(p, b, op) == px * by - py * bx);
    assert(orient(c, p, op) == cx * py - cy * px);
}


proof fn orient_shift(p: R2, b: R2, c: R2, o: R2) 
    ensures (p.0 - o.0) - (c.0 - o.0) == p.0 - c.0
{}
proof fn flip_convex0(px: real, py: real, bx: real, by: real, cx: real, cy: real)
    ensures
        (px - cx) * (by - cy) - (py - cy) * (bx - cx) >= 0real
        && (-bx) * (cy - by) - (-by) * (cx - bx) >= 0real
        && inc0(px, py, bx, by, cx, cy) > 0real
        ==> px * by - py * bx > 0real && cx * py - cy * px > 0real
{
    let A = px * by - py * bx;
    let B = cx * py - cy * px;
    let C = bx * cy - by * cx;
    let D = (px - cx) * (by - cy) - (py - cy) * (bx - cx);
    let E = (-bx) * (cy - by) - (-by) * (cx - bx);
    let inc = inc0(px, py, bx, by, cx, cy);
    let (PP, BB, CC) = (sq(px) + sq(py), sq(bx) + sq(by), sq(cx) + sq(cy));
    let PC = sq(px - cx) + sq(py - cy);
    let PB = sq(px - bx) + sq(py - by);
    orient_exp(px, py, bx, by, cx, cy);
    assert(D == A + B + C);
    exp2(0real, bx, cy, by); exp2(0real, by, cx, bx); mcomm(bx, by); mcomm(0real, cy); mcomm(0real, cx); mcomm(0real, bx); mcomm(0real, by);
    assert(0real - bx == -bx && 0real - by == -by);
    assert(E == -C);
    mcomm(px, cy); mcomm(py, cx); mcomm(BB, B); mcomm(CC, A); mcomm(PP, C);
    mcomm(BB, px * cy - py * cx); mcomm(B, BB);
    assert(px * cy - py * cx == -B);
    assert(inc == C * PP + B * BB + A * CC);
    vec0(px, py, bx, by, cx, cy, A, B, C);
    dot0(px, py, px, py, bx, by, cx, cy, A, B, C);
    dot0(bx, by, px, py, bx, by, cx, cy, A, B, C);
    dot0(cx, cy, px, py, bx, by, cx, cy, A, B, C);
    let pb = px * bx + py * by; let pc = px * cx + py * cy; let bc = bx * cx + by * cy;
    mcomm(px, bx); mcomm(py, by); mcomm(px, cx); mcomm(py, cy); mcomm(bx, cx); mcomm(by, cy);
    assert(C * PP + A * pc + B * pb == 0real);
    assert(C * pb + A * bc + B * BB == 0real);
    assert(C * pc + A * CC + B * bc == 0real);
    sq_sub(px, cx); sq_sub(py, cy); sq_sub(px, bx); sq_sub(py, by); sq_sub(px, 0real); sq_sub(py, 0real); sq_sub(bx, 0real); sq_sub(by, 0real); sq_sub(cx, 0real); sq_sub(cy, 0real);
    sq_sub(px - cx, 0real); sq_sub(py - cy, 0real); sq_sub(px - bx, 0real); sq_sub(py - by, 0real);
    assert(PC == PP + CC - 2real * pc);
    assert(PB == PP + BB - 2real * pb);
    key_id(A, B, C, PP, BB, CC, pb, pc, bc);
    mcomm(B, inc); mcomm(A, inc);
    if D >= 0real && E >= 0real && inc > 0real {
        sign_case(A, B, C, D, inc, PP, CC, PC, BB);
        key_id(B, A, C, PP, CC, BB, pc, pb, bc);
        sign_case(B, A, C, D, inc, PP, BB, PB, CC);
    }
}

/// B*inc == D*(C PP + A CC) - A C PC, from the Gram relations of C p + A c + B b == 0
proof fn key_id(A: real, B: real, C: real, PP: real, BB: real, CC: real, pb: real, pc: real, bc: real)
    requires
        C * PP + A * pc + B * pb == 0real,
        C * pb + A * bc + B * BB == 0real,
        C * pc + A * CC + B * bc == 0real,
    ensures B * (C * PP + B * BB + A * CC) == (A + B + C) * (C * PP + A * CC) - (A * C) * (PP + CC - 2real * pc)
{
    // B*(B BB) = -B*(C pb + A bc) = C*(C PP + A pc) + A*(C pc + A CC)
    let X = C * PP; let Y = A * CC; let Z = B * BB;
    dist3(B, X, Z, Y);
    dist3(B, C * pb, A * bc, Z);
    mul0(B, C * pb + A * bc + B * BB);
    dist3(C, X, A * pc, B * pb);
    mul0(C, C * PP + A * pc + B * pb);
    dist3(A, C * pc, Y, B * bc);
    mul0(A, C * pc + A * CC + B * bc);
    massoc(B, C, pb); massoc(C, B, pb); massoc(B, A, bc); massoc(A, B, bc); massoc(C, A, pc); massoc(A, C, pc); massoc(A, C, PP); massoc(A, C, CC);
    massoc(C, A, PP); massoc(C, A, CC); mcomm(A, C);
    assert(B * Z == C * X + 2real * (C * (A * pc)) + A * Y);
    let S = X + Y;
    dist3(S, A, B, C); mcomm(S, A + B + C); mcomm(S, A); mcomm(S, B); mcomm(S, C);
    dist3(A, X, Y, 0real); dist3(B, X, Y, 0real); dist3(C, X, Y, 0real);
    assert(A * 0real == 0real && B * 0real == 0real && C * 0real == 0real);
    let AC = A * C;
    dist3(AC, PP, CC, -2real * pc);
    m2(AC, pc);
    massoc(A, C, PP); massoc(A, C, CC); massoc(A, C, pc);
    assert(PP + CC - 2real * pc == PP + CC + (-2real * pc));
}
proof fn mul0(a: real, x: real) requires x == 0real ensures a * x == 0real { assert(a * x == 0real) by (nonlinear_arith) requires x == 0real; }
proof fn sq_nonneg(x: real) ensures sq(x) >= 0real { assert(sq(x) >= 0real) by (nonlinear_arith); }
proof fn mul_pp(x: real, y: real) requires x >= 0real, y >= 0real ensures x * y >= 0real { assert(x * y >= 0real) by (nonlinear_arith) requires x >= 0real, y >= 0real; }

/// A > 0 from B*inc == D(C PP + A CC) - A C PC
proof fn sign_case(A: real, B: real, C: real, D: real, inc: real, PP: real, CC: real, PC: real, BB: real)
    requires D >= 0real, C <= 0real, inc > 0real, D == A + B + C, PP >= 0real, CC >= 0real, PC >= 0real,
        inc == C * PP + B * BB + A * CC,
        B * inc == D * (C * PP + A * CC) - (A * C) * PC,
    ensures A > 0real
{
    if A <= 0real {
        mul_pp(-C, PP); mul_pp(-A, CC);
        assert((-C) * PP == -(C * PP)) by (nonlinear_arith);
        assert((-A) * CC == -(A * CC)) by (nonlinear_arith);
        let s = C * PP + A * CC;
        mul_pp(D, -s);
        assert(D * (-s) == -(D * s)) by (nonlinear_arith);
        mul_pp(-A, -C);
        assert((-A) * (-C) == A * C) by (nonlinear_arith);
        mul_pp(A * C, PC);
        assert(B * inc <= 0real);
        assert(B <= 0real) by (nonlinear_arith) requires B * inc <= 0real, inc > 0real;
        assert(A == 0real && B == 0real && C == 0real);
        assert(inc == 0real) by (nonlinear_arith) requires inc == C * PP + B * BB + A * CC, A == 0real, B == 0real, C == 0real;
    }
}

// ---- corners of a front that ascends in x
pub proof fn crossf(a: R2, b: R2, c: R2)
    ensures orient(a, b, c) == (b.0 - a.0) * (c.1 - b.1) - (b.1 - a.1) * (c.0 - b.0)
{
    reveal(orient);
    cross0(a.0, a.1, b.0, b.1, c.0, c.1);
}
proof fn cross0(ax: real, ay: real, bx: real, by: real, cx: real, cy: real)
    ensures (ax - cx) * (by - cy) - (ay - cy) * (bx - cx) == (bx - ax) * (cy - by) - (by - ay) * (cx - bx)
{
    exp2(ax, cx, by, cy); exp2(ay, cy, bx, cx); exp2(bx, ax, cy, by); exp2(by, ay, cx, bx);
    mcomm(ax, cy); mcomm(ay, cx); mcomm(by, cx); mcomm(bx, cy); mcomm(cx, cy); mcomm(ax, by); mcomm(ay, bx); mcomm(bx, by);
}
pub proof fn mul_nn(x: real, y: real) ensures x <= 0real && y >= 0real ==> x * y <= 0real, x > 0real && y > 0real ==> x * y > 0real, x >= 0real && y >= 0real ==> x * y >= 0real
{
    assert(x <= 0real && y >= 0real ==> x * y <= 0real) by (nonlinear_arith);
    assert(x > 0real && y > 0real ==> x * y > 0real) by (nonlinear_arith);
    assert(x >= 0real && y >= 0real ==> x * y >= 0real) by (nonlinear_arith);
}
/// a valley turns left
pub proof fn valley(a: R2, b: R2, c: R2)
    requires lt(a, b), lt(b, c), a.1 >= b.1, c.1 > b.1
    ensures orient(a, b, c) > 0real
{
    crossf(a, b, c);
    mul_nn(b.0 - a.0, c.1 - b.1);
    mul_nn(b.1 - a.1, c.0 - b.0);
}
pub proof fn dst(a: real, b: real, c: real) ensures (a - b) * c == a * c - b * c { assert((a - b) * c == a * c - b * c) by (nonlinear_arith); }
proof fn add2(a: real, b: real, c: real) ensures (a + b) * c == a * c + b * c, c * (a + b) == c * a + c * b { assert((a + b) * c == a * c + b * c && c * (a + b) == c * a + c * b) by (nonlinear_arith); }
pub proof fn cm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
/// the three ways to multiply
pub proof fn p3(a: real, b: real, c: real) ensures (a * b) * c == (a * c) * b, (a * b) * c == (c * b) * a, (a * b) * c == (b * c) * a
{
    assert((a * b) * c == (a * c) * b) by (nonlinear_arith);
    assert((a * b) * c == (b * c) * a) by (nonlinear_arith);
    cm(b, c);
}
pub proof fn crs(ux: real, uy: real, vx: real, vy: real, wx: real, wy: real)
    ensures (ux * wy - uy * wx) * vy == (ux * vy - uy * vx) * wy + (vx * wy - vy * wx) * uy,
        (ux * wy - uy * wx) * vx == (ux * vy - uy * vx) * wx + (vx * wy - vy * wx) * ux,
        (ux + vx) * wy - (uy + vy) * wx == (ux * wy - uy * wx) + (vx * wy - vy * wx),
        ux * (vy + wy) - uy * (vx + wx) == (ux * vy - uy * vx) + (ux * wy - uy * wx),
{
    dst(ux * wy, uy * wx, vy); dst(ux * vy, uy * vx, wy); dst(vx * wy, vy * wx, uy);
    p3(ux, wy, vy); p3(uy, vx, wy); p3(uy, wx, vy);
    dst(ux * wy, uy * wx, vx); dst(ux * vy, uy * vx, wx); dst(vx * wy, vy * wx, ux);
    p3(ux, wy, vx); p3(ux, vy, wx); p3(uy, wx, vx);
    add2(ux, vx, wy); add2(uy, vy, wx); add2(vy, wy, ux); add2(vx, wx, uy);
    cm(ux, vy); cm(ux, wy); cm(uy, vx); cm(uy, wx);
}
proof fn sgn(x: real, v: real) ensures v > 0real && x * v >= 0real ==> x >= 0real { assert(v > 0real && x * v >= 0real ==> x >= 0real) by (nonlinear_arith); }
/// two left turns on the rising side: still a left turn without the first corner
pub proof fn rise(l: R2, a: R2, b: R2, c: R2)
    requires lt(l, a), lt(a, b), lt(b, c), a.1 < b.1, b.1 < c.1, orient(l, a, b) >= 0real, orient(a, b, c) >= 0real
    ensures orient(l, b, c) >= 0real
{
    let (ux, uy, vx, vy, wx, wy) = (a.0 - l.0, a.1 - l.1, b.0 - a.0, b.1 - a.1, c.0 - b.0, c.1 - b.1);
    crossf(l, a, b); crossf(a, b, c); crossf(l, b, c);
    crs(ux, uy, vx, vy, wx, wy);
    assert(b.0 - l.0 == ux + vx && b.1 - l.1 == uy + vy);
    let uw = ux * wy - uy * wx;
    mul_nn(ux, wy); mul_nn(uy, wx); mul_nn(ux * vy - uy * vx, wy); mul_nn(vx * wy - vy * wx, uy);
    sgn(uw, vy);
}
/// the same on the falling side
pub proof fn fall(a: R2, b: R2, c: R2, r: R2)
    requires lt(a, b), lt(b, c), lt(c, r), a.1 >= b.1, b.1 >= c.1, orient(a, b, c) >= 0real, orient(b, c, r) >= 0real
    ensures orient(a, b, r) >= 0real
{
    let (ux, uy, vx, vy, wx, wy) = (b.0 - a.0, b.1 - a.1, c.0 - b.0, c.1 - b.1, r.0 - c.0, r.1 - c.1);
    crossf(a, b, c); crossf(b, c, r); crossf(a, b, r);
    crs(ux, uy, vx, vy, wx, wy);
    assert(r.0 - b.0 == vx + wx && r.1 - b.1 == vy + wy);
    let uw = ux * wy - uy * wx;
    mul_nn(ux, wy); mul_nn(uy, wx); mul_nn(ux * vy - uy * vx, wx); mul_nn(vx * wy - vy * wx, ux);
    sgn(uw, vx);
}
/// not to the right, and ascending
pub proof fn asc_good(a: R2, b: R2, c: R2)
    requires lt(a, b), lt(b, c), orient(a, b, c) >= 0real
    ensures good3(a, b, c)
{}
pub proof fn mul_lt(w: real, h: real, g: real, u: real)
    requires 0real <= u, u <= w, w > 0real, h >= 0real, g < h, h == 0real ==> u > 0real
    ensures w * h - g * u > 0real
{
    if g <= 0real {
        assert((0real - g) * u >= 0real) by (nonlinear_arith) requires g <= 0real, u >= 0real;
        assert((0real - g) * u == 0real - g * u) by (nonlinear_arith);
        if h > 0real { assert(w * h > 0real) by (nonlinear_arith) requires w > 0real, h > 0real; }
        else { assert((0real - g) * u > 0real) by (nonlinear_arith) requires g < 0real, u > 0real; assert(w * h == 0real) by (nonlinear_arith) requires h == 0real; }
    } else {
        assert(g * u <= g * w) by (nonlinear_arith) requires g > 0real, u <= w;
        assert(g * w < w * h) by (nonlinear_arith) requires g < h, w > 0real;
    }
}
/// p lies strictly above the segment from a to b
pub proof fn above(a: R2, p: R2, b: R2)
    requires lt(a, p), lt(p, b), ylt(a, p), ylt(b, p)
    ensures good3(p, a, b)
{
    let w = b.0 - a.0; let u = p.0 - a.0; let h = p.1 - a.1; let g = b.1 - a.1;
    assert(p.0 - b.0 == u - w && a.1 - b.1 == 0real - g && p.1 - b.1 == h - g && a.0 - b.0 == 0real - w);
    assert((u - w) * (0real - g) - (h - g) * (0real - w) == w * h - g * u) by (nonlinear_arith);
    mul_lt(w, h, g, u);
    reveal(orient);
    assert(orient(p, a, b) == (u - w) * (0real - g) - (h - g) * (0real - w));
}
/// p lies straight above a
pub proof fn stand(z: R2, a: R2, p: R2)
    requires lt(z, a), lt(a, p), a.0 == p.0
    ensures good3(z, a, p)
{
    let q = a.0 - z.0; let r = p.1 - a.1;
    crossf(z, a, p);
    assert(p.0 - a.0 == 0real);
    assert((a.1 - z.1) * 0real == 0real) by (nonlinear_arith);
    mul_nn(q, r);
    asc_good(z, a, p);
}
proof fn no_zero(a: real, x: real) ensures a != 0real && a * x == 0real ==> x == 0real { assert(a != 0real && a * x == 0real ==> x == 0real) by (nonlinear_arith); }
/// a, m, b and a, m, c on a line
pub proof fn on_line(a: R2, m: R2, b: R2, c: R2)
    requires a != m, orient(b, m, a) == 0real, orient(a, m, c) == 0real
    ensures orient(a, b, c) == 0real
{
    let (ux, uy, vx, vy, wx, wy) = (m.0 - a.0, m.1 - a.1, b.0 - a.0, b.1 - a.1, c.0 - a.0, c.1 - a.1);
    orient_perm(b, m, a); orient_perm(a, m, c); orient_perm(a, b, c);
    assert(orient(m, c, a) == ux * wy - uy * wx) by { reveal(orient); }
    assert(orient(m, b, a) == ux * vy - uy * vx) by { reveal(orient); }
    assert(orient(b, c, a) == vx * wy - vy * wx) by { reveal(orient); }
    crs(ux, uy, vx, vy, wx, wy); crs(uy, ux, vy, vx, wy, wx);
    assert(uy * wx == wx * uy && ux * wy == wy * ux && uy * vx == vx * uy && ux * vy == vy * ux && vy * wx == wx * vy && vx * wy == wy * vx) by (nonlinear_arith);
    let (p, q, r) = (ux * wy - uy * wx, ux * vy - uy * vx, vx * wy - vy * wx);
    assert(uy * wx - ux * wy == 0real && uy * vx - ux * vy == 0real);
    assert(r * uy == 0real) by { mul0(vy, p); mul0(wy, q); mcomm(vy, p); mcomm(wy, q); }
    assert((vy * wx - vx * wy) * ux == 0real) by { mul0(vx, p); mul0(wx, q); mcomm(vx, p); mcomm(wx, q); }
    assert(ux * r == 0real && uy * r == 0real) by { mcomm(uy, r); mcomm(ux, r); mcomm(r, ux); assert(vy * wx - vx * wy == -r); }
    no_zero(ux, vx * wy - vy * wx); no_zero(uy, vx * wy - vy * wx);
}
} // mod rt
use rt::*;
use rt::robust;
broadcast use {rt::flax::ax_sub, rt::flax::ax_add, rt::flax::ax_mul, rt::flax::ax_neg};
