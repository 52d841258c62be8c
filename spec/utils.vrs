
#[derive(PartialEq, Eq, Structural)]
pub enum Orientation {
    CW,
    CCW,
    Collinear,
}

impl Orientation {

    pub fn is_cw(&self) -> (ret: bool)
@ ensures ret == (*self == Orientation::CW)
{
        matches!(self, Self::CW)
    }

    pub fn is_ccw(&self) -> (ret: bool)
@ ensures ret == (*self == Orientation::CCW)
{
        matches!(self, Self::CCW)
    }

    pub fn is_collinear(&self) -> (ret: bool)
@ ensures ret == (*self == Orientation::Collinear)
{
        matches!(self, Self::Collinear)
    }
}

pub fn orient_2d(a: Point, b: Point, c: Point) -> (ret: Orientation)
@ ensures ret == ori(p2(a), p2(b), p2(c)) // [C06]
{
    let val = robust::orient2d(
        robust::Coord { x: a.x, y: a.y },
        robust::Coord { x: b.x, y: b.y },
        robust::Coord { x: c.x, y: c.y },
    );
    if val > Float::lit(Ghost(0.0real)) {
        Orientation::CCW
    } else if val < Float::lit(Ghost(0.0real)) {
        Orientation::CW
    } else {
        Orientation::Collinear
    }
}

pub fn is_between(a: Point, b: Point, p: Point) -> (ret: bool)
@ ensures ret == btw(p2(a), p2(b), p2(p)) // [C07] [C17]
{
    ((a.x <= p.x && p.x <= b.x) || (b.x <= p.x && p.x <= a.x))
        && ((a.y <= p.y && p.y <= b.y) || (b.y <= p.y && p.y <= a.y))
}

pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> (ret: bool)
@ ensures ret == (incirc(p2(pa), p2(pb), p2(pc), p2(pd)) > 0real) // [C08]
{
    robust::incircle(
        robust::Coord { x: pa.x, y: pa.y },
        robust::Coord { x: pb.x, y: pb.y },
        robust::Coord { x: pc.x, y: pc.y },
        robust::Coord { x: pd.x, y: pd.y },
    ) > Float::lit(Ghost(0.0real))
}

pub fn in_scan_area(a: Point, b: Point, c: Point, d: Point) -> (ret: bool)
@ ensures ret == (orient(p2(a), p2(d), p2(b)) < 0real && orient(p2(a), p2(d), p2(c)) > 0real) // [C06]
{
    let co = |p: Point|
@ -> (c: robust::Coord) ensures c.x == p.x, c.y == p.y
 { robust::Coord { x: p.x, y: p.y } };
    robust::orient2d(co(a), co(d), co(b)) < Float::lit(Ghost(0.0real)) && robust::orient2d(co(a), co(d), co(c)) > Float::lit(Ghost(0.0real))
}

#[derive(Clone, Copy)]
pub struct Angle {
    pub
    dy: Float,
    pub
    dx: Float,
}

impl Angle {

    pub fn new(o: Point, a: Point, b: Point) -> (ret: Self) {
        let ox = o.x;
        let oy = o.y;
        let dax = a.x - ox;
        let day = a.y - oy;
        let dbx = b.x - ox;
        let dby = b.y - oy;
        let y = dax * dby - day * dbx;
        let x = dax * dbx + day * dby;
        Angle { dy: y, dx: x }
    }

    pub fn between_0_to_90_degree(&self) -> (ret: bool) {
        if self.dx == Float::lit(Ghost(0.0real)) && self.dy == Float::lit(Ghost(0.0real)) {
            true
        } else if self.dx > Float::lit(Ghost(0.0real)) {
            self.dy > Float::lit(Ghost(0.0real))
        } else {
            false
        }
    }

    pub fn exceeds_90_degree(&self) -> (ret: bool) {
        if self.dx == Float::lit(Ghost(0.0real)) && self.dy == Float::lit(Ghost(0.0real)) {
            false
        } else if self.dx >= Float::lit(Ghost(0.0real)) {
            false
        } else {
            self.dy > Float::lit(Ghost(0.0real))
        }
    }

    pub fn is_negative(&self) -> (ret: bool) {
        if self.dx == Float::lit(Ghost(0.0real)) && self.dy == Float::lit(Ghost(0.0real)) {
            false
        } else if self.dx >= Float::lit(Ghost(0.0real)) {
            self.dy < Float::lit(Ghost(0.0real))
        } else {
            self.dy < Float::lit(Ghost(0.0real))
        }
    }
}
