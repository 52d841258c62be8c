
#[derive(Clone, Copy)]
pub struct Edge {
    pub
    p: PointId,
    pub
    q: PointId,
}

impl Edge {

    pub fn new(p__0: (PointId, &Point), p__1: (PointId, &Point)) -> (ret: Self)
@ ensures p2(*p__0.1) != p2(*p__1.1), // [C02]
@     ylt(p2(*p__0.1), p2(*p__1.1)) ==> ret.p == p__0.0 && ret.q == p__1.0, // [C02]
@     !ylt(p2(*p__0.1), p2(*p__1.1)) ==> ret.p == p__1.0 && ret.q == p__0.0, // [C02]
{ let(p1_id, p1) = p__0; let (p2_id, p2) = p__1;
        let mut p: PointId = p1_id;
        let mut q: PointId = p2_id;
        if p1.y > p2.y {
            q = p1_id;
            p = p2_id;
        } else if p1.y == p2.y {
            if p1.x > p2.x {
                q = p1_id;
                p = p2_id;
            } else if p1.x == p2.x {
                rt_assert(false);
            }
        }
        Self { p, q }
    }
}

#[derive(Clone, Copy)]
pub struct Point {
    pub
    x: Float,
    pub
    y: Float,
}

impl Default for Point {

    fn default() -> (ret: Self) {
        Self { x: Float::lit(Ghost(0.0real)), y: Float::lit(Ghost(0.0real)) }
    }
}

impl Point {

    pub fn new(x: Float, y: Float) -> (ret: Self)
@ ensures ret.x == x, ret.y == y
{
        Self { x, y }
    }

    pub fn eq(&self, other: &Self) -> (ret: bool)
@ ensures ret <==> p2(*self) == p2(*other)
{
        self.x == other.x && self.y == other.y
    }
}

#[derive(Clone, Copy)]
pub struct EdgeAttr( pub u8,);

impl Default for EdgeAttr {

    fn default() -> (ret: Self)
@ ensures !con(ret), !del(ret)
{
@ proof { bits(0); }
 Self(Default::default()) }
}

impl EdgeAttr {

    pub
    const CONSTRAINED: u8 = 1;

    pub
    const CONSTRAINED_UNSET: u8 = Self::ALL ^ Self::CONSTRAINED;

    pub
    const DELAUNAY: u8 = 1 << 1;

    pub
    const DELAUNAY_UNSET: u8 = Self::ALL ^ Self::DELAUNAY;

    pub
    const ALL: u8 = 0xFF;

    pub fn set_constrained(&mut self, val: bool)
@ ensures con(*final(self)) == val, del(*final(self)) == del(*old(self)) // [C07]
{
@ proof { bits(self.0); }
        if !val {
            self.0 &= Self::CONSTRAINED_UNSET;
        } else {
            self.0 |= Self::CONSTRAINED;
        }
    }

    pub fn is_constrained(&self) -> (ret: bool)
@ ensures ret == con(*self)
{
@ proof { bits(self.0); }
        self.0 & Self::CONSTRAINED != 0
    }

    pub fn set_delaunay(&mut self, val: bool)
@ ensures del(*final(self)) == val, con(*final(self)) == con(*old(self)) // [C07]
{
@ proof { bits(self.0); }
        if !val {
            self.0 &= Self::DELAUNAY_UNSET;
        } else {
            self.0 |= Self::DELAUNAY;
        }
    }

    pub fn is_delaunay(&self) -> (ret: bool)
@ ensures ret == del(*self)
{
@ proof { bits(self.0); }
        self.0 & Self::DELAUNAY != 0
    }
}

#[derive(Clone, Copy)]
pub struct InnerTriangle {
    pub
    points: [PointId; 3],
    pub
    neighbors: [TriangleId; 3],
    pub
    edge_attrs: [EdgeAttr; 3],
    pub
    interior: bool,
}

impl InnerTriangle {

    pub fn new(a: PointId, b: PointId, c: PointId) -> (ret: Self)
@ ensures tp(ret, 0) == a, tp(ret, 1) == b, tp(ret, 2) == c, !ret.interior,
@     forall|i: int| 0 <= i < 3 ==> #[trigger] tn(ret, i) == inv(),
@     forall|i: int| 0 <= i < 3 ==> !(#[trigger] tc(ret, i)),
@     forall|i: int| 0 <= i < 3 ==> !(#[trigger] td(ret, i)),
{
        Self {
            points: [a, b, c],
            edge_attrs: [Default::default(), Default::default(), Default::default()],
            neighbors: [TriangleId::INVALID; 3],
            interior: false,
        }
    }

    pub fn point_cw(&self, point: PointId) -> (ret: PointId)
@ ensures has(*self, point), ret == tp(*self, pv(ix(*self, point)))
{
        if point == self.points[0] {
            self.points[2]
        } else if point == self.points[1] {
            self.points[0]
        } else if point == self.points[2] {
            self.points[1]
        } else {
            rt_panic();
        }
    }

    pub fn point_ccw(&self, point: PointId) -> (ret: PointId)
@ ensures has(*self, point), ret == tp(*self, nx(ix(*self, point)))
{
        if point == self.points[0] {
            self.points[1]
        } else if point == self.points[1] {
            self.points[2]
        } else if point == self.points[2] {
            self.points[0]
        } else {
            rt_panic();
        }
    }

    pub fn opposite_point(&self, from_triangle: &InnerTriangle, point: PointId) -> (ret: PointId)
@ ensures has(*from_triangle, point), ({ let q = tp(*from_triangle, pv(ix(*from_triangle, point))); has(*self, q) && ret == tp(*self, pv(ix(*self, q))) })
{
        let cw = from_triangle.point_cw(point);
        self.point_cw(cw)
    }

    pub fn point_index(&self, point: PointId) -> (ret: Option<usize>)
@ ensures ret is Some <==> has(*self, point), ret matches Some(i) ==> i < 3 && tp(*self, i as int) == point && i == ix(*self, point)
{
        if self.points[0] == point {
            Some(0)
        } else if self.points[1] == point {
            Some(1)
        } else if self.points[2] == point {
            Some(2)
        } else {
            None
        }
    }

    pub fn set_constrained_for_edge(&mut self, p: PointId, q: PointId)
@ ensures
@     (exists|i: int| i3(i) && #[trigger] joins(*old(self), i, p, q) && set_flag(*old(self), *final(self), i, true)) || (*final(self) == *old(self) && (tdist(*old(self)) ==> forall|i: int| i3(i) ==> !(#[trigger] joins(*old(self), i, p, q)))),
{
        if let Some(index) = self.edge_index(p, q) {
            self.edge_attrs[index].set_constrained(true);
        }
    }

    pub fn set_constrained(&mut self, edge_index: usize, val: bool)
@ requires edge_index < 3
@ ensures set_flag(*old(self), *final(self), edge_index as int, val) // [C07]
{
        self.edge_attrs[edge_index].set_constrained(val);
    }

    pub fn is_constrained(&self, edge_index: usize) -> (ret: bool)
@ requires edge_index < 3
@ ensures ret == tc(*self, edge_index as int)
{
        self.edge_attrs[edge_index].is_constrained()
    }

    pub fn set_delaunay(&mut self, edge_index: usize, val: bool)
@ requires edge_index < 3
@ ensures set_dflag(*old(self), *final(self), edge_index as int, val) // [C07] [C08]
{
        self.edge_attrs[edge_index].set_delaunay(val);
    }

    pub fn is_delaunay(&self, edge_index: usize) -> (ret: bool)
@ requires edge_index < 3
@ ensures ret == td(*self, edge_index as int)
{
        self.edge_attrs[edge_index].is_delaunay()
    }

    pub fn edge_attr_ccw(&self, p: PointId) -> (ret: EdgeAttr)
@ ensures has(*self, p), ret == self.edge_attrs@[pv(ix(*self, p))]
{
        if p == self.points[0] {
            self.edge_attrs[2]
        } else if p == self.points[1] {
            self.edge_attrs[0]
        } else if p == self.points[2] {
            self.edge_attrs[1]
        } else {
            rt_panic();
        }
    }

    pub fn set_edge_attr_ccw(&mut self, p: PointId, edge_attr: EdgeAttr)
@ ensures has(*old(self), p), final(self).points == old(self).points, final(self).neighbors == old(self).neighbors, final(self).interior == old(self).interior,
@     final(self).edge_attrs@ =~= old(self).edge_attrs@.update(pv(ix(*old(self), p)), edge_attr), // [C07] [C08]
{
        if p == self.points[0] {
            self.edge_attrs[2] = edge_attr;
        } else if p == self.points[1] {
            self.edge_attrs[0] = edge_attr;
        } else if p == self.points[2] {
            self.edge_attrs[1] = edge_attr;
        } else {
            rt_panic();
        }
    }

    pub fn set_edge_attr_cw(&mut self, p: PointId, val: EdgeAttr)
@ ensures has(*old(self), p), final(self).points == old(self).points, final(self).neighbors == old(self).neighbors, final(self).interior == old(self).interior,
@     final(self).edge_attrs@ =~= old(self).edge_attrs@.update(nx(ix(*old(self), p)), val), // [C07] [C08]
{
        if p == self.points[0] {
            self.edge_attrs[1] = val;
        } else if p == self.points[1] {
            self.edge_attrs[2] = val;
        } else if p == self.points[2] {
            self.edge_attrs[0] = val;
        } else {
            rt_panic();
        }
    }

    pub fn edge_attr_cw(&self, p: PointId) -> (ret: EdgeAttr)
@ ensures has(*self, p), ret == self.edge_attrs@[nx(ix(*self, p))]
{
        if p == self.points[0] {
            self.edge_attrs[1]
        } else if p == self.points[1] {
            self.edge_attrs[2]
        } else if p == self.points[2] {
            self.edge_attrs[0]
        } else {
            rt_panic();
        }
    }

    pub fn constrained_edge_cw(&self, p: PointId) -> (ret: bool)
@ ensures has(*self, p), ret == tc(*self, nx(ix(*self, p)))
{
        match self.point_index(p) {
            Some(0) => self.edge_attrs[1].is_constrained(),
            Some(1) => self.edge_attrs[2].is_constrained(),
            Some(2) => self.edge_attrs[0].is_constrained(),
            _ => rt_panic(),
        }
    }

    pub fn neighbor_index(&self, tid: TriangleId) -> (ret: usize)
@ ensures ret < 3, tn(*self, ret as int) == tid, ret == 1 ==> tn(*self, 0) != tid, ret == 2 ==> tn(*self, 0) != tid && tn(*self, 1) != tid
{
        if self.neighbors[0] == tid {
            0
        } else if self.neighbors[1] == tid {
            1
        } else if self.neighbors[2] == tid {
            2
        } else {
            rt_panic()
        }
    }

    pub fn neighbor_ccw(&self, p: PointId) -> (ret: TriangleId)
@ ensures has(*self, p), ret == tn(*self, pv(ix(*self, p)))
{
        if p == self.points[0] {
            self.neighbors[2]
        } else if p == self.points[1] {
            self.neighbors[0]
        } else if p == self.points[2] {
            self.neighbors[1]
        } else {
            rt_panic();
        }
    }

    pub fn neighbor_cw(&self, p: PointId) -> (ret: TriangleId)
@ ensures has(*self, p), ret == tn(*self, nx(ix(*self, p)))
{
        if p == self.points[0] {
            self.neighbors[1]
        } else if p == self.points[1] {
            self.neighbors[2]
        } else if p == self.points[2] {
            self.neighbors[0]
        } else {
            rt_panic();
        }
    }

    pub fn neighbor_across(&self, p: PointId) -> (ret: TriangleId)
@ ensures has(*self, p), ret == tn(*self, ix(*self, p))
{
        let Some(point_index) = self.point_index(p) else {
            rt_panic();
        };
        self.neighbors[point_index]
    }

    pub fn rotate_cw(&mut self, o_point: PointId, n_point: PointId)
@ ensures has(*old(self), o_point), final(self).neighbors == old(self).neighbors, final(self).edge_attrs == old(self).edge_attrs, final(self).interior == old(self).interior,
@     ({ let i = ix(*old(self), o_point); tp(*final(self), nx(i)) == o_point && tp(*final(self), i) == tp(*old(self), pv(i)) && tp(*final(self), pv(i)) == n_point }),
{
        if o_point == self.points[0] {
            self.points[1] = self.points[0];
            self.points[0] = self.points[2];
            self.points[2] = n_point;
        } else if o_point == self.points[1] {
            self.points[2] = self.points[1];
            self.points[1] = self.points[0];
            self.points[0] = n_point;
        } else if o_point == self.points[2] {
            self.points[0] = self.points[2];
            self.points[2] = self.points[1];
            self.points[1] = n_point;
        } else {
            rt_panic()
        }
    }

    pub fn clear_neighbors(&mut self)
@ ensures final(self).points == old(self).points, final(self).edge_attrs == old(self).edge_attrs, final(self).interior == old(self).interior,
@     forall|i: int| 0 <= i < 3 ==> #[trigger] tn(*final(self), i) == inv(),
{
        self.neighbors = [TriangleId::INVALID; 3];
    }

    pub fn edge_index(&self, p: PointId, q: PointId) -> (ret: Option<usize>)
@ ensures ret matches Some(i) ==> i < 3 && joins(*self, i as int, p, q),
@     ret is None && tdist(*self) ==> forall|i: int| i3(i) ==> !(#[trigger] joins(*self, i, p, q)),
{
        Some(if self.points[0] == p {
            if self.points[1] == q {
                2
            } else if self.points[2] == q {
                1
            } else {
                return None;
            }
        } else if self.points[1] == p {
            if self.points[0] == q {
                2
            } else if self.points[2] == q {
                0
            } else {
                return None;
            }
        } else if self.points[2] == p {
            if self.points[0] == q {
                1
            } else if self.points[1] == q {
                0
            } else {
                return None;
            }
        } else {
            return None;
        })
    }

    pub fn common_edge_index(&self, other: &Self) -> (ret: Option<(usize, usize)>)
@ ensures ret matches Some((i, j)) ==> i < 3 && j < 3 && rev_edge(*self, i as int, *other, j as int),
@     ret is None && tdist(*self) && tdist(*other) ==> forall|i: int, j: int| i3(i) && i3(j) ==> !(#[trigger] rev_edge(*self, i, *other, j)),
{
        Some(if self.points[1] == other.points[0] {
            if self.points[2] == other.points[2] {
                (0, 1)
            } else if self.points[0] == other.points[1] {
                (2, 2)
            } else {
                return None;
            }
        } else if self.points[1] == other.points[1] {
            if self.points[2] == other.points[0] {
                (0, 2)
            } else if self.points[0] == other.points[2] {
                (2, 0)
            } else {
                return None;
            }
        } else if self.points[1] == other.points[2] {
            if self.points[2] == other.points[1] {
                (0, 0)
            } else if self.points[0] == other.points[0] {
                (2, 1)
            } else {
                return None;
            }
        } else if self.points[0] == other.points[0] {
            if self.points[2] == other.points[1] {
                (1, 2)
            } else if self.points[1] == other.points[2] {
                (2, 1)
            } else {
                return None;
            }
        } else if self.points[0] == other.points[2] {
            if self.points[2] == other.points[0] {
                (1, 1)
            } else if self.points[1] == other.points[1] {
                (2, 0)
            } else {
                return None;
            }
        } else if self.points[0] == other.points[1] {
            if self.points[1] == other.points[0] {
                (2, 2)
            } else if self.points[2] == other.points[2] {
                (1, 0)
            } else {
                return None;
            }
        } else if self.points[2] == other.points[0] {
            if self.points[0] == other.points[2] {
                (1, 1)
            } else if self.points[1] == other.points[1] {
                (0, 2)
            } else {
                return None;
            }
        } else if self.points[2] == other.points[1] {
            if self.points[0] == other.points[0] {
                (1, 2)
            } else if self.points[1] == other.points[2] {
                (0, 0)
            } else {
                return None;
            }
        } else if self.points[2] == other.points[2] {
            if self.points[1] == other.points[0] {
                (0, 1)
            } else if self.points[0] == other.points[1] {
                (1, 0)
            } else {
                return None;
            }
        } else {
            return None;
        })
    }
}
