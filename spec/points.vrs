
pub
type NumType = u32;

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PointId( pub NumType,);

impl PointId {

    pub fn as_usize(&self) -> (ret: usize)
@ ensures ret == self.0
{
        self.0 as usize
    }

    pub fn as_u32(&self) -> (ret: u32)
@ ensures ret == self.0
{
        self.0 as u32
    }

    pub fn get(&self, points: &Points) -> (ret: Point)
@ requires self.0 < points.points@.len() // [C04]
@ ensures ret == points.points@[self.0 as int]
{
        unsafe { points.get_point_uncheck(*self) }
    }
}

#[derive(Clone)]
pub struct PointsBuilder {
    pub
    points: Vec<Point>,
    pub
    edges: Vec<PointEdges>,
}

impl Default for PointsBuilder {

    fn default() -> (ret: Self)
@ ensures ret.points@.len() == 0, ret.edges@.len() == 0
{ Self { points: Default::default(), edges: Default::default() } }
}

impl PointsBuilder {

    pub fn with_capacity(cap: usize) -> (ret: Self)
@ ensures ret.points@.len() == 0, ret.edges@.len() == 0
{
        Self {
            points: Vec::with_capacity(cap),
            edges: Vec::with_capacity(cap),
        }
    }

    pub fn add_steiner_point(&mut self, point: Point) -> (ret: PointId)
@ requires builder_ok(*old(self)), old(self).points@.len() <= max_points()
@ ensures builder_ok(*final(self)), ret.0 == old(self).points@.len(),
@     final(self).points@ == old(self).points@.push(point), // [C01]
@     final(self).edges@ == old(self).edges@.push(PointEdges::None), // [C02]
{
        let point_id = PointId(self.points.len() as NumType);
        self.points.push(point);
        self.edges.push(PointEdges::None);
        point_id
    }

    pub fn add_steiner_points(&mut self, points: Vec<Point>)
@ requires builder_ok(*old(self))
@ ensures builder_ok(*final(self)),
@     final(self).points@ == old(self).points@ + points@, // [C01]
@     forall|i: int| 0 <= i < final(self).edges@.len() ==> ev(#[trigger] final(self).edges@[i]) == (if i < old(self).edges@.len() { ev(old(self).edges@[i]) } else { seq![] }), // [C02]
{
        self.points.rt_extend(points);
        self.edges.resize(self.points.len(), PointEdges::None);
    }

    pub fn get_edges_mut(&mut self, point_id: PointId) -> (ret: Option< &mut PointEdges>)
@ ensures
@     ret is Some <==> point_id.0 < old(self).edges@.len(),
@     final(self).points@ == old(self).points@,
@     ret matches Some(e) ==> *e == old(self).edges@[point_id.0 as int] && final(self).edges@ == old(self).edges@.update(point_id.0 as int, *final(e)),
@     ret is None ==> final(self).edges@ == old(self).edges@,
{
        self.edges.get_mut(point_id.as_usize())
    }

    pub fn build(self) -> (ret: Points)
@ requires builder_ok(self), self.points@.len() <= max_points(), edges_ok(self.points@, self.edges@)
@ ensures
@     ret.points@.len() == self.points@.len() + 2 && ret.points@.take(self.points@.len() as int) =~= self.points@, // [C01]
@     ret.edges@.take(self.edges@.len() as int) =~= self.edges@, // [C02]
@     points_ok(ret), // [C03]
@     helpers(ret), // [C03]
{
        Points::new(self.points, self.edges)
    }
}

#[derive(Clone, Copy)]
pub enum PointEdges {
    None,
    One(PointId),
    Two(PointId, PointId),
}

impl PointEdges {

    pub fn push(&mut self, point_id: PointId)
@ ensures ev(*final(self)) =~= ev(*old(self)).push(point_id) // [C02]
{
        *self = match self {
            PointEdges::None => PointEdges::One(point_id),
            PointEdges::One(p0) => PointEdges::Two(*p0, point_id),
            PointEdges::Two(_, _) => rt_panic(),
        };
    }
}

#[derive(Clone, Copy)]
pub struct PointWithEdge {
    pub
    point: Point,
    pub
    edges: PointEdges,
}

impl PointEdges {

    pub fn next(&mut self) -> (ret: Option<PointId>)
@ ensures
@     ev(*old(self)).len() > 0 ==> ret == Some(ev(*old(self))[0]) && ev(*final(self)) =~= ev(*old(self)).skip(1), // [C02]
@     ev(*old(self)).len() == 0 ==> ret is None && ev(*final(self)).len() == 0, // [C02]
{
        let mut result = None;
        let new_self = match std::mem::replace(self, PointEdges::None) {
            PointEdges::None => PointEdges::None,
            PointEdges::One(p) => {
                result = Some(p);
                PointEdges::None
            }
            PointEdges::Two(p0, p1) => {
                result = Some(p0);
                PointEdges::One(p1)
            }
        };
        *self = new_self;
        result
    }
}

#[derive(Clone)]
pub struct Points {
    pub
    points: Vec<Point>,
    pub
    edges: Vec<PointEdges>,
    pub
    y_sorted: Vec<PointId>,
    pub
    head: PointId,
    pub
    tail: PointId,
}

impl Points {

    pub fn new(mut points: Vec<Point>, mut edges: Vec<PointEdges>) -> (ret: Self)
@ requires points@.len() == edges@.len(), points@.len() <= max_points(), edges_ok(points@, edges@)
@ ensures
@     ret.points@.len() == points@.len() + 2 && ret.points@.take(points@.len() as int) =~= points@, // [C01]
@     ret.edges@.take(edges@.len() as int) =~= edges@, // [C02]
@     points_ok(ret), // [C03]
@     helpers(ret), // [C03]
 {
@ let ghost pts0 = points@;
        let mut xmax = Float::rt_min();
        let mut xmin = Float::rt_max();
        let mut ymax = Float::rt_min();
        let mut ymin = Float::rt_max();
        let mut unsorted_points = { let s__0 = & points; let mut o__0 = Vec::new(); let mut c__0: usize = 0
; while c__0 < s__0.len()
@     invariant s__0@ == points@, inv_ids(o__0, points@, c__0 as int),
@         forall|i: int| 0 <= i < c__0 ==> xmin.r() <= p2(#[trigger] points@[i]).0 <= xmax.r() && ymin.r() <= p2(points@[i]).1 <= ymax.r(),
@         c__0 > 0 ==> xmin.r() <= xmax.r() && ymin.r() <= ymax.r(),
{
@ proof { ax_float_range(points@[c__0 as int].x); ax_float_range(points@[c__0 as int].y); }
 let(idx, p) = (c__0, &s__0[c__0]);
                xmax = xmax.max(p.x);
                xmin = xmin.min(p.x);
                ymax = ymax.max(p.y);
                ymin = ymin.min(p.y);
o__0.push(
                (PointId(idx as NumType), p)); c__0 += 1; }
o__0 };
@ let ghost uns = unsorted_points@;
@ proof { assert(uns.len() == points@.len()); assert(forall|i: int| 0 <= i < uns.len() ==> (#[trigger] uns[i]).0.0 == i && *uns[i].1 == points@[i]); }
        unsorted_points.rt_sort_by(|p1, p2|
@ -> (o: Ordering) ensures sortcmp(p1, p2, o)
 {
            let p1 = p1.1;
            let p2 = p2.1;
            if p1.y < p2.y {
                Ordering::Less
            } else if p1.y == p2.y {
                if p1.x < p2.x {
                    Ordering::Less
                } else {
                    Ordering::Greater
                }
            } else {
                Ordering::Greater
            }
        });
@ let ghost sor = unsorted_points@;
@ proof {
@     assert(forall|i: int| 0 <= i < sor.len() ==> 0 <= (#[trigger] sor[i]).0.0 < points@.len() && *sor[i].1 == points@[sor[i].0.0 as int]);
@     if distinct(points@) {
@         assert forall|i: int, j: int| 0 <= i < j < sor.len() implies ylt(p2(*(#[trigger] sor[i]).1), p2(*(#[trigger] sor[j]).1)) by {
@             assert(sor[i].0.0 != sor[j].0.0);
@         }
@     }
@ }
        let sorted_ids = { let s__1 = unsorted_points; let mut o__1 = Vec::new(); let mut c__1: usize = 0
; while c__1 < s__1.len()
@     invariant inv_fst(o__1, s__1, c__1 as int),
{ let(idx, _) = s__1[c__1];
o__1.push( idx); c__1 += 1; }
o__1 };
        let (head, tail) = {
            let dx = (xmax - xmin) * Float::lit(Ghost((5404319552844595.0real / 18014398509481984.0real)));
            let dy = (ymax - ymin) * Float::lit(Ghost((5404319552844595.0real / 18014398509481984.0real)));
            let left = (xmin - dx).min(xmin.next_down());
            let right = (xmax + dx).max(xmax.next_up());
            let bottom = (ymin - dy).min(ymin.next_down());
            let head = Point::new(left, bottom);
            let head_id = PointId(points.len() as NumType);
            points.push(head);
            edges.push(PointEdges::None);
            let tail = Point::new(right, bottom);
            let tail_id = PointId(points.len() as NumType);
            points.push(tail);
            edges.push(PointEdges::None);
            (head_id, tail_id)
        };
@ proof {
@     let n = pts0.len() as int;
@     assert(points@.take(n) =~= pts0);
@     assert(sorted_ids@.len() == n);
@     assert forall|i: int, j: int| 0 <= i < j < n && distinct(pts0) implies ylt(pp(points@, #[trigger] sorted_ids@[i]), pp(points@, #[trigger] sorted_ids@[j])) by {
@         assert(sorted_ids@[i] == sor[i].0 && sorted_ids@[j] == sor[j].0);
@     }
@ }
        Self {
            points,
            edges,
            y_sorted: sorted_ids,
            head,
            tail,
        }
    }

    pub fn len(&self) -> (ret: usize)
@ ensures ret == self.points@.len()
{
        self.points.len()
    }

    pub fn get_point(&self, point_id: PointId) -> (ret: Option<Point>)
@ ensures ret == (if point_id.0 < self.points@.len() { Some(self.points@[point_id.0 as int]) } else { None })
{
        self.points.get(point_id.as_usize()).cloned()
    }

    pub unsafe fn get_point_uncheck(&self, point_id: PointId) -> (ret: Point)
@ requires point_id.0 < self.points@.len() // [C04]
@ ensures ret == self.points@[point_id.0 as int]
{
        unsafe { *self.points.get_unchecked(point_id.as_usize()) }
    }

    pub fn iter_point_by_y<'a>(
        &'a self,
        order: usize,
    ) -> (ret: RtIter< (PointId, Point, PointEdges)>)
@ requires points_ok(*self)
@ ensures ret.pos == 0,
@     ret.v@.len() == (if order <= self.y_sorted@.len() { self.y_sorted@.len() - order } else { 0 }), // [C03]
@     forall|i: int| 0 <= i < ret.v@.len() ==> (#[trigger] ret.v@[i]).0 == self.y_sorted@[i + order] // [C03]
@         && ret.v@[i].1 == self.points@[self.y_sorted@[i + order].0 as int] // [C03]
@         && ret.v@[i].2 == self.edges@[self.y_sorted@[i + order].0 as int], // [C02]
{
        rt_from_vec(
        { let s__0 = &
        self.y_sorted; let mut o__0 = Vec::new(); let mut c__0: usize =order
; while c__0 < s__0.len()
@     invariant s__0@ == self.y_sorted@, inv_by_y(o__0, *self, order as int, c__0 as int),
{ let id = &s__0[c__0];
            let point = unsafe { self.points.get_unchecked(id.as_usize()).clone() };
            let edges = unsafe { self.edges.get_unchecked(id.as_usize()).clone() };
o__0.push(
            (*id, point, edges)); c__0 += 1; }
o__0 })
    }

    pub fn get_id_by_y(&self, order: usize) -> (ret: Option<PointId>)
@ ensures ret == (if order < self.y_sorted@.len() { Some(self.y_sorted@[order as int]) } else { None }) // [C03]
{
        self.y_sorted.get(order).cloned()
    }

    pub fn iter(&self) -> (ret: RtIter< (PointId, &Point, PointEdges)>)
@ requires self.points@.len() == self.edges@.len(), self.points@.len() <= u32::MAX,
@ ensures ret.pos == 0, all_pts(ret.v@, self.points@, self.edges@, self.points@.len() as int), // [C01]
{
        rt_from_vec(
        { let s__0 = &
        self.points; let z__0 = &self.edges; let mut o__0 = Vec::new(); let mut c__0: usize = 0
; while c__0 < s__0.len() && c__0 < z__0.len()
@     invariant s__0@ == self.points@, z__0@ == self.edges@, s__0@.len() == z__0@.len() <= u32::MAX, c__0 <= s__0@.len(), all_pts(o__0@, self.points@, self.edges@, c__0 as int),
@     decreases s__0@.len() - c__0
{ let(idx, (p, e)) = (c__0, (&s__0[c__0], &z__0[c__0]));
o__0.push( (PointId(idx as NumType), p, *e)); c__0 += 1; }
o__0 })
    }

    pub fn iter_without_fake(&self) -> (ret: RtIter< (PointId, &Point, PointEdges)>)
@ requires self.points@.len() == self.edges@.len(), 2 <= self.points@.len() <= u32::MAX,
@ ensures ret.pos == 0, all_pts(ret.v@, self.points@, self.edges@, self.points@.len() - 2), // [C01]
{
        rt_from_vec(
        { let s__0 = &
        rt_range(&
        self.points, 0,self.points.len() - 2); let z__0 = & rt_range(&self.edges, 0,self.edges.len() - 2); let mut o__0 = Vec::new(); let mut c__0: usize = 0
; while c__0 < s__0.len() && c__0 < z__0.len()
@     invariant s__0@ == self.points@.take(self.points@.len() - 2), z__0@ == self.edges@.take(self.edges@.len() - 2), s__0@.len() == z__0@.len() <= u32::MAX, c__0 <= s__0@.len(), all_pts(o__0@, self.points@, self.edges@, c__0 as int),
@     decreases s__0@.len() - c__0
{ let(idx, (p, e)) = (c__0, (&s__0[c__0], &z__0[c__0]));
o__0.push( (PointId(idx as NumType), p, *e)); c__0 += 1; }
o__0 })
    }

    pub fn points(&self) -> (ret: &[Point])
@ ensures ret@ == self.points@
{
        &self.points
    }

    pub fn points_without_fake(&self) -> (ret: &[Point])
@ requires self.points@.len() >= 2
@ ensures ret@ == self.points@.take(self.points@.len() - 2) // [C01]
{ rt_range(&self.points, 0,self.points.len() - 2)
    }
}
@ impl RtIntoIter for PointEdges {
@     type It = PointEdges;
@     open spec fn it_ok(self, it: PointEdges) -> bool { it == self }
@     fn rt_into(self) -> (r: PointEdges) { self }
@ }
