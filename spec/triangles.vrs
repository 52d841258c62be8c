
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TriangleId( pub usize,);

impl TriangleId {

    pub const INVALID: TriangleId = TriangleId(usize::MAX);

    pub fn invalid(&self) -> (ret: bool)
@ ensures ret == (*self == inv())
{
        self.0 == Self::INVALID.0
    }

    pub fn get<'a, 'b>(&'a self, triangles: &'b TriangleStore) -> (ret: &'b InnerTriangle)
@ requires valid(triangles.triangles@, *self) // [C04]
@ ensures *ret == triangles.triangles@[self.0 as int]
{
        triangles.get_unchecked(*self)
    }

    pub fn try_get<'a, 'b>(&'a self, triangles: &'b TriangleStore) -> (ret: Option< &'b InnerTriangle>)
@ requires valid(triangles.triangles@, *self) || *self == inv() // [C04]
@ ensures *self == inv() ==> ret is None, *self != inv() ==> ret == Some(&triangles.triangles@[self.0 as int])
{
        triangles.get(*self)
    }

    pub fn as_usize(&self) -> (ret: usize)
@ ensures ret == self.0
{
        self.0
    }

    pub fn from_index(index: usize) -> (ret: Self)
@ ensures ret.0 == index
{
        Self(index)
    }

    pub fn into_option(self) -> (ret: Option<Self>)
@ ensures ret == (if self == inv() { None } else { Some(self) })
{
        if self.invalid() {
            None
        } else {
            Some(self)
        }
    }
}

pub struct TriangleStore {
    pub
    triangles: Vec<InnerTriangle>,
}

impl TriangleStore {

    pub fn new() -> (ret: Self)
@ ensures ret.triangles@.len() == 0
{
        Self { triangles: Vec::new() }
    }

    pub fn with_capacity(capacity: usize) -> (ret: Self)
@ ensures ret.triangles@.len() == 0
{
        Self {
            triangles: Vec::with_capacity(capacity),
        }
    }

    pub fn len(&self) -> (ret: usize)
@ ensures ret == self.triangles@.len()
{
        self.triangles.len()
    }

    pub fn insert(&mut self, triangle: InnerTriangle) -> (ret: TriangleId)
@ ensures final(self).triangles@ == old(self).triangles@.push(triangle), ret.0 == old(self).triangles@.len()
{
        let id = TriangleId::from_index(self.triangles.len());
        self.triangles.push(triangle);
        id
    }

    pub fn get(&self, id: TriangleId) -> (ret: Option< &InnerTriangle>)
@ requires valid(self.triangles@, id) || id == inv() // [C04]
@ ensures id == inv() ==> ret is None, id != inv() ==> ret == Some(&self.triangles@[id.0 as int])
{
        if id == TriangleId::INVALID {
            return None;
        }
        unsafe { Some(self.triangles.get_unchecked(id.as_usize())) }
    }

    pub fn get_unchecked(&self, id: TriangleId) -> (ret: &InnerTriangle)
@ requires valid(self.triangles@, id) // [C04]
@ ensures *ret == self.triangles@[id.0 as int]
{
        unsafe { self.triangles.get_unchecked(id.as_usize()) }
    }

    pub fn iter(&self) -> (ret: RtIter< (TriangleId, &InnerTriangle)>)
@ ensures ret.pos == 0, all_tris(ret.v@, self.triangles@, self.triangles@.len() as int), // [C05] [C01]
{
        rt_from_vec(
        { let s__0 = &
        self.triangles; let mut o__0 = Vec::new(); let mut c__0: usize = 0
; while c__0 < s__0.len()
@     invariant s__0@ == self.triangles@, c__0 <= s__0@.len(), all_tris(o__0@, self.triangles@, c__0 as int),
@     decreases s__0@.len() - c__0
{ let(idx, t) = (c__0, &s__0[c__0]);
o__0.push( (TriangleId::from_index(idx), t)); c__0 += 1; }
o__0 })
    }

    pub fn get_mut(&mut self, id: TriangleId) -> (ret: Option< &mut InnerTriangle>)
@ ensures
@     ret is Some <==> valid(old(self).triangles@, id),
@     ret matches Some(t) ==> *t == old(self).triangles@[id.0 as int] && final(self).triangles@ == old(self).triangles@.update(id.0 as int, *final(t)),
@     ret is None ==> final(self).triangles@ == old(self).triangles@,
{
        self.triangles.get_mut(id.as_usize())
    }

    pub unsafe fn get_mut_two(
        &mut self,
        id_0: TriangleId,
        id_1: TriangleId,
    ) -> (ret: (&mut InnerTriangle, &mut InnerTriangle))
@ ensures id_0 != id_1, valid(old(self).triangles@, id_0), valid(old(self).triangles@, id_1),
@     *ret.0 == old(self).triangles@[id_0.0 as int], *ret.1 == old(self).triangles@[id_1.0 as int],
@     final(self).triangles@ == old(self).triangles@.update(id_0.0 as int, *final(ret.0)).update(id_1.0 as int, *final(ret.1)),
{
        rt_assert(
            id_0 != id_1
                && id_0.as_usize() < self.triangles.len()
                && id_1.as_usize() < self.triangles.len());
@ let ghost T0 = self.triangles@;
        let mut slice = rt_slots(&mut self.triangles);
@ let ghost F = slice.fin();
        let ref_0 = unsafe { slice.take(id_0.as_usize()) };
        let ref_1 = unsafe { slice.take(id_1.as_usize()) };
        slice.finish();
@ proof { assert(F =~= T0.update(id_0.0 as int, *final(ref_0)).update(id_1.0 as int, *final(ref_1))); }
        (ref_0, ref_1)
    }

    pub unsafe fn get_mut_six(
        &mut self,
        id_0: TriangleId,
        id_1: TriangleId,
        id_2: TriangleId,
        id_3: TriangleId,
        id_4: TriangleId,
        id_5: TriangleId,
    ) -> (ret: (
        &mut InnerTriangle,
        &mut InnerTriangle,
        Option< &mut InnerTriangle>,
        Option< &mut InnerTriangle>,
        Option< &mut InnerTriangle>,
        Option< &mut InnerTriangle>,
    ))
@ requires
@     six_ok(old(self).triangles@, id_0, id_1, id_2, id_3, id_4, id_5), // [C04]
@ ensures id_0 != id_1, valid(old(self).triangles@, id_0), valid(old(self).triangles@, id_1),
@     *ret.0 == old(self).triangles@[id_0.0 as int], *ret.1 == old(self).triangles@[id_1.0 as int],
@     (id_2 == inv() ==> ret.2 is None), (ret.2 matches Some(t) ==> *t == old(self).triangles@[id_2.0 as int]), (id_2 != inv() ==> ret.2 is Some),
@     (id_3 == inv() ==> ret.3 is None), (ret.3 matches Some(t) ==> *t == old(self).triangles@[id_3.0 as int]), (id_3 != inv() ==> ret.3 is Some),
@     (id_4 == inv() ==> ret.4 is None), (ret.4 matches Some(t) ==> *t == old(self).triangles@[id_4.0 as int]), (id_4 != inv() ==> ret.4 is Some),
@     (id_5 == inv() ==> ret.5 is None), (ret.5 matches Some(t) ==> *t == old(self).triangles@[id_5.0 as int]), (id_5 != inv() ==> ret.5 is Some),
@     final(self).triangles@ == upo(upo(upo(upo(old(self).triangles@.update(id_0.0 as int, *final(ret.0)).update(id_1.0 as int, *final(ret.1)),
@         id_2, if ret.2 is Some { Some(*final(ret.2->0)) } else { None }), id_3, if ret.3 is Some { Some(*final(ret.3->0)) } else { None }),
@         id_4, if ret.4 is Some { Some(*final(ret.4->0)) } else { None }), id_5, if ret.5 is Some { Some(*final(ret.5->0)) } else { None }),
{
        rt_assert(
            id_0 != id_1
                && id_0.as_usize() < self.triangles.len()
                && id_1.as_usize() < self.triangles.len());
@ let ghost T0 = self.triangles@;
        let mut slice = rt_slots(&mut self.triangles);
@ let ghost F = slice.fin();
        let ref_0 = unsafe { slice.take(id_0.as_usize()) };
        let ref_1 = unsafe { slice.take(id_1.as_usize()) };
        let ref_2 = if !id_2.invalid() {
            Some(unsafe { slice.take(id_2.as_usize()) })
        } else {
            None
        };
        let ref_3 = if !id_3.invalid() {
            Some(unsafe { slice.take(id_3.as_usize()) })
        } else {
            None
        };
        let ref_4 = if !id_4.invalid() {
            Some(unsafe { slice.take(id_4.as_usize()) })
        } else {
            None
        };
        let ref_5 = if !id_5.invalid() {
            Some(unsafe { slice.take(id_5.as_usize()) })
        } else {
            None
        };
        slice.finish();
@ proof { assert(F =~= upo(upo(upo(upo(T0.update(id_0.0 as int, *final(ref_0)).update(id_1.0 as int, *final(ref_1)),
@         id_2, if ref_2 is Some { Some(*final(ref_2->0)) } else { None }), id_3, if ref_3 is Some { Some(*final(ref_3->0)) } else { None }),
@         id_4, if ref_4 is Some { Some(*final(ref_4->0)) } else { None }), id_5, if ref_5 is Some { Some(*final(ref_5->0)) } else { None })); }
        (ref_0, ref_1, ref_2, ref_3, ref_4, ref_5)
    }

    pub fn get_mut_unchecked(&mut self, id: TriangleId) -> (ret: &mut InnerTriangle)
@ requires valid(old(self).triangles@, id) // [C04]
@ ensures *ret == old(self).triangles@[id.0 as int], final(self).triangles@ == old(self).triangles@.update(id.0 as int, *final(ret))
{
        unsafe { self.triangles.get_unchecked_mut(id.as_usize()) }
    }

    pub fn mark_neighbor(&mut self, left: TriangleId, right: TriangleId)
@ ensures left != right, valid(old(self).triangles@, left), valid(old(self).triangles@, right),
@     exists|l1: InnerTriangle, r1: InnerTriangle| #[trigger] linked2(left, right, old(self).triangles@[left.0 as int], old(self).triangles@[right.0 as int], l1, r1)
@         && final(self).triangles@ == old(self).triangles@.update(left.0 as int, l1).update(right.0 as int, r1), // [C05]
{
        let (left_triangle, right_triangle) = unsafe { self.get_mut_two(left, right) };
        Self::mark_neighbor_for_two_mut(left, right, left_triangle, right_triangle)
    }

    pub fn mark_neighbor_for_two_mut(
        left: TriangleId,
        right: TriangleId,
        left_triangle: &mut InnerTriangle,
        right_triangle: &mut InnerTriangle,
    )
@ ensures linked2(left, right, *old(left_triangle), *old(right_triangle), *final(left_triangle), *final(right_triangle)) // [C05]
{
        let Some((l_ei, r_ei)) = left_triangle.common_edge_index(&right_triangle) else {
            return;
        };
        let is_constrained_edge =
            left_triangle.is_constrained(l_ei) || right_triangle.is_constrained(r_ei);
        left_triangle.neighbors[l_ei] = right;
        left_triangle.set_constrained(l_ei, is_constrained_edge);
        left_triangle.set_delaunay(l_ei, false);
        right_triangle.neighbors[r_ei] = left;
        right_triangle.set_constrained(r_ei, is_constrained_edge);
        right_triangle.set_delaunay(r_ei, false);
@ proof { assert(link2(left, right, *old(left_triangle), *old(right_triangle), *left_triangle, *right_triangle, l_ei as int, r_ei as int)) by {
@   assert(left_triangle.neighbors@ =~= old(left_triangle).neighbors@.update(l_ei as int, right)); assert(right_triangle.neighbors@ =~= old(right_triangle).neighbors@.update(r_ei as int, left)); } }
    }
}
