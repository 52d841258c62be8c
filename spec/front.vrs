
#[derive(Clone, Copy)]
pub struct NodeId {
    pub
    point_id: PointId,
    pub
    point: Point,
    pub
    index_hint: usize,
}

impl NodeId {

    pub fn point_id(&self) -> (ret: PointId)
@ ensures ret == self.point_id
{
        self.point_id
    }

    pub fn point(&self) -> (ret: Point)
@ ensures ret == self.point
{
        self.point
    }
}

#[derive(Clone, Copy)]
pub struct NodeRef<'a> {
    pub
    point_id: PointId,
    pub
    point: Point,
    pub
    triangle: Option<TriangleId>,
    pub
    index: usize,
    pub
    advancing_front: &'a AdvancingFront,
}

impl<'a> NodeRef<'a> {

    pub fn point(&self) -> (ret: Point)
@ ensures ret == self.point
{
        self.point
    }

    pub fn point_id(&self) -> (ret: PointId)
@ ensures ret == self.point_id
{
        self.point_id
    }

    pub fn next(&self) -> (ret: Option<NodeRef<'a>>)
@ requires nref_ok(*self)
@ ensures ret matches Some(r) ==> shows(*self.advancing_front, self.index + 1, r), // [C12]
@     ret is None ==> self.index + 1 == self.advancing_front.nodes@.len(), // [C12]
{
        self.advancing_front.next_node(self)
    }

    pub fn prev(&self) -> (ret: Option<NodeRef>)
@ requires nref_ok(*self)
@ ensures ret matches Some(r) ==> shows(*self.advancing_front, self.index - 1, r), // [C12]
@     ret is None ==> self.index == 0, // [C12]
{
        self.advancing_front.prev_node(self)
    }

    pub fn index(&self) -> (ret: usize)
@ ensures ret == self.index
{
        self.index
    }

    pub fn get_node_id(&self) -> (ret: NodeId)
@ ensures ret.point_id == self.point_id, ret.point == self.point, ret.index_hint == self.index
{
        NodeId {
            point_id: self.point_id,
            point: self.point,
            index_hint: self.index,
        }
    }
}

pub struct AdvancingFront {
    pub
    nodes: Vec<Entry>,
    pub
    access_cache: Option<(PointKey, usize)>,
}

pub
struct Entry {
    pub
    key: PointKey,
    pub
    node: NodeInner,
}

impl Entry {

    pub fn new(key: PointKey, node: NodeInner) -> (ret: Self)
@ ensures ret.key == key, ret.node == node
{
        Self { key, node }
    }

    pub fn point(&self) -> (ret: Point)
@ ensures ret == self.key.0
{
        self.key.point()
    }

    pub fn to_node<'a>(&self, index: usize, af: &'a AdvancingFront) -> (ret: NodeRef<'a>)
@ ensures ret.point_id == self.node.point_id, ret.point == self.key.0, ret.triangle == tri_opt(self.node.triangle), ret.index == index, *ret.advancing_front == *af
{
        NodeRef {
            point_id: self.node.point_id,
            point: self.point(),
            triangle: self.node.triangle.into_option(),
            index,
            advancing_front: af,
        }
    }
}

#[derive(Clone, Copy)]
pub
struct PointKey( pub Point,);

@ impl vstd::std_specs::cmp::PartialEqSpecImpl for PointKey { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PointKey) -> bool { p2(self.0) == p2(o.0) } }
@ impl vstd::std_specs::cmp::PartialOrdSpecImpl for PointKey { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &PointKey) -> Option<Ordering> { Some(kcmp(p2(self.0), p2(o.0))) } }
@ impl vstd::std_specs::cmp::OrdSpecImpl for PointKey { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &PointKey) -> Ordering { kcmp(p2(self.0), p2(o.0)) } }
impl PartialEq for PointKey {

    fn eq(&self, other: &Self) -> (ret: bool) {
        self.0.x.eq(&other.0.x) && self.0.y.eq(&other.0.y)
    }
}

impl Eq for PointKey {
}

impl PartialOrd for PointKey {

    fn partial_cmp(&self, other: &Self) -> (ret: Option<std::cmp::Ordering>) {
        match self.0.x.partial_cmp(&other.0.x) {
            None | Some(Ordering::Equal) => self.0.y.partial_cmp(&other.0.y),
            x_order => {
                return x_order;
            }
        }
    }
}

impl Ord for PointKey {

    fn cmp(&self, other: &Self) -> (ret: Ordering) {
        self.partial_cmp(other).unwrap_or(Ordering::Equal)
    }
}

@ impl vstd::std_specs::convert::FromSpecImpl<Point> for PointKey { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Point) -> PointKey { PointKey(v) } }
impl From<Point> for PointKey {

    fn from(value: Point) -> (ret: Self)
@ ensures ret.0 == value
{
        Self(value)
    }
}

impl PointKey {

    pub fn point(&self) -> (ret: Point)
@ ensures ret == self.0
{
        self.0
    }
}

pub
struct NodeInner {
    pub
    point_id: PointId,
    pub
    triangle: TriangleId,
}

impl AdvancingFront {

    pub fn new(triangle: &InnerTriangle, triangle_id: TriangleId, points: &Points) -> (ret: Self)
@ requires points.points@.len() > triangle.points@[0].0, points.points@.len() > triangle.points@[1].0, points.points@.len() > triangle.points@[2].0,
@     lt(pp(points.points@, triangle.points@[1]), pp(points.points@, triangle.points@[0])), lt(pp(points.points@, triangle.points@[0]), pp(points.points@, triangle.points@[2])),
@ ensures af_ok(ret),
@     ret.nodes@ =~= seq![ent(points.points@[triangle.points@[1].0 as int], triangle.points@[1], triangle_id), ent(points.points@[triangle.points@[0].0 as int], triangle.points@[0], triangle_id), ent(points.points@[triangle.points@[2].0 as int], triangle.points@[2], inv())], // [C11]
{
        let mut nodes = Vec:: <Entry> ::with_capacity(32);
        let first_point = points
            .get_point(triangle.points[1])
            .rt_unwrap();
        let middle_point = points
            .get_point(triangle.points[0])
            .rt_unwrap();
        let tail_node = points
            .get_point(triangle.points[2])
            .rt_unwrap();
        nodes.push(Entry::new(
            first_point.into(),
            NodeInner {
                point_id: triangle.points[1],
                triangle: triangle_id,
            },
        ));
        nodes.push(Entry::new(
            middle_point.into(),
            NodeInner {
                point_id: triangle.points[0],
                triangle: triangle_id,
            },
        ));
        nodes.push(Entry::new(
            tail_node.into(),
            NodeInner {
                point_id: triangle.points[2],
                triangle: TriangleId::INVALID,
            },
        ));
@ let ghost N0 = nodes@;
        nodes.rt_sort_by_key(|e|
@ -> (k: PointKey) ensures k == e.key
 { e.key });
@ proof { let F = nodes@;
@   assert(N0.len() == 3 && F.len() == 3);
@   assert(lt(fk(N0, 0), fk(N0, 1)) && lt(fk(N0, 1), fk(N0, 2)));
@   assert((F[0] == N0[0] || F[0] == N0[1] || F[0] == N0[2]) && (F[1] == N0[0] || F[1] == N0[1] || F[1] == N0[2]) && (F[2] == N0[0] || F[2] == N0[1] || F[2] == N0[2]));
@   assert(le(fk(F, 0), fk(F, 1)) && le(fk(F, 1), fk(F, 2)) && le(fk(F, 0), fk(F, 2)));
@ }
        Self {
            nodes,
            access_cache: None,
        }
    }

    pub fn iter<'a>(&'a self) -> (ret: RtIter< NodeRef>)
@ ensures ret.pos == 0, all_shown(ret.v@, *self, self.nodes@.len() as int), // [C12]
{
            rt_from_vec(
            { let s__0 = &
            self.nodes; let mut o__0 = Vec::new(); let mut c__0: usize = 0
; while c__0 < s__0.len()
@     invariant s__0@ == self.nodes@, c__0 <= s__0@.len(), all_shown(o__0@, *self, c__0 as int),
@     decreases s__0@.len() - c__0
{ let(idx, entry) = (c__0, &s__0[c__0]);
o__0.push( entry.to_node(idx, self)); c__0 += 1; }
o__0 })
    }

    pub fn insert(&mut self, point_id: PointId, point: Point, triangle_id: TriangleId)
@ requires af_ok(*old(self)), old(self).nodes@.len() < usize::MAX - 1
@ ensures af_ok(*final(self)), // [C12]
@     exists|k: int| #[trigger] ins(old(self).nodes@, final(self).nodes@, k, point, point_id, triangle_id), // [C11]
{
        let new_node = NodeInner {
            point_id,
            triangle: triangle_id,
        };
        let node_index = match self.search_by_key(&PointKey(point)) {
            Ok(idx) => {
                self.nodes[idx].node = new_node;
                idx
            }
            Err(idx) => {
                self.nodes.insert(idx, Entry::new(point.into(), new_node));
                idx
            }
        };
        self.access_cache = Some((PointKey(point), node_index));
@ proof { assert(ins(old(self).nodes@, self.nodes@, node_index as int, point, point_id, triangle_id)); }
    }

    pub unsafe fn update_and_delete_by_index(
        &mut self,
        update_index: usize,
        point_id: PointId,
        triangle_id: TriangleId,
        delete_index: usize,
    )
@ requires fsorted(old(self).nodes@), old(self).nodes@.len() < usize::MAX, delete_index < old(self).nodes@.len(), update_index < old(self).nodes@.len()
@ ensures af_ok(*final(self)), // [C12]
@     final(self).nodes@ =~= old(self).nodes@.update(update_index as int, set_tri(old(self).nodes@[update_index as int], triangle_id)).remove(delete_index as int), // [C11]
{
        let entry = self.nodes.get_mut(update_index).rt_unwrap();
        entry.node.triangle = triangle_id;
        self.nodes.remove(delete_index);
        self.access_cache = None;
    }

    pub fn nth(&self, n: usize) -> (ret: Option<NodeRef>)
@ requires af_ok(*self)
@ ensures ret is Some <==> n < self.nodes@.len(), ret matches Some(r) ==> shows(*self, n as int, r), // [C12]
{
        (match
        self.nodes.get(n) { Some(entry) => Some( entry.to_node(n, self)), None => None, })
    }

    pub fn locate_node(&self, point: Point) -> (ret: Option<NodeRef>)
@ requires af_ok(*self), in_range(self.nodes@, p2(point))
@ ensures ret is Some, ret matches Some(r) ==> shows(*self, r.index as int, r) && is_next(self.nodes@, p2(point), r.index + 1), // [C12]
{
        let key = PointKey(point);
        let idx = match self.search_by_key(&key) {
            Err(idx) => idx - 1,
            Ok(idx) => idx,
        };
        let entry = unsafe { self.nodes.get_unchecked(idx) };
        Some(entry.to_node(idx, self))
    }

    pub fn get_node(&self, point: Point) -> (ret: Option<NodeRef>)
@ requires af_ok(*self), in_range(self.nodes@, p2(point))
@ ensures ret matches Some(r) ==> shows(*self, r.index as int, r) && fk(self.nodes@, r.index as int) == p2(point), // [C12]
@     ret is None ==> forall|k: int| #![trigger self.nodes@[k]] 0 <= k < self.nodes@.len() ==> fk(self.nodes@, k) != p2(point), // [C12]
{
        let index = self.search_by_key_with_cache(&PointKey(point)).ok()?;
        Some(unsafe { self.nodes.get_unchecked(index) }.to_node(index, self))
    }

    pub fn get_node_with_cache(&mut self, point: Point) -> (ret: Option<NodeRef>)
@ requires af_ok(*old(self)), in_range(old(self).nodes@, p2(point))
@ ensures af_ok(*final(self)), final(self).nodes@ == old(self).nodes@, // [C12]
@     ret matches Some(r) ==> shows(*final(self), r.index as int, r) && fk(final(self).nodes@, r.index as int) == p2(point), // [C12]
@     ret is None ==> forall|k: int| #![trigger old(self).nodes@[k]] 0 <= k < old(self).nodes@.len() ==> fk(old(self).nodes@, k) != p2(point), // [C12]
{
        let index = self.search_by_key_with_cache(&PointKey(point)).ok()?;
        self.access_cache = Some((PointKey(point), index));
        Some(unsafe { self.nodes.get_unchecked(index) }.to_node(index, self))
    }

    pub fn get_node_with_id(&self, node_id: NodeId) -> (ret: Option<NodeRef>)
@ requires af_ok(*self), nid_ok(self.nodes@, node_id)
@ ensures ret matches Some(r) ==> shows(*self, r.index as int, r) && fk(self.nodes@, r.index as int) == p2(node_id.point), // [C12]
@     ret is None ==> forall|k: int| #![trigger self.nodes@[k]] 0 <= k < self.nodes@.len() ==> fk(self.nodes@, k) != p2(node_id.point), // [C12]
{
        let index = self.resolve_index_for_id(node_id).ok()?;
        Some(unsafe { self.nodes.get_unchecked(index) }.to_node(index, self))
    }

    pub fn update_triangle(&mut self, point: Point, triangle_id: TriangleId)
@ requires af_ok(*old(self)), in_range(old(self).nodes@, p2(point))
@ ensures af_ok(*final(self)), // [C12]
@     exists|k: int| #[trigger] retri(old(self).nodes@, final(self).nodes@, k, point, triangle_id), // [C11]
{
        let idx = self.search_by_key_with_cache(&PointKey(point)).rt_unwrap();
        self.nodes[idx].node.triangle = triangle_id;
@ proof { assert(retri(old(self).nodes@, self.nodes@, idx as int, point, triangle_id)); }
    }

    pub fn locate_next_node(&self, node_id: NodeId) -> (ret: Option<NodeRef>)
@ requires af_ok(*self), nid_ok(self.nodes@, node_id)
@ ensures ret matches Some(r) ==> shows(*self, r.index as int, r) && is_next(self.nodes@, p2(node_id.point), r.index as int), // [C12]
@     ret is None ==> is_next(self.nodes@, p2(node_id.point), self.nodes@.len() as int), // [C12]
{
        let idx = match self.resolve_index_for_id(node_id) {
            Ok(idx) => idx + 1,
            Err(idx) => idx,
        };
        if idx < self.nodes.len() {
            Some(unsafe { self.nodes.get_unchecked(idx) }.to_node(idx, self))
        } else {
            None
        }
    }

    pub fn next_node(&self, node: &NodeRef) -> (ret: Option<NodeRef>)
@ requires af_ok(*self), node.index < self.nodes@.len()
@ ensures ret matches Some(r) ==> shows(*self, node.index + 1, r), // [C12]
@     ret is None ==> node.index + 1 == self.nodes@.len(), // [C12]
{
        let idx = node.index + 1;
        if idx < self.nodes.len() {
            Some(self.nodes[idx].to_node(idx, self))
        } else {
            None
        }
    }

    pub fn locate_prev_node(&self, node_id: NodeId) -> (ret: Option<NodeRef>)
@ requires af_ok(*self), nid_ok(self.nodes@, node_id)
@ ensures ret matches Some(r) ==> shows(*self, r.index as int, r) && is_prev(self.nodes@, p2(node_id.point), r.index as int), // [C12]
@     ret is None ==> is_prev(self.nodes@, p2(node_id.point), -1), // [C12]
{
        let idx = match self.resolve_index_for_id(node_id) {
            Ok(idx) if idx > 0 => idx - 1, Err(idx) if idx > 0 => idx - 1,
            _ => return None,
        };
        Some(unsafe { self.nodes.get_unchecked(idx) }.to_node(idx, self))
    }

    pub fn prev_node(&self, node: &NodeRef) -> (ret: Option<NodeRef>)
@ requires af_ok(*self), node.index < self.nodes@.len()
@ ensures ret matches Some(r) ==> shows(*self, node.index - 1, r), // [C12]
@     ret is None ==> node.index == 0, // [C12]
{
        if node.index == 0 {
            return None;
        }
        let index = node.index - 1;
        Some(unsafe { self.nodes.get_unchecked(index) }.to_node(index, self))
    }

    pub fn search_by_key(&self, key: &PointKey) -> (ret: Result<usize, usize>)
@ requires fsorted(self.nodes@)
@ ensures found(self.nodes@, p2(key.0), ret), // [C12]
{
        self.nodes.rt_binary_search_by_key(key, |e|
@ -> (k: PointKey) ensures k == e.key
 { e.key })
    }

    pub fn search_by_key_with_cache(&self, key: &PointKey) -> (ret: Result<usize, usize>)
@ requires af_ok(*self), in_range(self.nodes@, p2(key.0))
@ ensures found(self.nodes@, p2(key.0), ret), // [C12]
{
        match self.access_cache {
            Some((p, i)) => {
                let order = p.cmp(key);
                match order {
                    Ordering::Equal => {
                        Ok(i)
                    }
                    Ordering::Greater => {
                        match self.nodes[i - 1].key.cmp(key) {
                            Ordering::Equal => {
                                Ok(i - 1)
                            }
                            Ordering::Less => {
                                Err(i)
                            }
                            _ => {
                                rt_range(&
                                self.nodes, 0,i).rt_binary_search_by_key(key, |e|
@ -> (k: PointKey) ensures k == e.key
 { e.key })
                            }
                        }
                    }
                    Ordering::Less if i < self.nodes.len() => {
                        match self.nodes[i + 1].key.cmp(key) {
                            Ordering::Greater => {
                                Err(i + 1)
                            }
                            _ => {
                                rt_range_from(&
                                self.nodes,i)
                                    .rt_binary_search_by_key(key, |e|
@ -> (k: PointKey) ensures k == e.key
 { e.key })
                                    .map(|idx|
@ -> (q: usize) requires idx + i <= usize::MAX ensures q == idx + i
 { idx + i })
                                    .map_err(|idx|
@ -> (q: usize) requires idx + i <= usize::MAX ensures q == idx + i
 { idx + i })
                            }
                        }
                    }
                    _ => {
                        rt_range_from(&
                        self.nodes,i)
                            .rt_binary_search_by_key(key, |e|
@ -> (k: PointKey) ensures k == e.key
 { e.key })
                            .map(|idx|
@ -> (q: usize) requires idx + i <= usize::MAX ensures q == idx + i
 { idx + i })
                            .map_err(|idx|
@ -> (q: usize) requires idx + i <= usize::MAX ensures q == idx + i
 { idx + i })
                    }
                }
            }
            _ => {
                self.search_by_key(key)
            }
        }
    }

    pub fn resolve_index_for_id(&self, node_id: NodeId) -> (ret: Result<usize, usize>)
@ requires af_ok(*self), nid_ok(self.nodes@, node_id)
@ ensures found(self.nodes@, p2(node_id.point), ret), // [C12]
{
        match self.nodes.get(node_id.index_hint) {
            Some(entry) if entry.node.point_id == node_id.point_id => {
                Ok(node_id.index_hint)
            }
            _ => {
                let idx = self.search_by_key(&PointKey(node_id.point))?;
                Ok(idx)
            }
        }
    }
}
