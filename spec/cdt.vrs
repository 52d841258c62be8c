
pub trait PointDataSource {

    type Data;

@     spec fn src_points(&self) -> Seq<Point>;
@     spec fn src_data(&self) -> Seq<Self::Data>;
    fn points_and_data(self) -> (ret: (Vec<Point>, Vec<Self::Data>))
@ ensures ret.0@ == self.src_points(), ret.1@ == self.src_data() // [C01]
;
}

impl PointDataSource for Vec<Point> {

    type Data = ();
@     open spec fn src_points(&self) -> Seq<Point> { self@ }
@     open spec fn src_data(&self) -> Seq<()> { Seq::new(self@.len(), |i: int| ()) }

    fn points_and_data(self) -> (ret: (Vec<Point>, Vec<Self::Data>)) {
        let data = vec![(); self.len()];
@ proof { assert(data@ =~= self.src_data()); }
        (self, data)
    }
}

impl<D> PointDataSource for (Vec<Point>, Vec<D>) {

    type Data = D;
@     open spec fn src_points(&self) -> Seq<Point> { self.0@ }
@     open spec fn src_data(&self) -> Seq<D> { self.1@ }

    fn points_and_data(self) -> (ret: (Vec<Point>, Vec<Self::Data>)) {
        (self.0, self.1)
    }
}

pub trait AsPoint {

    type Data;
@     spec fn at(&self) -> Point;
@     spec fn with(&self) -> Self::Data;

    fn point(&self) -> (ret: Point)
@ ensures ret == self.at() // [C01]
;

    fn data(self) -> (ret: Self::Data)
@ ensures ret == self.with() // [C01]
;
}

impl AsPoint for Point {

    type Data = ();
@     open spec fn at(&self) -> Point { *self }
@     open spec fn with(&self) -> () { () }

    fn point(&self) -> (ret: Point) {
        *self
    }

    fn data(self) -> (ret: Self::Data) {
        ()
    }
}

impl<T> AsPoint for (Point, T) {

    type Data = T;
@     open spec fn at(&self) -> Point { self.0 }
@     open spec fn with(&self) -> T { self.1 }

    fn point(&self) -> (ret: Point) {
        self.0
    }

    fn data(self) -> (ret: Self::Data) {
        self.1
    }
}

impl<T> AsPoint for ([Float; 2], T) {

    type Data = T;
@     open spec fn at(&self) -> Point { Point { x: self.0[0], y: self.0[1] } }
@     open spec fn with(&self) -> T { self.1 }

    fn point(&self) -> (ret: Point) {
        Point::new(self.0[0], self.0[1])
    }

    fn data(self) -> (ret: Self::Data) {
        self.1
    }
}

#[derive(Clone, Copy)]
pub struct Triangle {
    pub
    points: [Point; 3],
}

pub trait Observer {

@ #[verifier::external_body]
    fn enter_point_event(&mut self, point_id: PointId, context: &Sweeper)
@ requires obs_mesh(context), // [C05] [C06]
@     obs_tiled(context), // [C16]
@     obs_front(context), // [C11]
@ ensures olog(final(self)) == olog(old(self)).push(Ev::Enter(point_id)) // [C02] [C03]
{}

@ #[verifier::external_body]
    fn exit_point_event(&mut self, point_id: PointId, context: &Sweeper)
@ requires obs_mesh(context), // [C05] [C06]
@     obs_tiled(context), // [C16]
@     obs_front(context), // [C11]
@     legal(sP(context), sT(context)), // [C08]
@     vert(sT(context), point_id), // [C18]
@     only_in(*context.points, sT(context)), // [C17]
@ ensures olog(final(self)) == olog(old(self)).push(Ev::Exit(point_id)) // [C02] [C03]
{}

@ #[verifier::external_body]
    fn edge_event(&mut self, edge: Edge, context: &Sweeper)
@ requires obs_mesh(context), // [C05] [C06]
@     obs_tiled(context), // [C16]
@     obs_front(context), // [C11]
@     legal(sP(context), sT(context)), // [C08]
@     covered(sP(context), sT(context), edge.p, edge.q), // [C07]
@     only_in(*context.points, sT(context)), // [C17]
@ ensures olog(final(self)) == olog(old(self)).push(Ev::Edge(edge.p, edge.q)) // [C02] [C03]
{}

@ #[verifier::external_body]
    fn sweep_done(&mut self, context: &Sweeper)
@ requires obs_mesh(context), // [C05] [C06]
@     obs_tiled(context), // [C16]
@     obs_front(context), // [C11]
@     legal(sP(context), sT(context)), // [C08]
@     all_cov(*context.points, sT(context), sP(context).len() - 2), // [C07]
@     all_used(*context.points, sT(context)), // [C18]
@     only_in(*context.points, sT(context)), // [C17]
@ ensures olog(final(self)) == olog(old(self)).push(Ev::Done) // [C02] [C03]
{}

@ #[verifier::external_body]
    fn finalized(&mut self, context: &Sweeper)
@ requires obs_mesh(context), // [C05] [C06]
@     obs_tiled(context), // [C16]
@     obs_front(context), // [C11]
@     legal(sP(context), sT(context)), // [C08]
@     all_cov(*context.points, sT(context), sP(context).len() - 2), // [C07]
@     all_used(*context.points, sT(context)), // [C18]
@     only_in(*context.points, sT(context)), // [C17]
@     inside_ok(*context.points, sT(context), context.result@), // [C09]
@ ensures olog(final(self)) == olog(old(self)).push(Ev::Finalized) // [C02] [C03]
{}

@ #[verifier::external_body]
    fn will_legalize(&mut self, triangle_id: TriangleId, context: &Sweeper)
@ requires obs_mesh(context), // [C05] [C06]
@     obs_tiled(context), // [C16]
@ ensures olog(final(self)) == olog(old(self))
{}

@ #[verifier::external_body]
    fn legalize_step(&mut self, triangle_id: TriangleId, context: &Sweeper)
@ requires obs_mesh(context), // [C05] [C06]
@     obs_tiled(context), // [C16]
@ ensures olog(final(self)) == olog(old(self))
{}

@ #[verifier::external_body]
    fn triangle_rotated(
        &mut self,
        triangle_id: TriangleId,
        opposite_triangle_id: TriangleId,
        context: &Sweeper,
    )
@ requires obs_mesh(context), // [C05] [C06]
@     obs_tiled(context), // [C16]
@ ensures olog(final(self)) == olog(old(self))
{
    }

@ #[verifier::external_body]
    fn legalized(&mut self, triangel_id: TriangleId, context: &Sweeper)
@ requires obs_mesh(context), // [C05] [C06]
@     obs_tiled(context), // [C16]
@     obs_front(context), // [C11]
@ ensures olog(final(self)) == olog(old(self))
{}
}

impl Observer for () {
}

#[derive(Clone)]
pub struct Builder<PD = ()> {
    pub
    points_builder: PointsBuilder,
    pub
    data: Vec<PD>,
}

impl<PD> Builder<PD> {

    pub fn new(polyline_source: impl PointDataSource<Data = PD>) -> (ret: Self)
@ requires polyline_source.src_points().len() <= max_points()
@ ensures bld_ok(ret),
@     ret.points_builder.points@ =~= polyline_source.src_points() && ret.data@ == polyline_source.src_data(), // [C01]
@     added(seq![], seq![], ret.points_builder.points@, ret.points_builder.edges@, polyline_source.src_points()), // [C02]
{
        let (polyline, data) = polyline_source.points_and_data();
        let mut points_builder = PointsBuilder::with_capacity(rt_cap());
        parse_polyline(&polyline, &mut points_builder);
        Self {
            points_builder,
            data,
        }
    }

    pub fn add_steiner_point(self, point: Point, data: PD) -> (ret: Self)
@ requires bld_ok(self), self.points_builder.points@.len() < max_points()
@ ensures bld_ok(ret),
@     ret.points_builder.points@ =~= self.points_builder.points@.push(point) && ret.data@ =~= self.data@.push(data), // [C01]
@     forall|q: int| 0 <= q < ret.points_builder.edges@.len() ==> ev(#[trigger] ret.points_builder.edges@[q]) =~= ev0(self.points_builder.edges@, q), // [C02]
{ let mut this__ = self;
        this__.points_builder.add_steiner_point(point);
        this__.data.push(data);
        this__
    }

    pub fn add_steiner_points(self, point_source: impl PointDataSource<Data = PD>) -> (ret: Self)
@ requires bld_ok(self), self.points_builder.points@.len() + point_source.src_points().len() <= max_points()
@ ensures bld_ok(ret),
@     ret.points_builder.points@ =~= self.points_builder.points@ + point_source.src_points() && ret.data@ =~= self.data@ + point_source.src_data(), // [C01]
@     forall|q: int| 0 <= q < ret.points_builder.edges@.len() ==> ev(#[trigger] ret.points_builder.edges@[q]) =~= ev0(self.points_builder.edges@, q), // [C02]
{ let mut this__ = self;
        let (points, data) = point_source.points_and_data();
        this__.points_builder.add_steiner_points(points);
        this__.data.rt_extend(data);
        this__
    }

    pub fn add_hole(self, polyline: impl PointDataSource<Data = PD>) -> (ret: Self)
@ requires bld_ok(self), self.points_builder.points@.len() + polyline.src_points().len() <= max_points()
@ ensures bld_ok(ret),
@     ret.points_builder.points@ =~= self.points_builder.points@ + polyline.src_points() && ret.data@ =~= self.data@ + polyline.src_data(), // [C01]
@     added(self.points_builder.points@, self.points_builder.edges@, ret.points_builder.points@, ret.points_builder.edges@, polyline.src_points()), // [C02]
{ let mut this__ = self;
        let (polyline, data) = polyline.points_and_data();
        parse_polyline(&polyline, &mut this__.points_builder);
        this__.data.rt_extend(data);
        this__
    }

    pub fn add_holes(
        self,
        holes: Vec< impl PointDataSource<Data = PD>>
    ) -> (ret: Self)
@ requires bld_ok(self), self.points_builder.points@.len() + flat(srcs(holes@)).len() <= max_points()
@ ensures bld_ok(ret),
@     ret.points_builder.points@ =~= self.points_builder.points@ + flat(srcs(holes@)), // [C01]
@     ret.data@ =~= self.data@ + flat(datas(holes@)), // [C01]
@     added_all(self.points_builder.points@, self.points_builder.edges@, ret.points_builder.points@, ret.points_builder.edges@, srcs(holes@)), // [C02]
{ let mut this__ = self;
        let mut i__0 = rt_iter( holes);
@ proof { assert(srcs(holes@).take(0) =~= seq![]); assert(datas(holes@).take(0) =~= seq![]); }
        while let Some( polyline) = i__0.next()
@     invariant i__0.ok(), i__0.v@ == holes@, bld_ok(this__),
@         self.points_builder.points@.len() + flat(srcs(holes@)).len() <= max_points(),
@         this__.points_builder.points@ =~= self.points_builder.points@ + flat(srcs(holes@).take(i__0.pos as int)),
@         this__.data@ =~= self.data@ + flat(datas(holes@).take(i__0.pos as int)),
@         added_all(self.points_builder.points@, self.points_builder.edges@, this__.points_builder.points@, this__.points_builder.edges@, srcs(holes@).take(i__0.pos as int)),
 {
@ proof { flat_step(srcs(holes@), i__0.pos - 1); flat_step(datas(holes@), i__0.pos - 1); }
            this__ = this__.add_hole(polyline);
        }
@ proof { assert(srcs(holes@).take(holes@.len() as int) =~= srcs(holes@)); assert(datas(holes@).take(holes@.len() as int) =~= datas(holes@)); }

        this__
    }

    pub fn build(self) -> (ret: CDT<PD>)
@ requires bld_ok(self)
@ ensures
@     ret.points.points@.len() == self.points_builder.points@.len() + 2 && ret.points.points@.take(self.points_builder.points@.len() as int) =~= self.points_builder.points@ && ret.data@ == self.data@, // [C01]
@     ret.points.edges@.take(self.points_builder.edges@.len() as int) =~= self.points_builder.edges@, // [C02]
@     points_ok(ret.points), // [C03]
@     helpers(ret.points), // [C03]
{
        let points = self.points_builder.build();
        CDT {
            points,
            data: self.data,
        }
    }
}

#[derive(Clone)]
pub struct CDT<PD> {
    pub
    points: Points,
    pub
    data: Vec<PD>,
}

pub struct Triangles<PD> {
    pub
    points: Points,
    pub
    data: Vec<PD>,
    pub
    triangles: TriangleStore,
    pub
    result: Vec<TriangleId>,
    pub
    next: usize,
}

impl<PD> Triangles<PD> {

    pub fn points(&self) -> (ret: &[Point])
@ requires self.points.points@.len() >= 2
@ ensures ret@ == self.points.points@.take(self.points.points@.len() - 2) // [C01]
{
        self.points.points_without_fake()
    }

    pub fn data(&self) -> (ret: &[PD])
@ ensures ret@ == self.data@ // [C01]
{
        &self.data
    }

    pub fn triangle_list_indices(&self) -> (ret: Vec<u32>)
@ requires tris_ok(*self)
@ ensures ret@.len() == 3 * self.result@.len(), // [C10]
@     forall|i: int| 0 <= i < self.result@.len() ==> #[trigger] listing(self.triangles.triangles@, self.result@, ret@, i), // [C10]
@     forall|k: int| 0 <= k < ret@.len() ==> #[trigger] ret@[k] < self.points.points@.len() - 2, // [C10]
{
        let mut result = Vec::with_capacity(rt_cap());
        let s__i0 = & self.result; let mut i__0: usize = 0;
        while i__0 < s__i0.len()
@     invariant i__0 <= s__i0@.len(), s__i0@ == self.result@, tris_ok(*self), result@.len() == 3 * i__0,
@         forall|i: int| 0 <= i < i__0 ==> #[trigger] listing(self.triangles.triangles@, self.result@, result@, i),
@         forall|k: int| 0 <= k < result@.len() ==> #[trigger] result@[k] < self.points.points@.len() - 2,
 {
@ let ghost L0 = result@;
@ proof { assert(shown(self.points, self.triangles.triangles@, self.result@, i__0 as int)); }
            let triangle_id = &s__i0[i__0]; i__0 += 1;
            let t = triangle_id.get(&self.triangles);
            result.extend_from_slice(&[
                t.points[0].as_u32(),
                t.points[1].as_u32(),
                t.points[2].as_u32(),
            ]);
@ proof {
@     let L = result@; assert(L.len() == L0.len() + 3);
@     assert(forall|k: int| 0 <= k < L0.len() ==> L[k] == L0[k]);
@     assert(L[L0.len() as int] == t.points@[0].0 && L[L0.len() as int + 1] == t.points@[1].0 && L[L0.len() as int + 2] == t.points@[2].0);
@     assert forall|i: int| 0 <= i < i__0 implies #[trigger] listing(self.triangles.triangles@, self.result@, L, i) by { if i < i__0 - 1 { assert(listing(self.triangles.triangles@, self.result@, L0, i)); } }
@     assert forall|k: int| 0 <= k < L.len() implies #[trigger] L[k] < self.points.points@.len() - 2 by { if k < L0.len() { assert(L0[k] < self.points.points@.len() - 2); } }
@ }
        }
        result
    }
}

impl<PD> Triangles<PD> {

    pub fn next(&mut self) -> (ret: Option<Triangle>)
@ requires tris_ok(*old(self))
@ ensures tris_ok(*final(self)), final(self).points == old(self).points && final(self).data == old(self).data && final(self).triangles == old(self).triangles && final(self).result == old(self).result, // [C01] [C10]
@     old(self).next < old(self).result@.len() ==> final(self).next == old(self).next + 1 && ret is Some && coords(*old(self), ret->0, old(self).next as int), // [C10]
@     old(self).next >= old(self).result@.len() ==> final(self).next == old(self).next && ret is None, // [C10]
{
@ proof { assert(self.result.len() <= usize::MAX); if self.next < self.result@.len() { assert(shown(self.points, self.triangles.triangles@, self.result@, self.next as int)); } }
        if self.next < self.result.len() {
            let index = self.next;
            self.next += 1;
            let tri_id = unsafe { self.result.get_unchecked(index) };
            let triangle = tri_id.get(&self.triangles);
            return Some(Triangle {
                points: [
                    triangle.points[0].get(&self.points),
                    triangle.points[1].get(&self.points),
                    triangle.points[2].get(&self.points),
                ],
            });
        } else {
            None
        }
    }
}

impl<PD> CDT<PD> {

    pub fn triangulate(self) -> (ret: Triangles<PD>)
@ requires points_ok(self.points), helpers(self.points), distinct(self.points.points@.take(self.points.points@.len() - 2)),
@ ensures ret.points == self.points && ret.data == self.data, // [C01]
@     tris_ok(ret), ret.next == 0, // [C01] [C10]
@     mesh(ret.points.points@, ret.triangles.triangles@), // [C05] [C06]
@     apart_all(ret.points.points@, ret.triangles.triangles@), // [C16]
@     all_cov(ret.points, ret.triangles.triangles@, ret.points.points@.len() - 2), // [C07]
@     all_used(ret.points, ret.triangles.triangles@), // [C18]
@     only_in(ret.points, ret.triangles.triangles@), // [C17]
@     legal(ret.points.points@, ret.triangles.triangles@), // [C08]
@     inside_ok(ret.points, ret.triangles.triangles@, ret.result@), // [C09]
{
        self.triangulate_with_observer(rt_unit_observer())
    }

    pub fn triangulate_with_observer(self, observer: &mut dyn Observer) -> (ret: Triangles<PD>)
@ requires points_ok(self.points), helpers(self.points), distinct(self.points.points@.take(self.points.points@.len() - 2)),
@ ensures ret.points == self.points && ret.data == self.data, // [C01]
@     tris_ok(ret), ret.next == 0, // [C01] [C10]
@     mesh(ret.points.points@, ret.triangles.triangles@), // [C05] [C06]
@     apart_all(ret.points.points@, ret.triangles.triangles@), // [C16]
@     all_cov(ret.points, ret.triangles.triangles@, ret.points.points@.len() - 2), // [C07]
@     all_used(ret.points, ret.triangles.triangles@), // [C18]
@     only_in(ret.points, ret.triangles.triangles@), // [C17]
@     legal(ret.points.points@, ret.triangles.triangles@), // [C08]
@     inside_ok(ret.points, ret.triangles.triangles@, ret.result@), // [C09]
@     olog(final(observer)) =~= (olog(old(observer)) + sweep_log(self.points, self.points.points@.len() - 2)).push(Ev::Done).push(Ev::Finalized), // [C02] [C03]
{
@ let ghost ps = self.points; let ghost n = self.points.points@.len() - 2;
        let mut triangles = TriangleStore::with_capacity(rt_cap());
        let initial_triangle = triangles.insert(InnerTriangle::new(
            self.points.get_id_by_y(0).rt_unwrap(),
            self.points.head,
            self.points.tail,
        ));
@ let ghost t0 = triangles.triangles@[0];
@ proof { full_distinct(ps); assert(first_tri(ps, t0)); first_good(ps, t0); }
        let mut advancing_front = AdvancingFront::new(
            triangles.get(initial_triangle).rt_unwrap(),
            initial_triangle,
            &self.points,
        );
        let mut context = Sweeper::new(&self.points, &mut triangles, &mut advancing_front);
@ proof { start_ok(&context, t0, initial_triangle); }
        Sweeper::sweep_points(&mut context, observer);
@ proof { obs_tiles(&context); }
        observer.sweep_done(&context);
@ let ghost s1 = context; let ghost T1 = sT(&context);
        Sweeper::finalize_polygon(&mut context);
@ let ghost T2 = sT(&context); let ghost R2 = context.result@;
@ proof { int_keep(&s1, &context); only_back(ps, T1, T2); acov_mono(ps, T1, T2, n); assert forall|i: int| 0 <= i < R2.len() implies #[trigger] shown(ps, T2, R2, i) by { result_shown(ps, T2, R2, i); } }
@ proof { obs_tiles(&context); reveal(tiled); }
        observer.finalized(&context);
        let result = context.result;
        Triangles {
            points: self.points,
            data: self.data,
            triangles,
            result,
            next: 0,
        }
    }
}

pub fn parse_polyline(polyline: &[Point], points: &mut PointsBuilder)
@ requires builder_ok(*old(points)), old(points).points@.len() + polyline@.len() <= max_points()
@ ensures builder_ok(*final(points)),
@     final(points).points@ =~= old(points).points@ + polyline@, // [C01]
@     added(old(points).points@, old(points).edges@, final(points).points@, final(points).edges@, polyline@), // [C02]
@     edges_ok(old(points).points@, old(points).edges@) ==> edges_ok(final(points).points@, final(points).edges@), // [C02]
{
@ let ghost P0 = points.points@; let ghost E0 = points.edges@; let ghost lo = points.points@.len() as int; let ghost m = polyline@.len() as int;

    let mut point_iter = rt_from_vec( { let s__0 = & polyline; let mut o__0 = Vec::new(); let mut c__0: usize = 0
; while c__0 < s__0.len()
@     invariant s__0@ == polyline@, inv_ring(o__0, polyline@, lo, c__0 as int), builder_ok(*points), lo + m <= max_points(), lo == P0.len(), m == polyline@.len(),
@         points.points@ =~= P0 + polyline@.take(c__0 as int),
@         points.edges@.len() == lo + c__0, forall|q: int| 0 <= q < lo + c__0 ==> ev(#[trigger] points.edges@[q]) =~= ev0(E0, q),
{ let p = &s__0[c__0];
o__0.push( (points.add_steiner_point(*p), p)); c__0 += 1; }
o__0 });
    if let Some(first_point) = point_iter.next() {
        let mut last_point = first_point;
@ proof { assert(polyline@.take(m) =~= polyline@); }
        loop
@     invariant point_iter.ok(), inv_ring(point_iter.v, polyline@, lo, m), 1 <= point_iter.pos <= m, lo + m <= max_points(), lo == P0.len(), m == polyline@.len(),
@         builder_ok(*points), points.points@ =~= P0 + polyline@, last_point.0.0 == lo + point_iter.pos - 1, *last_point.1 == polyline@[point_iter.pos - 1],
@         first_point.0.0 == lo, *first_point.1 == polyline@[0],
@         ring_sep(points.points@, lo, m, point_iter.pos - 1),
@         forall|q: int| 0 <= q < lo + m ==> ev(#[trigger] points.edges@[q]) =~= ev0(E0, q) + ring(points.points@, lo, m, point_iter.pos - 1, q),
 {
            match point_iter.next() {
                Some(p2) => {
                    let edge = Edge::new(last_point, p2);
                    points.get_edges_mut(edge.q).rt_unwrap().push(edge.p);
                    last_point = p2;
                }
                None => {
                    let edge = Edge::new(last_point, first_point);
                    points.get_edges_mut(edge.q).rt_unwrap().push(edge.p);
                    break;
                }
            }
        }
    }
@ proof {
@     assert(ring_sep(points.points@, lo, m, m));
@     assert(added(P0, E0, points.points@, points.edges@, polyline@));
@     if edges_ok(P0, E0) { added_ok(P0, E0, points.points@, points.edges@, polyline@); }
@ }
}
@ #[verifier::external_body]
@ pub fn rt_unit_observer<'a>() -> (r: &'a mut dyn Observer) { unimplemented!() }
