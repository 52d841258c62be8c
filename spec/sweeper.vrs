
pub struct Sweeper<'a> {
    pub
    points: &'a Points,
    pub
    triangles: &'a mut TriangleStore,
    pub
    advancing_front: &'a mut AdvancingFront,
    pub
    result: Vec<TriangleId>,
    pub
    legalize_task_queue: Vec<TriangleId>,
    pub
    legalize_remap_tids: Vec<TriangleId>,
    pub
    triangle_id_queue: Vec<TriangleId>,
}

impl<'a> Sweeper<'a> {

    pub fn new(
        points: &'a Points,
        triangles: &'a mut TriangleStore,
        advancing_front: &'a mut AdvancingFront,
    ) -> (ret: Self)
@ ensures ret.points == points, *ret.triangles == *old(triangles), *final(ret.triangles) == *final(triangles), *ret.advancing_front == *old(advancing_front), *final(ret.advancing_front) == *final(advancing_front), ret.result@.len() == 0, queues(&ret),
{
        Self {
            points,
            triangles,
            advancing_front,
            result: Vec::with_capacity(rt_cap()),
            legalize_task_queue: Vec::with_capacity(32),
            legalize_remap_tids: Vec::with_capacity(32),
            triangle_id_queue: Vec::with_capacity(32),
        }
    }
}

impl Sweeper<'_> {

    pub fn sweep_points(&mut self, observer: &mut dyn Observer)
@ requires sok(old(self)), legal(sP(old(self)), sT(old(self))), seen(*old(self).points, ids(sF(old(self))), 1), all_vert(*old(self).points, sT(old(self)), 1), only_in(*old(self).points, sT(old(self))),
@ ensures frame(old(self), final(self)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     legal(sP(final(self)), sT(final(self))), // [C08]
@     all_cov(*final(self).points, sT(final(self)), sP(final(self)).len() - 2), cmono(sT(old(self)), sT(final(self))), sT(final(self)).len() >= sT(old(self)).len(), // [C07] [C18]
@     all_used(*final(self).points, sT(final(self))), // [C18]
@     only_in(*final(self).points, sT(final(self))), // [C17]
@     olog(final(observer)) =~= olog(old(observer)) + sweep_log(*old(self).points, sP(old(self)).len() - 2), // [C02] [C03]
{
@ let ghost ps = *self.points; let ghost P = sP(self); let ghost T0 = sT(self); let ghost O0 = olog(observer);
@ proof { first_none(ps); assert(O0 + sweep_log(ps, 1) =~= O0); }
        let mut i__1 = rt_iter( self.points.iter_point_by_y(1));
@ let ghost V = i__1.v@; let ghost mut c: int = 1;
        while let Some( (point_id, point, edges)) = i__1.next()
@     invariant i__1.ok(), i__1.v@ == V, frame(old(self), self), sok(self), legal(P, sT(self)), *self.points == ps, P == ps.points@, c == i__1.pos + 1, seen(ps, ids(sF(self)), c), all_cov(ps, sT(self), c), all_vert(ps, sT(self), c), only_in(ps, sT(self)), cmono(T0, sT(self)), sT(self).len() >= T0.len(), olog(observer) =~= O0 + sweep_log(ps, c), c <= P.len() - 2,
@         V.len() == P.len() - 3, forall|i: int| 0 <= i < V.len() ==> (#[trigger] V[i]).0 == ps.y_sorted@[i + 1] && V[i].1 == P[ps.y_sorted@[i + 1].0 as int] && V[i].2 == ps.edges@[ps.y_sorted@[i + 1].0 as int],
 {
@ let ghost T1 = sT(self); let ghost I1 = ids(sF(self)); let ghost O1 = olog(observer); let ghost E = ev(edges); let ghost id = point_id;
@ proof { assert(V[i__1.pos - 1].0 == ps.y_sorted@[c]); front_ends(self); seen_before(ps, I1, c); id_range(ps, sF(self), point_id); }
@ proof { obs_tiles(self); }
            observer.enter_point_event(point_id, self);
            self.point_event(point_id, point, observer);
@ let ghost T2 = sT(self);
@ proof { assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T2, x, y) implies seq![].contains(x) || seq![].contains(y) by { assert(illp(P, T1, x, y)); assert(seq![].contains(x) || seq![].contains(y)); } seen_grow(ps, I1, ids(sF(self)), c); acov_mono(ps, T1, T2, c); avert_mono(ps, T1, T2, c); only_back(ps, T1, T2); }
@ proof { obs_tiles(self); }
            observer.exit_point_event(point_id, self);
            let mut i__0 = rt_iter( edges);
@ let ghost mut j: int = 0;
@ proof { assert(E.skip(0) =~= E); cm_trans(T0, T1, T2); assert(olog(observer) =~= O1 + point_log(id, E, 0)); }
            while let Some( p) = i__0.next()
@     invariant 0 <= j <= E.len(), ev(i__0) =~= E.skip(j), id == point_id, id == ps.y_sorted@[c], E == ev(ps.edges@[id.0 as int]), point == P[id.0 as int], 0 <= c < P.len() - 2,
@         frame(old(self), self), sok(self), legal(P, sT(self)), *self.points == ps, P == ps.points@, seen(ps, ids(sF(self)), c + 1), all_cov(ps, sT(self), c), all_vert(ps, sT(self), c + 1), only_in(ps, sT(self)), cmono(T0, sT(self)), sT(self).len() >= T0.len(),
@         olog(observer) =~= O1 + point_log(id, E, j), forall|k: int| 0 <= k < j ==> #[trigger] ecov(ps, sT(self), c, k),
 {
@ let ghost T3 = sT(self); let ghost I3 = ids(sF(self));
@ proof { assert(p == E[j]); assert(ev(ps.edges@[id.0 as int])[j].0 < P.len()); }
                let edge = Edge { p, q: point_id };
                self.edge_event(edge, point, observer);
@ proof { only_add(ps, T3, sT(self), id, j); }
@ proof { obs_tiles(self); }
                observer.edge_event(edge, self);
@ proof {
@     cm_trans(T0, T3, sT(self)); acov_mono(ps, T3, sT(self), c); avert_mono(ps, T3, sT(self), c + 1); seen_sub(ps, I3, ids(sF(self)), c + 1);
@     assert forall|k: int| 0 <= k < j + 1 implies #[trigger] ecov(ps, sT(self), c, k) by { if k < j { assert(ecov(ps, T3, c, k)); cov_mono(P, T3, sT(self), E[k], id); } }
@     j = j + 1;
@     assert(E.skip(j - 1).skip(1) =~= E.skip(j));
@ }
            }
@ proof {
@     assert(E.skip(j).len() == 0);
@     assert(all_cov(ps, sT(self), c + 1)) by { assert forall|m: int, k: int| 0 <= m < c + 1 && 0 <= k < ev(ps.edges@[ps.y_sorted@[m].0 as int]).len() implies #[trigger] ecov(ps, sT(self), m, k) by { } }
@     assert(sweep_log(ps, c + 1) =~= sweep_log(ps, c) + point_log(id, E, E.len() as int));
@     c = c + 1;
@ }
        }
@ proof { used_all(ps, sT(self)); }
    }

    pub fn is_legalize(&self, triangle_id: TriangleId) -> (ret: [TriangleId; 3])
@ requires mesh(sP(self), sT(self)), valid(sT(self), triangle_id), // [C04]
@ ensures forall|e: int| 0 <= e < 3 ==> #[trigger] ret@[e] == rep(sP(self), sT(self), triangle_id.0 as int, e), // [C08]
{
@ let ghost P = sP(self); let ghost T = sT(self); let ghost n = triangle_id.0 as int;
        let mut result = [TriangleId::INVALID; 3];
        let mut i__0: usize = 0;
        while i__0 <3
@     invariant i__0 <= 3, P == sP(self), T == sT(self), n == triangle_id.0, mesh(P, T), valid(T, triangle_id),
@         forall|e: int| 0 <= e < i__0 ==> #[trigger] result@[e] == rep(P, T, n, e), forall|e: int| i__0 <= e < 3 ==> #[trigger] result@[e] == inv(),
@     decreases 3 - i__0
{ let point_idx = i__0; i__0 += 1;
            let triangle = self.triangles.get_unchecked(triangle_id);
            let opposite_triangle_id = triangle.neighbors[point_idx];
@ proof { assert(tri_ok(P, T[n])); tri_dist(P, T[n]); if tn(T[n], point_idx as int) != inv() { let j = nb_at(P, T, n, point_idx as int); } }
            let Some(opposite_triangle) = self.triangles.get(opposite_triangle_id) else {
                continue;
            };
            let p = triangle.points[point_idx];
            let op = opposite_triangle.opposite_point(&triangle, p);
            let oi = opposite_triangle.point_index(op).rt_unwrap();
            if opposite_triangle.is_constrained(oi) {
                continue;
            }
            let inside = unsafe {
                in_circle(
                    self.points.get_point_uncheck(p),
                    self.points.get_point_uncheck(triangle.point_ccw(p)),
                    self.points.get_point_uncheck(triangle.point_cw(p)),
                    self.points.get_point_uncheck(op),
                )
            };
            if inside {
                result[point_idx] = opposite_triangle_id;
            }
        }
        result
    }

    pub fn verify_triangles(&self) -> (ret: bool)
@ requires mesh(sP(self), sT(self)),
@ ensures ret == legal(sP(self), sT(self)), // [C08]
{
@ proof { list_alls(sP(self), sT(self)); }
        self.illegal_triangles().is_empty()
    }

    pub fn illegal_triangles(&self) -> (ret: Vec<(TriangleId, TriangleId)>)
@ requires mesh(sP(self), sT(self)),
@ ensures illist(sP(self), sT(self), ret@, sT(self).len() as int), // [C08]
{
@ let ghost P = sP(self); let ghost T = sT(self);
        let triangle_ids = { let s__0 = ( self
            .triangles.iter()).v; let mut o__0 = Vec::new(); let mut c__0: usize = 0
; while c__0 < s__0.len()
@     invariant all_tris(s__0@, T, T.len() as int), c__0 <= s__0@.len(), numbered(o__0@, c__0 as int),
@     decreases s__0@.len() - c__0
{ let(t_id, _) = s__0[c__0];
o__0.push( t_id); c__0 += 1; }
o__0 };
        let mut result = Vec:: <(TriangleId, TriangleId)> ::new();
        let mut i__1 = rt_iter( triangle_ids);
@ let ghost V = i__1.v@;
        while let Some( t_id) = i__1.next()
@     invariant i__1.ok(), i__1.v@ == V, P == sP(self), T == sT(self), mesh(P, T), numbered(V, T.len() as int), illist(P, T, result@, i__1.pos as int),
{
@ let ghost n = t_id.0 as int;
@ proof { assert(V[i__1.pos - 1] == t_id); }
            let s__i0 = &self.is_legalize(t_id); let mut i__0: usize = 0;
            while i__0 < s__i0.len()
@     invariant i__0 <= 3, in3(T, n, 0), n == t_id.0, t_id != inv(), T == sT(self), P == sP(self), mesh(P, T), forall|e: int| 0 <= e < 3 ==> #[trigger] s__i0@[e] == rep(P, T, n, e), illist_to(P, T, result@, n, i__0 as int),
@     decreases 3 - i__0
{ let illegal_neighbor = &s__i0[i__0]; i__0 += 1;
@ let ghost R = result@;
@ proof { assert(s__i0@[i__0 - 1] == rep(P, T, n, i__0 - 1)); }
                if !illegal_neighbor.invalid() {
@ proof { list_push(P, T, R, n, i__0 - 1); }
                    result.push((t_id, *illegal_neighbor));
                }
            }
@ proof { list_next(P, T, result@, n); }
        }
        result
    }

    pub fn finalize_polygon(&mut self)
@ requires sok(old(self)), old(self).result@.len() == 0,
@ ensures final(self).points == old(self).points, *final(self).advancing_front == *old(self).advancing_front, *final(final(self).triangles) == *final(old(self).triangles), *final(final(self).advancing_front) == *final(old(self).advancing_front),
@     same_int(sT(old(self)), sT(final(self))), // [C05] [C07] [C18]
@     inside_ok(*final(self).points, sT(final(self)), final(self).result@), // [C09]
{
@ let ghost ps = *self.points; let ghost T0 = sT(self);
        let mut exterior = vec![false; self.triangles.len()];
        let mut pending = Vec:: <TriangleId> ::new();
        let mut interior_seeds = Vec:: <TriangleId> ::new();
        let mut i__1: usize = 0;
@ proof { put_none(ps, T0); assert(pending@ =~= seq![] && interior_seeds@ =~= seq![]); }
        while i__1 <self.triangles.len()
@     invariant i__1 <= T0.len(), *self == *old(self), *self.points == ps, sT(self) == T0, mesh(ps.points@, T0), exterior@.len() == T0.len(), forall|x: int| 0 <= x < T0.len() ==> !(#[trigger] exterior@[x]),
@         put_to(ps, T0, pending@, interior_seeds@, i__1 as int, 0), pend_ok(ps, T0, pending@), seeds_ok(ps, T0, interior_seeds@),
 { let index = i__1; i__1 += 1;
            let id = TriangleId::from_index(index);
            let tri = id.get(&self.triangles);
            let mut i__0: usize = 0;
            while i__0 <3
@     invariant i__0 <= 3, index < T0.len(), id.0 == index, *tri == T0[index as int],
@         put_to(ps, T0, pending@, interior_seeds@, index as int, i__0 as int), pend_ok(ps, T0, pending@), seeds_ok(ps, T0, interior_seeds@),
 { let i = i__0; i__0 += 1;
@ let ghost A0 = pending@; let ghost S0 = interior_seeds@;
                if tri.points[i] == self.points.head || tri.points[i] == self.points.tail {
                    pending.push(id);
                } else if tri.neighbors[i].invalid() {
                    if tri.is_constrained(i) {
                        interior_seeds.push(id);
                    } else {
                        pending.push(id);
                    }
                }
@ proof { put_step(ps, T0, A0, S0, pending@, interior_seeds@, id, i as int); }
            }
@ proof { put_next(ps, T0, pending@, interior_seeds@, index as int); }
        }
@ proof { flood_start(ps, T0, exterior@, pending@, interior_seeds@); }
@ let ghost mut Q = pending@;
        while let Some(id) = pending.pop()
@     invariant Q == pending@, *self == *old(self), *self.points == ps, sT(self) == T0, mesh(ps.points@, T0), flood(ps, T0, exterior@, pending@, interior_seeds@, -1, 3),
 {
@ let ghost X0 = exterior@; let ghost A0 = pending@; let ghost x = id.0 as int;
@ proof { flood_pop(ps, T0, X0, Q, A0, interior_seeds@, id); }
            if exterior[id.as_usize()] {
@ proof { Q = pending@; }
                continue;
            }
            exterior[id.as_usize()] = true;
            let tri = id.get(&self.triangles);
            let mut i__2: usize = 0;
            while i__2 <3
@     invariant i__2 <= 3, x == id.0, 0 <= x < T0.len(), exterior@[x], *tri == T0[x], flood(ps, T0, exterior@, pending@, interior_seeds@, x, i__2 as int),
 { let i = i__2; i__2 += 1;
@ let ghost A1 = pending@; let ghost S1 = interior_seeds@;
                let neighbor = tri.neighbors[i];
                if neighbor.invalid() {
@ proof { flood_edge(ps, T0, exterior@, A1, S1, pending@, interior_seeds@, x, i as int); }
                    continue;
                }
                if tri.is_constrained(i) {
                    interior_seeds.push(neighbor);
                } else {
                    pending.push(neighbor);
                }
@ proof { flood_edge(ps, T0, exterior@, A1, S1, pending@, interior_seeds@, x, i as int); }
            }
@ proof { flood_next(ps, T0, exterior@, pending@, interior_seeds@, x); Q = pending@; }
        }
@ let ghost S = interior_seeds@; let ghost X = exterior@;
@ proof { flood_end(ps, T0, X, pending@, S); assert forall|t: TriangleId| valid(T0, t) implies (#[trigger] self.result@.contains(t) <==> inn(T0, t.0 as int)) by { assert(!T0[t.0 as int].interior); } assert(listed(T0, self.result@)); assert forall|i: int| 0 <= i < T0.len() implies same_tri(T0[i], #[trigger] T0[i]) by { } }
        let mut i__3 = rt_iter( interior_seeds);
        while let Some( id) = i__3.next()
@     invariant i__3.ok(), i__3.v@ == S, exterior@ == X, X.len() == T0.len(), *self.points == ps, self.points == old(self).points, *self.advancing_front == *old(self).advancing_front, *final(self.triangles) == *final(old(self).triangles), *final(self.advancing_front) == *final(old(self).advancing_front),
@         mesh(ps.points@, T0), same_int(T0, sT(self)), listed(sT(self), self.result@), cl_mark(sT(self)), forall|y: int| #[trigger] inn(sT(self), y) ==> inside(ps, T0, y),
@         forall|k: int| 0 <= k < i__3.pos ==> outside(ps, T0, (#[trigger] S[k]).0 as int) || inn(sT(self), S[k].0 as int),
 {
@ let ghost T1 = sT(self); let ghost x = id.0 as int;
@ proof { assert(S[i__3.pos - 1] == id); assert(X[x] == outside(ps, T0, x)); int_mesh(ps.points@, T0, T1); }
            if !exterior[id.as_usize()] && !id.get(&self.triangles).interior {
                self.clean_mesh(id);
@ proof { seed_step(ps, T0, T1, sT(self), S, i__3.pos - 1); }
            }
        }
@ proof { inside_end(ps, T0, sT(self), S, self.result@); }
    }

    pub fn clean_mesh(&mut self, triangle_id: TriangleId) -> (ret: Option<()>)
@ requires mesh(sP(old(self)), sT(old(self))), valid(sT(old(self)), triangle_id), listed(sT(old(self)), old(self).result@), cl_mark(sT(old(self))),
@ ensures final(self).points == old(self).points, *final(self).advancing_front == *old(self).advancing_front, *final(final(self).triangles) == *final(old(self).triangles), *final(final(self).advancing_front) == *final(old(self).advancing_front),
@     same_int(sT(old(self)), sT(final(self))), // [C05] [C07] [C18]
@     listed(sT(final(self)), final(self).result@), // [C09]
@     cl_mark(sT(final(self))), mark_from(sT(old(self)), sT(final(self)), triangle_id.0 as int), inn(sT(final(self)), triangle_id.0 as int), // [C09]
{
@ let ghost T0 = sT(self); let ghost P = sP(self); let ghost id = triangle_id.0 as int;
        let mut triangles = Vec:: <(TriangleId, TriangleId)> ::with_capacity(rt_cap());
        triangles.push((triangle_id, TriangleId::INVALID));
@ let ghost mut Q = triangles@;
@ proof { reach_refl(T0, id); assert(Q[0].0 == triangle_id); assert(on_stack(Q, id)); assert forall|i: int| 0 <= i < T0.len() implies same_tri(T0[i], #[trigger] T0[i]) by { } assert(stack_ok(T0, T0, Q, id)); }
        while let Some((t, from)) = triangles.pop()
@     invariant Q == triangles@, id == triangle_id.0, self.points == old(self).points, *self.advancing_front == *old(self).advancing_front, *final(self.triangles) == *final(old(self).triangles), *final(self.advancing_front) == *final(old(self).advancing_front),
@         P == sP(self), mesh(P, T0), same_int(T0, sT(self)), listed(sT(self), self.result@), waits(T0, sT(self), triangles@, -1), stack_ok(T0, sT(self), triangles@, id), mark_from(T0, sT(self), id), inn(sT(self), id) || on_stack(triangles@, id),
 {
@ let ghost S0 = triangles@; let ghost T1 = sT(self); let ghost x = t.0 as int; let ghost R1 = self.result@;
@ proof { assert(Q =~= S0.push((t, from))); assert(Q[Q.len() - 1] == (t, from)); stk_push(S0, (t, from)); assert forall|k: int| #![trigger S0[k]] 0 <= k < S0.len() implies Q[k] == S0[k] by { } assert(T1.update(x, T1[x]) =~= T1);
@     assert forall|y: int| #[trigger] on_stack(Q, y) implies on_stack(S0, y) || y == x by { assert(on_stack(S0.push((t, from)), y)); } }
            if t.invalid() {
@ proof { assert forall|p: int, y: int| inn(T1, p) && p != -1 && #[trigger] hop(T0, p, y) implies inn(T1, y) || on_stack(S0, y) by { hop_sym(P, T0, p, y); } Q = triangles@; }
                continue;
            }
            let tri = self.triangles.get_mut(t).rt_unwrap();
            if !tri.interior {
                tri.interior = true;
                self.result.push(t);
@ let ghost T2 = T1.update(x, *tri); let ghost R2 = self.result@;
@ proof { mark_one(T0, T1, T2, R1, R2, t, id); assert(waits(T0, T2, S0, x)) by { assert forall|p: int, y: int| inn(T2, p) && p != x && #[trigger] hop(T0, p, y) implies inn(T2, y) || on_stack(S0, y) by { assert(inn(T1, p)); } } assert(stack_ok(T0, T2, S0, id)) by { assert forall|k: int| #![trigger S0[k]] 0 <= k < S0.len() implies (S0[k].0 == inv() || (valid(T0, S0[k].0) && reach(T0, id, S0[k].0.0 as int))) && (S0[k].1 == inv() || inn(T2, S0[k].1.0 as int)) by { assert(Q[k] == S0[k]); } } }
                let mut i__0: usize = 0;
                while i__0 <3
@     invariant i__0 <= 3, x == t.0, valid(T0, t), T2 == T1.update(x, *tri), T2.len() == T0.len(), inn(T2, id) || on_stack(triangles@, id), P == old(self).points.points@, mesh(P, T0), same_int(T0, T2), inn(T2, x), from == inv() || inn(T2, from.0 as int), reach(T0, id, x),
@         waits(T0, T2, triangles@, x), waits_at(T0, T2, triangles@, x, i__0 as int), stack_ok(T0, T2, triangles@, id),
 { let i = i__0; i__0 += 1;
@ let ghost S1 = triangles@;
@ proof { assert(same_tri(T0[x], T2[x])); assert(T2[x] == *tri); assert(in3(T0, x, i as int)); assert(nb(T0, x, i as int)); }
                    if !tri.is_constrained(i) {
                        let new_t = tri.neighbors[i];
@ proof { stk_push(S1, (new_t, t)); if new_t != inv() { assert(hopat(T0, x, i as int, new_t.0 as int)); reach_step(T0, id, x, new_t.0 as int); } }
                        if new_t != from {
                            triangles.push((new_t, t));
                        }
                    }
@ proof {
@     assert forall|y: int| on_stack(S1, y) implies #[trigger] on_stack(triangles@, y) by { if triangles@.len() != S1.len() { let n = triangles@[S1.len() as int]; stk_push(S1, n); assert(triangles@ =~= S1.push(n)); } }
@     assert(waits(T0, T2, triangles@, x)) by { assert forall|p: int, y: int| inn(T2, p) && p != x && #[trigger] hop(T0, p, y) implies inn(T2, y) || on_stack(triangles@, y) by { } }
@     assert forall|e: int, y: int| e < i__0 && #[trigger] hopat(T0, x, e, y) implies inn(T2, y) || on_stack(triangles@, y) by { if e < i { } else { assert(y == tn(T0[x], e).0); } }
@     assert(stack_ok(T0, T2, triangles@, id)) by { assert forall|k: int| #![trigger triangles@[k]] 0 <= k < triangles@.len() implies (triangles@[k].0 == inv() || (valid(T0, triangles@[k].0) && reach(T0, id, triangles@[k].0.0 as int))) && (triangles@[k].1 == inv() || inn(T2, triangles@[k].1.0 as int)) by { if k < S1.len() { assert(triangles@[k] == S1[k]); } } }
@ }
                }
@ proof { assert(waits(T0, T2, triangles@, -1)) by { assert forall|p: int, y: int| inn(T2, p) && p != -1 && #[trigger] hop(T0, p, y) implies inn(T2, y) || on_stack(triangles@, y) by { if p == x { let e = choose|e: int| #[trigger] hopat(T0, x, e, y); } } } }
            }
@ proof { Q = triangles@; }
        }
@ proof {
@     let T1 = sT(self); int_reach(T0, T1);
@     assert forall|y: int| !(#[trigger] on_stack(triangles@, y)) by { }
@     assert forall|p: int, y: int| inn(T1, p) && #[trigger] hop(T1, p, y) implies inn(T1, y) by { assert(hop(T0, p, y)); }
@ }
        Some(())
    }
}

impl Sweeper<'_> {

    pub fn point_event(&mut self, point_id: PointId, point: Point, observer: &mut dyn Observer)
@ requires sok(old(self)), point_id.0 < sP(old(self)).len(), point == sP(old(self))[point_id.0 as int], before(sP(old(self)), ids(sF(old(self))), point_id), // [C06] [C12]
@     in_range(sF(old(self)), p2(point)),
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     keeps(sP(old(self)), sT(old(self)), sT(final(self))), grown(ids(sF(old(self))), ids(sF(final(self))), point_id), // [C07] [C08] [C17] [C18]
@     vert(sT(final(self)), point_id), // [C18]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0); let ghost h = self.points.head; let ghost l = self.points.tail; let ghost G = tris(F0);
@ proof { f_sorted(P, F0); front_ends(self); }
        let node = self.advancing_front.locate_node(point).rt_unwrap();
        let node_id = node.get_node_id();
        let next_node = node.next().rt_unwrap();
        let node_point = node.point();
@ let ghost k = node.index as int; let ghost p = point_id;
@ proof {
@     assert(F0[k].key.0 == P[fid(F0, k).0 as int] && F0[k + 1].key.0 == P[fid(F0, k + 1).0 as int]);
@     assert(I0[k] == fid(F0, k) && I0[k + 1] == fid(F0, k + 1));
@     assert(ylt(pp(P, I0[k]), pp(P, p)) && ylt(pp(P, I0[k + 1]), pp(P, p)));
@     above(pp(P, I0[k]), pp(P, p), pp(P, I0[k + 1]));
@     ax_len_tri(self.triangles.triangles); ax_len_entry(self.advancing_front.nodes);
@ }
        let triangle = self.triangles.insert(InnerTriangle::new(
            point_id,
            node.point_id(),
            next_node.point_id(),
        ));
@ let ghost t = sT(self).last();
@ proof { assert(sT(self) =~= T0.push(t)); assert(pt_tri(I0, k, p, t)); }
        let node_triangle = node.triangle.rt_unwrap();
        self.triangles.mark_neighbor(node_triangle, triangle);
@ let ghost T2 = sT(self);
@ proof { assert(node_triangle == G[k]); pt_front(P, T0, T2, I0, G, h, l, k, t, triangle, p); }
        self.advancing_front.insert(point_id, point, triangle);
@ let ghost F1 = sF(self); let ghost I1 = ids(F1); let ghost G1 = G.update(k, triangle).insert(k + 1, triangle);
@ proof {
@     let m = choose|m: int| #[trigger] ins(F0, F1, m, point, point_id, triangle);
@     assert(m == k + 1);
@     assert(F1 =~= F0.insert(k + 1, ent(point, point_id, triangle)));
@     assert(I1 =~= I0.insert(k + 1, p));
@     assert forall|q: int| 0 <= q < F1.len() implies fid(F1, q).0 < P.len() && #[trigger] F1[q].key.0 == P[fid(F1, q).0 as int] by { if q <= k { assert(F0[q].key.0 == P[fid(F0, q).0 as int]); } else if q > k + 1 { assert(F0[q - 1].key.0 == P[fid(F0, q - 1).0 as int]); } }
@     assert(fronts(self, G1));
@     assert forall|q: int| #![trigger G1[q]] 0 <= q < F1.len() - 1 implies G1[q] == ftri(F1, q) || seq![triangle].contains(G1[q]) by { assert(seq![triangle][0] == triangle); if q < k { assert(G[q] == ftri(F0, q)); } else if q > k + 1 { assert(G[q - 1] == ftri(F0, q - 1)); } }
@     assert(lag(F1, G1, seq![triangle]));
@ }
        self.legalize(triangle, observer);
@ let ghost T3 = sT(self); let ghost F3 = sF(self);
@ proof {
@     leg_keep(P, T0, T2, T3, triangle);
@     assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(T3, a, b) by { assert(cedge(T2, a, b)); }
@     assert(grown(I0, I1, p)) by { assert forall|x: PointId| #[trigger] I1.contains(x) implies x == p || I0.contains(x) by { let m = choose|m: int| 0 <= m < I1.len() && I1[m] == x; if m <= k { assert(I0[m] == x); } else if m > k + 1 { assert(I0[m - 1] == x); } } }
@     assert(vert(T3, p)); assert(keeps(P, T0, T3)); f_sorted(P, F3); stp_same(P, T3, I1);
@ }
        if point.x <= node_point.x {
@ proof {
@     assert forall|m: int| 0 < m < F3.len() - 1 && #[trigger] fid(F3, m) == node_id.point_id implies cor(P, I1, m) by { assert(I1[m] == fid(F3, m)); assert(I1[k] == I0[k]); at_uniq(P, I1, m, k); assert(I1[k + 1] == p); stand(pp(P, I1[k - 1]), pp(P, I1[k]), pp(P, p)); }
@     assert forall|T4: Seq<InnerTriangle>, I4: Seq<PointId>, f: FillOne| #[trigger] fill_res(P, I1, I4, node_id.point_id, f) && #[trigger] keeps(P, T3, T4) implies stp(P, T3, T4, I1, I4) by { fill_any(P, T3, T4, I1, I4, node_id.point_id, f); }
@ }
            self.fill_one(node_id, observer);
        }
@ let ghost T4 = sT(self); let ghost I4 = ids(sF(self));
@ proof { assert(stp(P, T3, T4, I1, I4)); assert(p2(point) == pp(P, p)); }
        self.fill_advancing_front(point, observer);
@ proof {
@     let T5 = sT(self); let I5 = ids(sF(self));
@     stp_trans(P, T3, T4, T5, I1, I4, I5); assert(vert(T5, p));
@     cm_trans(T0, T3, T5);
@     assert forall|x: PointId| #[trigger] I5.contains(x) implies x == p || I0.contains(x) by { assert(I1.contains(x)); }
@ }
    }

    pub fn legalize(&mut self, triangle_id: TriangleId, observer: &mut dyn Observer)
@ requires base_ok(old(self)), front_lag(old(self), seq![triangle_id]), valid(sT(old(self)), triangle_id), // [C04] [C05]
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)),
@     base_ok(final(self)), // [C05] [C06] [C12]
@     front_ok(final(self)), // [C11]
@     ids(sF(final(self))) == ids(sF(old(self))), sT(final(self)).len() == sT(old(self)).len(),
@     cmono(sT(old(self)), sT(final(self))), // [C07] [C18]
@     cback(sT(old(self)), sT(final(self))), // [C17]
@     leg(sP(old(self)), sT(old(self)), sT(final(self)), seq![], triangle_id), // [C08]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost tid0 = triangle_id; let ghost F0 = sF(self); let ghost h = self.points.head; let ghost l = self.points.tail;
@ let ghost mut G = choose|G: Seq<TriangleId>| #[trigger] fronts(self, G) && lag(sF(self), G, seq![triangle_id]);
@ proof { f_sorted(P, F0); }
@ proof { tiles_at(self, G); }
        observer.will_legalize(triangle_id, self);
        let mut legalized_triangles = std::mem::take(&mut self.legalize_remap_tids);
        let mut task_queue = std::mem::take(&mut self.legalize_task_queue);
        task_queue.push(triangle_id);
        legalized_triangles.push(triangle_id);
@ proof { assert(legalized_triangles@ =~= seq![tid0]); assert(task_queue@ =~= seq![tid0]); assert(task_queue@[0] == tid0);
@     assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T0, x, y) implies task_queue@.contains(x) || task_queue@.contains(y) || (x != tid0 && y != tid0) by { } }
@ let ghost mut Qg = task_queue@;
        while let Some(triangle_id) = task_queue.pop()
@     invariant Qg == task_queue@, frame(old(self), self), env(*self.points), self.triangle_id_queue == old(self).triangle_id_queue, queues(self), *self.advancing_front == *old(self).advancing_front, olog(observer) == olog(old(observer)),
@         mesh(P, sT(self)), dflags(P, sT(self)), noint(sT(self)), sT(self).len() == T0.len(), cmono(T0, sT(self)), cback(T0, sT(self)), front(sT(self), ids(F0), G, h, l), isorted(P, ids(F0)), lag(F0, G, legalized_triangles@),
@         leg(P, T0, sT(self), task_queue@, tid0), all_valid(T0, task_queue@), all_valid(T0, legalized_triangles@),
 {
@ let ghost cur = triangle_id;
@ let ghost mut rot = false;
@ proof { assert(task_queue@.push(cur) =~= Qg); assert(task_queue@.push(cur).drop_last() =~= task_queue@); leg_pop(P, T0, sT(self), task_queue@.push(cur), task_queue@, cur, tid0); assert(valid(T0, task_queue@.push(cur).last())); }
            let mut i__0: usize = 0;
            while i__0 <3
@     invariant i__0 <= 3, cur == triangle_id, valid(T0, cur), frame(old(self), self), env(*self.points), self.triangle_id_queue == old(self).triangle_id_queue, queues(self), *self.advancing_front == *old(self).advancing_front, olog(observer) == olog(old(observer)),
@         mesh(P, sT(self)), dflags(P, sT(self)), noint(sT(self)), sT(self).len() == T0.len(), cmono(T0, sT(self)), cback(T0, sT(self)), front(sT(self), ids(F0), G, h, l), isorted(P, ids(F0)), lag(F0, G, legalized_triangles@),
@         leg(P, T0, sT(self), task_queue@.push(cur), tid0), all_valid(T0, task_queue@), all_valid(T0, legalized_triangles@),
@         forall|e: int| 0 <= e < i__0 ==> !#[trigger] ill(P, sT(self), cur.0 as int, e), !rot,
 { let point_idx = i__0; i__0 += 1;
@ let ghost Ta = sT(self); let ghost i = point_idx as int; let ghost Q0 = task_queue@; let ghost L0 = legalized_triangles@;
@ proof { assert(tri_ok(P, Ta[cur.0 as int])); tri_dist(P, Ta[cur.0 as int]); }
                let triangle = triangle_id.get(&self.triangles);
                if triangle.is_constrained(point_idx) || triangle.is_delaunay(point_idx) {
                    continue;
                }
                let opposite_triangle_id = triangle.neighbors[point_idx];
                if opposite_triangle_id.invalid() {
                    continue;
                };
@ let ghost j = nb_at(P, Ta, cur.0 as int, i);
                let opposite_triangle = opposite_triangle_id.get(&self.triangles);
                let p = triangle.points[point_idx];
                let op = opposite_triangle.opposite_point(&triangle, p);
                let illegal = in_circle(
                    p.get(&self.points),
                    triangle.point_ccw(p).get(&self.points),
                    triangle.point_cw(p).get(&self.points),
                    op.get(&self.points),
                );
                if illegal {
@ proof { let jj = ill_req(P, Ta, cur, i); opp_is(P, Ta[cur.0 as int], i, Ta[opposite_triangle_id.0 as int], j); }
@ proof { tiles_at(self, G); }
                    observer.triangle_rotated(triangle_id, opposite_triangle_id, self);
                    let need_remap =
                        self.rotate_triangle_pair(triangle_id, p, opposite_triangle_id, op);
@ let ghost T1 = sT(self);
@ proof { rot_mesh(P, Ta, T1, cur, opposite_triangle_id, i, j); rot_six(P, Ta, cur, opposite_triangle_id, i, j); assert(tri_ok(P, T1[cur.0 as int]) && tri_ok(P, T1[opposite_triangle_id.0 as int])); tri_dist(P, T1[cur.0 as int]); tri_dist(P, T1[opposite_triangle_id.0 as int]); assert(rev_edge(T1[cur.0 as int], i, T1[opposite_triangle_id.0 as int], j)); }
                    {
                        let (t, ot) = unsafe {
                            self.triangles
                                .get_mut_two(triangle_id, opposite_triangle_id)
                        };
                        let (t_idx, ot_idx) = t.common_edge_index(ot).rt_unwrap();
                        t.set_delaunay(t_idx, true);
                        ot.set_delaunay(ot_idx, true);
@ proof { rev_unique(P, T1[cur.0 as int], i, T1[opposite_triangle_id.0 as int], j, t_idx as int, ot_idx as int); }
                    }
@ let ghost T2 = sT(self);
@ proof {
@     assert(dmarked(T1, T2, cur, opposite_triangle_id, i, j));
@     leg_rot(P, Ta, T1, T2, cur, opposite_triangle_id, i, j);
@     leg_next(P, T0, Ta, T2, cur, opposite_triangle_id, Q0, tid0);
@ }
                    task_queue.push(triangle_id);
                    task_queue.push(opposite_triangle_id);
                    if need_remap {
                        legalized_triangles.push(triangle_id);
                        legalized_triangles.push(opposite_triangle_id);
                    }
@ proof {
@     lag_rot(P, Ta, T1, T2, F0, G, h, l, cur, opposite_triangle_id, i, j, L0, legalized_triangles@);
@     G = rot_g(Ta, ids(F0), G, cur, opposite_triangle_id, i, j);
@     assert(noint(T2)); assert(cmono(T0, T2)); assert(cback(T0, T2)); rot = true;
@ }
                    break;
                } else {
                }
            }
@ proof { if !rot { leg_done(P, T0, sT(self), task_queue@, cur, tid0); } Qg = task_queue@; }
@ proof { tiles_at(self, G); }
            observer.legalize_step(triangle_id, self);
        }
@ let ghost L = legalized_triangles@;
        let mut i__1 = rt_iter( legalized_triangles.rt_drain());
@ proof { assert(L.skip(0) =~= L); }
        while let Some( triangle_id) = i__1.next()
@     invariant i__1.ok(), i__1.v@ == L, frame(old(self), self), env(*self.points), self.triangle_id_queue == old(self).triangle_id_queue, queues(self), olog(observer) == olog(old(observer)),
@         mesh(P, sT(self)), dflags(P, sT(self)), noint(sT(self)), sT(self).len() == T0.len(), cmono(T0, sT(self)), cback(T0, sT(self)), front(sT(self), ids(F0), G, h, l), isorted(P, ids(F0)), lag(sF(self), G, L.skip(i__1.pos as int)),
@         leg(P, T0, sT(self), seq![], tid0), all_valid(T0, L), af_ok(*self.advancing_front), keyed(P, sF(self)), ids(sF(self)) == ids(F0), legalized_triangles@.len() == 0, task_queue@.len() == 0,
 {
@ let ghost F1 = sF(self);
@ proof { assert(ids(F1)[0] == fid(F1, 0)); assert(ids(F1)[F1.len() - 1] == fid(F1, F1.len() - 1)); }
            self.map_triangle_to_nodes(triangle_id);
@ proof { skip_has(L, i__1.pos - 1); map_lag(P, sT(self), F1, sF(self), G, h, l, triangle_id, L.skip(i__1.pos - 1), L.skip(i__1.pos as int)); }
        }
@ proof { lag_none(sT(self), sF(self), G, h, l, L.skip(i__1.pos as int)); }
        {
            self.legalize_task_queue = task_queue;
            self.legalize_remap_tids = legalized_triangles;
        }
@ proof { obs_tiles(self); }
        observer.legalized(triangle_id, self);
    }

    pub fn rotate_triangle_pair(
        &mut self,
        t_id: TriangleId,
        p: PointId,
        ot_id: TriangleId,
        op: PointId,
    ) -> (ret: bool)
@ requires mesh(sP(old(self)), sT(old(self))), has(sT(old(self))[t_id.0 as int], p), has(sT(old(self))[ot_id.0 as int], op), // [C04] [C05]
@     rot_req(sP(old(self)), sT(old(self)), t_id, ot_id, ix(sT(old(self))[t_id.0 as int], p), ix(sT(old(self))[ot_id.0 as int], op)), // [C06]
@ ensures frame(old(self), final(self)), *final(self).advancing_front == *old(self).advancing_front,
@     final(self).legalize_task_queue == old(self).legalize_task_queue, final(self).legalize_remap_tids == old(self).legalize_remap_tids, final(self).triangle_id_queue == old(self).triangle_id_queue,
@     rotated(sT(old(self)), sT(final(self)), t_id, ot_id, ix(sT(old(self))[t_id.0 as int], p), ix(sT(old(self))[ot_id.0 as int], op)), // [C05] [C06] [C07] [C08]
@     ret == exists|e: int| bd(sT(old(self)), t_id.0 as int, e) || bd(sT(old(self)), ot_id.0 as int, e), // [C11]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost ti = t_id.0 as int; let ghost oi = ot_id.0 as int; let ghost i = ix(T0[ti], p); let ghost j = ix(T0[oi], op);
@ let ghost a = T0[ti]; let ghost b = T0[oi];
@ proof { rot_six(P, T0, t_id, ot_id, i, j); tri_dist(P, a); tri_dist(P, b); assert(tri_ok(P, a) && tri_ok(P, b)); }
        let (t, ot) = unsafe { self.triangles.get_mut_two(t_id, ot_id) };
        let n1 = t.neighbor_ccw(p);
        let n2 = t.neighbor_cw(p);
        let n3 = ot.neighbor_ccw(op);
        let n4 = ot.neighbor_cw(op);
        let ea1 = t.edge_attr_ccw(p);
        let ea2 = t.edge_attr_cw(p);
        let ea3 = ot.edge_attr_ccw(op);
        let ea4 = ot.edge_attr_cw(op);
        t.rotate_cw(p, op);
        ot.rotate_cw(op, p);
        t.set_edge_attr_cw(p, ea2);
        t.set_edge_attr_ccw(op, ea3);
        ot.set_edge_attr_ccw(p, ea1);
        ot.set_edge_attr_cw(op, ea4);
        t.clear_neighbors();
        ot.clear_neighbors();
@ let ghost a0 = *t; let ghost b0 = *ot;
@ proof { assert(rot_a0(P, a, b, a0, b0, i, j)); }
        TriangleStore::mark_neighbor_for_two_mut(t_id, ot_id, t, ot);
@ let ghost a1 = *t; let ghost b1 = *ot;
        let (t, ot, t_n1, t_n2, t_n3, t_n4) =
            unsafe { self.triangles.get_mut_six(t_id, ot_id, n1, n2, n3, n4) };
        if let Some(t_n2) = t_n2 {
            TriangleStore::mark_neighbor_for_two_mut(t_id, n2, t, t_n2);
        }
@ let ghost a2 = *t;
        if let Some(t_n3) = t_n3 {
            TriangleStore::mark_neighbor_for_two_mut(t_id, n3, t, t_n3);
        }
        if let Some(t_n1) = t_n1 {
            TriangleStore::mark_neighbor_for_two_mut(ot_id, n1, ot, t_n1);
        }
@ let ghost b2 = *ot;
        if let Some(t_n4) = t_n4 {
            TriangleStore::mark_neighbor_for_two_mut(ot_id, n4, ot, t_n4);
        }
@ proof {
@     assert(rot_asm(P, T0, sT(self), t_id, ot_id, i, j, a0, a1, a2, b0, b1, b2));
@     rot_asm_is(P, T0, sT(self), t_id, ot_id, i, j, a0, a1, a2, b0, b1, b2);
@ }
        n1.invalid() || n2.invalid() || n3.invalid() || n4.invalid()
    }

    pub fn map_triangle_to_nodes(&mut self, triangle_id: TriangleId)
@ requires env(*old(self).points), mesh(sP(old(self)), sT(old(self))), af_ok(*old(self).advancing_front), keyed(sP(old(self)), sF(old(self))), valid(sT(old(self)), triangle_id), // [C04]
@     sF(old(self)).len() >= 2, fid(sF(old(self)), 0) == old(self).points.head, fid(sF(old(self)), sF(old(self)).len() - 1) == old(self).points.tail,
@ ensures frame(old(self), final(self)), *final(self).triangles == *old(self).triangles, final(self).legalize_task_queue == old(self).legalize_task_queue, final(self).legalize_remap_tids == old(self).legalize_remap_tids, final(self).triangle_id_queue == old(self).triangle_id_queue,
@     af_ok(*final(self).advancing_front), // [C12]
@     mapped(sT(old(self)), sF(old(self)), sF(final(self)), triangle_id, 3), keyed(sP(final(self)), sF(final(self))), // [C11]
{
        let triangle = triangle_id.get(&self.triangles);
@ proof { assert(tri_ok(sP(self), *triangle)); tri_dist(sP(self), *triangle); }
        let mut i__0: usize = 0;
        while i__0 <3
@     invariant i__0 <= 3, frame(old(self), self), *self.triangles == *old(self).triangles, *triangle == sT(self)[triangle_id.0 as int], self.legalize_task_queue == old(self).legalize_task_queue, self.legalize_remap_tids == old(self).legalize_remap_tids, self.triangle_id_queue == old(self).triangle_id_queue,
@         env(*self.points), mesh(sP(self), sT(self)), tri_ok(sP(self), *triangle), tdist(*triangle), af_ok(*self.advancing_front), keyed(sP(self), sF(self)),
@         sF(self).len() >= 2, fid(sF(self), 0) == self.points.head, fid(sF(self), sF(self).len() - 1) == self.points.tail,
@         mapped(sT(old(self)), sF(old(self)), sF(self), triangle_id, i__0 as int),
 { let i = i__0; i__0 += 1;
            if triangle.neighbors[i].invalid() {
@ proof { assert(tn(*triangle, i as int) == inv()); id_range(*self.points, sF(self), tp(*triangle, pv(i as int))); }
                let point = unsafe {
                    self.points
                        .get_point_uncheck(triangle.point_cw(triangle.points[i]))
                };
@ let ghost F0 = sF(self);
                self.advancing_front.update_triangle(point, triangle_id);
@ proof { mapped_step(*self.points, sT(self), sF(old(self)), F0, sF(self), triangle_id, i as int, point); }
            }
        }
    }

    pub fn fill_one(&mut self, node: NodeId, observer: &mut dyn Observer) -> (ret: Option<FillOne>)
@ requires sok(old(self)), nid(sP(old(self)), node), // [C12]
@     forall|k: int| 0 < k < sF(old(self)).len() - 1 && #[trigger] fid(sF(old(self)), k) == node.point_id ==> cor(sP(old(self)), ids(sF(old(self))), k), // [C06]
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)),
@     sok(final(self)), // [C05] [C06] [C11] [C12]
@     ret is None ==> ids(sF(final(self))) == ids(sF(old(self))) && (node.point_id == old(self).points.head || node.point_id == old(self).points.tail),
@     ret matches Some(f) ==> fill_res(sP(old(self)), ids(sF(old(self))), ids(sF(final(self))), node.point_id, f),
@     keeps(sP(old(self)), sT(old(self)), sT(final(self))), // [C07] [C08] [C17] [C18]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0); let ghost h = self.points.head; let ghost l = self.points.tail; let ghost id = node.point_id;
@ proof { f_sorted(P, F0); nid_is(P, F0, node); }
        let node = self.advancing_front.get_node_with_id(node).rt_unwrap();
@ let ghost k = node.index as int;
@ proof { assert(I0[k] == id); assert(fid(F0, k) == id); }
        let prev_node = node.prev()?;
        let next_node = node.next()?;
        let fill_one_result = FillOne {
            prev: prev_node.get_node_id(),
            next: next_node.get_node_id(),
        };
@ proof { ax_len_tri(self.triangles.triangles); }
        let new_triangle = self.triangles.insert(InnerTriangle::new(
            prev_node.point_id(),
            node.point_id(),
            next_node.point_id(),
        ));
@ let ghost t = sT(self).last();
@ proof { assert(sT(self) =~= T0.push(t)); assert(fill_tri(T0, I0, k, t)); }
        self.triangles
            .mark_neighbor(new_triangle, prev_node.triangle.rt_unwrap());
@ let ghost T2 = sT(self);
        self.triangles
            .mark_neighbor(new_triangle, node.triangle.rt_unwrap());
@ let ghost T3 = sT(self);
@ proof {
@     assert(cor(P, I0, k));
@     fill_front(P, T0, T2, T3, I0, tris(F0), h, l, k, t, new_triangle);
@ }
        unsafe {
            self.advancing_front.update_and_delete_by_index(
                prev_node.index(),
                prev_node.point_id(),
                new_triangle,
                node.index(),
            )
        };
@ proof {
@     assert(ids(sF(self)) =~= I0.remove(k)); assert(tris(sF(self)) =~= tris(F0).update(k - 1, new_triangle).remove(k));
@     assert(keyed(P, sF(self))) by { assert forall|m: int| 0 <= m < sF(self).len() implies fid(sF(self), m).0 < P.len() && #[trigger] sF(self)[m].key.0 == P[fid(sF(self), m).0 as int] by { assert(F0[m].key.0 == P[fid(F0, m).0 as int]); assert(F0[m + 1].key.0 == P[fid(F0, m + 1).0 as int]); } }
@     assert(fronts(self, tris(sF(self))) && lag(sF(self), tris(sF(self)), seq![new_triangle]));
@ }
        self.legalize(new_triangle, observer);
@ proof {
@     leg_keep(P, T0, T3, sT(self), new_triangle);
@     assert(filled(P, I0, ids(sF(self)), k, id, fill_one_result));
@ }
        Some(fill_one_result)
    }

    pub fn fill_advancing_front(&mut self, node_point: Point, observer: &mut dyn Observer)
@ requires sok(old(self)), exists|id: PointId| id.0 < sP(old(self)).len() && p2(node_point) == #[trigger] pp(sP(old(self)), id), // [C12]
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     stp(sP(old(self)), sT(old(self)), sT(final(self)), ids(sF(old(self))), ids(sF(final(self)))), // [C07] [C08] [C17] [C18]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0); let ghost pid = choose|id: PointId| id.0 < P.len() && p2(node_point) == #[trigger] pp(P, id);
@ proof { f_sorted(P, F0); stp_same(P, T0, I0); front_ends(self); id_range(*self.points, F0, pid); }
        let node_id = self
            .advancing_front
            .get_node(node_point)
            .rt_unwrap()
            .get_node_id();
@ let ghost k0 = node_id.index_hint as int;
@ proof { assert(F0[k0].key.0 == P[fid(F0, k0).0 as int]); }
        {
            let mut node_id = node_id.clone();
            while let Some(next_node) = self.advancing_front.locate_next_node(node_id)
@     invariant frame(old(self), self), olog(observer) == olog(old(observer)), sok(self), nid(P, node_id), stp(P, T0, sT(self), I0, ids(sF(self))),
 {
@ let ghost T1 = sT(self); let ghost F1 = sF(self); let ghost I1 = ids(F1); let ghost k = next_node.index as int;
@ proof { f_sorted(P, F1); nid_is(P, F1, node_id); assert(F1[k].key.0 == P[fid(F1, k).0 as int]); }
                if next_node.next().is_some() {
                    if Self::should_fill(&next_node) {
                        break;
                    }
                    let next_node_id = next_node.get_node_id();
@ proof {
@     assert(I1[k] == fid(F1, k) && I1[k - 1] == fid(F1, k - 1) && I1[k + 1] == fid(F1, k + 1));
@     asc_good(pp(P, I1[k - 1]), pp(P, I1[k]), pp(P, I1[k + 1]));
@     assert forall|m: int| 0 < m < F1.len() - 1 && #[trigger] fid(F1, m) == next_node_id.point_id implies cor(P, I1, m) by { assert(I1[m] == I1[k]); at_uniq(P, I1, m, k); }
@     assert forall|T2: Seq<InnerTriangle>, I2: Seq<PointId>, f: FillOne| #[trigger] fill_res(P, I1, I2, next_node_id.point_id, f) && #[trigger] keeps(P, T1, T2) implies stp(P, T0, T2, I0, I2) by { fill_any(P, T1, T2, I1, I2, next_node_id.point_id, f); stp_trans(P, T0, T1, T2, I0, I1, I2); }
@     assert forall|T2: Seq<InnerTriangle>| #[trigger] keeps(P, T1, T2) implies stp(P, T0, T2, I0, I1) by { assert(stp(P, T1, T2, I1, I1)); stp_trans(P, T0, T1, T2, I0, I1, I1); }
@     assert forall|I2: Seq<PointId>, f: FillOne| #[trigger] fill_res(P, I1, I2, next_node_id.point_id, f) implies nid(P, f.next) by { }
@ }
                    node_id = match self.fill_one(next_node_id, observer) {
                        Some(fill_one) => fill_one.next,
                        None => next_node_id,
                    };
                } else {
                    break;
                }
            }
        }
        {
            let mut node_id = node_id.clone();
            while let Some(prev_node) = self.advancing_front.locate_prev_node(node_id)
@     invariant frame(old(self), self), olog(observer) == olog(old(observer)), sok(self), nid(P, node_id), stp(P, T0, sT(self), I0, ids(sF(self))),
 {
@ let ghost T1 = sT(self); let ghost F1 = sF(self); let ghost I1 = ids(F1); let ghost k = prev_node.index as int;
@ proof { f_sorted(P, F1); nid_is(P, F1, node_id); assert(F1[k].key.0 == P[fid(F1, k).0 as int]); }
                if prev_node.prev().is_some() {
                    if Self::should_fill(&prev_node) {
                        break;
                    }
                    node_id = prev_node.get_node_id();
@ proof {
@     assert(I1[k] == fid(F1, k) && I1[k - 1] == fid(F1, k - 1) && I1[k + 1] == fid(F1, k + 1));
@     asc_good(pp(P, I1[k - 1]), pp(P, I1[k]), pp(P, I1[k + 1]));
@     assert forall|m: int| 0 < m < F1.len() - 1 && #[trigger] fid(F1, m) == node_id.point_id implies cor(P, I1, m) by { assert(I1[m] == I1[k]); at_uniq(P, I1, m, k); }
@     assert forall|T2: Seq<InnerTriangle>, I2: Seq<PointId>, f: FillOne| #[trigger] fill_res(P, I1, I2, node_id.point_id, f) && #[trigger] keeps(P, T1, T2) implies stp(P, T0, T2, I0, I2) by { fill_any(P, T1, T2, I1, I2, node_id.point_id, f); stp_trans(P, T0, T1, T2, I0, I1, I2); }
@     assert forall|T2: Seq<InnerTriangle>| #[trigger] keeps(P, T1, T2) implies stp(P, T0, T2, I0, I1) by { assert(stp(P, T1, T2, I1, I1)); stp_trans(P, T0, T1, T2, I0, I1, I1); }
@ }
                    self.fill_one(node_id, observer);
                } else {
                    break;
                }
            }
        }
@ let ghost T4 = sT(self); let ghost I4 = ids(sF(self));
@ proof { nid_is(P, sF(self), node_id); }
        if self.basin_angle_satisfy(node_id) {
            self.fill_basin(node_id, observer);
@ proof { stp_trans(P, T0, T4, sT(self), I0, I4, ids(sF(self))); }
        }
    }

    pub fn should_fill(node: &NodeRef) -> (ret: bool)
@ requires nref_ok(*node),
@ ensures !ret ==> 0 < node.index < node.advancing_front.nodes@.len() - 1 && orient(fk(node.advancing_front.nodes@, node.index - 1), fk(node.advancing_front.nodes@, node.index as int), fk(node.advancing_front.nodes@, node.index + 1)) >= 0real, // [C06]
{
        let next = node.next().rt_unwrap();
        let prev_node = node.prev().rt_unwrap();
        let angle = Angle::new(node.point(), next.point(), prev_node.point());
        if angle.is_negative()
            || orient_2d(prev_node.point(), node.point(), next.point()).is_cw()
        {
            return true;
        } else if !angle.exceeds_90_degree() {
            return false;
        }
        if let Some(next_next) = next.next() {
            if Angle::new(node.point(), next_next.point(), prev_node.point())
                .between_0_to_90_degree()
            {
                return false;
            }
        }
        if let Some(prev_prev) = prev_node.prev() {
            if Angle::new(node.point(), next.point(), prev_prev.point()).between_0_to_90_degree() {
                return false;
            }
        }
        true
    }
}

pub
struct FillOne {
    pub
    prev: NodeId,
    pub
    next: NodeId,
}

pub
struct ConstrainedEdge {
    pub
    constrained_edge: Edge,
    pub
    p: Point,
    pub
    q: Point,
    pub
    right: bool,
}

impl ConstrainedEdge {

    pub fn p_id(&self) -> (ret: PointId)
@ ensures ret == self.constrained_edge.p
{
        self.constrained_edge.p
    }

    pub fn q_id(&self) -> (ret: PointId)
@ ensures ret == self.constrained_edge.q
{
        self.constrained_edge.q
    }

    pub fn with_q(&self, q: PointId, context: &Sweeper) -> (ret: Self)
@ requires q.0 < sP(context).len(), // [C04]
@ ensures ret.constrained_edge.p == self.constrained_edge.p, ret.constrained_edge.q == q,
{
        let q_point = q.get(&context.points);
        Self {
            constrained_edge: Edge {
                p: self.constrained_edge.p,
                q,
            },
            p: self.p,
            q: q_point,
            right: self.p.x > q_point.x,
        }
    }
}

impl Sweeper<'_> {

    pub fn edge_event(&mut self, edge: Edge, q: Point, observer: &mut dyn Observer)
@ requires sok(old(self)), legal_but(sP(old(self)), sT(old(self)), seq![]), edge.p.0 < sP(old(self)).len(), edge.q.0 < sP(old(self)).len() - 2, q == sP(old(self))[edge.q.0 as int], // [C04]
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     legal_but(sP(old(self)), sT(final(self)), seq![]), // [C08]
@     covered(sP(old(self)), sT(final(self)), edge.p, edge.q), // [C07]
@     madd(sP(old(self)), sT(old(self)), sT(final(self)), edge.p, edge.q), // [C17]
@     cmono(sT(old(self)), sT(final(self))), sub(ids(sF(old(self))), ids(sF(final(self)))), sT(final(self)).len() >= sT(old(self)).len(), // [C07] [C18]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0);
@ proof { f_sorted(P, F0); stp_same(P, T0, I0); front_ends(self); id_range(*self.points, F0, edge.q); }
        let p = edge.p.get(&self.points);
        let constrain_edge = ConstrainedEdge {
            constrained_edge: edge,
            p,
            q,
            right: p.x > q.x,
        };
        {
            let node = self.advancing_front.get_node_with_cache(q).rt_unwrap();
            let triangle_id = node.triangle.rt_unwrap();
            let node_id = node.get_node_id();
@ let ghost s0 = *self;
@ proof { ent_tri(self, node.index as int, edge.q); assert(I0[node.index as int] == edge.q); }
            if self.try_mark_edge_for_triangle(edge.p, edge.q, triangle_id) {
@ proof {
@     let i = choose|i: int| marks(T0, sT(self), edge.p, edge.q, triangle_id, i);
@     con_es(&s0, self, seq![], triangle_id, i); cov_one(P, sT(self), edge.p, edge.q);
@     onseg_ends(P, edge.p, edge.q); madd_con(P, T0, sT(self), triangle_id, i, edge.p, edge.q, edge.p, edge.q);
@ }
                return;
            }
@ proof { assert(sT(self) == T0); }
            self.fill_edge_event(&constrain_edge, node_id, observer);
        }
@ let ghost T1 = sT(self); let ghost F1 = sF(self);
@ proof { f_sorted(P, F1); front_ends(self); id_range(*self.points, F1, edge.q); }
        let triangle = self
            .advancing_front
            .get_node_with_cache(q)
            .rt_unwrap()
            .triangle
            .rt_unwrap();
        let mut triangle_ids = std::mem::take(&mut self.triangle_id_queue);
@ proof { assert(triangle_ids@ =~= seq![]); assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, sT(self), x, y) implies triangle_ids@.contains(x) || triangle_ids@.contains(y) by { assert(illp(P, T0, x, y)); assert(seq![].contains(x) || seq![].contains(y)); }
@     let m = choose|m: int| 0 <= m < sF(self).len() && fk(sF(self), m) == p2(q) && Some(triangle) == tri_opt(ftri(sF(self), m)); ent_tri(self, m, edge.q); }
        self.edge_event_process(
            edge.p,
            edge.q,
            &constrain_edge,
            triangle,
            edge.q,
            &mut triangle_ids,
        );
@ let ghost L = triangle_ids@; let ghost T2 = sT(self); let ghost I2 = ids(sF(self));
        let mut i__0 = rt_iter( triangle_ids.rt_drain());
@ proof { assert(L.skip(0) =~= L); }
        while let Some( triangle_id) = i__0.next()
@     invariant i__0.ok(), i__0.v@ == L, triangle_ids@.len() == 0, frame(old(self), self), olog(observer) == olog(old(observer)), sok(self), ids(sF(self)) == I2, sT(self).len() == T2.len(), cmono(T2, sT(self)), cback(T2, sT(self)),
@         all_valid(T2, L), legal_but(P, sT(self), L.skip(i__0.pos as int)), P == sP(self),
 {
@ let ghost T3 = sT(self); let ghost k = i__0.pos - 1;
@ proof { assert(valid(T2, L[k])); assert(lag(sF(self), tris(sF(self)), seq![triangle_id])); }
            self.legalize(triangle_id, observer);
@ proof {
@     skip_has(L, k);
@     assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, sT(self), x, y) implies L.skip(k + 1).contains(x) || L.skip(k + 1).contains(y) by { assert(illp(P, T3, x, y)); }
@     assert forall|a: PointId, b: PointId| cedge(T2, a, b) implies #[trigger] cedge(sT(self), a, b) by { assert(cedge(T3, a, b)); }
@ }
        }
        self.triangle_id_queue = triangle_ids;
@ proof {
@     let T4 = sT(self);
@     assert forall|x: TriangleId, y: TriangleId| #[trigger] illp(P, T4, x, y) implies seq![].contains(x) || seq![].contains(y) by { assert(L.skip(i__0.pos as int).contains(x) || L.skip(i__0.pos as int).contains(y)); }
@     cov_mono(P, T2, T4, edge.p, edge.q);
@     madd_back(P, T0, T1, edge.p, edge.q); madd_trans(P, T0, T1, T2, edge.p, edge.q); madd_back(P, T2, T4, edge.p, edge.q); madd_trans(P, T0, T2, T4, edge.p, edge.q);
@     assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(T4, a, b) by { assert(cedge(T1, a, b)); assert(cedge(T2, a, b)); }
@ }
    }

    pub fn try_mark_edge_for_triangle(&mut self, p: PointId, q: PointId, t_id: TriangleId) -> (ret: bool)
@ requires mesh(sP(old(self)), sT(old(self))), valid(sT(old(self)), t_id), // [C04] [C05]
@ ensures frame(old(self), final(self)), *final(self).advancing_front == *old(self).advancing_front,
@     final(self).legalize_task_queue == old(self).legalize_task_queue, final(self).legalize_remap_tids == old(self).legalize_remap_tids, final(self).triangle_id_queue == old(self).triangle_id_queue,
@     marking(sT(old(self)), sT(final(self)), p, q, t_id, ret), // [C05] [C07] [C17]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost ti = t_id.0 as int;
@ proof { assert(tri_ok(P, T0[ti])); tri_dist(P, T0[ti]); assert(T0.update(ti, T0[ti]) =~= T0); }
        let triangle = self.triangles.get_mut_unchecked(t_id);
        let Some(index) = triangle.edge_index(p, q) else { return false; };
@ let ghost i = index as int;
        triangle.set_constrained(index, true);
        let neighbor_t_id = triangle.neighbors[index];
@ let ghost j = opp(T0[ti], i, T0[neighbor_t_id.0 as int]);
        if !neighbor_t_id.invalid() {
@ proof { let k = nb_at(P, T0, ti, i); }
            let ot = self.triangles.get_mut_unchecked(neighbor_t_id);
            let index = ot.neighbor_index(t_id);
@ proof { let k = nb_at(P, T0, neighbor_t_id.0 as int, index as int); opp_is(P, T0[ti], i, T0[neighbor_t_id.0 as int], j); rev_unique(P, T0[neighbor_t_id.0 as int], index as int, T0[ti], k, j, i); }
            ot.set_constrained(index, true);
        }
@ proof { assert(con_add(T0, sT(self), t_id, i)); assert(marks(T0, sT(self), p, q, t_id, i)); }
        true
    }

    pub fn fill_edge_event(
        &mut self,
        edge: &ConstrainedEdge,
        node_id: NodeId,
        observer: &mut dyn Observer,
    )
@ requires sok(old(self)), nid(sP(old(self)), node_id), ids(sF(old(self))).contains(node_id.point_id),
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     stp(sP(old(self)), sT(old(self)), sT(final(self)), ids(sF(old(self))), ids(sF(final(self)))), // [C07] [C08] [C17] [C18]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0);
@ proof { f_sorted(P, F0); stp_same(P, T0, I0); nid_is(P, F0, node_id); front_ends(self); }
        if edge.right {
            self.fill_right_above_edge_event(edge, node_id, observer);
        } else {
            self.fill_left_above_edge_event(edge, node_id, observer);
        }
    }

    pub fn fill_right_above_edge_event(
        &mut self,
        edge: &ConstrainedEdge,
        node_id: NodeId,
        observer: &mut dyn Observer,
    )
@ requires sok(old(self)), nid(sP(old(self)), node_id),
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     stp(sP(old(self)), sT(old(self)), sT(final(self)), ids(sF(old(self))), ids(sF(final(self)))), // [C07] [C08] [C17] [C18]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0);
@ proof { f_sorted(P, F0); stp_same(P, T0, I0); nid_is(P, F0, node_id); front_ends(self); }
        let mut node_id = node_id.clone();
        while let Some(next_node) = self.advancing_front.locate_next_node(node_id)
@     invariant frame(old(self), self), olog(observer) == olog(old(observer)), sok(self), nid(P, node_id), nid_ok(sF(self), node_id), stp(P, T0, sT(self), I0, ids(sF(self))),
 {
@ let ghost T1 = sT(self); let ghost F1 = sF(self); let ghost I1 = ids(F1); let ghost k = next_node.index as int;
@ proof { f_sorted(P, F1); assert(F1[k].key.0 == P[fid(F1, k).0 as int]); }
            if next_node.point().x >= edge.p.x {
                break;
            }
            if orient_2d(edge.q, next_node.point(), edge.p).is_ccw() {
                self.fill_right_below_edge_event(edge, node_id, observer);
@ proof { stp_trans(P, T0, T1, sT(self), I0, I1, ids(sF(self))); nid_is(P, sF(self), node_id); }
            } else {
@ proof { nid_is(P, F1, NodeId { point_id: next_node.point_id, point: next_node.point, index_hint: 0 }); }
                node_id = next_node.get_node_id();
            }
        }
    }

    pub fn fill_right_below_edge_event(
        &mut self,
        edge: &ConstrainedEdge,
        node_id: NodeId,
        observer: &mut dyn Observer,
    ) -> (ret: Option<()>)
@ requires sok(old(self)), nid(sP(old(self)), node_id),
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     stp(sP(old(self)), sT(old(self)), sT(final(self)), ids(sF(old(self))), ids(sF(final(self)))), // [C07] [C08] [C17] [C18]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0);
@ proof { f_sorted(P, F0); stp_same(P, T0, I0); nid_is(P, F0, node_id); front_ends(self); }
        if node_id.point().x >= edge.p.x {
            return None;
        }
        let node = self.advancing_front.get_node_with_id(node_id).rt_unwrap();
        let next_node = node.next().rt_unwrap();
        let next_next_node = next_node.next().rt_unwrap();
        if orient_2d(node.point(), next_node.point(), next_next_node.point()).is_ccw() {
@ proof { turn(P, F0, next_node.index as int); }
            self.fill_right_concave_edge_event(edge, node_id, observer);
        } else {
            self.fill_right_convex_edge_event(edge, node_id, observer)?;
@ let ghost T1 = sT(self); let ghost I1 = ids(sF(self));
            self.fill_right_below_edge_event(edge, node_id, observer);
@ proof { stp_trans(P, T0, T1, sT(self), I0, I1, ids(sF(self))); }
        }
        Some(())
    }

    pub fn fill_right_concave_edge_event(
        &mut self,
        edge: &ConstrainedEdge,
        node_id: NodeId,
        observer: &mut dyn Observer,
    )
@ requires sok(old(self)), nid(sP(old(self)), node_id), rcon(sP(old(self)), ids(sF(old(self))), node_id.point_id),
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     stp(sP(old(self)), sT(old(self)), sT(final(self)), ids(sF(old(self))), ids(sF(final(self)))), // [C07] [C08] [C17] [C18]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0);
@ proof { f_sorted(P, F0); stp_same(P, T0, I0); nid_is(P, F0, node_id); front_ends(self); }
@ let ghost id = node_id.point_id; let ghost k = choose|k: int| #[trigger] rcon_at(P, I0, id, k);
@ proof { assert(I0[k] == fid(F0, k)); }
        let next_id = {
            let next_node = self.advancing_front.locate_next_node(node_id).rt_unwrap();
            let next_id = next_node.get_node_id();
@ proof {
@     assert(F0[k + 1].key.0 == P[fid(F0, k + 1).0 as int]);
@     assert(next_node.index == k + 1); assert(I0[k + 1] == fid(F0, k + 1));
@     assert forall|m: int| 0 < m < F0.len() - 1 && #[trigger] fid(F0, m) == next_id.point_id implies cor(P, I0, m) by { assert(I0[m] == I0[k + 1]); at_uniq(P, I0, m, k + 1); }
@     at_uniq(P, I0, k + 1, 0); at_uniq(P, I0, k + 1, I0.len() - 1);
@     assert forall|T2: Seq<InnerTriangle>, I2: Seq<PointId>, f: FillOne| #[trigger] fill_res(P, I0, I2, next_id.point_id, f) && #[trigger] keeps(P, T0, T2) implies filled(P, I0, I2, k + 1, next_id.point_id, f) && stp(P, T0, T2, I0, I2) by { fill_is(P, T0, T2, I0, I2, next_id.point_id, f, k + 1); }
@ }
            match self.fill_one(next_id, observer) {
                None => {
                    next_id
                }
                Some(fill_one) => fill_one.next,
            }
        };
@ let ghost T1 = sT(self); let ghost F1 = sF(self); let ghost I1 = ids(F1);
@ proof { f_sorted(P, F1); nid_is(P, F1, next_id); assert(I1[k] == I0[k] && I1[k + 1] == I0[k + 2]); assert(I1[k] == fid(F1, k) && I1[k + 1] == fid(F1, k + 1)); assert(F1[k].key.0 == P[fid(F1, k).0 as int]); assert(F1[k + 1].key.0 == P[fid(F1, k + 1).0 as int]); }
        if next_id.point_id() != edge.p_id() {
            if orient_2d(edge.q, next_id.point(), edge.p).is_ccw() {
                let next_next_node = self.advancing_front.locate_next_node(next_id).rt_unwrap();
                if orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_ccw() {
@ proof { assert(lt(fk(F1, k + 1), fk(F1, k + 2))); assert(next_next_node.index == k + 2); turn(P, F1, k + 1); }
                    self.fill_right_concave_edge_event(edge, node_id, observer);
@ proof { stp_trans(P, T0, T1, sT(self), I0, I1, ids(sF(self))); }
                } else {
                }
            }
        }
    }

    pub fn fill_right_convex_edge_event(
        &mut self,
        edge: &ConstrainedEdge,
        node_id: NodeId,
        observer: &mut dyn Observer,
    ) -> (ret: Option<()>)
@ requires sok(old(self)), nid(sP(old(self)), node_id),
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     stp(sP(old(self)), sT(old(self)), sT(final(self)), ids(sF(old(self))), ids(sF(final(self)))), // [C07] [C08] [C17] [C18]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0);
@ proof { f_sorted(P, F0); stp_same(P, T0, I0); nid_is(P, F0, node_id); front_ends(self); }
        let next_node = self.advancing_front.locate_next_node(node_id).rt_unwrap();
        let next_next_node = next_node.next().rt_unwrap();
        let next_next_next_node = next_next_node.next()?;
@ let ghost j = next_node.index as int;
@ proof { assert(F0[j].key.0 == P[fid(F0, j).0 as int]); }
        if orient_2d(
            next_node.point(),
            next_next_node.point(),
            next_next_next_node.point(),
        )
        .is_ccw()
        {
@ proof { turn(P, F0, j + 1); }
            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
        } else {
            if orient_2d(edge.q, next_next_node.point(), edge.p).is_ccw() {
                self.fill_right_convex_edge_event(edge, next_node.get_node_id(), observer)?;
            } else {
            }
        }
        Some(())
    }

    pub fn fill_left_above_edge_event(
        &mut self,
        edge: &ConstrainedEdge,
        node_id: NodeId,
        observer: &mut dyn Observer,
    )
@ requires sok(old(self)), nid(sP(old(self)), node_id), ids(sF(old(self))).contains(node_id.point_id),
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     stp(sP(old(self)), sT(old(self)), sT(final(self)), ids(sF(old(self))), ids(sF(final(self)))), // [C07] [C08] [C17] [C18]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0);
@ proof { f_sorted(P, F0); stp_same(P, T0, I0); nid_is(P, F0, node_id); front_ends(self); }
        let mut node_id = node_id.clone();
        while let Some(prev_node) = self.advancing_front.locate_prev_node(node_id)
@     invariant frame(old(self), self), olog(observer) == olog(old(observer)), sok(self), nid(P, node_id), nid_ok(sF(self), node_id), ids(sF(self)).contains(node_id.point_id), stp(P, T0, sT(self), I0, ids(sF(self))),
 {
@ let ghost T1 = sT(self); let ghost F1 = sF(self); let ghost I1 = ids(F1); let ghost k = prev_node.index as int;
@ proof { f_sorted(P, F1); assert(F1[k].key.0 == P[fid(F1, k).0 as int]); assert(I1[k] == fid(F1, k)); }
            if prev_node.point().x <= edge.p.x {
                break;
            }
            if orient_2d(edge.q, prev_node.point(), edge.p).is_cw() {
                self.fill_left_below_edge_event(edge, node_id, observer);
@ proof { stp_trans(P, T0, T1, sT(self), I0, I1, ids(sF(self))); nid_is(P, sF(self), node_id); let m = choose|m: int| 0 <= m < I1.len() && I1[m] == node_id.point_id; assert(le(p2(node_id.point), pp(P, I1[m]))); }
            } else {
@ proof { nid_is(P, F1, NodeId { point_id: prev_node.point_id, point: prev_node.point, index_hint: 0 }); }
                node_id = prev_node.get_node_id();
            }
        }
    }

    pub fn fill_left_below_edge_event(
        &mut self,
        edge: &ConstrainedEdge,
        node_id: NodeId,
        observer: &mut dyn Observer,
    ) -> (ret: Option<()>)
@ requires sok(old(self)), nid(sP(old(self)), node_id), ids(sF(old(self))).contains(node_id.point_id),
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     stp(sP(old(self)), sT(old(self)), sT(final(self)), ids(sF(old(self))), ids(sF(final(self)))), // [C07] [C08] [C17] [C18]
@     kept(sP(old(self)), ids(sF(old(self))), ids(sF(final(self))), p2(node_id.point)),
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0);
@ proof { f_sorted(P, F0); stp_same(P, T0, I0); nid_is(P, F0, node_id); front_ends(self); }
        if node_id.point().x > edge.p.x {
            let prev_node = self.advancing_front.locate_prev_node(node_id).rt_unwrap();
            let prev_prev_node = prev_node.prev().rt_unwrap();
@ let ghost j = prev_node.index as int; let ghost k = choose|k: int| 0 <= k < I0.len() && I0[k] == node_id.point_id;
@ proof { assert(I0[k] == fid(F0, k)); assert(F0[k].key.0 == P[fid(F0, k).0 as int]); assert(lt(fk(F0, j), fk(F0, j + 1))); assert(k >= j + 1); assert(k == j + 1); orient_perm(fk(F0, k), fk(F0, k - 1), fk(F0, k - 2)); assert(le(p2(node_id.point), pp(P, I0[k]))); }
            if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
@ proof { turn(P, F0, j); }
                self.fill_left_concave_edge_event(edge, node_id, observer);
            } else {
                self.fill_left_convex_edge_event(edge, node_id, observer)?;
@ let ghost T1 = sT(self); let ghost I1 = ids(sF(self));
                self.fill_left_below_edge_event(edge, node_id, observer);
@ proof { stp_trans(P, T0, T1, sT(self), I0, I1, ids(sF(self))); kept_trans(P, I0, I1, ids(sF(self)), p2(node_id.point), p2(node_id.point)); }
            }
            Some(())
        } else {
            None
        }
    }

    pub fn fill_left_convex_edge_event(
        &mut self,
        edge: &ConstrainedEdge,
        node_id: NodeId,
        observer: &mut dyn Observer,
    ) -> (ret: Option<()>)
@ requires sok(old(self)), nid(sP(old(self)), node_id),
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     stp(sP(old(self)), sT(old(self)), sT(final(self)), ids(sF(old(self))), ids(sF(final(self)))), // [C07] [C08] [C17] [C18]
@     kept(sP(old(self)), ids(sF(old(self))), ids(sF(final(self))), p2(node_id.point)),
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0);
@ proof { f_sorted(P, F0); stp_same(P, T0, I0); nid_is(P, F0, node_id); front_ends(self); }
        let prev_node = self.advancing_front.locate_prev_node(node_id).rt_unwrap();
        let prev_prev_node = prev_node.prev().rt_unwrap();
        let prev_prev_prev_node = prev_prev_node.prev()?;
@ let ghost j = prev_node.index as int;
@ proof { assert(F0[j].key.0 == P[fid(F0, j).0 as int]); orient_perm(fk(F0, j), fk(F0, j - 1), fk(F0, j - 2));
@     assert forall|I2: Seq<PointId>| kept(P, I0, I2, fk(F0, j)) implies #[trigger] kept(P, I0, I2, p2(node_id.point)) by { kept_trans(P, I0, I0, I2, p2(node_id.point), fk(F0, j)); } }
        if orient_2d(
            prev_node.point(),
            prev_prev_node.point(),
            prev_prev_prev_node.point(),
        )
        .is_cw()
        {
@ proof { turn(P, F0, j - 1); }
            self.fill_left_concave_edge_event(edge, prev_node.get_node_id(), observer);
        } else {
            if orient_2d(edge.q, prev_prev_node.point(), edge.p).is_cw() {
                self.fill_left_convex_edge_event(edge, prev_node.get_node_id(), observer)?;
            } else {
            }
        }
        Some(())
    }

    pub fn fill_left_concave_edge_event(
        &mut self,
        edge: &ConstrainedEdge,
        node_id: NodeId,
        observer: &mut dyn Observer,
    )
@ requires sok(old(self)), nid(sP(old(self)), node_id), lcon(sP(old(self)), ids(sF(old(self))), node_id.point_id),
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     stp(sP(old(self)), sT(old(self)), sT(final(self)), ids(sF(old(self))), ids(sF(final(self)))), // [C07] [C08] [C17] [C18]
@     kept(sP(old(self)), ids(sF(old(self))), ids(sF(final(self))), p2(node_id.point)),
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0);
@ proof { f_sorted(P, F0); stp_same(P, T0, I0); nid_is(P, F0, node_id); front_ends(self); }
        let prev_node = self.advancing_front.locate_prev_node(node_id).rt_unwrap();
        let prev_node_id = prev_node.get_node_id();
@ let ghost id = node_id.point_id; let ghost k = choose|k: int| #[trigger] lcon_at(P, I0, id, k);
@ proof {
@     assert(I0[k] == fid(F0, k)); assert(F0[k].key.0 == P[fid(F0, k).0 as int]);
@     assert(F0[k - 1].key.0 == P[fid(F0, k - 1).0 as int]);
@     assert(prev_node.index == k - 1); assert(I0[k - 1] == fid(F0, k - 1));
@     assert forall|m: int| 0 < m < F0.len() - 1 && #[trigger] fid(F0, m) == prev_node_id.point_id implies cor(P, I0, m) by { assert(I0[m] == I0[k - 1]); at_uniq(P, I0, m, k - 1); }
@     at_uniq(P, I0, k - 1, 0); at_uniq(P, I0, k - 1, I0.len() - 1); at_uniq(P, I0, k - 1, k);
@     assert forall|T2: Seq<InnerTriangle>, I2: Seq<PointId>, f: FillOne| #[trigger] fill_res(P, I0, I2, prev_node_id.point_id, f) && #[trigger] keeps(P, T0, T2) implies filled(P, I0, I2, k - 1, prev_node_id.point_id, f) && stp(P, T0, T2, I0, I2) && kept(P, I0, I2, p2(node_id.point)) by { fill_is(P, T0, T2, I0, I2, prev_node_id.point_id, f, k - 1); fill_kept(P, T0, T2, I0, I2, prev_node_id.point_id, f, p2(node_id.point)); }
@ }
        let prev_node_id = match self.fill_one(prev_node_id, observer) {
            Some(fill_one) => fill_one.prev,
            None => prev_node_id,
        };
@ let ghost T1 = sT(self); let ghost F1 = sF(self); let ghost I1 = ids(F1);
@ proof { f_sorted(P, F1); nid_is(P, F1, prev_node_id); assert(I1[k - 1] == I0[k] && I1[k - 2] == I0[k - 2]); assert(I1[k - 1] == fid(F1, k - 1) && I1[k - 2] == fid(F1, k - 2)); assert(F1[k - 1].key.0 == P[fid(F1, k - 1).0 as int]); assert(F1[k - 2].key.0 == P[fid(F1, k - 2).0 as int]); }
        if prev_node_id.point_id() != edge.p_id() {
            if orient_2d(edge.q, prev_node_id.point(), edge.p).is_cw() {
                let prev_node = self.advancing_front.get_node_with_id(prev_node_id).rt_unwrap();
                let prev_prev_node = prev_node.prev().rt_unwrap();
                if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
@ proof { let j = prev_node.index as int; at_uniq(P, I1, k - 2, j); assert(I1[j] == fid(F1, j)); orient_perm(fk(F1, k - 1), fk(F1, k - 2), fk(F1, k - 3)); turn(P, F1, k - 2); }
                    self.fill_left_concave_edge_event(edge, node_id, observer);
@ proof { stp_trans(P, T0, T1, sT(self), I0, I1, ids(sF(self))); kept_trans(P, I0, I1, ids(sF(self)), p2(node_id.point), p2(node_id.point)); }
                } else {
                }
            }
        }
    }

    pub fn edge_event_process(
        &mut self,
        ep: PointId,
        eq: PointId,
        constrain_edge: &ConstrainedEdge,
        triangle_id: TriangleId,
        p: PointId,
        triangle_ids: &mut Vec<TriangleId>,
    )
@ requires es(old(self), old(triangle_ids)@), ep.0 < sP(old(self)).len(), eq.0 < sP(old(self)).len(), p == eq, valid(sT(old(self)), triangle_id) || triangle_id == inv(), // [C04]
@ ensures frame(old(self), final(self)), es(final(self), final(triangle_ids)@), // [C05] [C06] [C08] [C11] [C12]
@     flipped(sT(old(self)), sT(final(self)), sF(old(self)), sF(final(self))), // [C07] [C18]
@     ep == constrain_edge.constrained_edge.p && eq == constrain_edge.constrained_edge.q ==> covered(sP(old(self)), sT(final(self)), ep, eq), // [C07]
@     ep == constrain_edge.constrained_edge.p && eq == constrain_edge.constrained_edge.q ==> madd(sP(old(self)), sT(old(self)), sT(final(self)), ep, eq), // [C17]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost ti = triangle_id.0 as int; let ghost s0 = *self; let ghost S = triangle_ids@;
@ proof { if triangle_id != inv() { assert(tri_ok(P, T0[ti])); tri_dist(P, T0[ti]); assert(nb(T0, ti, 0) && nb(T0, ti, 1) && nb(T0, ti, 2)); } }
        rt_assert(!triangle_id.invalid());
        if self.try_mark_edge_for_triangle(ep, eq, triangle_id) {
@ proof { let i = choose|i: int| marks(T0, sT(self), ep, eq, triangle_id, i); con_es(&s0, self, S, triangle_id, i); cov_one(P, sT(self), ep, eq); onseg_ends(P, ep, eq); madd_con(P, T0, sT(self), triangle_id, i, ep, eq, ep, eq); }
            return;
        }
@ proof { assert(sT(self) == T0); }
@ proof { assert(T0.update(ti, T0[ti]) =~= T0); }
        let triangle = self.triangles.get_mut_unchecked(triangle_id);
        let p1 = triangle.point_ccw(p);
        let o1 = orient_2d(
            eq.get(&self.points),
            p1.get(&self.points),
            ep.get(&self.points),
        );
        let past1 = o1.is_collinear()
            && !is_between(
                eq.get(&self.points),
                ep.get(&self.points),
                p1.get(&self.points),
            );
        if o1.is_collinear() && !past1 {
            let neighbor_across_t = triangle.neighbor_across(p);
            if self.try_mark_edge_for_triangle(eq, p1, triangle_id) {
@ let ghost T1 = sT(self);
@ proof { let i = choose|i: int| marks(T0, sT(self), eq, p1, triangle_id, i); con_es(&s0, self, S, triangle_id, i); cedge_sym(T1, eq, p1); not_end(P, T0[ti], p1, eq, ep); onseg_ends(P, ep, eq); onseg_mid(P, ep, p1, eq); madd_con(P, T0, T1, triangle_id, i, eq, p1, ep, eq); }
                self.edge_event_process(
                    ep,
                    p1,
                    &constrain_edge.with_q(p1, self),
                    neighbor_across_t,
                    p1,
                    triangle_ids,
                );
@ proof {
@     let T2 = sT(self);
@     assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(T2, a, b) by { assert(cedge(T1, a, b)); }
@     assert(cedge(T2, p1, eq));
@     if ep == constrain_edge.constrained_edge.p && eq == constrain_edge.constrained_edge.q { neq(*self.points, ep, p1); cov_step(P, T2, ep, p1, eq); madd_sub(P, T1, T2, ep, p1, eq); madd_trans(P, T0, T1, T2, ep, eq); }
@ }
                return;
            } else {
                rt_panic()
            }
        }
        let p2 = triangle.point_cw(p);
        let o2 = orient_2d(
            eq.get(&self.points),
            p2.get(&self.points),
            ep.get(&self.points),
        );
        let past2 = o2.is_collinear()
            && !is_between(
                eq.get(&self.points),
                ep.get(&self.points),
                p2.get(&self.points),
            );
        if o2.is_collinear() && !past2 {
            let neighbor_across_t = triangle.neighbor_across(p);
            if self.try_mark_edge_for_triangle(eq, p2, triangle_id) {
@ let ghost T1 = sT(self);
@ proof { let i = choose|i: int| marks(T0, sT(self), eq, p2, triangle_id, i); con_es(&s0, self, S, triangle_id, i); cedge_sym(T1, eq, p2); not_end(P, T0[ti], p2, eq, ep); onseg_ends(P, ep, eq); onseg_mid(P, ep, p2, eq); madd_con(P, T0, T1, triangle_id, i, eq, p2, ep, eq); }
                self.edge_event_process(
                    ep,
                    p2,
                    &constrain_edge.with_q(p2, self),
                    neighbor_across_t,
                    p2,
                    triangle_ids,
                );
@ proof {
@     let T2 = sT(self);
@     assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(T2, a, b) by { assert(cedge(T1, a, b)); }
@     assert(cedge(T2, p2, eq));
@     if ep == constrain_edge.constrained_edge.p && eq == constrain_edge.constrained_edge.q { neq(*self.points, ep, p2); cov_step(P, T2, ep, p2, eq); madd_sub(P, T1, T2, ep, p2, eq); madd_trans(P, T0, T1, T2, ep, eq); }
@ }
                return;
            } else {
                rt_panic();
            }
        }
        if past1 || past2 {
            let nearer2 = past2
                && is_between(
                    eq.get(&self.points),
                    p1.get(&self.points),
                    p2.get(&self.points),
                );
            let triangle_id = if past1 && !nearer2 {
                triangle.neighbor_ccw(p)
            } else {
                triangle.neighbor_cw(p)
            };
            self.edge_event_process(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
        } else if o1 == o2 {
            let triangle_id = if o1.is_cw() {
                triangle.neighbor_ccw(p)
            } else {
                triangle.neighbor_cw(p)
            };
            self.edge_event_process(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
        } else {
            self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
        }
    }
}

impl Sweeper<'_> {

    pub fn flip_edge_event(
        &mut self,
        ep: PointId,
        eq: PointId,
        edge: &ConstrainedEdge,
        triangle_id: TriangleId,
        p: PointId,
        legalize_queue: &mut Vec<TriangleId>,
    )
@ requires es(old(self), old(legalize_queue)@), ep.0 < sP(old(self)).len(), eq.0 < sP(old(self)).len(), p == eq, valid(sT(old(self)), triangle_id), // [C04]
@ ensures frame(old(self), final(self)), es(final(self), final(legalize_queue)@), // [C05] [C06] [C08] [C11] [C12]
@     flipped(sT(old(self)), sT(final(self)), sF(old(self)), sF(final(self))), // [C07] [C18]
@     ep == edge.constrained_edge.p && eq == edge.constrained_edge.q ==> covered(sP(old(self)), sT(final(self)), ep, eq), // [C07]
@     madd(sP(old(self)), sT(old(self)), sT(final(self)), edge.constrained_edge.p, edge.constrained_edge.q), // [C17]
{
@ let ghost P = sP(self); let ghost cp = edge.constrained_edge.p; let ghost cq = edge.constrained_edge.q; let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost ti = triangle_id.0 as int; let ghost S = legalize_queue@;
@ proof { assert(tri_ok(P, T0[ti])); tri_dist(P, T0[ti]); assert(nb(T0, ti, 0) && nb(T0, ti, 1) && nb(T0, ti, 2)); }
        let t = triangle_id.get(&self.triangles);
        let ot_id = t.neighbor_across(p);
        if ot_id.invalid() {
            rt_panic();
        }
        let ot = ot_id.get(&self.triangles);
        let op = ot.opposite_point(t, p);
@ let ghost i = ix(*t, p); let ghost j = ix(*ot, op);
@ proof { let k = nb_at(P, T0, ti, i); assert(k == j); assert(tri_ok(P, *ot)); orient_perm(pp(P, p), pp(P, tp(*t, nx(i))), pp(P, op)); orient_perm(pp(P, tp(*t, pv(i))), pp(P, p), pp(P, op)); }
        if in_scan_area(
            p.get(&self.points),
            t.point_ccw(p).get(&self.points),
            t.point_cw(p).get(&self.points),
            op.get(&self.points),
        ) {
            if t.is_constrained(t.point_index(p).rt_unwrap()) {
                rt_panic();
            }
@ let ghost s0 = *self; let ghost mut rm = false; let ghost G1 = rot_g(T0, ids(F0), tris(F0), triangle_id, ot_id, i, j); let ghost L = seq![].push(triangle_id).push(ot_id);
            if self.rotate_triangle_pair(triangle_id, p, ot_id, op) {
@ proof { rot_es(&s0, self, triangle_id, ot_id, i, j, L); map_has(triangle_id, ot_id); rm = true; front_ends(&s0); }
                self.map_triangle_to_nodes(triangle_id);
@ let ghost F1 = sF(self);
@ proof { map_lag(P, sT(self), F0, F1, G1, self.points.head, self.points.tail, triangle_id, L, seq![ot_id]); }
@ let ghost F2 = sF(self);
@ proof { f_ends(F0, F2); }
                self.map_triangle_to_nodes(ot_id);
@ proof { map_lag(P, sT(self), F2, sF(self), G1, self.points.head, self.points.tail, ot_id, seq![ot_id], seq![]); lag_none(sT(self), sF(self), G1, self.points.head, self.points.tail, seq![]); }
            }
@ let ghost T1 = sT(self);
@ proof { if !rm { rot_es(&s0, self, triangle_id, ot_id, i, j, L); } assert(ids(sF(self)) == ids(F0)); assert(sok(self)); }
            legalize_queue.rt_extend([triangle_id, ot_id]);
@ let ghost S1 = legalize_queue@;
@ proof {
@     madd_back(P, T0, T1, cp, cq);
@     assert(S1 =~= S.push(triangle_id).push(ot_id)); push_has(S, triangle_id); push_has(S.push(triangle_id), ot_id);
@     assert(legal_but(P, T1, S1)); assert(all_valid(T1, S1));
@     assert(tri_ok(P, T1[ti]) && tri_ok(P, T1[ot_id.0 as int])); tri_dist(P, T1[ti]); tri_dist(P, T1[ot_id.0 as int]);
@ }
            if p == eq && op == ep {
                if eq == edge.q_id() && ep == edge.p_id() {
@ let ghost s1 = *self;
@ proof { rot_six(P, T0, triangle_id, ot_id, i, j); opp_is(P, T1[ti], i, T1[ot_id.0 as int], j); assert(joins(T1[ti], i, ep, eq) && joins(T1[ot_id.0 as int], j, ep, eq)); joins_uniq(T1[ti], ep, eq); joins_uniq(T1[ot_id.0 as int], ep, eq); }
                    self.triangles
                        .get_mut_unchecked(triangle_id)
                        .set_constrained_for_edge(ep, eq);
                    self.triangles
                        .get_mut_unchecked(ot_id)
                        .set_constrained_for_edge(ep, eq);
@ proof { assert(con_add(T1, sT(self), triangle_id, i)); con_es(&s1, self, S1, triangle_id, i); cov_one(P, sT(self), ep, eq); onseg_ends(P, ep, eq); madd_con(P, T1, sT(self), triangle_id, i, ep, eq, ep, eq); madd_trans(P, T0, T1, sT(self), cp, cq); }
                }
@ proof { assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(sT(self), a, b) by { assert(cedge(T1, a, b)); } }
            } else {
                let o = orient_2d(
                    eq.get(&self.points),
                    op.get(&self.points),
                    ep.get(&self.points),
                );
                let t = Self::next_flip_triangle(o, triangle_id, ot_id, legalize_queue);
@ proof { push_has(S1, triangle_id); push_has(S1, ot_id); assert(es(self, legalize_queue@)); }
                self.flip_edge_event(ep, eq, edge, t, p, legalize_queue);
@ proof { madd_trans(P, T0, T1, sT(self), cp, cq); assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(sT(self), a, b) by { assert(cedge(T1, a, b)); } }
            }
        } else {
            let new_p = self.next_flip_point(ep, eq, ot_id, op);
            self.flip_scan_edge_event(ep, eq, edge, triangle_id, ot_id, new_p, legalize_queue);
@ let ghost T1 = sT(self);
            self.edge_event_process(ep, eq, edge, triangle_id, p, legalize_queue);
@ // what `quiet` means, for a segment that is not the edge
@ proof { assume(quiet() && !(ep == cp && eq == cq) ==> madd(P, T1, sT(self), cp, cq)); if !quiet() { madd_off(P, T1, sT(self), cp, cq); } madd_trans(P, T0, T1, sT(self), cp, cq); assert forall|a: PointId, b: PointId| cedge(T0, a, b) implies #[trigger] cedge(sT(self), a, b) by { assert(cedge(T1, a, b)); } }
        }
    }

    pub fn next_flip_triangle(
        o: Orientation,
        t: TriangleId,
        ot: TriangleId,
        triangle_ids: &mut Vec<TriangleId>,
    ) -> (ret: TriangleId)
@ ensures (ret == t && final(triangle_ids)@ == old(triangle_ids)@.push(ot)) || (ret == ot && final(triangle_ids)@ == old(triangle_ids)@.push(t)),
{
        if o.is_ccw() {
            triangle_ids.push(ot);
            t
        } else {
            triangle_ids.push(t);
            ot
        }
    }

    pub fn next_flip_point(
        &mut self,
        ep: PointId,
        eq: PointId,
        ot: TriangleId,
        op: PointId,
    ) -> (ret: PointId)
@ requires ep.0 < sP(old(self)).len(), eq.0 < sP(old(self)).len(), op.0 < sP(old(self)).len(), valid(sT(old(self)), ot), // [C04]
@ ensures *final(self) == *old(self), has(sT(old(self))[ot.0 as int], ret),
{
        let o2d = orient_2d(
            eq.get(&self.points),
            op.get(&self.points),
            ep.get(&self.points),
        );
        let ot = self.triangles.get_unchecked(ot);
        match o2d {
            Orientation::CW => {
                ot.point_ccw(op)
            }
            Orientation::CCW => {
                ot.point_cw(op)
            }
            Orientation::Collinear => {
                rt_panic();
            }
        }
    }

    pub fn flip_scan_edge_event(
        &mut self,
        ep: PointId,
        eq: PointId,
        edge: &ConstrainedEdge,
        flip_triangle_id: TriangleId,
        t_id: TriangleId,
        p: PointId,
        triangle_ids: &mut Vec<TriangleId>,
    )
@ requires es(old(self), old(triangle_ids)@), ep.0 < sP(old(self)).len(), eq.0 < sP(old(self)).len(), valid(sT(old(self)), flip_triangle_id), valid(sT(old(self)), t_id), // [C04]
@ ensures frame(old(self), final(self)), es(final(self), final(triangle_ids)@), // [C05] [C06] [C08] [C11] [C12]
@     flipped(sT(old(self)), sT(final(self)), sF(old(self)), sF(final(self))), // [C07] [C18]
@     madd(sP(old(self)), sT(old(self)), sT(final(self)), edge.constrained_edge.p, edge.constrained_edge.q), // [C17]
{
@ let ghost P = sP(self); let ghost T0 = sT(self);
@ proof { assert(tri_ok(P, T0[t_id.0 as int]) && tri_ok(P, T0[flip_triangle_id.0 as int])); assert(nb(T0, t_id.0 as int, 0) && nb(T0, t_id.0 as int, 1) && nb(T0, t_id.0 as int, 2)); }
        let t = t_id.get(&self.triangles);
        let ot = t.neighbor_across(p);
        if ot.invalid() {
            rt_panic();
        }
        let op = ot.get(&self.triangles).opposite_point(t, p);
@ proof { assert(tri_ok(P, T0[ot.0 as int])); }
        let flip_triangle = flip_triangle_id.get(&self.triangles);
        let p1 = flip_triangle.point_ccw(eq);
        let p2 = flip_triangle.point_cw(eq);
        if in_scan_area(
            eq.get(&self.points),
            p1.get(&self.points),
            p2.get(&self.points),
            op.get(&self.points),
        ) {
            self.flip_edge_event(eq, op, edge, ot, op, triangle_ids);
        } else {
            let new_p = self.next_flip_point(ep, eq, ot, op);
            self.flip_scan_edge_event(ep, eq, edge, flip_triangle_id, ot, new_p, triangle_ids);
        }
    }
}

pub
struct Basin {
    pub
    left: Point,
    pub
    right: Point,
    pub
    width: Float,
    pub
    left_higher: bool,
}

impl Basin {

    pub fn is_shallow(&self, point: Point) -> (ret: bool) {
        let height = if self.left_higher {
            self.left.y - point.y
        } else {
            self.right.y - point.y
        };
        self.width > height
    }

    pub fn completed(&self, point: Point) -> (ret: bool) {
        if point.x >= self.right.x || point.x <= self.left.x {
            return true;
        }
        self.is_shallow(point)
    }
}

impl Sweeper<'_> {

    pub fn basin_angle_satisfy(&self, node_id: NodeId) -> (ret: bool)
@ requires af_ok(*self.advancing_front), nid_ok(sF(self), node_id),
{
        let TAN_3_4_PI: Float = Float::lit(Ghost(-1.0real));
        let Some(next) = self.advancing_front.locate_next_node(node_id) else { return false };
        let Some(next_next) = next.next() else { return false };
        let ax = node_id.point().x - next_next.point().x;
        let ay = node_id.point().y - next_next.point().y;
        if ax > Float::lit(Ghost(0.0real)) {
            ay < TAN_3_4_PI * ax
        } else {
            ay > TAN_3_4_PI * ax
        }
    }

    pub fn fill_basin(&mut self, node_point: NodeId, observer: &mut dyn Observer) -> (ret: Option<()>)
@ requires sok(old(self)), nid(sP(old(self)), node_point),
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     stp(sP(old(self)), sT(old(self)), sT(final(self)), ids(sF(old(self))), ids(sF(final(self)))), // [C07] [C08] [C17] [C18]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0);
@ proof { f_sorted(P, F0); stp_same(P, T0, I0); nid_is(P, F0, node_point); }
        let next_node = self.advancing_front.locate_next_node(node_point)?;
        let next_next_node = next_node.next()?;
        let left: NodeRef<'_>;
        if orient_2d(
            node_point.point(),
            next_node.point(),
            next_next_node.point(),
        )
        .is_ccw()
        {
            left = next_next_node;
        } else {
            left = next_node;
        }
        let mut bottom = left.clone();
@ let ghost lf = left.index as int; let ghost af = *self.advancing_front;
        while let Some(next_node) = bottom.next()
@     invariant af_ok(af), shows(af, bottom.index as int, bottom), lf <= bottom.index, desc(P, I0, lf, bottom.index as int), F0 == af.nodes@, I0 == ids(F0), keyed(P, F0),
 {
@ proof { assert(I0[bottom.index as int] == fid(F0, bottom.index as int) && I0[bottom.index + 1] == fid(F0, bottom.index + 1)); assert(F0[bottom.index as int].key.0 == P[fid(F0, bottom.index as int).0 as int] && F0[bottom.index + 1].key.0 == P[fid(F0, bottom.index + 1).0 as int]); }
            if bottom.point().y >= next_node.point().y {
@ proof { assert(dn(P, I0, bottom.index as int)); }
                bottom = next_node;
            } else {
                break;
            }
        }
        if bottom.point_id().eq(&left.point_id()) {
            return None;
        }
        let mut right: NodeRef = bottom.clone();
@ let ghost bt = bottom.index as int;
        while let Some(next_node) = right.next()
@     invariant af_ok(af), shows(af, right.index as int, right), bt <= right.index, asce(P, I0, bt, right.index as int), F0 == af.nodes@, I0 == ids(F0), keyed(P, F0),
 {
@ proof { assert(I0[right.index as int] == fid(F0, right.index as int) && I0[right.index + 1] == fid(F0, right.index + 1)); assert(F0[right.index as int].key.0 == P[fid(F0, right.index as int).0 as int] && F0[right.index + 1].key.0 == P[fid(F0, right.index + 1).0 as int]); }
            if right.point().y < next_node.point().y {
@ proof { assert(up(P, I0, right.index as int)); }
                right = next_node;
            } else {
                break;
            }
        }
        if right.point_id() == bottom.point_id() {
            return None;
        }
@ let ghost rt = right.index as int;
@ let ghost B = Basin { left: left.point, right: right.point, width: left.point.x, left_higher: true };
@ proof {
@     assert(I0[lf] == fid(F0, lf) && I0[bt] == fid(F0, bt) && I0[rt] == fid(F0, rt));
@     assert(F0[lf].key.0 == P[fid(F0, lf).0 as int] && F0[bt].key.0 == P[fid(F0, bt).0 as int] && F0[rt].key.0 == P[fid(F0, rt).0 as int]);
@     assert(lf <= bt && bt <= rt); assert(lf < bt); assert(bt < rt);
@     assert(dn(P, I0, bt - 1) && up(P, I0, bt));
@     valley(pp(P, I0[bt - 1]), pp(P, I0[bt]), pp(P, I0[bt + 1]));
@     assert forall|b: Basin| p2(b.left) == pp(P, I0[lf]) && p2(b.right) == pp(P, I0[rt]) implies #[trigger] bas_at(P, I0, b, I0[bt]) by { assert(bas(P, I0, b, lf, bt, rt)); }
@ }
        let width = right.point().x - left.point().x;
        let left_higher: bool = left.point().y > right.point().y;
        self.fill_basin_req(
            bottom.get_node_id(),
            &Basin {
                left: left.point(),
                right: right.point(),
                width,
                left_higher,
            },
            observer,
        );
        Some(())
    }

    pub fn fill_basin_req(
        &mut self,
        node: NodeId,
        basin: &Basin,
        observer: &mut dyn Observer,
    ) -> (ret: Option<()>)
@ requires sok(old(self)), nid(sP(old(self)), node), bas_at(sP(old(self)), ids(sF(old(self))), *basin, node.point_id), // [C06]
@ ensures frame(old(self), final(self)), olog(final(observer)) == olog(old(observer)), sok(final(self)), // [C05] [C06] [C11] [C12]
@     stp(sP(old(self)), sT(old(self)), sT(final(self)), ids(sF(old(self))), ids(sF(final(self)))), // [C07] [C08] [C17] [C18]
{
@ let ghost P = sP(self); let ghost T0 = sT(self); let ghost F0 = sF(self); let ghost I0 = ids(F0); let ghost id = node.point_id;
@ let ghost (lf, k, rt) = choose|lf: int, k: int, rt: int| #[trigger] bas(P, I0, *basin, lf, k, rt) && I0[k] == id;
@ proof { f_sorted(P, F0); stp_same(P, T0, I0);
@     assert forall|m: int| 0 < m < F0.len() - 1 && #[trigger] fid(F0, m) == id implies cor(P, I0, m) by { assert(I0[m] == id); at_uniq(P, I0, m, k); } }
        if basin.completed(node.point()) {
            return None;
        }
        let fill_one = self.fill_one(node, observer).rt_unwrap();
@ let ghost T1 = sT(self); let ghost F1 = sF(self); let ghost I1 = ids(F1);
@ proof { fill_is(P, T0, T1, I0, I1, id, fill_one, k); f_sorted(P, F1); nid_is(P, F1, fill_one.prev); nid_is(P, F1, fill_one.next); at_uniq(P, I0, k - 1, lf); at_uniq(P, I0, k + 1, rt); }
        let prev = fill_one.prev;
        let next = fill_one.next;
        if prev.point().eq(&basin.left) && next.point().eq(&basin.right) {
            return Some(());
        }
        let new_node = if prev.point().eq(&basin.left) {
            let next = self.advancing_front.get_node_with_id(next).rt_unwrap();
@ proof { assert(I1[next.index as int] == fid(F1, next.index as int)); assert(I1[k] == I0[k + 1]); at_uniq(P, I1, next.index as int, k); }
            let next_next = next.next().rt_unwrap();
@ proof { assert(I1[k + 1] == fid(F1, k + 1)); assert(I1[k + 1] == I0[k + 2]); }
            if orient_2d(node.point(), next.point(), next_next.point()).is_cw() {
                return None;
            }
@ proof { bas_next(P, I0, *basin, lf, k, rt); }
            next.get_node_id()
        } else if next.point().eq(&basin.right) {
            let prev = self.advancing_front.get_node_with_id(prev).rt_unwrap();
@ proof { assert(I1[prev.index as int] == fid(F1, prev.index as int)); assert(I1[k - 1] == I0[k - 1]); at_uniq(P, I1, prev.index as int, k - 1); }
            let prev_prev = prev.prev()?;
@ proof { assert(I1[k - 2] == fid(F1, k - 2)); assert(I1[k - 2] == I0[k - 2]); }
            if orient_2d(node.point(), prev.point(), prev_prev.point()).is_ccw() {
                return None;
            }
@ proof { bas_prev(P, I0, *basin, lf, k, rt); }
            prev.get_node_id()
        } else {
@ proof { if py(P, I0, k - 1) < py(P, I0, k + 1) { bas_prev(P, I0, *basin, lf, k, rt); } else { bas_next(P, I0, *basin, lf, k, rt); } }
            if prev.point().y < next.point().y {
                prev
            } else {
                next
            }
        };
@ proof { assert(bas_at(P, I1, *basin, new_node.point_id)); assert(nid(P, new_node)); assert forall|T2: Seq<InnerTriangle>, I2: Seq<PointId>| #[trigger] stp(P, T1, T2, I1, I2) implies stp(P, T0, T2, I0, I2) by { stp_trans(P, T0, T1, T2, I0, I1, I2); } }
        self.fill_basin_req(new_node, basin, observer)
    }
}

impl Sweeper<'_> {
}
