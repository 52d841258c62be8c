
pub enum LoaderError {
    Io( RtIoErr),
    Inner( RtErr),
}

pub trait Loader {

    fn load(&mut self, source: &str) -> (ret: Result<Builder, LoaderError>)
@ requires small_file(source@)
@ ensures load_ok(source@, ret) // [C13]
;
}

pub struct PlainFileLoader {}

impl Default for PlainFileLoader {

    fn default() -> (ret: Self) { Self {  } }
}

pub
enum ParseState {
    Polygon,
    Hole,
    Steiner,
}

impl Default for ParseState {

    fn default() -> (ret: Self)
@ ensures ret == ParseState::Polygon // [C13]
{ Self::Polygon }
}

impl Loader for PlainFileLoader {

    fn load(&mut self, path: &str) -> (ret: Result<Builder, LoaderError>) {
        let mut f = (match rt_open(path) { Ok(v__) => v__, Err(e__) => return Err(RtFrom::rt_from(e__)), });
        let mut value = "".rt_to_string();
        (match
        rt_read_to_string(&mut f, &mut value) { Ok(v__) => v__, Err(e__) => return Err(RtFrom::rt_from(e__)), });
@ proof { reveal_strlit(""); assert(exists|t: Seq<char>| read_of(path@, t) && value@ == ""@ + t); let t = choose|t: Seq<char>| read_of(path@, t) && value@ == ""@ + t; assert(value@ =~= t); }
@ let ghost L = lines_of(value@);
@ proof { reveal_strlit("HOLE"); reveal_strlit("STEINER"); assert("HOLE"@.len() != "STEINER"@.len()); }
        let mut state = ParseState::default();
        let mut polygon = Vec::new();
        let mut holes = Vec:: <Vec<Point>> ::new();
        let mut steiner_points = Vec:: <Point> ::new();
        let mut i__0 = rt_iter( value.rt_lines());
@ proof { assert(L.take(0) =~= Seq::<Seq<char>>::empty()); assert(hviews(holes@) =~= seq![]); }
        while let Some( line) = i__0.next()
@ invariant i__0.ok(), strs(i__0.v@) == L, read_of(path@, value@), L == lines_of(value@), L.len() <= max_points(),
@     so_far(polygon, holes, steiner_points, mode_of(state), L, i__0.pos as int), // [C13]
        {
@ let ghost k = i__0.pos - 1; let ghost A = says(L.take(k)).unwrap();
@ proof { assert(strs(i__0.v@)[k] == line@); assert(L.take(k + 1).drop_last() =~= L.take(k)); assert(L.take(k + 1).last() == line@); assert(says(L.take(k + 1)) == step(A, line@)); if says(L.take(k + 1)) is None { says_bad(L, k + 1); } }
@ let ghost H = holes@;
@ proof {
@     assert forall|v: Vec<Point>| v@.len() == 0 implies hviews(#[trigger] H.push(v)) == hviews(H).push(seq![]) && hviews(H.push(v)).drop_last() == hviews(H) by { assert(v@ =~= seq![]); assert(hviews(H.push(v)) =~= hviews(H).push(seq![])); assert(hviews(H.push(v)).drop_last() =~= hviews(H)); }
@ }
            if line.rt_eq("HOLE") {
                state = ParseState::Hole;
                holes.push(Vec::new());
                continue;
            } else if line.rt_eq("STEINER") {
                state = ParseState::Steiner;
                continue;
            }
            let Some(point) = (match parse_point(line) { Ok(v__) => v__, Err(e__) => return Err(RtFrom::rt_from(e__)), }) else {
                continue
            };
            match state {
                ParseState::Polygon => {
                    polygon.push(point);
                }
                ParseState::Hole => {
                    let current_hole = holes.rt_last_mut().rt_must();
                    current_hole.push(point);
@ proof { assert(hviews(holes@) =~= hviews(H).update(H.len() - 1, H.last()@.push(point))); flat_last(hviews(H), H.last()@.push(point)); }
                }
                ParseState::Steiner => {
                    steiner_points.push(point);
                }
            }
        }
@ proof { assert(L.take(L.len() as int) =~= L); is_built(says(L).unwrap()); assert(srcs(holes@) =~= hviews(holes@)); }
        Ok(Builder::new(polygon)
            .add_holes(holes)
            .add_steiner_points(steiner_points))
    }
}

pub fn parse_point(line: &str) -> (ret: Result<Option<Point>, LoaderError>)
@ ensures ret matches Ok(Some(p)) ==> line@.len() > 0 && point_of(line@) == Some(p), // [C13]
@     ret matches Ok(None) ==> line@.len() == 0, // [C13]
@     ret is Err ==> line@.len() > 0 && point_of(line@) is None, // [C13]
{
    if line.rt_is_empty() {
        return Ok(None);
    }
    let mut iter = line.rt_words();
@ proof { assert(strs(iter.v@) == words_of(line@)); assert(forall|i: int| 0 <= i < iter.v@.len() ==> words_of(line@)[i] == #[trigger] iter.v@[i]@); }
    let (Some(x), Some(y)) = (iter.next(), iter.next()) else {
        return Err(LoaderError::Inner("a point needs two coordinates".rt_err()));
    };
    let x = (match x
        .rt_parse()
        .map_err(|e| { LoaderError::Inner(e.rt_err()) }) { Ok(v__) => v__, Err(e__) => return Err(RtFrom::rt_from(e__)), });
    let y = (match y
        .rt_parse()
        .map_err(|e| { LoaderError::Inner(e.rt_err()) }) { Ok(v__) => v__, Err(e__) => return Err(RtFrom::rt_from(e__)), });
    Ok(Some(Point::new(x, y)))
}
