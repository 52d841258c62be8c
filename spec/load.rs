// Reading a data file (C13).  Strings, files and number parsing are trusted; what they are is left open.
#[verifier::external_body]
pub struct RtIoErr { e: std::io::Error }
#[verifier::external_body]
pub struct RtErr { e: Option<Box<i32>> }
#[verifier::external_body]
pub struct RtFile { f: std::fs::File }
impl RtFile { pub uninterp spec fn path(&self) -> Seq<char>; }
/// reading the file at `path` gave `text`
pub uninterp spec fn read_of(path: Seq<char>, text: Seq<char>) -> bool;
/// the file at `path` could not be read
pub uninterp spec fn unreadable(path: Seq<char>) -> bool;
/// str::lines, str::split_whitespace, str::parse::<f64>
pub uninterp spec fn lines_of(text: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn words_of(line: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn number(word: Seq<char>) -> Option<Float>;

#[verifier::external_body]
pub fn rt_open(path: &str) -> (r: Result<RtFile, RtIoErr>)
    ensures r matches Ok(f) ==> f.path() == path@, r is Err ==> unreadable(path@)
{ unimplemented!() }
#[verifier::external_body]
pub fn rt_read_to_string(f: &mut RtFile, s: &mut String) -> (r: Result<usize, RtIoErr>)
    ensures r is Ok ==> exists|t: Seq<char>| #[trigger] read_of(old(f).path(), t) && final(s)@ == old(s)@ + t,
        r is Err ==> unreadable(old(f).path())
{ unimplemented!() }
#[verifier::external_body]
pub fn rt_read_file(path: &str) -> (r: Result<String, RtIoErr>)
    ensures r matches Ok(s) ==> read_of(path@, s@), r is Err ==> unreadable(path@)
{ unimplemented!() }
pub trait RtStr {
    spec fn chars(&self) -> Seq<char>;
    fn rt_lines(&self) -> (r: RtIter<&str>) ensures r.pos == 0, strs(r.v@) == lines_of(self.chars());
    fn rt_words(&self) -> (r: RtIter<&str>) ensures r.ok(), r.pos == 0, strs(r.v@) == words_of(self.chars());
    fn rt_eq(&self, o: &str) -> (r: bool) ensures r == (self.chars() == o@);
    fn rt_ne(&self, o: &str) -> (r: bool) ensures r == (self.chars() != o@);
    fn rt_is_empty(&self) -> (r: bool) ensures r == (self.chars().len() == 0);
    fn rt_parse(&self) -> (r: Result<Float, RtErr>) ensures r matches Ok(v) ==> number(self.chars()) == Some(v), r is Err ==> number(self.chars()) is None;
    fn rt_to_string(&self) -> (r: String) ensures r@ == self.chars();
}
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
impl RtStr for str {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn rt_lines(&self) -> (r: RtIter<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn rt_words(&self) -> (r: RtIter<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn rt_eq(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn rt_ne(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn rt_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn rt_parse(&self) -> (r: Result<Float, RtErr>) { unimplemented!() }
    #[verifier::external_body]
    fn rt_to_string(&self) -> (r: String) { unimplemented!() }
}
impl RtStr for String {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn rt_lines(&self) -> (r: RtIter<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn rt_words(&self) -> (r: RtIter<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn rt_eq(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn rt_ne(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn rt_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn rt_parse(&self) -> (r: Result<Float, RtErr>) { unimplemented!() }
    #[verifier::external_body]
    fn rt_to_string(&self) -> (r: String) { unimplemented!() }
}
pub trait RtErrInto: Sized { fn rt_err(self) -> RtErr; }
impl<T> RtErrInto for T {
    #[verifier::external_body]
    fn rt_err(self) -> RtErr { unimplemented!() }
}
pub trait RtFrom<E>: Sized { fn rt_from(e: E) -> Self; }
impl RtFrom<RtIoErr> for LoaderError {
    #[verifier::external_body]
    fn rt_from(e: RtIoErr) -> Self { unimplemented!() }
}
impl RtFrom<RtErr> for LoaderError {
    #[verifier::external_body]
    fn rt_from(e: RtErr) -> Self { unimplemented!() }
}
impl RtFrom<LoaderError> for LoaderError {
    fn rt_from(e: LoaderError) -> (r: Self) { e }
}
// a panic while a file is read is a violation
pub trait RtMust<T> {
    spec fn good(&self, t: T) -> bool;
    spec fn has(&self) -> bool;
    fn rt_must(self) -> (r: T) requires self.has() /*[C13]*/ ensures self.good(r);
}
impl<T> RtMust<T> for Option<T> {
    open spec fn good(&self, t: T) -> bool { *self == Some(t) }
    open spec fn has(&self) -> bool { self is Some }
    #[verifier::external_body]
    fn rt_must(self) -> (r: T) { unimplemented!() }
}
impl<T, E> RtMust<T> for Result<T, E> {
    open spec fn good(&self, t: T) -> bool { *self == Result::<T, E>::Ok(t) }
    open spec fn has(&self) -> bool { self is Ok }
    #[verifier::external_body]
    fn rt_must(self) -> (r: T) { unimplemented!() }
}
#[verifier::external_body]
pub fn rt_no_panic() -> ! requires false /*[C13]*/ { panic!() }
#[verifier::external_body]
pub fn rt_holds(b: bool) requires b /*[C13]*/ {}
pub trait RtLast<T> { 
    spec fn lv(&self) -> Seq<T>;
    fn rt_last_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            Some(m) => old(self).lv().len() > 0 && *m == old(self).lv().last() && final(self).lv() == old(self).lv().update(old(self).lv().len() - 1, *final(m)),
            None => old(self).lv().len() == 0 && final(self).lv() == old(self).lv(),
        };
}
impl<T> RtLast<T> for Vec<T> {
    open spec fn lv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn rt_last_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() }
}

// ---- what a file says
/// the points read so far; mode: 0 polyline, 1 hole, 2 steiner points
pub struct Acc { pub poly: Seq<Point>, pub holes: Seq<Seq<Point>>, pub st: Seq<Point>, pub mode: int }
/// the point a line gives: two numbers; further words are ignored
pub open spec fn point_of(l: Seq<char>) -> Option<Point> {
    if words_of(l).len() < 2 { None } else {
        match (number(words_of(l)[0]), number(words_of(l)[1])) { (Some(x), Some(y)) => Some(Point { x, y }), _ => None }
    }
}
pub open spec fn step(a: Acc, l: Seq<char>) -> Option<Acc> {
    if l == "HOLE"@ { Some(Acc { mode: 1, holes: a.holes.push(seq![]), ..a }) }
    else if l == "STEINER"@ { Some(Acc { mode: 2, ..a }) }
    else if l.len() == 0 { Some(a) }
    else { match point_of(l) {
        None => None,
        Some(p) => if a.mode == 0 { Some(Acc { poly: a.poly.push(p), ..a }) }
            else if a.mode == 1 { Some(Acc { holes: a.holes.update(a.holes.len() - 1, a.holes.last().push(p)), ..a }) }
            else { Some(Acc { st: a.st.push(p), ..a }) },
    } }
}
pub open spec fn says(ls: Seq<Seq<char>>) -> Option<Acc>
    decreases ls.len()
{
    if ls.len() == 0 { Some(Acc { poly: seq![], holes: seq![], st: seq![], mode: 0 }) } else {
        match says(ls.drop_last()) { None => None, Some(a) => step(a, ls.last()) }
    }
}
/// the problem consists of exactly these points and rings
pub open spec fn holds_acc(a: Acc, b: Builder) -> bool {
    exists|P1: Seq<Point>, E1: Seq<PointEdges>, E2: Seq<PointEdges>| built(a, b, P1, E1, E2)
}
pub open spec fn built(a: Acc, b: Builder, P1: Seq<Point>, E1: Seq<PointEdges>, E2: Seq<PointEdges>) -> bool {
    &&& added(seq![], seq![], P1, E1, a.poly)
    &&& added_all(P1, E1, P1 + flat(a.holes), E2, a.holes)
    &&& b.points_builder.points@ == P1 + flat(a.holes) + a.st
    &&& b.points_builder.edges@.len() == b.points_builder.points@.len()
    &&& forall|q: int| 0 <= q < b.points_builder.edges@.len() ==> ev(#[trigger] b.points_builder.edges@[q]) =~= ev0(E2, q)
}
pub open spec fn load_ok(path: Seq<char>, r: Result<Builder, LoaderError>) -> bool {
    match r {
        Ok(b) => exists|t: Seq<char>| #[trigger] read_of(path, t) && (says(lines_of(t)) matches Some(a) && holds_acc(a, b)),
        Err(_) => unreadable(path) || exists|t: Seq<char>| #[trigger] read_of(path, t) && says(lines_of(t)) is None,
    }
}
/// the file has room for its points
pub open spec fn small_file(path: Seq<char>) -> bool { forall|t: Seq<char>| #[trigger] read_of(path, t) ==> lines_of(t).len() <= max_points() }
pub proof fn says_bad(ls: Seq<Seq<char>>, k: int)
    requires 0 <= k <= ls.len(), says(ls.take(k)) is None
    ensures says(ls) is None
    decreases ls.len() - k
{
    if k < ls.len() {
        assert(ls.take(k + 1).drop_last() =~= ls.take(k));
        says_bad(ls, k + 1);
    } else { assert(ls.take(k) =~= ls); }
}
pub open spec fn hviews(h: Seq<Vec<Point>>) -> Seq<Seq<Point>> { Seq::new(h.len(), |i: int| h[i]@) }
pub proof fn flat_last(h: Seq<Seq<Point>>, l: Seq<Point>)
    requires h.len() > 0
    ensures flat(h.update(h.len() - 1, l)).len() == flat(h).len() - h.last().len() + l.len()
{
    assert(h.update(h.len() - 1, l).drop_last() =~= h.drop_last());
}
// loop invariant on vectors whose element type is inferred later
pub open spec fn so_far(poly: Vec<Point>, holes: Vec<Vec<Point>>, st: Vec<Point>, mode: int, ls: Seq<Seq<char>>, k: int) -> bool {
    says(ls.take(k)) == Some(Acc { poly: poly@, holes: hviews(holes@), st: st@, mode }) && poly@.len() + flat(hviews(holes@)).len() + st@.len() <= k && (mode == 1 ==> holes@.len() > 0)
}
pub open spec fn mode_of(s: ParseState) -> int { match s { ParseState::Polygon => 0, ParseState::Hole => 1, ParseState::Steiner => 2 } }
pub open spec fn in_order(b0: Builder, b1: Builder, b2: Builder, a: Acc) -> bool {
    &&& added(seq![], seq![], b0.points_builder.points@, b0.points_builder.edges@, a.poly)
    &&& added_all(b0.points_builder.points@, b0.points_builder.edges@, b1.points_builder.points@, b1.points_builder.edges@, a.holes)
    &&& b1.points_builder.points@ =~= b0.points_builder.points@ + flat(a.holes)
    &&& b2.points_builder.points@ =~= b1.points_builder.points@ + a.st
    &&& forall|q: int| 0 <= q < b2.points_builder.edges@.len() ==> ev(#[trigger] b2.points_builder.edges@[q]) =~= ev0(b1.points_builder.edges@, q)
}
pub proof fn is_built(a: Acc)
    ensures forall|b0: Builder, b1: Builder, b2: Builder| #[trigger] bld_ok(b0) && #[trigger] bld_ok(b1) && #[trigger] bld_ok(b2) && in_order(b0, b1, b2, a) ==> holds_acc(a, b2)
{
    assert forall|b0: Builder, b1: Builder, b2: Builder| #[trigger] bld_ok(b0) && #[trigger] bld_ok(b1) && #[trigger] bld_ok(b2) && in_order(b0, b1, b2, a) implies holds_acc(a, b2) by {
        assert(built(a, b2, b0.points_builder.points@, b0.points_builder.edges@, b1.points_builder.edges@));
    }
}
