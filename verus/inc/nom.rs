// ---- what lies outside: the types of nom ----

pub enum Needed { Unknown, Size(usize) }
impl Needed {
    fn new(n: usize) -> (r: Needed)
        ensures r == (if n == 0 { Needed::Unknown } else { Needed::Size(n) })
    { if n == 0 { Needed::Unknown } else { Needed::Size(n) } }
}
pub enum NomErr<E> { Incomplete(Needed), Error(E), Failure(E) }
pub struct ErrorKind { pub code: u32 }
pub type IResult<I, O, E> = Result<(I, O), NomErr<E>>;
/// An error a parser reports: where it was and of which kind.
pub trait ParseError<I: View<V = Seq<u8>>>: Sized {
    spec fn at(&self) -> Seq<u8>;
    spec fn kind(&self) -> ErrorKind;
    fn from_error_kind(input: I, kind: ErrorKind) -> (r: Self)
        ensures r.at() == input@, r.kind() == kind;
}
#[derive(Clone, Copy)]
pub enum CompareResult { Ok, Incomplete, Error }

/// What splitting at a position answers on flat bytes, `found` being the first position the predicate holds at.
pub open spec fn split_answer<I: View<V = Seq<u8>>, E: ParseError<I>>(was: Seq<u8>, found: Option<usize>, complete: bool, one: Option<ErrorKind>, r: IResult<I, I, E>) -> bool {
    match found {
        Some(i) =>
            if i == 0 && one is Some { r matches Err(NomErr::Error(e)) && e.at() =~= was && Some(e.kind()) == one }
            else { r matches Ok((rest, head)) && rest@ =~= was.skip(i as int) && head@ =~= was.take(i as int) },
        None =>
            if !complete { r matches Err(NomErr::Incomplete(Needed::Size(1))) }
            else if was.len() == 0 && one is Some { r matches Err(NomErr::Error(e)) && e.at() =~= was && Some(e.kind()) == one }
            else { r matches Ok((rest, head)) && rest@.len() == 0 && head@ =~= was },
    }
}
/// `&[u8]::slice_index`
pub open spec fn index_answer(n: int, count: usize, r: Result<usize, Needed>) -> bool {
    if n >= count { r == Ok::<usize, Needed>(count) } else { r matches Err(Needed::Size(m)) && m == count - n }
}

pub open spec fn lower(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn same_byte(fold: bool, a: u8, b: u8) -> bool { if fold { lower(a) == lower(b) } else { a == b } }
/// `<&[u8] as Compare>`: the first difference decides, then the lengths.
pub open spec fn compared(fold: bool, a: Seq<u8>, b: Seq<u8>) -> CompareResult
    decreases a.len()
{
    if b.len() == 0 { CompareResult::Ok }
    else if a.len() == 0 { CompareResult::Incomplete }
    else if !same_byte(fold, a[0], b[0]) { CompareResult::Error }
    else { compared(fold, a.skip(1), b.skip(1)) }
}
/// The same, said at once.
proof fn compared_means(fold: bool, a: Seq<u8>, b: Seq<u8>)
    ensures
        (compared(fold, a, b) is Error) == (exists|i: int| 0 <= i < a.len() && i < b.len() && !same_byte(fold, #[trigger] a[i], b[i])),
        compared(fold, a, b) is Ok ==> a.len() >= b.len(),
        compared(fold, a, b) is Incomplete ==> a.len() < b.len(),
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        compared_means(fold, a.skip(1), b.skip(1));
        if exists|i: int| 0 <= i < a.len() && i < b.len() && !same_byte(fold, #[trigger] a[i], b[i]) {
            let i = choose|i: int| 0 <= i < a.len() && i < b.len() && !same_byte(fold, #[trigger] a[i], b[i]);
            if i > 0 { assert(a.skip(1)[i - 1] == a[i] && b.skip(1)[i - 1] == b[i]); }
        }
        if same_byte(fold, a[0], b[0]) && compared(fold, a.skip(1), b.skip(1)) is Error {
            let i = choose|i: int| 0 <= i < a.len() - 1 && i < b.len() - 1 && !same_byte(fold, #[trigger] a.skip(1)[i], b.skip(1)[i]);
            assert(a[i + 1] == a.skip(1)[i] && b[i + 1] == b.skip(1)[i]);
        }
    }
}
/// Comparing part by part.
proof fn compare_parts(fold: bool, x: Seq<u8>, a: Seq<u8>, t: Seq<u8>, k: int)
    requires k == (if x.len() <= t.len() { x.len() as int } else { t.len() as int })
    ensures
        compared(fold, x, t.take(k)) is Ok ==> compared(fold, x + a, t) == compared(fold, a, t.skip(k)),
        compared(fold, x, t.take(k)) is Error ==> compared(fold, x + a, t) is Error,
        !(compared(fold, x, t.take(k)) is Incomplete),
    decreases x.len()
{
    if k > 0 {
        assert((x + a).skip(1) =~= x.skip(1) + a);
        assert(t.take(k).skip(1) =~= t.skip(1).take(k - 1));
        assert(t.skip(1).skip(k - 1) =~= t.skip(k));
        compare_parts(fold, x.skip(1), a, t.skip(1), k - 1);
    } else if t.len() == 0 {
        assert(compared(fold, x + a, t) is Ok);
        assert(t.skip(k).len() == 0);
    } else {
        assert(x + a =~= a);
        assert(t.skip(0) =~= t);
    }
}
#[verifier::external_body]
fn v_compare(a: &[u8], b: &[u8]) -> (r: CompareResult) ensures r == compared(false, a@, b@) { unimplemented!() }
#[verifier::external_body]
fn v_compare_no_case(a: &[u8], b: &[u8]) -> (r: CompareResult) ensures r == compared(true, a@, b@) { unimplemented!() }
#[verifier::external_body]
fn v_split(a: &[u8], n: usize) -> (r: (&[u8], &[u8]))
    requires n <= a@.len()
    ensures r.0@ =~= a@.take(n as int), r.1@ =~= a@.skip(n as int)
{ unimplemented!() }
/// `iter().enumerate()`
pub struct Enumerate<I> { pub iter: I, pub count: usize }
fn v_enumerate<I>(iter: I) -> (r: Enumerate<I>)
    ensures r.iter == iter, r.count == 0
{ Enumerate { iter, count: 0 } }
