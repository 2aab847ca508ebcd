// ---- what lies outside: chunks, lists of chunks, ranges ----

pub assume_specification<T>[ core::mem::replace ](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;

/// A value is the bytes it holds (P01, P02: decided by their own checks).
#[verifier::external_body]
pub struct ByteData<'a>(core::marker::PhantomData<&'a u8>);
impl<'a> View for ByteData<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }

impl<'a> ByteData<'a> {
    #[verifier::external_body]
    const fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    const fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    const fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: ByteData<'a>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn empty() -> (r: ByteData<'a>) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn sliced<R: RangeBounds<usize>>(&self, range: R) -> (r: ByteData<'a>)
        requires in_range(range, self@.len() as int)
        ensures r@ == self@.subrange(first(range), past(range, self@.len() as int))
    { unimplemented!() }
    #[verifier::external_body]
    fn make_sliced<R: RangeBounds<usize>>(&mut self, range: R)
        requires in_range(range, old(self)@.len() as int)
        ensures final(self)@ == old(self)@.subrange(first(range), past(range, old(self)@.len() as int))
    { unimplemented!() }
    #[verifier::external_body]
    fn split_at(self, at: usize) -> (r: (ByteData<'a>, ByteData<'a>))
        requires at <= self@.len()
        ensures r.0@ == self@.take(at as int), r.1@ == self@.skip(at as int)
    { unimplemented!() }
}

/// The list of chunks, with the contracts proved by Kani (P09, harness modules h09).
#[verifier::external_body]
pub struct LinkedRoot<'a>(core::marker::PhantomData<&'a u8>);
impl<'a> View for LinkedRoot<'a> { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }

impl<'a> LinkedRoot<'a> {
    #[verifier::external_body]
    const fn new() -> (r: Self) ensures r@ == Seq::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    const fn with_item(data: ByteData<'a>) -> (r: Self)
        ensures r@ == (if data@.len() == 0 { Seq::<Seq<u8>>::empty() } else { seq![data@] })
    { unimplemented!() }
    #[verifier::external_body]
    const fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn push_back(&mut self, data: ByteData<'a>) ensures final(self)@ == old(self)@.push(data@) { unimplemented!() }
    #[verifier::external_body]
    fn push_front(&mut self, data: ByteData<'a>) ensures final(self)@ == seq![data@] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    fn pop_front(&mut self) -> (r: Option<ByteData<'a>>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(x) => old(self)@.len() > 0 && x@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn pop_back(&mut self) -> (r: Option<ByteData<'a>>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(x) => old(self)@.len() > 0 && x@ == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn front(&self) -> (r: Option<&ByteData<'a>>)
        ensures match r { None => self@.len() == 0, Some(x) => self@.len() > 0 && x@ == self@[0] }
    { unimplemented!() }
    #[verifier::external_body]
    fn back(&self) -> (r: Option<&ByteData<'a>>)
        ensures match r { None => self@.len() == 0, Some(x) => self@.len() > 0 && x@ == self@.last() }
    { unimplemented!() }
    #[verifier::external_body]
    fn append(&mut self, other: LinkedRoot<'a>) ensures final(self)@ == old(self)@ + other@ { unimplemented!() }
    #[verifier::external_body]
    fn iter<'b>(&'b self) -> (r: LinkedIter<'a, 'b>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn into_iter(self) -> (r: ChunkIter<'a>) ensures r@ == self@ { unimplemented!() }
}

/// An iterator over chunks is the chunks it has left; `next`, `skip_mut` and `item_len` are proved in linked_iter.rs.
#[verifier::external_body]
pub struct LinkedIter<'a, 'b>(core::marker::PhantomData<&'b &'a u8>);
impl<'a, 'b> View for LinkedIter<'a, 'b> { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
pub open spec fn from_nth<T>(s: Seq<T>, n: int) -> Seq<T> { if n < s.len() { s.skip(n) } else { Seq::empty() } }
impl<'a, 'b> LinkedIter<'a, 'b> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'b ByteData<'a>>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(x) => old(self)@.len() > 0 && x@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn skip_mut(&mut self, n: usize) ensures final(self)@ == from_nth(old(self)@, n as int) { unimplemented!() }
    #[verifier::external_body]
    fn item_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
//@item queue/chunk_iter.rs struct ChunkIter ( LinkedRoot => (pub LinkedRoot
impl<'a> View for ChunkIter<'a> { type V = Seq<Seq<u8>>; open spec fn view(&self) -> Seq<Seq<u8>> { self.0@ } }
/// `iter().map(ByteData::as_slice)`
#[verifier::external_body]
pub struct SliceIter<'a, 'b>(core::marker::PhantomData<&'b &'a u8>);
impl<'a, 'b> View for SliceIter<'a, 'b> { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
#[verifier::external_body]
fn v_slices<'a, 'b>(i: LinkedIter<'a, 'b>) -> (r: SliceIter<'a, 'b>) ensures r@ == i@ { unimplemented!() }
impl<'a, 'b> SliceIter<'a, 'b> {
    /// `next().unwrap_or_default()`
    #[verifier::external_body]
    fn next_or_empty(&mut self) -> (r: &'b [u8])
        ensures
            old(self)@.len() == 0 ==> r@ == Seq::<u8>::empty() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}

// ---- specification: the bytes of a list of chunks ----

pub open spec fn flat(s: Seq<Seq<u8>>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { s[0] + flat(s.skip(1)) }
}
/// Every chunk holds something.
pub open spec fn full(s: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0 }

proof fn flat_cons(x: Seq<u8>, s: Seq<Seq<u8>>)
    ensures flat(seq![x] + s) =~= x + flat(s)
{
    assert((seq![x] + s).skip(1) =~= s);
}
proof fn flat_add(s: Seq<Seq<u8>>, t: Seq<Seq<u8>>)
    ensures flat(s + t) =~= flat(s) + flat(t)
    decreases s.len()
{
    if s.len() == 0 {
        assert(s + t =~= t);
    } else {
        assert((s + t).skip(1) =~= s.skip(1) + t);
        flat_add(s.skip(1), t);
    }
}
proof fn flat_push(s: Seq<Seq<u8>>, x: Seq<u8>)
    ensures flat(s.push(x)) =~= flat(s) + x
{
    flat_add(s, seq![x]);
    assert(s.push(x) =~= s + seq![x]);
    flat_cons(x, Seq::empty());
    assert(seq![x] + Seq::<Seq<u8>>::empty() =~= seq![x]);
}
proof fn flat_last(s: Seq<Seq<u8>>)
    requires s.len() > 0
    ensures flat(s) =~= flat(s.drop_last()) + s.last()
{
    flat_push(s.drop_last(), s.last());
    assert(s.drop_last().push(s.last()) =~= s);
}
proof fn flat_split(s: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= s.len()
    ensures flat(s) =~= flat(s.take(k)) + flat(s.skip(k))
{
    flat_add(s.take(k), s.skip(k));
    assert(s.take(k) + s.skip(k) =~= s);
}
/// The first k chunks and the next one.
proof fn flat_step(s: Seq<Seq<u8>>, k: int)
    requires 0 <= k < s.len()
    ensures flat(s.take(k + 1)) =~= flat(s.take(k)) + s[k], s.take(k + 1).drop_last() =~= s.take(k), s.skip(k)[0] == s[k], s.skip(k).skip(1) =~= s.skip(k + 1)
{
    flat_last(s.take(k + 1));
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
proof fn full_parts(s: Seq<Seq<u8>>)
    requires full(s)
    ensures s.len() > 0 ==> full(s.skip(1)) && full(s.drop_last()) && flat(s).len() > 0
{
    if s.len() > 0 {
        assert(s[0].len() > 0);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i]).len() > 0 by { assert(s.skip(1)[i] == s[i + 1]); }
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).len() > 0 by { assert(s.drop_last()[i] == s[i]); }
    }
}

/// The bytes n stand in h at p.
pub open spec fn at(h: Seq<u8>, n: Seq<u8>, p: int) -> bool {
    0 <= p && p + n.len() <= h.len() && h.subrange(p, p + n.len()) =~= n
}
