//@props P17
//@title a queue as `Buf` and as `bytes::Bytes`, for every division into chunks
//@assume `ByteData` as `Buf` and `Bytes` has the contracts proved in bytes_data.rs
//@assume `take` and `map` of the standard library's iterators
use vstd::prelude::*;

verus! {

//@uses queue.rs
//@include bytes.rs

impl XBytes {
    #[verifier::external_body]
    fn from_data(d: ByteData<'_>) -> (r: XBytes) ensures r@ == d@ { unimplemented!() }
}
impl<'a> ByteData<'a> {
    #[verifier::external_body]
    fn from_any_bytes(b: XBytes) -> (r: ByteData<'a>) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    fn copy_to_bytes(&mut self, len: usize) -> (r: XBytes)
        requires len <= old(self)@.len()
        ensures r@ =~= old(self)@.take(len as int), final(self)@ =~= old(self)@.skip(len as int)
    { unimplemented!() }
}
#[verifier::external_body]
fn v_nothing<'b>() -> (r: &'b [u8]) ensures r@.len() == 0 { unimplemented!() }
/// `&s[range]`
#[verifier::external_body]
fn v_part<'b, R: RangeBounds<usize>>(s: &'b [u8], r: R) -> (x: &'b [u8])
    requires in_range(r, s@.len() as int)
    ensures x@ =~= s@.subrange(first(r), past(r, s@.len() as int))
{ unimplemented!() }
impl<'a, 'b> LinkedIter<'a, 'b> {
    /// `Iterator::take`
    #[verifier::external_body]
    fn v_take(self, n: usize) -> (r: LinkedIter<'a, 'b>)
        ensures r@ =~= self@.take(if n < self@.len() { n as int } else { self@.len() as int })
    { unimplemented!() }
}
/// `[IoSlice]`
#[verifier::external_body]
pub struct Slots { v: Vec<u8> }
impl View for Slots { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
impl Slots {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn v_put(&mut self, i: usize, s: &[u8])
        requires i < old(self)@.len()
        ensures final(self)@ =~= old(self)@.update(i as int, s@)
    { unimplemented!() }
}
proof fn head_tail(s: Seq<Seq<u8>>)
    requires s.len() > 0
    ensures flat(s) =~= s[0] + flat(s.skip(1))
{ }
proof fn few(a: Seq<u8>, b: Seq<u8>, n: int)
    requires 0 <= n <= a.len() + b.len()
    ensures
        n <= a.len() ==> (a + b).take(n) =~= a.take(n) && (a + b).skip(n) =~= a.skip(n) + b,
        n >= a.len() ==> (a + b).take(n) =~= a + b.take(n - a.len()) && (a + b).skip(n) =~= b.skip(n - a.len()),
        n == a.len() ==> (a + b).take(n) =~= a && (a + b).skip(n) =~= b,
{ }

impl XBytes {
//@fn bytes_1/queue.rs <bytes::Bytes as From<ByteQueue<'a>>>::from as from_queue
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut dat : ByteQueue<'a> => dat: ByteQueue<'_>
//@sig Self => XBytes
//@sub use bytes::BufMut ; =>
//@sub Self::new => XBytes::new
//@sub . expect ( $(x) ) => .unwrap()
//@sub chunk . into ( ) => XBytes::from_data(chunk)
//@sub bytes::BytesMut => XVec
//@spec
    requires dat.wf()
    ensures r@ =~= dat@
//@at start
    let mut dat = dat;
    proof { if dat.queue@.len() == 1 { head_tail(dat.queue@); assert(dat.queue@.skip(1) =~= Seq::<Seq<u8>>::empty()); } }
//@iter 0 it
//@loop 0 for
    invariant dat@ =~= ret@ + flat(it@)
    ensures it@.len() == 0
    decreases it@.len()
//@end
}
impl<'a> ByteQueue<'a> {
//@fn bytes_1/queue.rs <ByteQueue as From<bytes::Bytes>>::from as from_any_bytes
//@ret r
//@sig bytes::Bytes => XBytes
//@sub Self::from ( ByteData::from ( dat ) ) => Self::with_item(ByteData::from_any_bytes(dat))
//@spec
    ensures r.wf(), r@ =~= dat@
//@end
//@fn bytes_1/queue.rs <ByteQueue as Buf>::remaining
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end
//@fn bytes_1/queue.rs <ByteQueue as Buf>::chunk
//@ret r
//@sub self . front ( ) . map ( ByteData::as_slice ) . unwrap_or_default ( ) =>> (match self.front() { Some(v_x) => v_x.as_slice(), None => v_nothing() })
//@spec
    requires self.wf()
    ensures r@.len() <= self@.len(), r@ =~= self@.take(r@.len() as int), self@.len() > 0 ==> r@.len() > 0
//@at start
    proof { if self.queue@.len() > 0 { head_tail(self.queue@); few(self.queue@[0], flat(self.queue@.skip(1)), self.queue@[0].len() as int); } }
//@end
//@fn bytes_1/queue.rs <ByteQueue as Buf>::has_remaining
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() > 0)
//@end
//@fn bytes_1/queue.rs <ByteQueue as Buf>::advance
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut cnt => cnt
//@refuse n > old(self)@.len()
//@spec
    requires old(self).wf()
    ensures cnt <= old(self)@.len(), final(self).wf(), final(self)@ =~= old(self)@.skip(cnt as int)
//@at start
    let ghost n = cnt as int;
    let mut cnt = cnt;
//@loop 0 while
    invariant self.wf(), 0 <= cnt <= n <= old(self)@.len(), self@ =~= old(self)@.skip(n - cnt)
    decreases cnt
//@at loop 0 start
    let ghost before = self@;
    let ghost c = cnt as int;
//@sub let len = front . len ( ) ; => let len = front.len(); proof { few(front@, self@, c); few(front@, self@, front@.len() as int); }
//@end
//@fn bytes_1/queue.rs <ByteQueue as Buf>::copy_to_bytes
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut len => len
//@sig bytes::Bytes => XBytes
//@refuse n > old(self)@.len()
//@sub use bytes::BufMut ; =>
//@sub bytes::Bytes::new => XBytes::new
//@sub bytes::BytesMut => XVec
//@sub first . into ( ) => XBytes::from_data(first)
//@opt & $x . as_slice ( ) [ $(r) ] => v_part($x.as_slice(), $(r))
//@spec
    requires old(self).wf()
    ensures len <= old(self)@.len(), final(self).wf(), r@ =~= old(self)@.take(len as int), final(self)@ =~= old(self)@.skip(len as int)
//@at start
    let ghost n = len as int;
    let mut len = len;
//@sub let mut first = self . pop_front ( ) . unwrap ( ) ; => let mut first = self.pop_front().unwrap(); proof { few(first@, self@, n); few(first@, self@, first@.len() as int); }
//@loop 0 while
    invariant self.wf(), 0 <= len <= n <= old(self)@.len(), self@ =~= old(self)@.skip(n - len), ret@ =~= old(self)@.take(n - len)
    ensures self.wf(), self@ =~= old(self)@.skip(n), ret@ =~= old(self)@.take(n)
    decreases len
//@at loop 0 start
    let ghost before = self@;
    let ghost c = len as int;
//@sub let fl = fchunk . len ( ) ; => let fl = fchunk.len(); proof { few(fchunk@, self@, c); few(fchunk@, self@, fchunk@.len() as int); assert(old(self)@ =~= old(self)@.take(n - c) + before); assert(old(self)@.take(n) =~= old(self)@.take(n - c) + before.take(c)); assert(old(self)@.skip(n) =~= before.skip(c)); if fl <= c { assert(old(self)@.take(n - c + fl) =~= old(self)@.take(n - c) + before.take(fl as int)); } }
//@end
//@fn bytes_1/queue.rs <ByteQueue as Buf>::chunks_vectored
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig chunks_vectored < 'a > ( & 'a self => chunks_vectored(&self
//@sig & mut [ std::io::IoSlice<'a> ] => &mut Slots
//@sub self . chunks ( ) . take ( $(n) ) => self.chunks().v_take($(n))
//@sub dst [ i ] = std::io::IoSlice::new ( $(x) ) ; => dst.v_put(i, $(x));
//@spec
    requires self.wf()
    ensures
        r == if self.queue@.len() < old(dst)@.len() { self.queue@.len() } else { old(dst)@.len() },
        final(dst)@ =~= self.queue@.take(r as int) + old(dst)@.skip(r as int)
//@at start
    let ghost m = if self.queue@.len() < dst@.len() { self.queue@.len() as int } else { dst@.len() as int };
//@iter 0 it
//@loop 0 for
    invariant 0 <= i <= m, i + it@.len() == m, it@ =~= self.queue@.take(m).skip(i as int), dst@ =~= self.queue@.take(i as int) + old(dst)@.skip(i as int), i == m ==> it@.len() == 0
    ensures it@.len() == 0
    decreases it@.len()
//@end
}

} // verus!
fn main() {}
