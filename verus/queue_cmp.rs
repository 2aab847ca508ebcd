//@props P09 P13
//@title comparing, hashing and flattening queues
use vstd::prelude::*;

verus! {

//@uses queue.rs
//@uses queue_iter.rs

// ---- comparison and hashing ----

/// A list walked slice by slice: what is left of the current one, and the ones to come. An empty current one is the end.
pub open spec fn walk(cur: Seq<u8>, rest: Seq<Seq<u8>>) -> bool { full(rest) && (cur.len() == 0 ==> rest.len() == 0) }
pub open spec fn all_of(cur: Seq<u8>, rest: Seq<Seq<u8>>) -> Seq<u8> { cur + flat(rest) }

/// Having read k of the current slice.
proof fn walk_step(cur: Seq<u8>, rest: Seq<Seq<u8>>, k: int)
    requires walk(cur, rest), 0 <= k <= cur.len()
    ensures
        all_of(cur, rest) =~= cur.take(k) + all_of(cur.skip(k), rest),
        k == cur.len() && rest.len() > 0 ==> all_of(cur, rest) =~= cur + all_of(rest[0], rest.skip(1)) && walk(rest[0], rest.skip(1)),
        k == cur.len() && rest.len() == 0 ==> all_of(cur, rest) =~= cur + all_of(Seq::empty(), rest),
        k == cur.len() ==> cur.take(k) =~= cur,
        k < cur.len() ==> walk(cur.skip(k), rest),
{
    full_parts(rest);
}
proof fn eq_parts(x: Seq<u8>, a: Seq<u8>, y: Seq<u8>, b: Seq<u8>)
    requires x.len() == y.len()
    ensures (x + a =~= y + b) == (x =~= y && a =~= b)
{
    if x + a =~= y + b {
        assert((x + a).take(x.len() as int) =~= x);
        assert((y + b).take(y.len() as int) =~= y);
        assert((x + a).skip(x.len() as int) =~= a);
        assert((y + b).skip(y.len() as int) =~= b);
    }
}
/// The order of byte strings.
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> core::cmp::Ordering
    decreases a.len()
{
    if a.len() == 0 && b.len() == 0 { core::cmp::Ordering::Equal }
    else if a.len() == 0 { core::cmp::Ordering::Less }
    else if b.len() == 0 { core::cmp::Ordering::Greater }
    else if a[0] < b[0] { core::cmp::Ordering::Less }
    else if a[0] > b[0] { core::cmp::Ordering::Greater }
    else { lex(a.skip(1), b.skip(1)) }
}
proof fn lex_parts(x: Seq<u8>, a: Seq<u8>, y: Seq<u8>, b: Seq<u8>)
    requires x.len() == y.len()
    ensures lex(x + a, y + b) == (if lex(x, y) is Equal { lex(a, b) } else { lex(x, y) })
    decreases x.len()
{
    if x.len() == 0 {
        assert(x + a =~= a);
        assert(y + b =~= b);
    } else {
        assert((x + a).skip(1) =~= x.skip(1) + a);
        assert((y + b).skip(1) =~= y.skip(1) + b);
        lex_parts(x.skip(1), a, y.skip(1), b);
    }
}
/// The order is total and equality is equality of the bytes.
proof fn lex_laws(a: Seq<u8>, b: Seq<u8>)
    ensures
        (lex(a, b) is Equal) == (a =~= b),
        (lex(a, b) is Less) == (lex(b, a) is Greater),
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lex_laws(a.skip(1), b.skip(1));
        if a.skip(1) =~= b.skip(1) && a[0] == b[0] {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); } }
        }
    }
}
proof fn lex_transitive(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures lex(a, b) is Less && lex(b, c) is Less ==> lex(a, c) is Less
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { lex_transitive(a.skip(1), b.skip(1), c.skip(1)); }
}
/// What a hasher is fed.
pub enum Fed { Len(usize), Byte(u8) }
pub open spec fn fed(s: Seq<u8>) -> Seq<Fed> { s.map_values(|b: u8| Fed::Byte(b)) }
pub trait Hasher {
    spec fn log(&self) -> Seq<Fed>;
    fn write_usize(&mut self, n: usize) ensures final(self).log() == old(self).log().push(Fed::Len(n));
    fn write_u8(&mut self, b: u8) ensures final(self).log() == old(self).log().push(Fed::Byte(b));
}
/// The iterator of a slice.
#[verifier::external_body]
pub struct Bytes<'a>(core::marker::PhantomData<&'a u8>);
impl<'a> View for Bytes<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
fn v_bytes<'a>(s: &'a [u8]) -> (r: Bytes<'a>) ensures r@ == s@ { unimplemented!() }
impl<'a> Bytes<'a> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a u8>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(x) => old(self)@.len() > 0 && *x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        }
    { unimplemented!() }
}
/// `<[u8]>::cmp`
#[verifier::external_body]
fn v_cmp(a: &[u8], b: &[u8]) -> (r: core::cmp::Ordering) ensures r == lex(a@, b@) { unimplemented!() }
#[verifier::external_body]
fn v_empty<'a>() -> (r: &'a [u8]) ensures r@ == Seq::<u8>::empty() { &[] }

impl<'a> ByteQueue<'a> {
//@fn queue/byte_queue.rs <ByteQueue as PartialEq<ByteQueue<'b>>>::eq as eq_queue
//@prop P13
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig fn eq => fn eq<'b>
//@sub $a . queue . iter ( ) . map ( ByteData :: as_slice ) => v_slices($a.queue.iter())
//@sub . next ( ) . unwrap_or_default ( ) => .next_or_empty()
//@sub ( b"" , b"" ) =>> (a_, b_) if a_.is_empty() && b_.is_empty()
//@sub ( b"" , _ ) | ( _ , b"" ) =>> (a_, b_) if a_.is_empty() || b_.is_empty()
//@sub ( mut av , mut bv ) => { =>> (av_, bv_) => { let mut av = av_; let mut bv = bv_; let ghost k = if av@.len() < bv@.len() { av@.len() as int } else { bv@.len() as int }; proof { walk_step(av@, ai@, k); walk_step(bv@, bi@, k); }
//@sub if av == bv { => proof { eq_parts(av@, all_of(ad@, ai@), bv@, all_of(bd@, bi@)); } if av == bv {
//@spec
    requires self.wf(), other.wf()
    ensures r == (self@ =~= other@)
//@at loop 0 before
    proof { }
//@loop 0 loop
    invariant walk(ad@, ai@), walk(bd@, bi@), (self@ =~= other@) == (all_of(ad@, ai@) =~= all_of(bd@, bi@))
    decreases all_of(ad@, ai@).len()
//@end

//@fn queue/byte_queue.rs <ByteQueue as PartialEq<[u8]>>::eq as eq_slice
//@prop P13
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut other => other
//@sub $a . queue . iter ( ) . map ( ByteData :: as_slice ) => v_slices($a.queue.iter())
//@sub . next ( ) . unwrap_or_default ( ) => .next_or_empty()
//@sub other = b"" ; => other = v_empty();
//@sub ( b"" , b"" ) =>> (a_, b_) if a_.is_empty() && b_.is_empty()
//@sub ( b"" , _ ) | ( _ , b"" ) =>> (a_, b_) if a_.is_empty() || b_.is_empty()
//@sub ( mut av , mut bv ) => { =>> (av_, bv_) => { let mut av = av_; let mut bv = bv_; let ghost k = if av@.len() < bv@.len() { av@.len() as int } else { bv@.len() as int }; proof { walk_step(av@, ai@, k); walk_step(bv@, Seq::empty(), k); nothing(Seq::<Seq<u8>>::empty()); }
//@sub if av == bv { => proof { eq_parts(av@, all_of(ad@, ai@), bv@, all_of(other@, Seq::empty())); } if av == bv {
//@spec
    requires self.wf()
    ensures r == (self@ =~= other@)
//@at start
    let ghost o = other@;
    let mut other = other;
    proof { nothing(Seq::<Seq<u8>>::empty()); }
//@loop 0 loop
    invariant walk(ad@, ai@), (self@ =~= o) == (all_of(ad@, ai@) =~= all_of(other@, Seq::empty()))
    decreases all_of(ad@, ai@).len()
//@end

//@fn queue/byte_queue.rs <ByteQueue as Ord>::cmp as cmp_queue
//@prop P13
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sub $a . queue . iter ( ) . map ( ByteData :: as_slice ) => v_slices($a.queue.iter())
//@sub . next ( ) . unwrap_or_default ( ) => .next_or_empty()
//@sub ( b"" , b"" ) =>> (a_, b_) if a_.is_empty() && b_.is_empty()
//@sub ( b"" , _ ) =>> (a_, b_) if a_.is_empty()
//@sub ( _ , b"" ) =>> (a_, b_) if b_.is_empty()
//@sub ( mut av , mut bv ) => { =>> (av_, bv_) => { let mut av = av_; let mut bv = bv_; let ghost k = if av@.len() < bv@.len() { av@.len() as int } else { bv@.len() as int }; proof { walk_step(av@, ai@, k); walk_step(bv@, bi@, k); }
//@sub match av . cmp ( bv ) => proof { lex_parts(av@, all_of(ad@, ai@), bv@, all_of(bd@, bi@)); } match v_cmp(av, bv)
//@spec
    requires self.wf(), other.wf()
    ensures r == lex(self@, other@)
//@loop 0 loop
    invariant walk(ad@, ai@), walk(bd@, bi@), lex(self@, other@) == lex(all_of(ad@, ai@), all_of(bd@, bi@))
    decreases all_of(ad@, ai@).len()
//@end

//@fn queue/byte_queue.rs <ByteQueue as PartialOrd<[u8]>>::partial_cmp as partial_cmp_slice
//@prop P13
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut other => other
//@sub $a . queue . iter ( ) . map ( ByteData :: as_slice ) => v_slices($a.queue.iter())
//@sub . next ( ) . unwrap_or_default ( ) => .next_or_empty()
//@sub other = b"" ; => other = v_empty();
//@sub ( b"" , b"" ) =>> (a_, b_) if a_.is_empty() && b_.is_empty()
//@sub ( b"" , _ ) =>> (a_, b_) if a_.is_empty()
//@sub ( _ , b"" ) =>> (a_, b_) if b_.is_empty()
//@sub ( mut av , mut bv ) => { =>> (av_, bv_) => { let mut av = av_; let mut bv = bv_; let ghost k = if av@.len() < bv@.len() { av@.len() as int } else { bv@.len() as int }; proof { walk_step(av@, ai@, k); walk_step(bv@, Seq::empty(), k); nothing(Seq::<Seq<u8>>::empty()); }
//@sub match av . cmp ( bv ) => proof { lex_parts(av@, all_of(ad@, ai@), bv@, all_of(other@, Seq::empty())); } match v_cmp(av, bv)
//@spec
    requires self.wf()
    ensures r == Some(lex(self@, other@))
//@at start
    let ghost o = other@;
    let mut other = other;
    proof { nothing(Seq::<Seq<u8>>::empty()); }
//@loop 0 loop
    invariant walk(ad@, ai@), lex(self@, o) == lex(all_of(ad@, ai@), all_of(other@, Seq::empty()))
    decreases all_of(ad@, ai@).len()
//@end

//@fn queue/byte_queue.rs <ByteQueue as Hash>::hash
//@prop P13
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig core :: hash :: Hasher => Hasher
//@sub in chunk . as_slice ( ) => in v_bytes(chunk.as_slice())
//@iter 0 it
//@iter 1 bs
//@spec
    requires self.wf()
    ensures final(state).log() =~= old(state).log().push(Fed::Len(self@.len() as usize)) + fed(self@)
//@loop 0 for
    invariant state.log() + fed(flat(it@)) =~= old(state).log().push(Fed::Len(self@.len() as usize)) + fed(self@)
    ensures it@.len() == 0
    decreases it@.len()
//@loop 1 for
    invariant state.log() + fed(bs@) + fed(flat(it@)) =~= old(state).log().push(Fed::Len(self@.len() as usize)) + fed(self@)
    ensures bs@.len() == 0
    decreases bs@.len()
//@at loop 0 start
    proof { assert(fed(flat(it_0)) =~= fed(chunk@) + fed(flat(it@))); }
//@end
}

//@fn queue/byte_queue.rs <[u8] as PartialOrd<ByteQueue>>::partial_cmp as partial_cmp_reversed
//@prop P13
//@ret r
//@sig & self => this: &[u8]
//@sub other . partial_cmp ( self ) => other.partial_cmp_slice(this)
//@spec
    requires other.wf()
    ensures r == Some(lex(this@, other@))
//@at start
    proof { lex_laws(this@, other@); lex_laws(other@, this@); }
//@end

// ---- flattening ----

#[verifier::external_body]
fn v_vec(d: ByteData) -> (r: Vec<u8>) ensures r@ == d@ { unimplemented!() }
/// The shared builder, as a vector (P04) that becomes a value (P01).
#[verifier::external_body]
pub struct SharedBytesBuilder {}
impl View for SharedBytesBuilder { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl SharedBytesBuilder {
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn extend_from_slice(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    fn v_build<'a>(self) -> (r: ByteData<'a>) ensures r@ == self@ { unimplemented!() }
}

//@fn queue/byte_queue.rs <alloc::vec::Vec<u8> as From<ByteQueue>>::from as vec_from_queue
//@prop P09
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut data => data
//@sig Self => Vec<u8>
//@sub alloc :: vec :: Vec => Vec
//@sub . unwrap ( ) . into ( ) => .v_into_vec()
//@sub for i in data => for i in data.queue.into_iter()
//@iter 0 it
//@spec
    requires data.wf()
    ensures r@ =~= data@
//@at start
    let mut data = data;
    let ghost d = data@;
    proof { count(data.queue@); nothing(data.queue@); nothing(data.queue@.skip(1)); }
//@loop 0 for
    invariant coll@ + flat(it@) =~= d
    ensures it@.len() == 0
    decreases it@.len()
//@end

//@fn queue/byte_queue.rs <ByteData as From<ByteQueue>>::from as bytedata_from_queue
//@prop P09
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut data => data
//@sig Self => ByteData<'a>
//@sig fn from => fn from<'a>
//@sub ByteData :: from_shared ( out . build ( ) ) => out.v_build()
//@sub for i in data => for i in data.queue.into_iter()
//@iter 0 it
//@spec
    requires data.wf()
    ensures r@ =~= data@
//@at start
    let mut data = data;
    let ghost d = data@;
//@loop 0 for
    invariant out@ + flat(it@) =~= d
    ensures it@.len() == 0
    decreases it@.len()
//@end
pub trait IntoVec { spec fn bytes(&self) -> Option<Seq<u8>>; fn v_into_vec(self) -> (r: Vec<u8>) requires self.bytes() is Some ensures r@ == self.bytes()->0; }
impl<'a> IntoVec for Option<ByteData<'a>> {
    open spec fn bytes(&self) -> Option<Seq<u8>> { match self { Some(x) => Some(x@), None => None } }
    fn v_into_vec(self) -> (r: Vec<u8>) { v_vec(self.unwrap()) }
}


} // verus!
fn main() {}
