//@props P05 P01 P24
//@title inline chunks, for every content and range
//@assume `core::ptr::copy` inside the chunk is given its contract (with the bounds of both parts as preconditions); texts are slices of at most `isize::MAX` bytes
use vstd::prelude::*;

verus! {

global size_of usize == 8;

//@include range.rs

// ---- what lies outside: memory inside the chunk's array ----

/// A position in an array (a pointer derived from it).
#[verifier::external_body]
const fn v_pos(a: &[u8; 14], n: usize) -> (r: usize)
    requires n <= 14
    ensures r == n
{ n }
/// `from_raw_parts` of the beginning of the array.
#[verifier::external_body]
const fn v_prefix(a: &[u8; 14], n: usize) -> (r: &[u8])
    requires n <= 14
    ensures r@ =~= a@.subrange(0, n as int)
{ unimplemented!() }
/// `core::ptr::copy` inside the array: the parts may overlap.
#[verifier::external_body]
fn v_move(a: &mut [u8; 14], from: usize, to: usize, n: usize)
    requires from + n <= 14, to + n <= 14
    ensures final(a)@ =~= Seq::new(14, |i: int| if to <= i < to + n { old(a)@[from + (i - to)] } else { old(a)@[i] })
{ unimplemented!() }
/// `core::ptr::copy_nonoverlapping` inside the array.
#[verifier::external_body]
fn v_copy(a: &mut [u8; 14], from: usize, to: usize, n: usize)
    requires from + n <= 14, to + n <= 14, from + n <= to || to + n <= from
    ensures final(a)@ =~= Seq::new(14, |i: int| if to <= i < to + n { old(a)@[from + (i - to)] } else { old(a)@[i] })
{ unimplemented!() }

/// The bound itself (matched by `&x` in the text).
impl<'a> Bound<&'a usize> {
    fn v_copied(self) -> (r: Bound<usize>)
        ensures is_bound(self, r)
    { match self { Bound::Included(a) => Bound::Included(*a), Bound::Excluded(a) => Bound::Excluded(*a), Bound::Unbounded => Bound::Unbounded } }
}
pub struct Error;

#[derive(Clone, Copy)]
//@item byte_chunk.rs struct ByteChunk

impl ByteChunk {
    pub open spec fn wf(&self) -> bool { self.len <= 14 }
    pub open spec fn view(&self) -> Seq<u8> { self.data@.subrange(0, self.len as int) }

//@item byte_chunk.rs const LEN

//@fn byte_chunk.rs ByteChunk::from_slice
//@prop P01 P05
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@refuse data@.len() > 14
//@sub core::mem::zeroed ( ) => [0; 14]
//@spec
    ensures data@.len() <= 14, r.wf(), r@ =~= data@
//@loop 0 while
    invariant
        i <= len, len == data@.len(), len <= 14, chunk.len == len, forall|j: int| 0 <= j < i ==> chunk.data[j] == data[j],
    decreases len - i
//@end

//@fn byte_chunk.rs ByteChunk::from_array
//@prop P01 P05
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@refuse L > 14
//@sub core::mem::zeroed ( ) => [0; 14]
//@spec
    ensures L <= 14, r.wf(), r@ =~= data@
//@loop 0 while
    invariant
        i <= L, L <= 14, chunk.len == L, forall|j: int| 0 <= j < i ==> chunk.data[j] == data[j],
    decreases L - i
//@end

//@fn byte_chunk.rs ByteChunk::from_byte
//@prop P01 P05
//@ret r
//@sub core::mem::zeroed ( ) => [0; 14]
//@spec
    ensures r.wf(), r@ =~= seq![data]
//@end

//@fn byte_chunk.rs ByteChunk::as_slice
//@prop P01 P05
//@ret r
//@sub core::slice::from_raw_parts ( self . data . as_ptr ( ) , $(n) ) => v_prefix(&self.data, $(n))
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end

//@fn byte_chunk.rs ByteChunk::len
//@prop P01 P05
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn byte_chunk.rs ByteChunk::is_empty
//@prop P01 P05
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end

//@fn byte_chunk.rs ByteChunk::slice
//@prop P02 P05
//@refuse !(start <= end <= old(self)@.len())
//@sub self . data . as_ptr ( ) . add ( $(n) ) => v_pos(&self.data, $(n))
//@opt self . data . as_mut_ptr ( ) . add ( $(n) ) => v_pos(&self.data, $(n))
//@sub self . data . as_mut_ptr ( ) => v_pos(&self.data, 0)
//@sub core::ptr::copy ( $(a) , $(b) , $(n) ) => v_move(&mut self.data, $(a), $(b), $(n))
//@opt core::ptr::copy_nonoverlapping ( $(a) , $(b) , $(n) ) => v_copy(&mut self.data, $(a), $(b), $(n))
//@spec
    requires old(self).wf()
    ensures start <= end <= old(self)@.len(), final(self).wf(), final(self)@ =~= old(self)@.subrange(start as int, end as int)
//@end

//@fn byte_chunk.rs ByteChunk::sliced
//@prop P02 P05
//@ret r
//@sig + SliceIndex < [ u8 ] , Output = [ u8 ] >> => >
//@sub core::ops::Bound => Bound
//@sub . start_bound ( ) => .start_bound().v_copied()
//@sub . end_bound ( ) => .end_bound().v_copied()
//@sub Included ( & $x ) =>> Included($x)
//@sub Excluded ( & $x ) =>> Excluded($x)
//@refuse !in_range(range, self@.len() as int)
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end

//@fn byte_chunk.rs ByteChunk::into_sliced
//@prop P02 P05
//@ret r
//@sig + SliceIndex < [ u8 ] , Output = [ u8 ] >> => >
//@sub core::ops::Bound => Bound
//@sub . start_bound ( ) => .start_bound().v_copied()
//@sub . end_bound ( ) => .end_bound().v_copied()
//@sub Included ( & $x ) =>> Included($x)
//@sub Excluded ( & $x ) =>> Excluded($x)
//@refuse !in_range(range, self@.len() as int)
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end

//@fn byte_chunk.rs ByteChunk::make_sliced
//@prop P02 P05
//@sig + SliceIndex < [ u8 ] , Output = [ u8 ] >> => >
//@sub core::ops::Bound => Bound
//@sub . start_bound ( ) => .start_bound().v_copied()
//@sub . end_bound ( ) => .end_bound().v_copied()
//@sub Included ( & $x ) =>> Included($x)
//@sub Excluded ( & $x ) =>> Excluded($x)
//@refuse !in_range(range, old(self)@.len() as int)
//@spec
    requires old(self).wf()
    ensures
        in_range(range, old(self)@.len() as int), final(self).wf(),
        final(self)@ =~= old(self)@.subrange(first(range), past(range, old(self)@.len() as int))
//@end

//@fn byte_chunk.rs <ByteChunk as Default>::default
//@prop P05
//@ret r
//@sub core::mem::zeroed ( ) => (ByteChunk { len: 0, data: [0; 14] })
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty()
//@end

//@fn byte_chunk.rs <ByteChunk as core::fmt::Write>::write_str
//@prop P05
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@sig & str => &[u8]
//@sig core::fmt::Result => Result<(), Error>
//@sub s . as_bytes ( ) => s
//@sub core::fmt::Error => Error
//@spec
    requires old(self).wf(), s@.len() <= isize::MAX
    ensures
        final(self).wf(),
        r is Ok <==> old(self)@.len() + s@.len() <= 14,
        r is Ok ==> final(self)@ =~= old(self)@ + s@,
        r is Err ==> final(self)@ =~= old(self)@,
//@loop 0 while
    invariant
        i <= len, len == s@.len(), self_len + len <= 14, self.len == self_len, self_len == old(self).len,
        forall|j: int| 0 <= j < self_len ==> self.data[j] == old(self).data[j],
        forall|j: int| 0 <= j < i ==> self.data[self_len + j] == s[j],
    decreases len - i
//@end
}

} // verus!
fn main() {}
