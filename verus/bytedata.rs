//@props P01 P02 P15 P24
//@title byte values of every representation, for every content, range and owner
//@assume the union: reading a field is given the contract "the value has that representation" as precondition, and its first byte is that of the representation (little endian; blocks of shared bytes stand at multiples of 4, as their layout says)
//@assume slices are shorter than 2^56 bytes; a slice given as `&'static` may be kept for ever; the bytes of a `Vec` stay the same when it is moved
//@assume drops the compiler inserts at the end of a scope are not modelled; a handle that is overwritten or forgotten must have been given back
use vstd::prelude::*;

verus! {

//@uses shared.rs
//@uses byte_chunk.rs
//@uses external.rs in ext
//@uses p06.rs in find

// ---- what lies outside: references to bytes ----

/// Bytes behind a reference: what they are (`@`) and whether the reference may be kept for ever.
#[verifier::external_body]
pub struct Bytes { b: [u8] }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn lasting(&self) -> bool;
    #[verifier::external_body]
    fn v_of(b: &[u8]) -> (r: &Bytes)
        ensures r@ == b@
    { unimplemented!() }
    #[verifier::external_body]
    fn v_raw(&self) -> (r: &[u8])
        ensures r@ == self@
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self@.len(), r < 0x100_0000_0000_0000
    { unimplemented!() }
    fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0)
    { self.len() == 0 }
    /// `&self[range]`
    #[verifier::external_body]
    fn v_part<R: RangeBounds<usize>>(&self, range: R, allowed: Ghost<bool>) -> (r: &Bytes)
        requires !in_range(range, self@.len() as int) ==> allowed@
        ensures in_range(range, self@.len() as int), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), r.lasting() == self.lasting()
    { unimplemented!() }
    /// `self[i]`
    #[verifier::external_body]
    fn v_byte(&self, i: usize) -> (r: u8)
        requires i < self@.len()
        ensures r == self@[i as int]
    { unimplemented!() }
    #[verifier::external_body]
    fn v_at(&self, i: usize) -> (r: &u8)
        requires i < self@.len()
        ensures *r == self@[i as int]
    { unimplemented!() }
    /// A reference that may be kept for ever has every lifetime.
    #[verifier::external_body]
    fn v_keep<'s>(&self) -> (r: &'s Bytes)
        requires self.lasting()
        ensures r@ == self@, r.lasting()
    { unimplemented!() }
    #[verifier::external_body]
    fn v_empty<'s>() -> (r: &'s Bytes)
        ensures r@.len() == 0, r.lasting()
    { unimplemented!() }
    /// The address of the first byte.
    fn as_ptr(&self) -> (r: To<'_>)
        ensures r.s == self
    { To { s: self } }
}
/// A pointer to the first byte.
#[derive(Clone, Copy)]
pub struct To<'a> { pub s: &'a Bytes }
/// `from_raw_parts`
#[verifier::external_body]
fn v_parts<'a>(p: To<'a>, n: usize) -> (r: &'a Bytes)
    requires n <= p.s@.len()
    ensures r@ =~= p.s@.subrange(0, n as int), r.lasting() == p.s.lasting()
{ unimplemented!() }

//@item bytedata.rs struct ByteSlice addr : * const u8 => addr: To<'a>
impl<'a> Copy for ByteSlice<'a> {}
impl<'a> Clone for ByteSlice<'a> {
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { *self }
}

/// What the low byte of a slice's length field says.
proof fn marks(n: u64)
    ensures
        n < 0x100_0000_0000_0000 ==> {
            &&& ((n << 8) | 0x8f) >> 8 == n && ((n << 8) | 0x0f) >> 8 == n
            &&& (((n << 8) | 0x8f) as u8) == 0x8fu8 && (((n << 8) | 0x0f) as u8) == 0x0fu8
        },
        (n | 0x80) >> 8 == n >> 8,
        (n as u8) == 0x0fu8 || (n as u8) == 0x8fu8 ==> ((n | 0x80) as u8) == 0x8fu8,
        0x0fu8 & 0x80 == 0, 0x8fu8 & 0x80 != 0, 0x0fu8 & 0x0f == 0x0f, 0x8fu8 & 0x0f == 0x0f,
{
    assert(n < 0x100_0000_0000_0000 ==> {
            &&& ((n << 8) | 0x8f) >> 8 == n && ((n << 8) | 0x0f) >> 8 == n
            &&& (((n << 8) | 0x8f) as u8) == 0x8fu8 && (((n << 8) | 0x0f) as u8) == 0x0fu8
        }) by (bit_vector);
    assert((n | 0x80) >> 8 == n >> 8) by (bit_vector);
    assert((n as u8) == 0x0fu8 || (n as u8) == 0x8fu8 ==> ((n | 0x80) as u8) == 0x8fu8) by (bit_vector);
    assert(0x0fu8 & 0x80 == 0 && 0x8fu8 & 0x80 != 0 && 0x0fu8 & 0x0f == 0x0f && 0x8fu8 & 0x0f == 0x0f) by (bit_vector);
}

impl<'a> ByteSlice<'a> {
    pub open spec fn first(&self) -> u8 { self.len as u8 }
    pub open spec fn marked(&self) -> bool { self.first() == 0x8f }
    pub open spec fn n(&self) -> int { (self.len >> 8) as int }
    pub open spec fn wf(&self) -> bool {
        (self.first() == 0x0f || self.first() == 0x8f) && self.n() <= self.addr.s@.len() && (self.marked() ==> self.addr.s.lasting())
    }
    pub open spec fn view(&self) -> Seq<u8> { self.addr.s@.subrange(0, self.n()) }

    /// The first byte of the value.
    #[verifier::external_body]
    fn v_first(&self) -> (r: u8)
        ensures r == self.first()
    { unimplemented!() }
    /// `*ptr |= x` for a pointer to the first byte.
    #[verifier::external_body]
    fn v_or_first(&mut self, x: u8)
        ensures final(self).len == old(self).len | x as u64, final(self).addr == old(self).addr
    { unimplemented!() }

//@fn bytedata.rs ByteSlice::new
//@prop P01 P02
//@ret r
//@sig & [ u8 ] => &'a Bytes
//@sub . to_le ( ) =>
//@sub ByteSlice { =>> let ghost n = data@.len() as u64; proof { marks(n); } ByteSlice {
//@spec
    requires is_static ==> data.lasting()
    ensures r.wf(), r@ =~= data@, r.marked() == is_static, r.addr.s.lasting() == data.lasting()
//@at start
    proof { marks(data@.len() as u64); }
//@end

//@fn bytedata.rs ByteSlice::is_static
//@prop P01 P02
//@ret r
//@sub core::mem::transmute_copy::<Self , u8> ( self ) => self.v_first()
//@spec
    requires self.wf()
    ensures r == self.marked()
//@at start
    proof { marks(self.len); }
//@end

//@fn bytedata.rs ByteSlice::len
//@prop P01
//@ret r
//@sub . to_le ( ) =>
//@sub 8_u16 => 8
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn bytedata.rs ByteSlice::is_empty
//@prop P01
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end

//@fn bytedata.rs ByteSlice::as_slice
//@prop P01
//@ret r
//@sig &'a [ u8 ] => &'a Bytes
//@sub core::slice::from_raw_parts ( $(p) , $(n) ) => v_parts($(p), $(n))
//@spec
    requires self.wf()
    ensures r@ =~= self@, r.lasting() == self.addr.s.lasting()
//@end

//@fn bytedata.rs ByteSlice::make_static
//@prop P01
//@sub let ptr = ( self as * mut Self ) . cast::<u8> ( ) ; =>
//@sub * ptr |= $(x) => self.v_or_first($(x))
//@spec
    requires old(self).wf(), old(self).addr.s.lasting()
    ensures final(self).wf(), final(self)@ =~= old(self)@, final(self).addr == old(self).addr
//@at start
    proof { marks(self.len); }
//@end
}

// ---- the four representations ----

#[derive(Clone, Copy)]
//@item bytedata.rs struct DataKind
//@item bytedata.rs enum Kind
//@item bytedata.rs const KIND_CHUNK_MASK
pub type WrappedChunk = DataKind<ByteChunk>;

pub open spec fn kind_of(b: u8) -> Kind {
    if b & 0x0f == 7 { Kind::Chunk } else if b & 0x0f == 0x0f { Kind::Slice } else if b & 0x0f == 3 { Kind::External } else { Kind::Shared }
}
pub open spec fn known(b: u8) -> bool { b & 0x0f == 7 || b & 0x0f == 0x0f || b & 0x0f == 3 || b & 3 == 0 }
proof fn nibbles(b: u8)
    ensures
        b & 3 == 0 ==> b & 0x0f != 7 && b & 0x0f != 0x0f && b & 0x0f != 3 && (b & 0x0f) & 3 == 0,
        (b & 0x0f) & 3 == 0 ==> b & 3 == 0, 3u8 & 0x0f == 3, 7u8 & 0x0f == 7,
{
    assert(b & 3 == 0 ==> b & 0x0f != 7 && b & 0x0f != 0x0f && b & 0x0f != 3 && (b & 0x0f) & 3 == 0) by (bit_vector);
    assert((b & 0x0f) & 3 == 0 ==> b & 3 == 0) by (bit_vector);
    assert(3u8 & 0x0f == 3 && 7u8 & 0x0f == 7) by (bit_vector);
}
#[verifier::external_body]
fn v_trailing_zeros(b: u8) -> (r: u32)
    ensures (r >= 2) == (b & 3 == 0)
{ b.trailing_zeros() }

impl<T: Copy> DataKind<T> {
//@fn bytedata.rs DataKind::kind
//@prop P01
//@ret r
//@sub external::KIND_EXT_BYTES => ext::KIND_EXT_BYTES
//@sub base_kind . trailing_zeros ( ) => v_trailing_zeros(base_kind)
//@spec
    requires known(self.kind)
    ensures r == kind_of(self.kind)
//@at start
    proof { nibbles(self.kind); }
//@end
}

pub enum ByteData<'a> { Chunk(WrappedChunk), Slice(ByteSlice<'a>), Shared(SharedBytes), External(ext::ExtBytes) }
/// The low byte of the address of a block of shared bytes.
pub uninterp spec fn low(s: SharedBytes) -> u8;

impl SharedBytes {
    /// `SharedBytes::sliced_range` without the rights, of which there are none before and after.
    fn v_sliced_range<R: RangeBounds<usize>>(&self, range: R, allowed: Ghost<bool>) -> (r: SharedBytes)
        requires self.wf(), !in_range(range, self@.len() as int) ==> allowed@
        ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), r@.len() > 0 ==> r.same_block(self)
    { let tracked mut rights = no_rights(); self.sliced_range(Tracked(&mut rights), range) }
}

/// `a` holds the bytes of `b` where `b` holds them (inline bytes: a copy of them).
pub open spec fn same_copy<'a, 'b>(a: ByteData<'a>, b: ByteData<'b>) -> bool {
    &&& a@ =~= b@
    &&& b matches ByteData::Slice(o) ==> (a matches ByteData::Slice(e) && e.addr.s == o.addr.s)
    &&& b matches ByteData::Shared(o) ==> b@.len() > 0 ==> (a matches ByteData::Shared(e) && e.same_block(&o) && e.off == o.off)
    &&& b matches ByteData::External(o) ==> (a matches ByteData::External(e) && e.same_owner(&o))
}
impl<'a> ByteData<'a> {
    pub open spec fn kind_spec(&self) -> Kind {
        match self { ByteData::Chunk(_) => Kind::Chunk, ByteData::Slice(_) => Kind::Slice, ByteData::Shared(_) => Kind::Shared, ByteData::External(_) => Kind::External }
    }
    pub open spec fn wf(&self) -> bool {
        match self {
            ByteData::Chunk(c) => c.kind == 7 && c.data.wf(),
            ByteData::Slice(s) => s.wf(),
            ByteData::Shared(s) => s.wf(),
            ByteData::External(e) => e.wf() && e@.len() > 14,
        }
    }
    pub open spec fn view(&self) -> Seq<u8> {
        match self { ByteData::Chunk(c) => c.data@, ByteData::Slice(s) => s@, ByteData::Shared(s) => s@, ByteData::External(e) => e@ }
    }
    /// Nothing is held: the value may be overwritten or forgotten.
    pub open spec fn gone(&self) -> bool {
        match self {
            ByteData::Chunk(_) => true,
            ByteData::Slice(_) => true,
            ByteData::Shared(s) => !s.dat_addr.v().live && !s.dat_addr.v().owned,
            ByteData::External(e) => e.data.v() is None,
        }
    }
    /// Does not depend on the lifetime of what it was made from.
    pub open spec fn own(&self) -> bool { self matches ByteData::Slice(s) ==> s.addr.s.lasting() }

    // the fields of the union
    #[verifier::external_body]
    fn v_head(&self) -> (r: DataKind<()>)
        ensures
            self matches ByteData::Chunk(c) ==> r.kind == c.kind,
            self matches ByteData::Slice(s) ==> r.kind == s.first(),
            self matches ByteData::Shared(s) ==> (s.wf() ==> r.kind & 3 == 0),
            self matches ByteData::External(e) ==> r.kind == e.magic@[0],
    { unimplemented!() }
    fn v_chunk(&self) -> (r: &WrappedChunk)
        requires self is Chunk
        ensures *r == self->Chunk_0
    { match self { ByteData::Chunk(c) => c, _ => v_never() } }
    fn v_slice(&self) -> (r: &ByteSlice<'a>)
        requires self is Slice
        ensures *r == self->Slice_0
    { match self { ByteData::Slice(c) => c, _ => v_never() } }
    fn v_shared(&self) -> (r: &SharedBytes)
        requires self is Shared
        ensures *r == self->Shared_0
    { match self { ByteData::Shared(c) => c, _ => v_never() } }
    fn v_external(&self) -> (r: &ext::ExtBytes)
        requires self is External
        ensures *r == self->External_0
    { match self { ByteData::External(c) => c, _ => v_never() } }
    fn v_shared_bytes(&self) -> (r: SharedView<'_>)
        requires self is Shared, self.wf()
        ensures r.0 == self->Shared_0
    { SharedView(self.v_shared()) }
    fn v_external_bytes(&self) -> (r: ExtView<'_>)
        requires self is External, self.wf()
        ensures r.0 == self->External_0
    { ExtView(self.v_external()) }
    fn v_chunk_mut(&mut self) -> (r: &mut WrappedChunk)
        requires *old(self) is Chunk
        ensures *r == old(self)->Chunk_0, *final(self) == ByteData::<'a>::Chunk(*final(r))
    { match self { ByteData::Chunk(c) => c, _ => v_never() } }
    fn v_slice_mut(&mut self) -> (r: &mut ByteSlice<'a>)
        requires *old(self) is Slice
        ensures *r == old(self)->Slice_0, *final(self) == ByteData::<'a>::Slice(*final(r))
    { match self { ByteData::Slice(c) => c, _ => v_never() } }
    fn v_shared_mut(&mut self) -> (r: &mut SharedBytes)
        requires *old(self) is Shared
        ensures *r == old(self)->Shared_0, *final(self) == ByteData::<'a>::Shared(*final(r))
    { match self { ByteData::Shared(c) => c, _ => v_never() } }
    fn v_external_mut(&mut self) -> (r: &mut ext::ExtBytes)
        requires *old(self) is External
        ensures *r == old(self)->External_0, *final(self) == ByteData::<'a>::External(*final(r))
    { match self { ByteData::External(c) => c, _ => v_never() } }
    /// Overwrites the value: what it held must have been given back.
    fn v_set(&mut self, to: ByteData<'a>)
        requires old(self).gone()
        ensures *final(self) == to
    { *self = to; }
    /// `forget`: what it held must have been given back.
    fn v_forget(self)
        requires self.gone()
    { }
    /// `transmute` of the lifetime: only of what does not depend on it.
    #[verifier::external_body]
    fn v_relife<'s>(self) -> (r: ByteData<'s>)
        requires self.wf(), self.own()
        ensures r.wf(), r@ == self@, r.own(), r.kind_spec() == self.kind_spec(), self matches ByteData::External(e) ==> r == ByteData::<'s>::External(e), self matches ByteData::Shared(e) ==> r == ByteData::<'s>::Shared(e), self matches ByteData::Chunk(e) ==> r == ByteData::<'s>::Chunk(e),
            self matches ByteData::Slice(e) ==> (r matches ByteData::Slice(o) && o.len == e.len && o.addr.s == e.addr.s)
    { unimplemented!() }
}
pub struct SharedView<'a>(pub &'a SharedBytes);
impl<'a> SharedView<'a> {
    fn as_slice(&self) -> (r: &'a Bytes)
        requires self.0.wf()
        ensures r@ =~= self.0@
    { Bytes::v_of(self.0.as_slice()) }
}
pub struct ExtView<'a>(pub &'a ext::ExtBytes);
impl<'a> ExtView<'a> {
    fn as_slice(&self) -> (r: &'a Bytes)
        requires self.0.wf()
        ensures r@ =~= self.0@
    { Bytes::v_of(self.0.as_slice()) }
}
/// The bytes behind a reference of either kind.
pub trait Raw {
    spec fn seq(&self) -> Seq<u8>;
    fn v_raw_of(&self) -> (r: &[u8])
        ensures r@ == self.seq();
}
impl Raw for Bytes {
    open spec fn seq(&self) -> Seq<u8> { self@ }
    fn v_raw_of(&self) -> (r: &[u8]) { self.v_raw() }
}
impl Raw for [u8] {
    open spec fn seq(&self) -> Seq<u8> { self@ }
    fn v_raw_of(&self) -> (r: &[u8]) { self }
}
#[verifier::external_body]
fn v_never<T>() -> (r: T)
    requires false
{ unimplemented!() }
#[verifier::external_body]
proof fn no_rights() -> (tracked r: Rights)
    ensures r.n() == 0
{ unimplemented!() }
#[verifier::external_body]
proof fn no_ext_rights() -> (tracked r: ext::Rights)
    ensures r.n() == 0
{ unimplemented!() }
#[verifier::external_body]
proof fn vec_steady(v: Vec<u8>)
    ensures ext::steady(v), ext::bytes_of(v, ext::here(&v)) == v@
{ unimplemented!() }
impl SharedBytes {
    fn v_clone(&self) -> (r: SharedBytes)
        requires self.wf()
        ensures r.wf(), r@ =~= self@, r@.len() > 0 ==> r.same_block(self) && r.off == self.off
    { let tracked mut rights = no_rights(); self.clone(Tracked(&mut rights)) }
}
impl ext::ExtBytes {
    fn v_clone(&self) -> (r: ext::ExtBytes)
        requires self.wf()
        ensures r.wf(), r@ == self@, r.same_owner(self)
    { let tracked mut rights = no_ext_rights(); self.clone(Tracked(&mut rights)) }
    fn v_sliced_range<'a, R: RangeBounds<usize>>(&self, range: R, allowed: Ghost<bool>) -> (r: ByteData<'a>)
        requires self.wf(), !in_range(range, self@.len() as int) ==> allowed@
        ensures
            in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)),
            r is Chunk || r is External, r matches ByteData::External(e) ==> e.same_owner(self),
    { let tracked mut rights = no_ext_rights(); v_made(self.sliced_range(Tracked(&mut rights), range)) }
}
/// The value as the module of external bytes sees it.
#[verifier::external_body]
fn v_made<'a>(b: ext::ByteData) -> (r: ByteData<'a>)
    requires b.wf()
    ensures r.wf(), r@ == b@, b matches ext::ByteData::External(e) ==> r == ByteData::<'a>::External(e), b is Chunk ==> r is Chunk, r.own()
{ unimplemented!() }

//@fn bytedata.rs empty_chunk
//@prop P01
//@ret r
//@sub core::mem::zeroed ( ) => (ByteChunk { len: 0, data: [0; 14] })
//@spec
    ensures r.kind == 7, r.data.wf(), r.data@ =~= Seq::<u8>::empty()
//@end

impl<'a> ByteData<'a> {
//@fn bytedata.rs ByteData::kind
//@prop P01 P02
//@ret r
//@sub self . chunk . kind ( ) => self.v_head().kind()
//@spec
    requires self.wf()
    ensures r == self.kind_spec()
//@at start
    proof { marks(0); nibbles(0); assert(forall|b: u8| #![trigger b & 3] b & 3 == 0 ==> known(b) && kind_of(b) is Shared) by { assert forall|b: u8| #![trigger b & 3] b & 3 == 0 implies known(b) && kind_of(b) is Shared by { nibbles(b); } } }
//@end

//@fn bytedata.rs ByteData::empty
//@prop P01
//@ret r
//@sub Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty(), r is Chunk
//@end

//@fn bytedata.rs ByteData::from_static
//@prop P01
//@ret r
//@sig &'static [ u8 ] => &'static Bytes
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@spec
    requires dat.lasting()
    ensures r.wf(), r@ =~= dat@, r.own()
//@end

//@fn bytedata.rs ByteData::from_chunk_slice
//@prop P01
//@ret r
//@refuse dat@.len() > 14
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@spec
    ensures dat@.len() <= 14, r.wf(), r@ =~= dat@, r is Chunk
//@end

//@fn bytedata.rs ByteData::from_byte
//@prop P01
//@ret r
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@spec
    ensures r.wf(), r@ =~= seq![b0], r is Chunk
//@end

//@fn bytedata.rs ByteData::from_chunk
//@prop P01
//@ret r
//@refuse L > 14
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@spec
    ensures L <= 14, r.wf(), r@ =~= dat@, r is Chunk
//@end

//@fn bytedata.rs ByteData::from_borrowed
//@prop P01
//@ret r
//@sig &'a [ u8 ] => &'a Bytes
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@spec
    ensures r.wf(), r@ =~= dat@
//@end

//@fn bytedata.rs ByteData::from_shared
//@prop P01
//@ret r
//@opt Self { shared : $(x) , } => Self::Shared($(x))
//@opt Self { shared : $(x) } => Self::Shared($(x))
//@opt core::mem::ManuallyDrop::new ( $(x) ) => $(x)
//@spec
    requires dat.wf()
    ensures r.wf(), r@ =~= dat@, r == ByteData::<'a>::Shared(dat)
//@end

//@fn bytedata.rs ByteData::from_owned
//@prop P01 P15
//@ret r
//@sub dat . as_slice ( ) => dat.as_slice()
//@sub external::ExtBytes::create ( $(x) ) => ({ proof { vec_steady(dat); } v_made(ext::ExtBytes::create($(x))) })
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@spec
    ensures r.wf(), r@ =~= dat@, r.own()
//@end

//@fn bytedata.rs ByteData::from_external
//@prop P01 P15
//@ret r
//@sig <E : external::IntoExternalBytes> => <E>
//@sub external::ExtBytes::create ( $(x) ) => v_made(ext::ExtBytes::create($(x)))
//@spec
    ensures
        r.wf(), r.own(), ext::steady(dat) ==> r@ =~= ext::bytes_of(dat, ext::here(&dat)),
        r is Chunk || r is External,
        r matches ByteData::External(e) ==> e.block().kind == ext::kind::<E>() && ext::owner::<E>(e.block()) == dat && e@ =~= e.block().bytes,
//@end

//@fn bytedata.rs ByteData::as_slice
//@prop P01
//@ret r
//@sig & [ u8 ] => &Bytes
//@sub self . chunk . data . as_slice ( ) => Bytes::v_of(self.v_chunk().data.as_slice())
//@sub core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( & self . shared , ) => self.v_shared_bytes()
//@sub core::mem::transmute::< & core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( & self . external ) => self.v_external_bytes()
//@opt & mut self . chunk => self.v_chunk_mut()
//@opt & mut self . slice => self.v_slice_mut()
//@opt & mut self . shared => self.v_shared_mut()
//@opt & mut self . external => self.v_external_mut()
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( $(x) , ) => $(x)
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( $(x) ) => $(x)
//@opt & self . chunk . data . as_slice ( ) [ $(r) ] => Bytes::v_of(self.v_chunk().data.as_slice()).v_part($(r), Ghost(false))
//@opt & $x . as_slice ( ) [ $(r) ] => $x.as_slice().v_part($(r), Ghost(false))
//@opt self . chunk . data . make_sliced => self.v_chunk_mut().data.make_sliced
//@opt ( * self . shared ) . make_sliced_range => self.v_shared_mut().make_sliced_range
//@opt ( * self . external ) . make_sliced_range => self.v_external_mut().make_sliced_range
//@opt ( * self . external ) . as_slice ( ) => Bytes::v_of(self.v_external().as_slice())
//@opt ( * self . shared ) . as_slice ( ) => Bytes::v_of(self.v_shared().as_slice())
//@opt self . chunk = $(x) ; => self.v_set(ByteData::Chunk($(x)));
//@opt self . shared = $(x) ; => self.v_set(ByteData::Shared($(x)));
//@opt & self . slice => self.v_slice()
//@opt & self . shared => self.v_shared()
//@opt & self . external => self.v_external()
//@opt self . chunk . => self.v_chunk().
//@opt self . slice . => self.v_slice().
//@opt unsafe { self . chunk } => *self.v_chunk()
//@opt unsafe { self . slice } => *self.v_slice()
//@opt core::mem::forget ( $(x) ) => $(x).v_forget()
//@opt core::mem::transmute::<ByteData<'a> , ByteData<'s>> ( $(x) ) => $(x).v_relife()
//@opt core::ptr::drop_in_place ( $(x) ) => $(x).release()
//@opt & * ( $x as * const core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & * ( $x as * const core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt ByteData::from_chunk_slice ( $(x) ) => ByteData::from_chunk_slice($(x).v_raw_of())
//@opt Self::from_chunk_slice ( $(x) ) => Self::from_chunk_slice($(x).v_raw_of())
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@opt core::mem::replace ( & mut self . 0 , $(x) ) => v_replace(&mut self.0, $(x))
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@opt Self { shared : $(x) , } => Self::Shared($(x))
//@opt Self { shared : $(x) } => Self::Shared($(x))
//@opt core::mem::ManuallyDrop::new ( $(x) ) => $(x)
//@opt Self { external : $(x) , } => Self::External($(x))
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end

//@fn bytedata.rs ByteData::as_borrowed
//@prop P01
//@ret r
//@sig &'a [ u8 ] => &'a Bytes
//@opt & mut self . chunk => self.v_chunk_mut()
//@opt & mut self . slice => self.v_slice_mut()
//@opt & mut self . shared => self.v_shared_mut()
//@opt & mut self . external => self.v_external_mut()
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( $(x) , ) => $(x)
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( $(x) ) => $(x)
//@opt & self . chunk . data . as_slice ( ) [ $(r) ] => Bytes::v_of(self.v_chunk().data.as_slice()).v_part($(r), Ghost(false))
//@opt & $x . as_slice ( ) [ $(r) ] => $x.as_slice().v_part($(r), Ghost(false))
//@opt self . chunk . data . make_sliced => self.v_chunk_mut().data.make_sliced
//@opt ( * self . shared ) . make_sliced_range => self.v_shared_mut().make_sliced_range
//@opt ( * self . external ) . make_sliced_range => self.v_external_mut().make_sliced_range
//@opt ( * self . external ) . as_slice ( ) => Bytes::v_of(self.v_external().as_slice())
//@opt ( * self . shared ) . as_slice ( ) => Bytes::v_of(self.v_shared().as_slice())
//@opt self . chunk = $(x) ; => self.v_set(ByteData::Chunk($(x)));
//@opt self . shared = $(x) ; => self.v_set(ByteData::Shared($(x)));
//@opt & self . slice => self.v_slice()
//@opt & self . shared => self.v_shared()
//@opt & self . external => self.v_external()
//@opt self . chunk . => self.v_chunk().
//@opt self . slice . => self.v_slice().
//@opt unsafe { self . chunk } => *self.v_chunk()
//@opt unsafe { self . slice } => *self.v_slice()
//@opt core::mem::forget ( $(x) ) => $(x).v_forget()
//@opt core::mem::transmute::<ByteData<'a> , ByteData<'s>> ( $(x) ) => $(x).v_relife()
//@opt core::ptr::drop_in_place ( $(x) ) => $(x).release()
//@opt & * ( $x as * const core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & * ( $x as * const core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt ByteData::from_chunk_slice ( $(x) ) => ByteData::from_chunk_slice($(x).v_raw_of())
//@opt Self::from_chunk_slice ( $(x) ) => Self::from_chunk_slice($(x).v_raw_of())
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@opt core::mem::replace ( & mut self . 0 , $(x) ) => v_replace(&mut self.0, $(x))
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@opt Self { shared : $(x) , } => Self::Shared($(x))
//@opt Self { shared : $(x) } => Self::Shared($(x))
//@opt core::mem::ManuallyDrop::new ( $(x) ) => $(x)
//@opt Self { external : $(x) , } => Self::External($(x))
//@spec
    requires self.wf()
    ensures r is Some == (self is Slice), r matches Some(b) ==> b@ =~= self@
//@end

//@fn bytedata.rs ByteData::len
//@prop P01
//@ret r
//@sub core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( & self . shared , ) => self.v_shared()
//@sub core::mem::transmute::< & core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( & self . external ) => self.v_external()
//@opt & mut self . chunk => self.v_chunk_mut()
//@opt & mut self . slice => self.v_slice_mut()
//@opt & mut self . shared => self.v_shared_mut()
//@opt & mut self . external => self.v_external_mut()
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( $(x) , ) => $(x)
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( $(x) ) => $(x)
//@opt & self . chunk . data . as_slice ( ) [ $(r) ] => Bytes::v_of(self.v_chunk().data.as_slice()).v_part($(r), Ghost(false))
//@opt & $x . as_slice ( ) [ $(r) ] => $x.as_slice().v_part($(r), Ghost(false))
//@opt self . chunk . data . make_sliced => self.v_chunk_mut().data.make_sliced
//@opt ( * self . shared ) . make_sliced_range => self.v_shared_mut().make_sliced_range
//@opt ( * self . external ) . make_sliced_range => self.v_external_mut().make_sliced_range
//@opt ( * self . external ) . as_slice ( ) => Bytes::v_of(self.v_external().as_slice())
//@opt ( * self . shared ) . as_slice ( ) => Bytes::v_of(self.v_shared().as_slice())
//@opt self . chunk = $(x) ; => self.v_set(ByteData::Chunk($(x)));
//@opt self . shared = $(x) ; => self.v_set(ByteData::Shared($(x)));
//@opt & self . slice => self.v_slice()
//@opt & self . shared => self.v_shared()
//@opt & self . external => self.v_external()
//@opt self . chunk . => self.v_chunk().
//@opt self . slice . => self.v_slice().
//@opt unsafe { self . chunk } => *self.v_chunk()
//@opt unsafe { self . slice } => *self.v_slice()
//@opt core::mem::forget ( $(x) ) => $(x).v_forget()
//@opt core::mem::transmute::<ByteData<'a> , ByteData<'s>> ( $(x) ) => $(x).v_relife()
//@opt core::ptr::drop_in_place ( $(x) ) => $(x).release()
//@opt & * ( $x as * const core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & * ( $x as * const core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt ByteData::from_chunk_slice ( $(x) ) => ByteData::from_chunk_slice($(x).v_raw_of())
//@opt Self::from_chunk_slice ( $(x) ) => Self::from_chunk_slice($(x).v_raw_of())
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@opt core::mem::replace ( & mut self . 0 , $(x) ) => v_replace(&mut self.0, $(x))
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@opt Self { shared : $(x) , } => Self::Shared($(x))
//@opt Self { shared : $(x) } => Self::Shared($(x))
//@opt core::mem::ManuallyDrop::new ( $(x) ) => $(x)
//@opt Self { external : $(x) , } => Self::External($(x))
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn bytedata.rs ByteData::is_empty
//@prop P01
//@ret r
//@sub core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( & self . shared , ) => self.v_shared()
//@opt & mut self . chunk => self.v_chunk_mut()
//@opt & mut self . slice => self.v_slice_mut()
//@opt & mut self . shared => self.v_shared_mut()
//@opt & mut self . external => self.v_external_mut()
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( $(x) , ) => $(x)
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( $(x) ) => $(x)
//@opt & self . chunk . data . as_slice ( ) [ $(r) ] => Bytes::v_of(self.v_chunk().data.as_slice()).v_part($(r), Ghost(false))
//@opt & $x . as_slice ( ) [ $(r) ] => $x.as_slice().v_part($(r), Ghost(false))
//@opt self . chunk . data . make_sliced => self.v_chunk_mut().data.make_sliced
//@opt ( * self . shared ) . make_sliced_range => self.v_shared_mut().make_sliced_range
//@opt ( * self . external ) . make_sliced_range => self.v_external_mut().make_sliced_range
//@opt ( * self . external ) . as_slice ( ) => Bytes::v_of(self.v_external().as_slice())
//@opt ( * self . shared ) . as_slice ( ) => Bytes::v_of(self.v_shared().as_slice())
//@opt self . chunk = $(x) ; => self.v_set(ByteData::Chunk($(x)));
//@opt self . shared = $(x) ; => self.v_set(ByteData::Shared($(x)));
//@opt & self . slice => self.v_slice()
//@opt & self . shared => self.v_shared()
//@opt & self . external => self.v_external()
//@opt self . chunk . => self.v_chunk().
//@opt self . slice . => self.v_slice().
//@opt unsafe { self . chunk } => *self.v_chunk()
//@opt unsafe { self . slice } => *self.v_slice()
//@opt core::mem::forget ( $(x) ) => $(x).v_forget()
//@opt core::mem::transmute::<ByteData<'a> , ByteData<'s>> ( $(x) ) => $(x).v_relife()
//@opt core::ptr::drop_in_place ( $(x) ) => $(x).release()
//@opt & * ( $x as * const core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & * ( $x as * const core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt ByteData::from_chunk_slice ( $(x) ) => ByteData::from_chunk_slice($(x).v_raw_of())
//@opt Self::from_chunk_slice ( $(x) ) => Self::from_chunk_slice($(x).v_raw_of())
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@opt core::mem::replace ( & mut self . 0 , $(x) ) => v_replace(&mut self.0, $(x))
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@opt Self { shared : $(x) , } => Self::Shared($(x))
//@opt Self { shared : $(x) } => Self::Shared($(x))
//@opt core::mem::ManuallyDrop::new ( $(x) ) => $(x)
//@opt Self { external : $(x) , } => Self::External($(x))
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end

//@fn bytedata.rs ByteData::sliced
//@prop P02 P01 P15
//@ret r
//@sig + SliceIndex < [ u8 ] , Output = [ u8 ] >> => >
//@refuse !in_range(range, self@.len() as int)
//@sub . sliced_range ( $(r) ) => .v_sliced_range($(r), Ghost(yes(!in_range(range, self@.len() as int))))
//@opt & mut self . chunk => self.v_chunk_mut()
//@opt & mut self . slice => self.v_slice_mut()
//@opt & mut self . shared => self.v_shared_mut()
//@opt & mut self . external => self.v_external_mut()
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( $(x) , ) => $(x)
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( $(x) ) => $(x)
//@opt & self . chunk . data . as_slice ( ) [ $(r) ] => Bytes::v_of(self.v_chunk().data.as_slice()).v_part($(r), Ghost(yes(!in_range(range, self@.len() as int))))
//@opt & $x . as_slice ( ) [ $(r) ] => $x.as_slice().v_part($(r), Ghost(yes(!in_range(range, self@.len() as int))))
//@opt self . chunk . data . make_sliced => self.v_chunk_mut().data.make_sliced
//@opt ( * self . shared ) . make_sliced_range => self.v_shared_mut().make_sliced_range
//@opt ( * self . external ) . make_sliced_range => self.v_external_mut().make_sliced_range
//@opt ( * self . external ) . as_slice ( ) => Bytes::v_of(self.v_external().as_slice())
//@opt ( * self . shared ) . as_slice ( ) => Bytes::v_of(self.v_shared().as_slice())
//@opt self . chunk = $(x) ; => self.v_set(ByteData::Chunk($(x)));
//@opt self . shared = $(x) ; => self.v_set(ByteData::Shared($(x)));
//@opt & self . slice => self.v_slice()
//@opt & self . shared => self.v_shared()
//@opt & self . external => self.v_external()
//@opt self . chunk . => self.v_chunk().
//@opt self . slice . => self.v_slice().
//@opt unsafe { self . chunk } => *self.v_chunk()
//@opt unsafe { self . slice } => *self.v_slice()
//@opt core::mem::forget ( $(x) ) => $(x).v_forget()
//@opt core::mem::transmute::<ByteData<'a> , ByteData<'s>> ( $(x) ) => $(x).v_relife()
//@opt core::ptr::drop_in_place ( $(x) ) => $(x).release()
//@opt & * ( $x as * const core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & * ( $x as * const core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt ByteData::from_chunk_slice ( $(x) ) => ByteData::from_chunk_slice($(x).v_raw_of())
//@opt Self::from_chunk_slice ( $(x) ) => Self::from_chunk_slice($(x).v_raw_of())
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@opt core::mem::replace ( & mut self . 0 , $(x) ) => v_replace(&mut self.0, $(x))
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@opt Self { shared : $(x) , } => Self::Shared($(x))
//@opt Self { shared : $(x) } => Self::Shared($(x))
//@opt core::mem::ManuallyDrop::new ( $(x) ) => $(x)
//@opt Self { external : $(x) , } => Self::External($(x))
//@spec
    requires self.wf()
    ensures
        in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)),
        self.own() ==> r.own(),
        (r matches ByteData::External(e) ==> self matches ByteData::External(o) && e.same_owner(&o)),
        (r matches ByteData::Shared(e) ==> self matches ByteData::Shared(o) && e.same_block(&o)),
//@end

//@fn bytedata.rs ByteData::into_sliced
//@prop P02 P01 P15
//@ret r
//@sig + SliceIndex < [ u8 ] , Output = [ u8 ] >> => >
//@refuse !in_range(range, whole.len() as int)
//@opt & mut self . chunk => self.v_chunk_mut()
//@opt & mut self . slice => self.v_slice_mut()
//@opt & mut self . shared => self.v_shared_mut()
//@opt & mut self . external => self.v_external_mut()
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( $(x) , ) => $(x)
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( $(x) ) => $(x)
//@opt & self . chunk . data . as_slice ( ) [ $(r) ] => Bytes::v_of(self.v_chunk().data.as_slice()).v_part($(r), Ghost(yes(!in_range(range, whole.len() as int))))
//@opt & $x . as_slice ( ) [ $(r) ] => $x.as_slice().v_part($(r), Ghost(yes(!in_range(range, whole.len() as int))))
//@opt self . chunk . data . make_sliced => self.v_chunk_mut().data.make_sliced
//@opt ( * self . shared ) . make_sliced_range => self.v_shared_mut().make_sliced_range
//@opt ( * self . external ) . make_sliced_range => self.v_external_mut().make_sliced_range
//@opt ( * self . external ) . as_slice ( ) => Bytes::v_of(self.v_external().as_slice())
//@opt ( * self . shared ) . as_slice ( ) => Bytes::v_of(self.v_shared().as_slice())
//@opt self . chunk = $(x) ; => self.v_set(ByteData::Chunk($(x)));
//@opt self . shared = $(x) ; => self.v_set(ByteData::Shared($(x)));
//@opt & self . slice => self.v_slice()
//@opt & self . shared => self.v_shared()
//@opt & self . external => self.v_external()
//@opt self . chunk . => self.v_chunk().
//@opt self . slice . => self.v_slice().
//@opt unsafe { self . chunk } => *self.v_chunk()
//@opt unsafe { self . slice } => *self.v_slice()
//@opt core::mem::forget ( $(x) ) => $(x).v_forget()
//@opt core::mem::transmute::<ByteData<'a> , ByteData<'s>> ( $(x) ) => $(x).v_relife()
//@opt core::ptr::drop_in_place ( $(x) ) => $(x).release()
//@opt & * ( $x as * const core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & * ( $x as * const core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt ByteData::from_chunk_slice ( $(x) ) => ByteData::from_chunk_slice($(x).v_raw_of())
//@opt Self::from_chunk_slice ( $(x) ) => Self::from_chunk_slice($(x).v_raw_of())
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@opt core::mem::replace ( & mut self . 0 , $(x) ) => v_replace(&mut self.0, $(x))
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@opt Self { shared : $(x) , } => Self::Shared($(x))
//@opt Self { shared : $(x) } => Self::Shared($(x))
//@opt core::mem::ManuallyDrop::new ( $(x) ) => $(x)
//@opt Self { external : $(x) , } => Self::External($(x))
//@spec
    requires self.wf()
    ensures
        in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)),
        self.own() ==> r.own(),
        (r matches ByteData::External(e) ==> self matches ByteData::External(o) && e.same_owner(&o)),
        (r matches ByteData::Shared(e) ==> self matches ByteData::Shared(o) && e.same_block(&o)),
//@at start
    let ghost whole = self@;
//@end

//@fn bytedata.rs ByteData::make_sliced
//@prop P02 P01 P15
//@sig + SliceIndex < [ u8 ] , Output = [ u8 ] >> => >
//@refuse !in_range(range, old(self)@.len() as int)
//@opt & mut self . chunk => self.v_chunk_mut()
//@opt & mut self . slice => self.v_slice_mut()
//@opt & mut self . shared => self.v_shared_mut()
//@opt & mut self . external => self.v_external_mut()
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( $(x) , ) => $(x)
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( $(x) ) => $(x)
//@opt & self . chunk . data . as_slice ( ) [ $(r) ] => Bytes::v_of(self.v_chunk().data.as_slice()).v_part($(r), Ghost(yes(!in_range(range, old(self)@.len() as int))))
//@opt & $x . as_slice ( ) [ $(r) ] => $x.as_slice().v_part($(r), Ghost(yes(!in_range(range, old(self)@.len() as int))))
//@opt self . chunk . data . make_sliced => self.v_chunk_mut().data.make_sliced
//@opt ( * self . shared ) . make_sliced_range => self.v_shared_mut().make_sliced_range
//@opt ( * self . external ) . make_sliced_range => self.v_external_mut().make_sliced_range
//@opt ( * self . external ) . as_slice ( ) => Bytes::v_of(self.v_external().as_slice())
//@opt ( * self . shared ) . as_slice ( ) => Bytes::v_of(self.v_shared().as_slice())
//@opt self . chunk = $(x) ; => self.v_set(ByteData::Chunk($(x)));
//@opt self . shared = $(x) ; => self.v_set(ByteData::Shared($(x)));
//@opt & self . slice => self.v_slice()
//@opt & self . shared => self.v_shared()
//@opt & self . external => self.v_external()
//@opt self . chunk . => self.v_chunk().
//@opt self . slice . => self.v_slice().
//@opt unsafe { self . chunk } => *self.v_chunk()
//@opt unsafe { self . slice } => *self.v_slice()
//@opt core::mem::forget ( $(x) ) => $(x).v_forget()
//@opt core::mem::transmute::<ByteData<'a> , ByteData<'s>> ( $(x) ) => $(x).v_relife()
//@opt core::ptr::drop_in_place ( $(x) ) => $(x).release()
//@opt & * ( $x as * const core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & * ( $x as * const core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt ByteData::from_chunk_slice ( $(x) ) => ByteData::from_chunk_slice($(x).v_raw_of())
//@opt Self::from_chunk_slice ( $(x) ) => Self::from_chunk_slice($(x).v_raw_of())
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@opt core::mem::replace ( & mut self . 0 , $(x) ) => v_replace(&mut self.0, $(x))
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@opt Self { shared : $(x) , } => Self::Shared($(x))
//@opt Self { shared : $(x) } => Self::Shared($(x))
//@opt core::mem::ManuallyDrop::new ( $(x) ) => $(x)
//@opt Self { external : $(x) , } => Self::External($(x))
//@spec
    requires old(self).wf()
    ensures
        in_range(range, old(self)@.len() as int), final(self).wf(), final(self)@ =~= old(self)@.subrange(first(range), past(range, old(self)@.len() as int)),
        old(self).own() ==> final(self).own(),
        (*final(self) matches ByteData::External(e) ==> *old(self) matches ByteData::External(o) && e.same_owner(&o)),
        (*final(self) matches ByteData::Shared(e) ==> *old(self) matches ByteData::Shared(o) && e.same_block(&o)),
//@end

//@fn bytedata.rs ByteData::into_shared
//@prop P01
//@ret r
//@opt & mut self . chunk => self.v_chunk_mut()
//@opt & mut self . slice => self.v_slice_mut()
//@opt & mut self . shared => self.v_shared_mut()
//@opt & mut self . external => self.v_external_mut()
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( $(x) , ) => $(x)
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( $(x) ) => $(x)
//@opt & self . chunk . data . as_slice ( ) [ $(r) ] => Bytes::v_of(self.v_chunk().data.as_slice()).v_part($(r), Ghost(false))
//@opt & $x . as_slice ( ) [ $(r) ] => $x.as_slice().v_part($(r), Ghost(false))
//@opt self . chunk . data . make_sliced => self.v_chunk_mut().data.make_sliced
//@opt ( * self . shared ) . make_sliced_range => self.v_shared_mut().make_sliced_range
//@opt ( * self . external ) . make_sliced_range => self.v_external_mut().make_sliced_range
//@opt ( * self . external ) . as_slice ( ) => Bytes::v_of(self.v_external().as_slice())
//@opt ( * self . shared ) . as_slice ( ) => Bytes::v_of(self.v_shared().as_slice())
//@opt self . chunk = $(x) ; => self.v_set(ByteData::Chunk($(x)));
//@opt self . shared = $(x) ; => self.v_set(ByteData::Shared($(x)));
//@opt & self . slice => self.v_slice()
//@opt & self . shared => self.v_shared()
//@opt & self . external => self.v_external()
//@opt self . chunk . => self.v_chunk().
//@opt self . slice . => self.v_slice().
//@opt unsafe { self . chunk } => *self.v_chunk()
//@opt unsafe { self . slice } => *self.v_slice()
//@opt core::mem::forget ( $(x) ) => $(x).v_forget()
//@opt core::mem::transmute::<ByteData<'a> , ByteData<'s>> ( $(x) ) => $(x).v_relife()
//@opt core::ptr::drop_in_place ( $(x) ) => $(x).release()
//@opt & * ( $x as * const core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & * ( $x as * const core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt ByteData::from_chunk_slice ( $(x) ) => ByteData::from_chunk_slice($(x).v_raw_of())
//@opt Self::from_chunk_slice ( $(x) ) => Self::from_chunk_slice($(x).v_raw_of())
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@opt core::mem::replace ( & mut self . 0 , $(x) ) => v_replace(&mut self.0, $(x))
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@opt Self { shared : $(x) , } => Self::Shared($(x))
//@opt Self { shared : $(x) } => Self::Shared($(x))
//@opt core::mem::ManuallyDrop::new ( $(x) ) => $(x)
//@opt Self { external : $(x) , } => Self::External($(x))
//@spec
    requires self.wf()
    ensures
        r.wf(), r@ =~= self@, r.own(), self.own() && (self matches ByteData::Slice(s) ==> s.marked()) ==> same_copy(r, self),
//@end

//@fn bytedata.rs ByteData::into_shared_range
//@prop P02 P01
//@ret r
//@sig + SliceIndex < [ u8 ] , Output = [ u8 ] >> => >
//@refuse !in_range(range, whole.len() as int)
//@sub ByteSlice::new ( data , $(f) ) => ByteSlice::new(data.v_keep(), $(f))
//@opt & mut self . chunk => self.v_chunk_mut()
//@opt & mut self . slice => self.v_slice_mut()
//@opt & mut self . shared => self.v_shared_mut()
//@opt & mut self . external => self.v_external_mut()
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( $(x) , ) => $(x)
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( $(x) ) => $(x)
//@opt & self . chunk . data . as_slice ( ) [ $(r) ] => Bytes::v_of(self.v_chunk().data.as_slice()).v_part($(r), Ghost(yes(!in_range(range, whole.len() as int))))
//@opt & $x . as_slice ( ) [ $(r) ] => $x.as_slice().v_part($(r), Ghost(yes(!in_range(range, whole.len() as int))))
//@opt self . chunk . data . make_sliced => self.v_chunk_mut().data.make_sliced
//@opt ( * self . shared ) . make_sliced_range => self.v_shared_mut().make_sliced_range
//@opt ( * self . external ) . make_sliced_range => self.v_external_mut().make_sliced_range
//@opt ( * self . external ) . as_slice ( ) => Bytes::v_of(self.v_external().as_slice())
//@opt ( * self . shared ) . as_slice ( ) => Bytes::v_of(self.v_shared().as_slice())
//@opt self . chunk = $(x) ; => self.v_set(ByteData::Chunk($(x)));
//@opt self . shared = $(x) ; => self.v_set(ByteData::Shared($(x)));
//@opt & self . slice => self.v_slice()
//@opt & self . shared => self.v_shared()
//@opt & self . external => self.v_external()
//@opt self . chunk . => self.v_chunk().
//@opt self . slice . => self.v_slice().
//@opt unsafe { self . chunk } => *self.v_chunk()
//@opt unsafe { self . slice } => *self.v_slice()
//@opt core::mem::forget ( $(x) ) => $(x).v_forget()
//@opt core::mem::transmute::<ByteData<'a> , ByteData<'s>> ( $(x) ) => $(x).v_relife()
//@opt core::ptr::drop_in_place ( $(x) ) => $(x).release()
//@opt & * ( $x as * const core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & * ( $x as * const core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt ByteData::from_chunk_slice ( $(x) ) => ByteData::from_chunk_slice($(x).v_raw_of())
//@opt Self::from_chunk_slice ( $(x) ) => Self::from_chunk_slice($(x).v_raw_of())
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@opt core::mem::replace ( & mut self . 0 , $(x) ) => v_replace(&mut self.0, $(x))
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@opt Self { shared : $(x) , } => Self::Shared($(x))
//@opt Self { shared : $(x) } => Self::Shared($(x))
//@opt core::mem::ManuallyDrop::new ( $(x) ) => $(x)
//@opt Self { external : $(x) , } => Self::External($(x))
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), r.own()
//@at start
    let ghost whole = self@;
//@end

//@fn bytedata.rs ByteData::take_bytes
//@prop P02 P24
//@ret r
//@refuse position > old(self)@.len()
//@sub core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@spec
    requires old(self).wf()
    ensures
        position <= old(self)@.len(), r.wf(), final(self).wf(), r@ =~= old(self)@.take(position as int), final(self)@ =~= old(self)@.skip(position as int),
        old(self).own() ==> r.own() && final(self).own(),
//@end

//@fn bytedata.rs ByteData::take_while
//@prop P24
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@sig F : FnMut ( u8 ) -> bool => F
//@sig mut fun => fun
//@sub fun ( aa [ $(i) ] ) => holds(&fun, aa.v_byte($(i)))
//@spec
    requires old(self).wf()
    ensures
        r.wf(), final(self).wf(), old(self)@ =~= r@ + final(self)@, old(self).own() ==> r.own() && final(self).own(),
        forall|j: int| 0 <= j < r@.len() ==> holds_of(fun, #[trigger] r@[j]),
        final(self)@.len() > 0 ==> !holds_of(fun, final(self)@[0])
//@loop 0 while
    invariant i <= aa@.len(), forall|j: int| 0 <= j < i ==> holds_of(fun, #[trigger] aa@[j])
    decreases aa@.len() - i
//@end

//@fn bytedata.rs ByteData::split_at
//@prop P02 P24
//@ret r
//@refuse position > self@.len()
//@spec
    requires self.wf()
    ensures
        position <= self@.len(), r.0.wf(), r.1.wf(), r.0@ =~= self@.take(position as int), r.1@ =~= self@.skip(position as int),
        self.own() ==> r.0.own() && r.1.own()
//@end

//@fn bytedata.rs ByteData::split_once_on
//@prop P24 P06
//@ret r
//@sub const_split_once_bytes ( self . as_slice ( ) , $(n) ) => find::const_split_once_bytes(self.as_slice().v_raw(), $(n))
//@spec
    requires self.wf()
    ensures
        r is Ok <==> exists|p: int| find::at(self@, needle@, p),
        r matches Ok((a, b)) ==> a.wf() && b.wf() && a@ + b@ =~= self@ && find::at(self@, needle@, a@.len() as int)
            && forall|j: int| 0 <= j < a@.len() ==> !find::at(self@, needle@, j),
        r matches Err(e) ==> e == self
//@end

//@fn bytedata.rs <ByteData as Clone>::clone
//@prop P01 P03 P15
//@ret r
//@sub SharedBytes::clone ( & self . shared ) => self.v_shared().v_clone()
//@sub external::ExtBytes::clone ( & self . external ) => self.v_external().v_clone()
//@opt & mut self . chunk => self.v_chunk_mut()
//@opt & mut self . slice => self.v_slice_mut()
//@opt & mut self . shared => self.v_shared_mut()
//@opt & mut self . external => self.v_external_mut()
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( $(x) , ) => $(x)
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( $(x) ) => $(x)
//@opt & self . chunk . data . as_slice ( ) [ $(r) ] => Bytes::v_of(self.v_chunk().data.as_slice()).v_part($(r), Ghost(false))
//@opt & $x . as_slice ( ) [ $(r) ] => $x.as_slice().v_part($(r), Ghost(false))
//@opt self . chunk . data . make_sliced => self.v_chunk_mut().data.make_sliced
//@opt ( * self . shared ) . make_sliced_range => self.v_shared_mut().make_sliced_range
//@opt ( * self . external ) . make_sliced_range => self.v_external_mut().make_sliced_range
//@opt ( * self . external ) . as_slice ( ) => Bytes::v_of(self.v_external().as_slice())
//@opt ( * self . shared ) . as_slice ( ) => Bytes::v_of(self.v_shared().as_slice())
//@opt self . chunk = $(x) ; => self.v_set(ByteData::Chunk($(x)));
//@opt self . shared = $(x) ; => self.v_set(ByteData::Shared($(x)));
//@opt & self . slice => self.v_slice()
//@opt & self . shared => self.v_shared()
//@opt & self . external => self.v_external()
//@opt self . chunk . => self.v_chunk().
//@opt self . slice . => self.v_slice().
//@opt unsafe { self . chunk } => *self.v_chunk()
//@opt unsafe { self . slice } => *self.v_slice()
//@opt core::mem::forget ( $(x) ) => $(x).v_forget()
//@opt core::mem::transmute::<ByteData<'a> , ByteData<'s>> ( $(x) ) => $(x).v_relife()
//@opt core::ptr::drop_in_place ( $(x) ) => $(x).release()
//@opt & * ( $x as * const core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & * ( $x as * const core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt ByteData::from_chunk_slice ( $(x) ) => ByteData::from_chunk_slice($(x).v_raw_of())
//@opt Self::from_chunk_slice ( $(x) ) => Self::from_chunk_slice($(x).v_raw_of())
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@opt core::mem::replace ( & mut self . 0 , $(x) ) => v_replace(&mut self.0, $(x))
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@opt Self { shared : $(x) , } => Self::Shared($(x))
//@opt Self { shared : $(x) } => Self::Shared($(x))
//@opt core::mem::ManuallyDrop::new ( $(x) ) => $(x)
//@opt Self { external : $(x) , } => Self::External($(x))
//@spec
    requires self.wf()
    ensures
        r.wf(), r@ =~= self@, self.own() ==> r.own(),
        (r matches ByteData::External(e) ==> self matches ByteData::External(o) && e.same_owner(&o)),
        (r matches ByteData::Shared(e) ==> self matches ByteData::Shared(o) && (r@.len() > 0 ==> e.same_block(&o))),
        same_copy(r, *self),
//@end

//@fn bytedata.rs <ByteData as Drop>::drop as release
//@prop P01 P03 P15
//@sub core::mem::ManuallyDrop::drop ( & mut self . shared ) => self.v_shared_mut().release()
//@sub core::mem::ManuallyDrop::drop ( & mut self . external ) => self.v_external_mut().release()
//@opt & mut self . chunk => self.v_chunk_mut()
//@opt & mut self . slice => self.v_slice_mut()
//@opt & mut self . shared => self.v_shared_mut()
//@opt & mut self . external => self.v_external_mut()
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<SharedBytes> , & SharedBytes> ( $(x) , ) => $(x)
//@opt core::mem::transmute::<& core::mem::ManuallyDrop<external::ExtBytes> , & external::ExtBytes , > ( $(x) ) => $(x)
//@opt & self . chunk . data . as_slice ( ) [ $(r) ] => Bytes::v_of(self.v_chunk().data.as_slice()).v_part($(r), Ghost(false))
//@opt & $x . as_slice ( ) [ $(r) ] => $x.as_slice().v_part($(r), Ghost(false))
//@opt self . chunk . data . make_sliced => self.v_chunk_mut().data.make_sliced
//@opt ( * self . shared ) . make_sliced_range => self.v_shared_mut().make_sliced_range
//@opt ( * self . external ) . make_sliced_range => self.v_external_mut().make_sliced_range
//@opt ( * self . external ) . as_slice ( ) => Bytes::v_of(self.v_external().as_slice())
//@opt ( * self . shared ) . as_slice ( ) => Bytes::v_of(self.v_shared().as_slice())
//@opt self . chunk = $(x) ; => self.v_set(ByteData::Chunk($(x)));
//@opt self . shared = $(x) ; => self.v_set(ByteData::Shared($(x)));
//@opt & self . slice => self.v_slice()
//@opt & self . shared => self.v_shared()
//@opt & self . external => self.v_external()
//@opt self . chunk . => self.v_chunk().
//@opt self . slice . => self.v_slice().
//@opt unsafe { self . chunk } => *self.v_chunk()
//@opt unsafe { self . slice } => *self.v_slice()
//@opt core::mem::forget ( $(x) ) => $(x).v_forget()
//@opt core::mem::transmute::<ByteData<'a> , ByteData<'s>> ( $(x) ) => $(x).v_relife()
//@opt core::ptr::drop_in_place ( $(x) ) => $(x).release()
//@opt & * ( $x as * const core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & * ( $x as * const core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<SharedBytes> ) . cast::<SharedBytes> ( ) => $x
//@opt & mut * ( $x as * mut core::mem::ManuallyDrop<external::ExtBytes> ) . cast::<external::ExtBytes> ( ) => $x
//@opt ByteData::from_chunk_slice ( $(x) ) => ByteData::from_chunk_slice($(x).v_raw_of())
//@opt Self::from_chunk_slice ( $(x) ) => Self::from_chunk_slice($(x).v_raw_of())
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@opt core::mem::replace ( & mut self . 0 , $(x) ) => v_replace(&mut self.0, $(x))
//@opt byte_chunk::ByteChunk => ByteChunk
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@opt ByteChunk::from_slice ( $(x) ) => ByteChunk::from_slice($(x).v_raw_of())
//@opt SharedBytes::from_slice ( $(x) ) => SharedBytes::from_slice($(x).v_raw_of())
//@opt Self { chunk : $(x) , } => Self::Chunk($(x))
//@opt Self { chunk : $(x) } => Self::Chunk($(x))
//@opt ByteData { chunk : $(x) , } => ByteData::Chunk($(x))
//@opt ByteData { chunk : $(x) } => ByteData::Chunk($(x))
//@opt Self { slice : $(x) , } => Self::Slice($(x))
//@opt Self { slice : $(x) } => Self::Slice($(x))
//@opt ByteData { slice : $(x) , } => ByteData::Slice($(x))
//@opt ByteData { slice : $(x) } => ByteData::Slice($(x))
//@opt Self { shared : $(x) , } => Self::Shared($(x))
//@opt Self { shared : $(x) } => Self::Shared($(x))
//@opt core::mem::ManuallyDrop::new ( $(x) ) => $(x)
//@opt Self { external : $(x) , } => Self::External($(x))
//@spec
    requires old(self).wf()
    ensures final(self).gone()
//@end

//@fn bytedata.rs ByteData::statically_borrowed
//@prop P01
//@ret r
//@sub self . slice . make_static => self.v_slice_mut().make_static
//@spec
    requires self.wf(), self.own()
    ensures r.wf(), r@ =~= self@, r.own()
//@end

//@fn bytedata.rs <ByteData as Iterator>::next
//@prop P01
//@ret r
//@sig <Self::Item> => <u8>
//@sub * sl . as_ptr ( ) => sl.v_byte(0)
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), r is Some == (old(self)@.len() > 0), r matches Some(b) ==> b == old(self)@[0] && final(self)@ =~= old(self)@.skip(1),
        r is None ==> final(self)@ =~= old(self)@
//@end
}


impl<'a> ByteData<'a> {
//@fn bytedata.rs ByteData::from_cow
//@prop P01 P15
//@ret r
//@sig Cow<'a , [ u8 ]> => Cow<'a>
//@spec
    ensures r.wf(), r@ =~= dat@
//@end

//@fn bytedata.rs ByteData::from_cow_static
//@prop P01 P15
//@ret r
//@sig Cow<'static , [ u8 ]> => Cow<'static>
//@spec
    requires dat matches Cow::Borrowed(b) ==> b.lasting()
    ensures r.wf(), r@ =~= dat@, r.own()
//@end

//@fn bytedata.rs <ByteData as From<&[u8]>>::from as from_bytes
//@prop P01
//@ret r
//@sig &'a [ u8 ] => &'a Bytes
//@spec
    ensures r.wf(), r@ =~= dat@
//@end

//@fn bytedata.rs <ByteData as From<SharedBytes>>::from as from_shared_bytes
//@prop P01
//@ret r
//@sub from_chunk_slice ( & dat ) => from_chunk_slice(dat.as_slice())
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@spec
    requires dat.wf()
    ensures r.wf(), r@ =~= dat@, r.own()
//@end

//@fn bytedata.rs <ByteData as From<Vec<u8>>>::from as from_vec
//@prop P01 P15
//@ret r
//@opt byte_chunk::ByteChunk::LEN => ByteChunk::LEN
//@sub from_chunk_slice ( & dat ) => from_chunk_slice(dat.as_slice())
//@sub dat . into ( ) => SharedBytes::from_vec(dat)
//@sub Self::from_external ( dat ) => ({ proof { vec_steady(dat); } Self::from_external(dat) })
//@spec
    ensures r.wf(), r@ =~= dat@, r.own()
//@end

//@fn bytedata.rs <ByteData as From<String>>::from as from_string
//@prop P01
//@ret r
//@sig alloc::string::String => String
//@opt dat . into ( ) => SharedBytes::from_string(dat)
//@spec
    ensures r.wf(), r@ =~= dat@, r.own()
//@end

//@fn bytedata.rs <ByteData as From<Cow<[u8]>>>::from as from_any_cow
//@prop P01
//@ret r
//@sig alloc::borrow::Cow<'a , [ u8 ]> => Cow<'a>
//@spec
    ensures r.wf(), r@ =~= data@
//@end

//@fn shared_bytes_builder.rs <ByteData as From<SharedBytesBuilder>>::from as from_builder
//@prop P01 P04
//@ret r
//@opt value . build ( ) . into ( ) => Self::from_shared_bytes(value.build())
//@spec
    requires value.wf()
    ensures r.wf(), r@ =~= value@, r.own()
//@end

//@fn bytedata.rs <ByteData as Default>::default
//@prop P01
//@ret r
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty()
//@end

//@fn bytedata.rs ByteData::eq_const
//@prop P01 P13
//@ret r
//@sub const_eq ( $(a) , $(b) ) => find::const_eq($(a).v_raw(), $(b).v_raw())
//@spec
    requires self.wf(), other.wf()
    ensures r == (self@ =~= other@)
//@end

//@fn bytedata.rs ByteData::eq_slice
//@prop P01 P13
//@ret r
//@sub const_eq ( $(a) , $(b) ) => find::const_eq($(a).v_raw(), $(b))
//@spec
    requires self.wf()
    ensures r == (self@ =~= other@)
//@end

//@fn bytedata.rs ByteData::starts_with
//@prop P01 P06
//@ret r
//@sub const_starts_with ( $(a) , $(b) ) => find::const_starts_with($(a).v_raw(), $(b))
//@spec
    requires self.wf()
    ensures r == find::at(self@, needle@, 0)
//@end

//@fn bytedata.rs ByteData::ends_with
//@prop P01 P06
//@ret r
//@sub const_ends_with ( $(a) , $(b) ) => find::const_ends_with($(a).v_raw(), $(b))
//@spec
    requires self.wf()
    ensures r == find::at(self@, needle@, self@.len() - needle@.len())
//@end

//@fn bytedata.rs <ByteData as Index<usize>>::index
//@prop P01
//@ret r
//@sig Self::Output => u8
//@refuse index >= self@.len()
//@sub let ptr = unsafe { sl . as_ptr ( ) . add ( $(i) ) } => let ptr = $(i)
//@sub & * ptr => sl.v_at(ptr)
//@spec
    requires self.wf()
    ensures index < self@.len(), *r == self@[index as int]
//@end
}

/// Owned text.
pub struct String { pub v: Vec<u8> }
impl String {
    pub open spec fn view(&self) -> Seq<u8> { self.v@ }
    fn as_bytes(&self) -> (r: &[u8])
        ensures r@ == self@
    { self.v.as_slice() }
    fn into_bytes(self) -> (r: Vec<u8>)
        ensures r@ == self@
    { self.v }
}
pub enum Cow<'a> { Borrowed(&'a Bytes), Owned(Vec<u8>) }
impl<'a> Cow<'a> {
    pub open spec fn view(&self) -> Seq<u8> { match self { Cow::Borrowed(b) => b@, Cow::Owned(v) => v@ } }
}

impl SharedBytes {
//@fn shared_bytes.rs <SharedBytes as From<Vec<u8>>>::from as from_vec
//@prop P01
//@ret r
//@sub & dat => dat.as_slice()
//@spec
    ensures r.wf(), r@ =~= dat@
//@end
//@fn shared_bytes.rs <SharedBytes as From<String>>::from as from_string
//@prop P01
//@ret r
//@sig alloc::string::String => String
//@spec
    ensures r.wf(), r@ =~= dat@
//@end
//@fn shared_bytes.rs <SharedBytes as From<&[u8]>>::from as from_bytes
//@prop P01
//@ret r
//@spec
    ensures r.wf(), r@ =~= dat@
//@end
//@fn shared_bytes.rs <SharedBytes as From<ByteData>>::from as from_value
//@prop P01
//@ret r
//@sig ByteData<'a> => ByteData<'_>
//@sub bytedata::Kind => Kind
//@sub core::mem::transmute::<ByteData<'a> , Self> ( $(x) ) => $(x).v_into_shared()
//@sub Self::from_slice ( $(x) ) => Self::from_slice($(x).v_raw_of())
//@sub core::mem::drop ( $(x) ) => $(x).v_drop()
//@spec
    requires dat.wf()
    ensures r.wf(), r@ =~= dat@
//@end
}
impl<'a> ByteData<'a> {
    /// `transmute` to the representation it has.
    fn v_into_shared(self) -> (r: SharedBytes)
        requires self is Shared
        ensures r == self->Shared_0
    { match self { ByteData::Shared(s) => s, _ => v_never() } }
    /// `drop`: what `<ByteData as Drop>::drop` does.
    fn v_drop(self)
        requires self.wf()
    { let mut s = self; s.release(); }
}

// ---- joining ----

/// The parts one after the other (`for x in dat`).
pub struct Each<'x, 'y> { pub s: &'x [&'y [u8]], pub i: usize }
impl<'x, 'y> Each<'x, 'y> {
    pub open spec fn view(&self) -> int { self.i as int }
    fn next(&mut self) -> (r: Option<&'y [u8]>)
        requires old(self).i <= old(self).s@.len()
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> final(self).i == old(self).i + 1 && r == Some(old(self).s@[old(self).i as int]),
            old(self).i == old(self).s@.len() ==> final(self).i == old(self).i && r is None,
    { if self.i < self.s.len() { let x = self.s[self.i]; self.i = self.i + 1; Some(x) } else { None } }
}
fn v_each<'x, 'y>(s: &'x [&'y [u8]]) -> (r: Each<'x, 'y>)
    ensures r.s == s, r.i == 0
{ Each { s, i: 0 } }
/// The sum of the lengths: of slices that fit into memory.
#[verifier::external_body]
fn v_total(s: &[&[u8]]) -> (r: usize)
    ensures r == find::concat(s@).len()
{ unimplemented!() }
/// `buf[a..b].copy_from_slice(x)`
#[verifier::external_body]
fn v_put(buf: &mut [u8; 14], a: usize, b: usize, x: &[u8])
    requires a <= b <= 14, b - a == x@.len()
    ensures final(buf)@ =~= old(buf)@.take(a as int) + x@ + old(buf)@.skip(b as int)
{ unimplemented!() }
#[verifier::external_body]
fn v_front(buf: &[u8; 14], n: usize) -> (r: &[u8])
    requires n <= 14
    ensures r@ =~= buf@.take(n as int)
{ unimplemented!() }

impl<'a> ByteData<'a> {
//@fn bytedata.rs ByteData::from_concat/from_concat_inner
//@prop P01
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig from_concat_inner<'a> => from_concat_inner<'x>
//@sig &'a [ u8 ] => &'x [u8]
//@sig ByteData<'a> => ByteData<'x>
//@sub dat . iter ( ) . map ( | x | x . len ( ) ) . sum ( ) => v_total(dat)
//@sub for x in dat => for x in v_each(dat)
//@sub buf [ $(a) ] . copy_from_slice ( x ) => ({ let w = $(a); v_put(&mut buf, w.start, w.end, x) })
//@sub from_chunk_slice ( & buf [ .. at ] ) => from_chunk_slice(v_front(&buf, at))
//@refuse find::concat(dat@).len() + 12 > MAX
//@spec
    ensures r.wf(), r@ =~= find::concat(dat@), r.own()
//@iter 0 it
//@loop 0 for
    invariant
        it.s == dat, it.i <= dat@.len(), at == find::concat(dat@.take(it.i as int)).len(), at <= 14, buf@.take(at as int) =~= find::concat(dat@.take(it.i as int)),
        find::concat(dat@).len() <= 14
    ensures it.i == dat@.len()
    decreases dat@.len() - it.i
//@at loop 0 start
    proof { find::concat_step(dat@, it_0); find::concat_mono(dat@, it_0 + 1); }
//@at loop 0 after
    assert(dat@.take(dat@.len() as int) =~= dat@);
//@iter 1 it
//@loop 1 for
    invariant it.s == dat, it.i <= dat@.len(), buf.wf(), buf@ =~= find::concat(dat@.take(it.i as int)), buf.align == 4
    ensures it.i == dat@.len()
    decreases dat@.len() - it.i
//@at loop 1 start
    proof { find::concat_step(dat@, it_0); find::concat_mono(dat@, it_0 + 1); }
//@at loop 1 after
    assert(dat@.take(dat@.len() as int) =~= dat@);
//@end

//@fn bytedata.rs ByteData::from_concat
//@prop P01
//@ret r
//@drop from_concat_inner
//@sub Self::from_borrowed ( $(x) ) => Self::from_borrowed(Bytes::v_of($(x)))
//@sub from_concat_inner ( dat ) => Self::from_concat_inner(dat)
//@refuse find::concat(dat@).len() + 12 > MAX
//@spec
    ensures r.wf(), r@ =~= find::concat(dat@)
//@at start
    proof { if dat@.len() == 1 { find::concat_step(dat@, 0); assert(dat@.take(1) =~= dat@); assert(dat@.take(0).len() == 0); assert(find::concat(dat@.take(0)) =~= Seq::<u8>::empty()); } }
//@end
}

// ---- splitting ----

/// Nothing to look for, or not there.
pub open spec fn absent(s: Seq<u8>, n: Seq<u8>) -> bool { n.len() == 0 || forall|p: int| !find::at(s, n, p) }
pub open spec fn first_at(s: Seq<u8>, n: Seq<u8>, p: int) -> bool { find::at(s, n, p) && forall|j: int| 0 <= j < p ==> !find::at(s, n, j) }
pub open spec fn where_first(s: Seq<u8>, n: Seq<u8>) -> int { choose|p: int| first_at(s, n, p) }
proof fn only_first(s: Seq<u8>, n: Seq<u8>, p: int)
    requires first_at(s, n, p)
    ensures where_first(s, n) == p
{
    let q = where_first(s, n);
    assert(first_at(s, n, q));
    if q < p { assert(!find::at(s, n, q)); } else if p < q { assert(!find::at(s, n, p)); }
}
/// What is left to be yielded.
pub open spec fn pieces(s: Seq<u8>, n: Seq<u8>) -> Seq<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else if absent(s, n) { seq![s] } else {
        let p = where_first(s, n);
        if first_at(s, n, p) { seq![s.take(p)] + pieces(s.skip(p + n.len()), n) } else { seq![] }
    }
}
proof fn there(s: Seq<u8>, n: Seq<u8>, p: int)
    requires find::at(s, n, p)
    ensures first_at(s, n, where_first(s, n)), where_first(s, n) <= p
    decreases p
{
    if exists|j: int| 0 <= j < p && find::at(s, n, j) {
        there(s, n, choose|j: int| 0 <= j < p && find::at(s, n, j));
    } else {
        only_first(s, n, p);
    }
}
/// The pieces with the separator between them are the value, up to one separator at its end.
pub open spec fn joined(v: Seq<Seq<u8>>, n: Seq<u8>) -> Seq<u8>
    decreases v.len()
{ if v.len() == 0 { seq![] } else if v.len() == 1 { v[0] } else { v[0] + n + joined(v.skip(1), n) } }
/// The first piece and the others.
proof fn unfold(s: Seq<u8>, n: Seq<u8>) -> (p: int)
    requires s.len() > 0, !absent(s, n)
    ensures
        p == where_first(s, n), first_at(s, n, p), 0 <= p, p + n.len() <= s.len(), s.take(p) + n + s.skip(p + n.len()) =~= s,
        pieces(s, n) == seq![s.take(p)] + pieces(s.skip(p + n.len()), n), pieces(s, n).skip(1) =~= pieces(s.skip(p + n.len()), n), pieces(s, n).len() == 1 + pieces(s.skip(p + n.len()), n).len(),
{
    there(s, n, choose|p: int| find::at(s, n, p));
    where_first(s, n)
}
proof fn joins_all(s: Seq<u8>, n: Seq<u8>)
    ensures joined(pieces(s, n), n) =~= s || joined(pieces(s, n), n) + n =~= s, s.len() > 0 ==> pieces(s, n).len() > 0
    decreases s.len()
{
    if s.len() > 0 && !absent(s, n) {
        let p = unfold(s, n);
        let t = s.skip(p + n.len());
        let v = pieces(s, n);
        let w = pieces(t, n);
        if t.len() < s.len() { joins_all(t, n); }
        if t.len() == 0 {
            assert(w.len() == 0);
            assert(joined(v, n) == s.take(p));
            assert(joined(v, n) + n =~= s);
        } else if t.len() < s.len() {
            assert(v.skip(1) == w);
            assert(joined(v, n) == s.take(p) + n + joined(w, n));
            if joined(w, n) + n =~= t { assert(s.take(p) + n + (joined(w, n) + n) =~= joined(v, n) + n); }
        } else {
            assert(n.len() == 0);
            assert(false) by { assert(find::at(s, n, 0)); assert(pieces(s, n) == seq![s.take(p)] + pieces(t, n)); assert(t =~= s); assert(pieces(s, n).len() == 1 + pieces(s, n).len()); }
        }
    }
}
proof fn joins_free(s: Seq<u8>, n: Seq<u8>)
    requires n.len() > 0
    ensures
        forall|i: int| #![trigger pieces(s, n)[i]] 0 <= i < pieces(s, n).len() ==> absent(pieces(s, n)[i], n),
        s.len() < n.len() ==> pieces(s, n).len() <= 1,
        s.len() < 2 * n.len() ==> pieces(s, n).len() <= 2,
    decreases s.len()
{
    if s.len() > 0 && !absent(s, n) {
        let p = unfold(s, n);
        let t = s.skip(p + n.len());
        joins_free(t, n);
        let v = pieces(s, n);
        assert forall|q: int| !find::at(s.take(p), n, q) by {
            if find::at(s.take(p), n, q) { assert(s.take(p).subrange(q, q + n.len()) =~= s.subrange(q, q + n.len())); assert(find::at(s, n, q)); }
        }
        assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies absent(v[i], n) by {
            if i > 0 { assert(v[i] == pieces(t, n)[i - 1]); }
        }
    }
}
proof fn joins(s: Seq<u8>, n: Seq<u8>)
    ensures joined(pieces(s, n), n) =~= s || joined(pieces(s, n), n) + n =~= s,
        forall|i: int| #![trigger pieces(s, n)[i]] 0 <= i < pieces(s, n).len() && n.len() > 0 ==> absent(pieces(s, n)[i], n),
        s.len() > 0 ==> pieces(s, n).len() > 0,
        n.len() > 0 && s.len() < n.len() ==> pieces(s, n).len() <= 1,
        n.len() > 0 && s.len() < 2 * n.len() ==> pieces(s, n).len() <= 2,
{
    joins_all(s, n);
    if n.len() > 0 { joins_free(s, n); }
}

pub struct It<'a, 'b>(pub ByteData<'a>, pub &'b [u8]);
impl<'a, 'b> It<'a, 'b> {
    pub open spec fn left(&self) -> Seq<Seq<u8>> { pieces(self.0@, self.1@) }
//@fn bytedata.rs ByteData::split_on/next
//@prop P24
//@ret r
//@sig Self::Item => ByteData<'a>
//@sub const_split_once_bytes ( self . 0 . as_slice ( ) , $(n) ) => find::const_split_once_bytes(self.0.as_slice().v_raw(), $(n))
//@sub core::mem::replace ( & mut self . 0 , $(x) ) => v_replace(&mut self.0, $(x))
//@spec
    requires old(self).0.wf()
    ensures
        final(self).0.wf(), final(self).1 == old(self).1,
        r is None <==> old(self).left().len() == 0,
        r is None ==> final(self).left().len() == 0,
        r matches Some(x) ==> x.wf() && old(self).left() =~= seq![x@] + final(self).left(),
//@at start
    proof { joins(self.0@, self.1@); if exists|p: int| find::at(self.0@, self.1@, p) { there(self.0@, self.1@, choose|p: int| find::at(self.0@, self.1@, p)); } }
    proof { assert forall|p: int| #[trigger] first_at(self.0@, self.1@, p) implies where_first(self.0@, self.1@) == p by { only_first(self.0@, self.1@, p); } }
    proof { let s = self.0@; assert forall|p: int, m: int| 0 <= p && 0 <= m && p + m <= s.len() implies #[trigger] s.skip(p).subrange(m, s.len() - p) == s.skip(p + m) by { assert(s.skip(p).subrange(m, s.len() - p) =~= s.skip(p + m)); } }
//@end
//@fn bytedata.rs ByteData::split_on/size_hint
//@prop P24
//@ret r
//@spec
    requires self.0.wf(), self.1@.len() <= isize::MAX
    ensures r.0 <= self.left().len(), r.1 matches Some(n) ==> self.left().len() <= n
//@at start
    proof { joins(self.0@, self.1@); }
//@end
}
impl<'a> ByteData<'a> {
//@fn bytedata.rs ByteData::split_on
//@prop P24
//@ret r
//@drop struct It
//@drop impl It
//@sig impl Iterator<Item = ByteData<'a>> + Send + 'b => It<'a, 'b>
//@sig where 'a : 'b => where 'a: 'b
//@spec
    requires self.wf()
    ensures r.0.wf(), r.left() == pieces(self@, needle@)
//@end
}

/// Answers of a predicate that depend on the byte only.
pub uninterp spec fn holds_of<F>(f: F, b: u8) -> bool;
#[verifier::external_body]
fn holds<F>(f: &F, b: u8) -> (r: bool)
    ensures r == holds_of(*f, b)
{ unimplemented!() }
fn v_replace<T>(a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b
{ let mut b = b; core::mem::swap(a, &mut b); b }


} // verus!
fn main() {}
