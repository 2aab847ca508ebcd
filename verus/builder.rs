//@props P04 P17
//@title the builder as a growable byte buffer, for blocks of every size
//@assume the allocator: a block is the bytes it was allocated with until it is freed, growing keeps the bytes both sizes share (contracts of alloc, realloc, dealloc); handle_alloc_error does not return
//@assume an `async` function is what it does when its future is polled to its end (a future dropped before that has changed neither length nor bytes of the builder)
//@assume a closure that is given the spare room initialises the bytes it reports as filled and writes nowhere else
//@assume a `Buf` gives what it has left in pieces that are not empty while something is left, as its documentation asks
use vstd::prelude::*;

verus! {

//@uses meta.rs

//@item shared_bytes_builder.rs struct SharedBytesBuilder dat : * mut u8 => dat: Heap
//@item shared_bytes.rs struct SharedBytes dat_addr : u64 => dat_addr: Hand

/// The bytes of a handle.
pub open spec fn sb_wf(s: SharedBytes) -> bool {
    if s.dat_addr.null() { s.len == 0 && !s.dat_addr.v().live && !s.dat_addr.v().owned } else {
        s.dat_addr.v().live && !s.dat_addr.v().owned && shared_ok(s.dat_addr.v())
            && start(s.dat_addr.v().layout.align) <= s.off && s.off + s.len <= s.dat_addr.v().layout.size
            && forall|i: int| #![trigger s.dat_addr.v().bytes[i]] s.off <= i < s.off + s.len ==> s.dat_addr.v().bytes[i] is Some
    }
}
pub open spec fn sb(s: SharedBytes) -> Seq<u8> { Seq::new(s.len as nat, |i: int| s.dat_addr.v().bytes[s.off + i]->0) }

/// The largest size of a block.
pub spec const MAX: int = 0xFFFF_FFFF;

pub open spec fn cap_refused(cap: usize, align: usize) -> bool { align_ok(align) ==> cap + start(align) > MAX }

/// The spare room of a block, lent to a closure.
#[derive(Clone, Copy)]
pub struct Spare { pub id: Ghost<int>, pub o: usize, pub n: usize }
impl Spare {
    fn v_none() -> (r: Spare)
        ensures r.n == 0
    { Spare { id: Ghost(0), o: 0, n: 0 } }
    fn len(&self) -> (r: usize)
        ensures r == self.n
    { self.n }
}
impl Heap {
    /// `from_raw_parts_mut` of bytes that may not be written yet.
    fn v_spare(&self, at: At, n: usize) -> (r: Spare)
        requires block(self.v()), at.id@ == self.v().id, at.o >= 12, at.o + n <= self.v().layout.size
        ensures r.id == at.id, r.o == at.o, r.n == n
    { Spare { id: at.id, o: at.o, n } }

    /// `from_raw_parts_mut` of bytes that were written.
    #[verifier::external_body]
    fn v_slice_mut(&mut self, at: At, n: usize) -> (r: &mut [u8])
        requires block(old(self).v()), at.id@ == old(self).v().id, at.o >= 12, at.o + n <= old(self).v().layout.size, written(old(self).v(), at.o as int, at.o + n)
        ensures
            r@ == cells(old(self).v(), at.o as int, at.o + n), final(r)@.len() == r@.len(),
            final(self).v() == (Mem { bytes: final(self).v().bytes, ..old(self).v() }), final(self).null() == old(self).null(),
            final(self).v().bytes =~= Seq::new(old(self).v().bytes.len(), |i: int| if at.o <= i < at.o + n { Some(final(r)@[i - at.o]) } else { old(self).v().bytes[i] }),
    { unimplemented!() }
}
pub open spec fn filled(a: Mem, b: Mem, s: Spare, n: int) -> bool {
    &&& b == (Mem { bytes: b.bytes, ..a }) && b.bytes.len() == a.bytes.len()
    &&& forall|i: int| #![trigger b.bytes[i]] 0 <= i < a.bytes.len() && !(s.o <= i < s.o + s.n) ==> b.bytes[i] == a.bytes[i]
    &&& 0 <= n <= s.n ==> written(b, s.o as int, s.o + n)
}
pub open spec fn lent(h: Heap, s: Spare, whole: int) -> bool {
    s.n == whole && (s.n > 0 ==> block(h.v()) && s.id@ == h.v().id && s.o >= 12 && s.o + s.n <= h.v().layout.size)
}
/// The spare room as a closure has it while it is lent: what is written there.
pub struct Room { pub n: usize, pub bytes: Ghost<Seq<Option<u8>>> }
impl Room {
    pub open spec fn wf(&self) -> bool { self.bytes@.len() == self.n }
    pub open spec fn has(&self, n: int) -> bool { forall|i: int| #![trigger self.bytes@[i]] 0 <= i < n ==> self.bytes@[i] is Some }
    pub open spec fn put(&self, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| self.bytes@[i]->0) }
    fn len(&self) -> (r: usize)
        ensures r == self.n
    { self.n }
}
impl Heap {
    #[verifier::external_body]
    fn v_room(&self, s: Spare) -> (r: Room)
        requires s.n > 0 ==> block(self.v()) && s.id@ == self.v().id && s.o + s.n <= self.v().layout.size
        ensures r.wf(), r.n == s.n, r.bytes@ =~= self.v().bytes.subrange(s.o as int, s.o + s.n) || s.n == 0
    { unimplemented!() }
    #[verifier::external_body]
    fn v_back(&mut self, s: Spare, room: Room)
        requires room.wf(), room.n == s.n, s.n > 0 ==> block(old(self).v()) && s.id@ == old(self).v().id && s.o + s.n <= old(self).v().layout.size
        ensures
            s.n == 0 ==> *final(self) == *old(self),
            final(self).v() == (Mem { bytes: final(self).v().bytes, ..old(self).v() }), final(self).null() == old(self).null(),
            final(self).v().bytes =~= Seq::new(old(self).v().bytes.len(), |i: int| if s.o <= i < s.o + s.n { room.bytes@[i - s.o] } else { old(self).v().bytes[i] })
    { unimplemented!() }
}
/// What a closure given to `apply_unfilled` must keep: it gives the room back and has written what it says.
pub open spec fn honest<R, F: FnOnce(Room) -> ((R, usize), Room)>(fun: F, n: usize) -> bool {
    &&& forall|a: Room| #![trigger fun.requires((a,))] a.wf() && a.n == n ==> fun.requires((a,))
    &&& forall|a: Room, v: ((R, usize), Room)| #![trigger fun.ensures((a,), v)] a.wf() && a.n == n && fun.ensures((a,), v) ==> v.1.wf() && v.1.n == n && (v.0.1 <= n ==> v.1.has(v.0.1 as int))
}
/// What it did with room of n bytes: the answer and the bytes it wrote.
pub open spec fn did<R, F: FnOnce(Room) -> ((R, usize), Room)>(fun: F, n: usize, r: R, put: Seq<u8>) -> bool {
    exists|a: Room, v: ((R, usize), Room)| #![trigger fun.ensures((a,), v)] a.wf() && a.n == n && fun.ensures((a,), v) && v.0.0 == r && v.0.1 <= n && put =~= v.1.put(v.0.1 as int)
}
/// What the caller passes in: any closure that fills a front part of the room it is given, which is all the room there is.
pub trait Filler<R>: Sized {
    fn v_call_buf(self, h: &mut Heap, b: &mut Borrowed, whole: Ghost<int>) -> (r: R)
        requires lent(*old(h), old(b).s, whole@), old(b).n == 0
        ensures final(h).null() == old(h).null(), final(b).s == old(b).s, final(b).n <= final(b).s.n, filled(old(h).v(), final(h).v(), old(b).s, final(b).n as int);
}
/// `BorrowedBuf`: room and how much of it is filled.
pub struct Borrowed { pub s: Spare, pub n: usize }
impl Borrowed {
    fn v_from(s: Spare) -> (r: Borrowed)
        ensures r.s == s, r.n == 0
    { Borrowed { s, n: 0 } }
    fn len(&self) -> (r: usize)
        ensures r == self.n
    { self.n }
}

/// `bytes::Buf`: what is left, given in pieces.
pub trait Source: Sized {
    spec fn rest(&self) -> Seq<u8>;
    fn remaining(&self) -> (r: usize)
        ensures r == self.rest().len();
    fn has_remaining(&self) -> (r: bool)
        ensures r == (self.rest().len() > 0);
    fn chunk(&self) -> (r: &[u8])
        ensures r@.len() <= self.rest().len(), r@ =~= self.rest().take(r@.len() as int), self.rest().len() > 0 ==> r@.len() > 0;
    fn advance(&mut self, n: usize)
        requires n <= old(self).rest().len()
        ensures final(self).rest() =~= old(self).rest().skip(n as int);
}

impl SharedBytesBuilder {
    pub open spec fn wf(&self) -> bool {
        &&& align_ok(self.align)
        &&& start(self.align) <= self.off
        &&& self.len == 0 ==> self.align <= 512 && self.off == start(self.align) && self.dat.null() && !self.dat.v().live
        &&& self.len > 0 ==> block(self.dat.v()) && !self.dat.null() && self.dat.v().layout == (Layout { size: self.len as usize, align: self.align })
                && self.off <= self.len && written(self.dat.v(), start(self.align), self.off as int)
    }
    /// What is written, and the room for it.
    pub open spec fn view(&self) -> Seq<u8> { cells(self.dat.v(), start(self.align), self.off as int) }
    pub open spec fn room(&self) -> int { if self.len == 0 { 0 } else { self.len - start(self.align) } }
    /// The same bytes at the same alignment in no less room.
    pub open spec fn kept(&self, old: &Self) -> bool {
        self.wf() && self@ =~= old@ && self.align == old.align && self.room() >= old.room() && self.off == old.off
    }

proof fn layouts(size: int, align: usize)
    requires align_ok(align), 0 <= size <= MAX
    ensures layout_ok(size as usize, align)
{}
proof fn four()
    ensures align_ok(4)
{ assert(4usize & 3usize == 0) by (bit_vector); }
/// Sizes rounded up to the next multiple of 32 KiB.
proof fn rounded()
    ensures
        forall|x: usize| #![trigger x & 0xFFFF_8000] x <= 0xFFFF_FFFF ==> x < (x & 0xFFFF_8000) + 0x8000,
        forall|x: usize| #![trigger x & 0xFFFF_8000] (x & 0xFFFF_8000) <= 0xFFFF_8000,
{
    assert(forall|x: usize| #![trigger x & 0xFFFF_8000] x <= 0xFFFF_FFFF ==> x < (x & 0xFFFF_8000) + 0x8000) by (bit_vector);
    assert(forall|x: usize| #![trigger x & 0xFFFF_8000] (x & 0xFFFF_8000) <= 0xFFFF_8000) by (bit_vector);
}

//@fn shared_bytes_builder.rs SharedBytesBuilder::new
//@ret r
//@sub core::mem::size_of::<SharedBytesMeta> ( ) => 12usize
//@sub core::mem::align_of::<SharedBytesMeta> ( ) => 4
//@sub core::ptr::null_mut ( ) => Heap::v_null()
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty(), r.align == 4
//@at start
    proof { Self::four(); }
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::with_alignment
//@ret r
//@sub . next_power_of_two ( ) => .v_npo2()
//@sub core::mem::align_of::<SharedBytesMeta> ( ) => 4
//@sub core::ptr::null_mut ( ) => Heap::v_null()
//@refuse !pow2(alignment)
//@refuse alignment > 512
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty(), r.align == (if alignment < 4 { 4 } else { alignment }), pow2(alignment), alignment <= 512
//@at start
    proof { Self::four(); }
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::cap_check
//@ret r
//@sub const MAX_CAP : usize = => let MAX_CAP: usize =
//@sub if isize::BITS <= 32 { isize::MAX as usize } else { 0xFFFF_FFFF } => 0xFFFF_FFFF
//@sub core::mem::align_of::<SharedBytesMeta> ( ) => 4
//@refuse cap_refused(cap, alignment)
//@spec
    requires alignment <= 512
    ensures r == (if alignment < 4 { 4 } else { alignment }), align_ok(r) ==> cap + start(r) <= MAX
//@at start
    proof { Self::four(); }
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::with_capacity
//@ret r
//@sub core::mem::align_of::<SharedBytesMeta> ( ) => 4
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty(), r.room() >= cap, r.align == 4
//@at start
    proof { Self::four(); }
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::with_aligned_capacity
//@ret r
//@sub . next_power_of_two ( ) => .v_npo2()
//@refuse alignment > 512
//@refuse !pow2(alignment)
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty(), r.room() >= cap, r.align == (if alignment < 4 { 4 } else { alignment }), pow2(alignment)
//@at start
    proof { Self::four(); }
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::with_capacity_u32
//@ret r
//@sub core::alloc::Layout::from_size_align ( $(s) , $(a) ) . unwrap ( ) => v_layout($(s), $(a))
//@sub alloc::alloc::alloc ( layout ) => Heap::v_alloc(layout)
//@sub alloc::alloc::handle_alloc_error ( layout ) => v_oom(layout)
//@spec
    requires align_ok(align), cap + start(align) <= MAX
    ensures r.wf(), r@ =~= Seq::<u8>::empty(), r.room() == cap, r.align == align
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::reserve_extra
//@sub . next_power_of_two ( ) => .v_npo2()
//@spec
    requires old(self).wf()
    ensures final(self).kept(old(self)), final(self).off < MAX ==> final(self).len > final(self).off
//@at start
    proof { Self::rounded(); }
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::reserve
//@sub . next_power_of_two ( ) => .v_npo2()
//@spec
    requires old(self).wf()
    ensures final(self).kept(old(self)), old(self).off + additional <= MAX && additional > 0 ==> final(self).len >= final(self).off + additional
//@at start
    proof { Self::rounded(); }
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::reserve_exact
//@sub core::alloc::Layout::from_size_align ( $(s) , $(a) ) . unwrap ( ) => v_layout($(s), $(a))
//@sub alloc::alloc::alloc ( layout ) => Heap::v_alloc(layout)
//@sub alloc::alloc::handle_alloc_error ( layout ) => v_oom(layout)
//@sub alloc::alloc::realloc ( self . dat , $(l) , $(n) ) => self.dat.v_realloc($(l), $(n))
//@sub dst . copy_from_nonoverlapping ( src , $(n) ) => ptr.v_copy(dst, &self.dat, src, $(n))
//@sub alloc::alloc::dealloc ( self . dat , $(l) ) => self.dat.v_dealloc($(l))
//@sub . add ( $(x) ) => .v_add($(x))
//@sub self . dat = ptr ; => self.dat.v_set(ptr);
//@spec
    requires old(self).wf(), new_len <= MAX, new_len > old(self).len ==> new_len >= old(self).off
    ensures final(self).kept(old(self)), final(self).len >= new_len
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::extend_from_slice/extend_from_slice_inner
//@sub . next_power_of_two ( ) => .v_npo2()
//@refuse off + dat@.len() > MAX
//@sub core::ptr::copy_nonoverlapping ( dat . as_ptr ( ) , $(d) , $(n) ) => builder.dat.v_write($(d), dat, $(n))
//@sub . add ( $(x) ) => .v_add($(x))
//@spec
    requires old(builder).wf(), dat@.len() > 0
    ensures
        final(builder).wf(), final(builder)@ =~= old(builder)@ + dat@, final(builder).align == old(builder).align, final(builder).room() >= old(builder).room(),
        old(builder).off + dat@.len() <= MAX
//@at start
    proof { Self::rounded(); }
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::extend_from_slice
//@drop extend_from_slice_inner
//@sub extend_from_slice_inner ( self => Self::extend_from_slice_inner ( self
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@ =~= old(self)@ + dat@, final(self).align == old(self).align, final(self).room() >= old(self).room(),
        old(self).off + dat@.len() <= MAX
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::clear
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= Seq::<u8>::empty(), final(self).align == old(self).align, final(self).room() == old(self).room()
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::truncate
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@ =~= (if len < old(self)@.len() { old(self)@.take(len as int) } else { old(self)@ }),
        final(self).align == old(self).align, final(self).room() == old(self).room()
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::build/build_inner
//@ret r
//@sig core::mem::ManuallyDrop<SharedBytesBuilder> => SharedBytesBuilder
//@sub const INIT : SharedBytesMeta = => let INIT =
//@sub let dat = slf . dat => let mut dat = slf.dat
//@sub let meta = dat . cast::<SharedBytesMeta> ( ) ; =>
//@sub meta . write ( $(m) ) => dat.v_meta_write($(m))
//@sub core::alloc::Layout::from_size_align ( $(s) , $(a) ) . unwrap ( ) => v_layout($(s), $(a))
//@sub alloc::alloc::dealloc ( dat , $(l) ) => dat.v_dealloc($(l))
//@sub dat as usize as u64 => v_share(dat)
//@sub . to_le ( ) =>
//@sub dat_addr : 0 => dat_addr: Hand::v_null()
//@spec
    requires slf.wf(), slf.len > 0
    ensures sb_wf(r), sb(r) =~= slf@, r.len > 0 ==> r.dat_addr.v().layout.align == slf.align
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::build
//@ret r
//@drop build_inner
//@sub core::mem::ManuallyDrop::new ( self ) => self
//@sub build_inner ( => Self::build_inner(
//@sub dat_addr : 0 => dat_addr: Hand::v_null()
//@spec
    requires self.wf()
    ensures sb_wf(r), sb(r) =~= self@, r.len > 0 ==> r.dat_addr.v().layout.align == self.align
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::capacity
//@ret r
//@spec
    requires self.wf()
    ensures r == self.room(), r >= self@.len()
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::len
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::is_empty
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::as_slice
//@ret r
//@sub self . dat . add ( $(x) ) => self.dat.v_add($(x))
//@sub core::slice::from_raw_parts ( $(p) , $(n) ) => self.dat.v_slice($(p), $(n))
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::as_slice_mut
//@ret r
//@sub self . dat . add ( $(x) ) => self.dat.v_add($(x))
//@sub core::slice::from_raw_parts_mut ( $(p) , $(n) ) => self.dat.v_slice_mut($(p), $(n))
//@spec
    requires old(self).wf()
    ensures r@ =~= old(self)@, final(self).wf(), final(self)@ =~= final(r)@, final(self).align == old(self).align, final(self).room() == old(self).room()
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::apply_unfilled
//@ret r
//@sig < R , F > => <R, F: FnOnce(Room) -> ((R, usize), Room)>
//@sig where F : FnOnce ( $(x) ) -> ( R , usize ) , =>
//@sub & mut [ ] as & mut [ core::mem::MaybeUninit<u8> ] => Spare::v_none()
//@sub . add ( $(x) ) => .v_add($(x))
//@sub . cast::<core::mem::MaybeUninit<u8>> ( ) =>
//@sub core::slice::from_raw_parts_mut ( $(p) , $(n) ) => self.dat.v_spare($(p), $(n))
//@sub fun ( $(d) ) => { let v_s = $(d); let v_lent = self.dat.v_room(v_s); proof { n0 = v_s.n; } let (v_out, v_lent) = fun(v_lent); let ghost v_put = v_lent.put(v_out.1 as int); self.dat.v_back(v_s, v_lent); proof { put = v_put; } v_out }
//@refuse len > self.room() - self@.len()
//@spec
    requires old(self).wf(), honest(fun, (old(self).room() - old(self)@.len()) as usize)
    ensures
        final(self).wf(), old(self)@.len() <= final(self)@.len(), final(self)@.take(old(self)@.len() as int) =~= old(self)@,
        did(fun, (old(self).room() - old(self)@.len()) as usize, r, final(self)@.skip(old(self)@.len() as int)),
        final(self).align == old(self).align, final(self).room() == old(self).room()
//@at start
    let ghost mut n0 = 0usize;
    let ghost mut put = Seq::<u8>::empty();
//@at tail
    proof { assert(self@.skip(old(self)@.len() as int) =~= put); }
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::apply_unfilled_async
//@ret r
//@sig <'l , R , Fut , Fun> => <R, Fun: FnOnce(Room) -> ((R, usize), Room)>
//@sig & 'l mut self => &mut self
//@sig where Fut : core::future::Future<Output = ( R , usize ) > + Send + 'l , Fun : ( FnOnce ( $(x) ) -> Fut ) + Send + 'l , =>
//@sub core::pin::Pin::new ( $(x) ) => $(x)
//@sub & mut [ ] as & mut [ core::mem::MaybeUninit<u8> ] => Spare::v_none()
//@sub . add ( $(x) ) => .v_add($(x))
//@sub . cast::<core::mem::MaybeUninit<u8>> ( ) =>
//@sub core::slice::from_raw_parts_mut ( $(p) , $(n) ) => self.dat.v_spare($(p), $(n))
//@sub fun ( $(d) ) . await => { let v_s = $(d); let v_lent = self.dat.v_room(v_s); proof { n0 = v_s.n; } let (v_out, v_lent) = fun(v_lent); let ghost v_put = v_lent.put(v_out.1 as int); self.dat.v_back(v_s, v_lent); proof { put = v_put; } v_out }
//@refuse len > self.room() - self@.len()
//@spec
    requires old(self).wf(), honest(fun, (old(self).room() - old(self)@.len()) as usize)
    ensures
        final(self).wf(), old(self)@.len() <= final(self)@.len(), final(self)@.take(old(self)@.len() as int) =~= old(self)@,
        did(fun, (old(self).room() - old(self)@.len()) as usize, r, final(self)@.skip(old(self)@.len() as int)),
        final(self).align == old(self).align, final(self).room() == old(self).room()
//@at start
    let ghost mut n0 = 0usize;
    let ghost mut put = Seq::<u8>::empty();
//@at tail
    proof { assert(self@.skip(old(self)@.len() as int) =~= put); }
//@end
//@fn shared_bytes_builder.rs <SharedBytesBuilder as AsRef<[u8]>>::as_ref
//@ret r
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn shared_bytes_builder.rs <SharedBytesBuilder as AsMut<[u8]>>::as_mut
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ =~= old(self)@, final(self).wf(), final(self)@ =~= final(r)@, final(self).align == old(self).align, final(self).room() == old(self).room()
//@end
//@fn shared_bytes_builder.rs <SharedBytesBuilder as core::ops::Deref>::deref
//@ret r
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn shared_bytes_builder.rs <SharedBytesBuilder as core::ops::DerefMut>::deref_mut
//@ret r
//@spec
    requires old(self).wf()
    ensures r@ =~= old(self)@, final(self).wf(), final(self)@ =~= final(r)@, final(self).align == old(self).align, final(self).room() == old(self).room()
//@end

//@fn shared_bytes_builder.rs SharedBytesBuilder::apply_borrowed_buf
//@ret r
//@sig < 'this , R , F > => <'this, R, F: Filler<R>>
//@sig where F : FnOnce ( $(x) ) -> R , =>
//@sub & mut [ ] as & mut [ u8 ] => Spare::v_none()
//@sub . add ( $(x) ) => .v_add($(x))
//@sub . cast::<core::mem::MaybeUninit<u8>> ( ) =>
//@sub core::slice::from_raw_parts_mut ( $(p) , $(n) ) => self.dat.v_spare($(p), $(n))
//@sub core::io::BorrowedBuf::from ( $(x) ) => Borrowed::v_from($(x))
//@sub fun ( $(d) ) => fun.v_call_buf(&mut self.dat, $(d), Ghost(old(self).room() - old(self)@.len()))
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), old(self)@.len() <= final(self)@.len(), final(self)@.take(old(self)@.len() as int) =~= old(self)@,
        final(self).align == old(self).align, final(self).room() == old(self).room()
//@end

//@fn shared_bytes_builder.rs <SharedBytesBuilder as Default>::default
//@ret r
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty()
//@end

//@fn bytes_1/shared_bytes_builder.rs <SharedBytesBuilder as BufMut>::remaining_mut
//@prop P04 P17
//@ret r
//@spec
    requires self.wf()
    ensures r == MAX - self.off
//@end

//@fn bytes_1/shared_bytes_builder.rs <SharedBytesBuilder as BufMut>::put_bytes
//@prop P04 P17
//@refuse self.off + cnt > MAX
//@sub self . dat . add ( $(x) ) => self.dat.v_add($(x))
//@sub ptr . write_bytes ( $(b) , $(n) ) => self.dat.v_fill(ptr, $(b), $(n))
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@ =~= old(self)@ + Seq::new(cnt as nat, |i: int| val), final(self).align == old(self).align, final(self).room() >= old(self).room()
//@end

//@fn bytes_1/shared_bytes_builder.rs <SharedBytesBuilder as BufMut>::chunk_mut
//@prop P04 P17
//@ret r
//@sig & mut bytes::buf::UninitSlice => Spare
//@sub self . dat . add ( $(x) ) => self.dat.v_add($(x))
//@sub bytes::buf::UninitSlice::from_raw_parts_mut ( $(p) , $(n) ) => self.dat.v_spare($(p), $(n))
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@ =~= old(self)@, final(self).align == old(self).align, final(self).room() >= old(self).room(),
        r.n == final(self).room() - final(self)@.len(), r.o == final(self).off, old(self).off < MAX ==> r.n > 0
//@end

//@fn bytes_1/shared_bytes_builder.rs <SharedBytesBuilder as BufMut>::advance_mut
//@prop P04 P17
//@refuse self.off + cnt > MAX
//@spec
    requires old(self).wf(), cnt > 0 ==> old(self).len > 0 && old(self).off + cnt <= old(self).len && written(old(self).dat.v(), old(self).off as int, old(self).off + cnt)
    ensures
        final(self).wf(), final(self)@.len() == old(self)@.len() + cnt, final(self)@.take(old(self)@.len() as int) =~= old(self)@,
        final(self).align == old(self).align, final(self).room() == old(self).room()
//@end

//@fn bytes_1/shared_bytes_builder.rs <SharedBytesBuilder as BufMut>::put
//@prop P04 P17
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig < T : bytes::buf::Buf > => <T: Source>
//@sig mut src => src
//@refuse off + rest.len() > MAX
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= old(self)@ + src.rest(), final(self).align == old(self).align, final(self).room() >= old(self).room()
//@at start
    let ghost rest = src.rest();
    let ghost off = self.off as int;
    let ghost mut done: int = 0;
    let mut src = src;
    proof { assert(rest.take(0) =~= Seq::<u8>::empty()); }
//@loop 0 loop
    invariant
        self.wf(), 0 <= done < rest.len(), src.rest() =~= rest.skip(done), self@ =~= old(self)@ + rest.take(done),
        self.align == old(self).align, self.room() >= old(self).room(),
    decreases rest.len() - done
//@sub src . advance ( len ) ; => proof { let c = rest.skip(done).take(len as int); assert(rest.take(done) + c =~= rest.take(done + len)); done = done + len; } src.advance(len);
//@end

//@fn bytes_1/shared_bytes_builder.rs <SharedBytesBuilder as BufMut>::put_slice
//@prop P04 P17
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= old(self)@ + src@, final(self).align == old(self).align, final(self).room() >= old(self).room()
//@end

//@fn shared_bytes_builder.rs <SharedBytesBuilder as Drop>::drop as release
//@sub core::alloc::Layout::from_size_align ( $(s) , $(a) ) . unwrap ( ) => v_layout($(s), $(a))
//@sub alloc::alloc::dealloc ( self . dat , $(l) ) => self.dat.v_dealloc($(l))
//@spec
    requires old(self).wf()
    ensures !final(self).dat.v().live
//@end
}

} // verus!
fn main() {}
