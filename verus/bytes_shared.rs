//@props P17
//@title shared bytes as `bytes::Bytes` and back, and the functions `Bytes` calls on a shared block
//@assume `Bytes` calls the functions of its table as the bytes crate does: with the pointer and length of a part of what it was made with, `to_vec`, `to_mut` and `drop` once and last; the layout of `Bytes` is that of `SBytes` (a transmute)
use vstd::prelude::*;

verus! {

//@uses builder.rs
//@uses shared.rs
//@include bytes.rs

/// The table a `Bytes` made here carries.
pub enum Vtable { Shared }
//@item bytes_1/mod.rs struct SBytes * const u8 => At ;; AtomicPtr<()> => Hand ;; & 'static SBytesVtable => Vtable
impl SBytes {
    /// What every function of the table may rely on.
    pub open spec fn wf(&self) -> bool { part_of(self.data, self.ptr, self.len) }
    pub open spec fn view(&self) -> Seq<u8> { part(self.data, self.ptr, self.len) }
//@fn bytes_1/mod.rs SBytes::into_bytes
//@ret r
//@sig bytes::Bytes => XBytes
//@sub core::mem::transmute::<SBytes , bytes::Bytes> => v_as_bytes
//@spec
    requires self.wf()
    ensures r@ =~= self@, r.block() == self.data.v().id
//@end
}
/// A part of a block, with one right to it.
pub open spec fn part_of(h: Hand, p: At, n: usize) -> bool {
    h.v().live && !h.v().owned && shared_ok(h.v()) && p.id@ == h.v().id && 12 <= p.o && p.o + n <= h.v().layout.size
        && forall|i: int| #![trigger h.v().bytes[i]] p.o <= i < p.o + n ==> h.v().bytes[i] is Some
}
pub open spec fn part(h: Hand, p: At, n: usize) -> Seq<u8> { Seq::new(n as nat, |i: int| h.v().bytes[p.o + i]->0) }
#[verifier::external_body]
fn v_as_bytes(s: SBytes) -> (r: XBytes)
    requires s.wf()
    ensures r@ == s@, r.block() == s.data.v().id
{ unimplemented!() }
impl Hand {
    /// Takes the right over from the one who calls.
    #[verifier::external_body]
    fn v_take(&mut self) -> (r: Hand)
        requires old(self).v().live
        ensures r == *old(self), !final(self).v().live, !final(self).v().owned
    { unimplemented!() }
}

pub struct BytesRef(pub Hand);
impl BytesRef {
//@fn bytes_1/shared_bytes.rs <BytesRef as Drop>::drop as release
//@sub let p = self . 0 ; =>
//@sub let meta = unsafe { & * ( p as * const SharedBytesMeta ) } ; =>
//@sub meta . refcnt . fetch_sub ( $(n) , $(o) ) => self.0.v_fetch_sub($(n), $(o))
//@opt meta . refcnt . load ( $(o) ) => self.0.v_load($(o))
//@opt meta . refcnt . store ( $(n) , $(o) ) => self.0.v_store($(n), $(o))
//@sub core::sync::atomic::fence ( $(o) ) => self.0.v_fence($(o))
//@opt core::sync::atomic::Ordering => Ordering
//@sub alloc::alloc::Layout::from_size_align ( $(s) , $(a) ) . unwrap ( ) => v_layout($(s), $(a))
//@sub meta . len => self.0.v_meta().len
//@sub meta . align ( ) => self.0.v_meta().align()
//@sub alloc::alloc::dealloc ( p , $(l) ) => self.0.v_dealloc($(l))
//@spec
    requires old(self).0.v().live, !old(self).0.v().owned, shared_ok(old(self).0.v())
    ensures !final(self).0.v().live, !final(self).0.v().owned
//@end
}
//@fn bytes_1/shared_bytes.rs static SHARED_BYTES_BVT.clone as table_clone
//@ret r
//@sig ( data , ptr , len ) => (data: &Hand, ptr: At, len: usize, Tracked(rights): Tracked<&mut Rights>) -> XBytes
//@sub let p = data . load ( Ordering::Relaxed ) ; =>
//@sub let meta = unsafe { & * ( p as * const SharedBytesMeta ) } ; =>
//@sub meta . refcnt . fetch_add ( $(n) , $(o) ) => data.v_fetch_add($(n), $(o), Tracked(&mut *rights))
//@opt meta . refcnt . fetch_sub ( $(n) , $(o) ) => data.v_fetch_sub($(n), $(o))
//@opt meta . refcnt . load ( $(o) ) => data.v_load($(o))
//@opt meta . refcnt . store ( $(n) , $(o) ) => data.v_store($(n), $(o))
//@sub AtomicPtr::new ( p ) => data.v_alias(Tracked(&mut *rights))
//@sub & SHARED_BYTES_BVT => Vtable::Shared
//@spec
    requires part_of(*data, ptr, len), old(rights).n() == 0
    ensures r@ =~= part(*data, ptr, len), r.block() == data.v().id, final(rights).n() == 0
//@end
//@fn bytes_1/shared_bytes.rs static SHARED_BYTES_BVT.to_vec as table_to_vec
//@ret r
//@sig ( data , ptr , len ) => (data: &mut Hand, ptr: At, len: usize) -> XVec
//@sub let _guard = BytesRef ( data . load ( Ordering::Relaxed ) as * mut u8 ) ; => let mut _guard = BytesRef(data.v_take());
//@guard _guard release
//@sub Vec:: => XVec::
//@opt Vec => XVec
//@sub core::ptr::copy_nonoverlapping ( $(p) , vec . as_mut_ptr ( ) , $(n) ) => vec.v_copy_in(_guard.0.v_slice($(p), len), $(n))
//@spec
    requires part_of(*old(data), ptr, len)
    ensures r@ =~= part(*old(data), ptr, len), !final(data).v().live, !final(data).v().owned
//@end
//@fn bytes_1/shared_bytes.rs static SHARED_BYTES_BVT.to_mut as table_to_mut
//@ret r
//@sig ( data , ptr , len ) => (data: &mut Hand, ptr: At, len: usize) -> XVec
//@sub let _guard = BytesRef ( data . load ( Ordering::Relaxed ) as * mut u8 ) ; => let mut _guard = BytesRef(data.v_take());
//@guard _guard release
//@sub bytes::BytesMut => XVec
//@sub core::ptr::copy_nonoverlapping ( $(p) , vec . as_mut_ptr ( ) , $(n) ) => vec.v_copy_in(_guard.0.v_slice($(p), len), $(n))
//@spec
    requires part_of(*old(data), ptr, len)
    ensures r@ =~= part(*old(data), ptr, len), !final(data).v().live, !final(data).v().owned
//@end
//@fn bytes_1/shared_bytes.rs static SHARED_BYTES_BVT.is_unique as table_is_unique
//@ret r
//@sig ( data ) => (data: &Hand) -> bool
//@sub let p = data . load ( Ordering::Relaxed ) ; =>
//@sub let meta = & * ( p as * const SharedBytesMeta ) ; =>
//@sub meta . refcnt . load ( $(o) ) => data.v_load($(o))
//@opt meta . refcnt . fetch_sub ( $(n) , $(o) ) => data.v_fetch_sub($(n), $(o))
//@opt meta . refcnt . store ( $(n) , $(o) ) => data.v_store($(n), $(o))
//@spec
    requires data.v().live, !data.v().owned, shared_ok(data.v())
    ensures r == (handles(*data) == 1)
//@end
//@fn bytes_1/shared_bytes.rs static SHARED_BYTES_BVT.drop as table_drop
//@sig ( data , _ptr , _len ) => (data: &mut Hand, _ptr: At, _len: usize)
//@sub let _guard = BytesRef ( data . load ( Ordering::Relaxed ) as * mut u8 ) ; => let mut _guard = BytesRef(data.v_take());
//@guard _guard release
//@spec
    requires part_of(*old(data), _ptr, _len)
    ensures !final(data).v().live, !final(data).v().owned
//@end

impl XBytes {
//@fn bytes_1/shared_bytes.rs <bytes::Bytes as From<SharedBytes>>::from as from_shared
//@ret r
//@sig Self => XBytes
//@sub bytes::Bytes::new => XBytes::new
//@sub let dat = core::mem::ManuallyDrop::new ( dat ) ; => let mut dat = dat;
//@sub dat . dat ( ) . add ( $(x) ) => dat.dat().v_add($(x))
//@sub AtomicPtr::new ( dat . dat ( ) as * mut ( ) ) => dat.dat_addr.v_take()
//@sub & SHARED_BYTES_BVT => Vtable::Shared
//@opt Self:: => XBytes::
//@spec
    requires dat.wf()
    ensures r@ =~= dat@, dat@.len() > 0 ==> r.block() == dat.dat_addr.v().id
//@end
}
impl SharedBytes {
//@fn bytes_1/shared_bytes.rs <SharedBytes as From<bytes::Bytes>>::from as from_xbytes
//@ret r
//@sig bytes::Bytes => XBytes
//@spec
    ensures r.wf(), r@ =~= dat@
//@end
//@fn bytes_1/shared_bytes.rs <SharedBytes as Buf>::remaining
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end
//@fn bytes_1/shared_bytes.rs <SharedBytes as Buf>::chunk
//@ret r
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn bytes_1/shared_bytes.rs <SharedBytes as Buf>::advance
//@refuse cnt > old(self)@.len()
//@spec
    requires old(self).wf()
    ensures cnt <= old(self)@.len(), final(self).wf(), final(self)@ =~= old(self)@.skip(cnt as int), final(self).dat_addr == old(self).dat_addr
//@end
//@fn bytes_1/shared_bytes.rs <SharedBytes as Buf>::has_remaining
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() > 0)
//@end
//@fn bytes_1/shared_bytes.rs <SharedBytes as Buf>::copy_to_bytes
//@ret r
//@sig ( & mut self , => (&mut self, Tracked(rights): Tracked<&mut Rights>,
//@sig bytes::Bytes => XBytes
//@refuse len > old(self)@.len()
//@sub bytes::Bytes::new => XBytes::new
//@sub core::mem::replace ( self , Self::empty ( ) ) . into ( ) => XBytes::from_shared(v_swap(self, Self::empty()))
//@sub self . sliced ( $(a) , $(b) ) . into ( ) => XBytes::from_shared(self.sliced(Tracked(&mut *rights), $(a), $(b)))
//@spec
    requires old(self).wf(), old(rights).n() == 0
    ensures len <= old(self)@.len(), final(self).wf(), r@ =~= old(self)@.take(len as int), final(self)@ =~= old(self)@.skip(len as int),
        len > 0 ==> r.block() == old(self).dat_addr.v().id, final(rights).n() == 0
//@end
}
fn v_swap<T>(a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b
{ let mut b = b; core::mem::swap(a, &mut b); b }

} // verus!
fn main() {}
