//@props P03 P02 P23
//@title handles of shared bytes, for blocks of every size and ranges of every kind
//@assume the reference counter: `fetch_add`, `fetch_sub` and `load` have the contracts of a counter of rights to the block (whoever holds a right keeps the block unchanged; giving back the last one, seen as the old value 1, makes the caller its owner); it does not overflow (fewer than 2^32 handles)
//@assume the C11 rules for a counter: an operation that releases publishes what was done before it, and whoever reads the counter acquiring (or fences acquiring after it) sees what every handle given back before published
use vstd::prelude::*;

verus! {

//@uses builder.rs

impl SharedBytes {
    pub open spec fn wf(&self) -> bool { sb_wf(*self) }
    pub open spec fn view(&self) -> Seq<u8> { sb(*self) }
    /// A handle of the same block as `h`: shares its memory.
    pub open spec fn same_block(&self, h: &Self) -> bool { self.dat_addr.v() == h.dat_addr.v() }

//@item shared_bytes.rs const EMPTY const EMPTY : Self = $(x) ; => fn v_empty() -> (r: Self) ensures r.wf(), r.dat_addr.null(), r@ =~= Seq::<u8>::empty() { $(x) } ;; dat_addr : 0 => dat_addr: Hand::v_null()

//@fn shared_bytes.rs SharedBytes::empty
//@ret r
//@sub Self::EMPTY => Self::v_empty()
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty()
//@end

//@fn shared_bytes.rs SharedBytes::dat
//@ret r
//@sig * const u8 => &Hand
//@sub self . dat_addr . to_le ( ) as usize as * const u8 => &self.dat_addr
//@spec
    ensures *r == self.dat_addr
//@end

//@fn shared_bytes.rs SharedBytes::from_slice_aligned/from_slice_aligned_inner
//@prop P03 P01
//@ret r
//@sub core::mem::align_of::<SharedBytesMeta> ( ) . max ( $(a) ) => v_max(4, $(a))
//@refuse align > 0x8000_0000
//@refuse too_big(dat@.len() as int, align)
//@sub core::alloc::Layout::from_size_align ( $(s) , $(a) ) . unwrap ( ) => v_layout_or_panic($(s), $(a))
//@sub let ptr = unsafe { alloc::alloc::alloc ( layout ) } => let mut ptr = Heap::v_alloc(layout)
//@sub alloc::alloc::handle_alloc_error ( layout ) => v_oom(layout)
//@sub let meta = ptr . cast::<SharedBytesMeta> ( ) ; =>
//@sub meta . write ( $(m) ) => ptr.v_meta_write($(m))
//@sub ptr . add ( $(x) ) => ptr.v_add($(x))
//@sub core::ptr::copy_nonoverlapping ( dat . as_ptr ( ) , $(d) , $(n) ) => ptr.v_write($(d), dat, $(n))
//@sub ptr as usize as u64 => v_share(ptr)
//@sub . to_le ( ) =>
//@spec
    requires dat@.len() > 0
    ensures r.wf(), r@ =~= dat@, r.dat_addr.v().layout.align >= align
//@end

//@fn shared_bytes.rs SharedBytes::from_slice_aligned
//@prop P03 P01
//@ret r
//@drop from_slice_aligned_inner
//@sub Self::EMPTY => Self::v_empty()
//@sub from_slice_aligned_inner ( => Self::from_slice_aligned_inner(
//@spec
    ensures r.wf(), r@ =~= dat@, dat@.len() > 0 ==> r.dat_addr.v().layout.align >= align
//@end

//@fn shared_bytes.rs SharedBytes::from_slice
//@prop P03 P01
//@ret r
//@sub core::mem::align_of::<SharedBytesMeta> ( ) => 4
//@spec
    ensures r.wf(), r@ =~= dat@
//@end

//@fn shared_bytes.rs SharedBytes::len
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn shared_bytes.rs SharedBytes::is_empty
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end

//@fn shared_bytes.rs SharedBytes::is_unique
//@prop P03
//@ret r
//@sub . cast::<SharedBytesMeta> ( ) =>
//@sub & * meta => meta
//@sub meta . refcnt . load ( $(o) ) => meta.v_load($(o))
//@opt meta . refcnt . fetch_sub ( $(n) , $(o) ) => meta.v_fetch_sub($(n), $(o))
//@opt meta . refcnt . store ( $(n) , $(o) ) => meta.v_store($(n), $(o))
//@sub core::sync::atomic::Ordering => Ordering
//@spec
    requires self.wf()
    ensures r == (self.dat_addr.null() || handles(self.dat_addr) == 1)
//@end

//@fn shared_bytes.rs SharedBytes::as_slice
//@ret r
//@sub dat . add ( $(x) ) => dat.v_add($(x))
//@sub core::slice::from_raw_parts ( $(p) , $(n) ) => self.dat_addr.v_slice($(p), $(n))
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end

//@fn shared_bytes.rs SharedBytes::sliced
//@ret r
//@sig ( & self , => (&self, Tracked(rights): Tracked<&mut Rights>,
//@sub Self::EMPTY => Self::v_empty()
//@refuse offset > self@.len()
//@refuse offset + len > self@.len()
//@sub . cast::<SharedBytesMeta> ( ) =>
//@sub unsafe { & * meta } . refcnt . fetch_add ( $(n) , $(o) ) => meta.v_fetch_add($(n), $(o), Tracked(&mut *rights))
//@opt unsafe { & * meta } . refcnt . fetch_sub ( $(n) , $(o) ) => meta.v_fetch_sub($(n), $(o))
//@opt unsafe { & * meta } . refcnt . load ( $(o) ) => meta.v_load($(o))
//@opt unsafe { & * meta } . refcnt . store ( $(n) , $(o) ) => meta.v_store($(n), $(o))
//@sub core::sync::atomic::Ordering => Ordering
//@sub dat_addr : self . dat_addr => dat_addr: self.dat_addr.v_alias(Tracked(&mut *rights))
//@spec
    requires self.wf(), old(rights).n() == 0
    ensures
        offset + len <= self@.len(), r.wf(), r@ =~= self@.subrange(offset as int, offset + len), len > 0 ==> r.same_block(self), final(rights).n() == 0
//@end

//@fn shared_bytes.rs SharedBytes::sliced_range
//@ret r
//@sig ( & self , => (&self, Tracked(rights): Tracked<&mut Rights>,
//@refuse !in_range(range, self@.len() as int)
//@sub self . sliced ( => self.sliced(Tracked(&mut *rights),
//@spec
    requires self.wf(), old(rights).n() == 0
    ensures
        in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), r@.len() > 0 ==> r.same_block(self),
        final(rights).n() == 0
//@end

//@fn shared_bytes.rs SharedBytes::into_sliced
//@ret r
//@refuse offset > self@.len()
//@refuse offset + len > self@.len()
//@spec
    requires self.wf()
    ensures offset + len <= self@.len(), r.wf(), r@ =~= self@.subrange(offset as int, offset + len), r.same_block(&self)
//@end

//@fn shared_bytes.rs SharedBytes::make_sliced
//@refuse offset > self@.len()
//@refuse offset + len > self@.len()
//@sig -> & mut Self =>
//@sub self } => }
//@spec
    requires old(self).wf()
    ensures offset + len <= old(self)@.len(), final(self).wf(), final(self)@ =~= old(self)@.subrange(offset as int, offset + len), final(self).same_block(old(self))
//@end

//@fn shared_bytes.rs SharedBytes::into_sliced_range
//@ret r
//@refuse !in_range(range, self@.len() as int)
//@spec
    requires self.wf()
    ensures
        in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), r.same_block(&self)
//@end

//@fn shared_bytes.rs SharedBytes::make_sliced_range
//@refuse !in_range(range, old(self)@.len() as int)
//@sig -> & mut Self =>
//@spec
    requires old(self).wf()
    ensures
        in_range(range, old(self)@.len() as int), final(self).wf(), final(self)@ =~= old(self)@.subrange(first(range), past(range, old(self)@.len() as int)),
        final(self).same_block(old(self))
//@end

//@fn shared_bytes.rs <SharedBytes as Clone>::clone
//@prop P03 P01
//@ret r
//@sig ( & self ) => (&self, Tracked(rights): Tracked<&mut Rights>)
//@sub Self::EMPTY => Self::v_empty()
//@sub . cast::<SharedBytesMeta> ( ) =>
//@sub . cast_mut ( ) =>
//@opt & unsafe { & mut * dat } . refcnt => (&dat)
//@opt & unsafe { & * dat } . refcnt => (&dat)
//@opt unsafe { & mut * dat } . refcnt => dat
//@opt unsafe { & * dat } . refcnt => dat
//@opt . fetch_add ( $(n) , $(o) ) => .v_fetch_add($(n), $(o), Tracked(&mut *rights))
//@opt . fetch_sub ( $(n) , $(o) ) => .v_fetch_sub($(n), $(o))
//@opt . load ( $(o) ) => .v_load($(o))
//@opt . store ( $(n) , $(o) ) => .v_store($(n), $(o))
//@sub core::sync::atomic::Ordering => Ordering
//@sub dat_addr : self . dat_addr => dat_addr: self.dat_addr.v_alias(Tracked(&mut *rights))
//@spec
    requires self.wf(), old(rights).n() == 0
    ensures r.wf(), r@ =~= self@, r@.len() > 0 ==> r.same_block(self) && r.off == self.off, final(rights).n() == 0
//@end

//@fn shared_bytes.rs <SharedBytes as Drop>::drop/drop_dat
//@prop P03
//@sig & u8 => &mut Hand
//@sub let dat = dat as * const u8 ; =>
//@sub let meta = unsafe { & * dat . cast::<SharedBytesMeta> ( ) } ; =>
//@sub let refcnt = & meta . refcnt ; =>
//@sub refcnt . fetch_sub ( $(n) , $(o) ) => dat.v_fetch_sub($(n), $(o))
//@opt refcnt . load ( $(o) ) => dat.v_load($(o))
//@opt refcnt . store ( $(n) , $(o) ) => dat.v_store($(n), $(o))
//@opt core::sync::atomic::fence ( $(o) ) => dat.v_fence($(o))
//@sub core::sync::atomic::Ordering => Ordering
//@sub core::alloc::Layout::from_size_align ( $(s) , $(a) ) . unwrap ( ) => v_layout($(s), $(a))
//@sub meta . len => dat.v_meta().len
//@sub meta . align ( ) => dat.v_meta().align()
//@sub let dat = dat . cast_mut ( ) ; =>
//@sub alloc::alloc::dealloc ( dat , $(l) ) => dat.v_dealloc($(l))
//@spec
    requires old(dat).v().live, !old(dat).v().owned, shared_ok(old(dat).v())
    ensures !final(dat).v().live, !final(dat).v().owned
//@end

//@fn shared_bytes.rs <SharedBytes as Drop>::drop as release
//@prop P03
//@drop drop_dat
//@sub self . dat ( ) => &mut self.dat_addr
//@sub . as_ref ( ) => .v_as_mut()
//@sub drop_dat ( $(x) ) => Self::drop_dat($(x))
//@sub self . dat_addr = 0 => self.dat_addr.v_set_null()
//@spec
    requires old(self).wf()
    ensures !final(self).dat_addr.v().live, !final(self).dat_addr.v().owned, final(self).dat_addr.null()
//@end
}

impl SharedBytesBuilder {
//@fn shared_bytes.rs <SharedBytesBuilder as From<SharedBytes>>::from
//@prop P03 P04
//@ret r
//@sig mut dat => dat
//@sub & * dat_dat . cast::<SharedBytesMeta> ( ) => dat_dat
//@sub meta . align ( ) => meta.v_meta().align()
//@sub meta . refcnt . load ( $(o) ) => meta.v_load($(o))
//@opt meta . refcnt . fetch_sub ( $(n) , $(o) ) => meta.v_fetch_sub($(n), $(o))
//@opt meta . refcnt . store ( $(n) , $(o) ) => meta.v_store($(n), $(o))
//@sub core::sync::atomic::Ordering => Ordering
//@sub meta . len => meta.v_meta().len
//@sub let dataptr = dat_dat . cast_mut ( ) => let mut dataptr = dat.dat_addr.v_unshare()
//@sub dat . dat_addr = 0 => dat.dat_addr.v_set_null()
//@sub dataptr . add ( $(x) ) => dataptr.v_add($(x))
//@sub dest . copy_from ( sorc , $(n) ) => dataptr.v_move(dest, sorc, $(n))
//@sub core::mem::forget ( dat ) => v_forget(dat)
//@spec
    requires dat.wf()
    ensures
        r.wf(), r@ =~= dat@, !dat.dat_addr.null() ==> r.align == dat.dat_addr.v().layout.align,
        handles(dat.dat_addr) != 1 || dat.dat_addr.null() || r.dat.v().id == dat.dat_addr.v().id
//@at start
    let mut dat = dat;
//@end
}
pub open spec fn too_big(n: int, align: usize) -> bool { align_ok(align) ==> n + start(align) > MAX }
fn v_max(a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { b } else { a })
{ if a < b { b } else { a } }
/// `forget`: a right that is still held would be lost.
#[verifier::external_body]
fn v_forget(s: SharedBytes)
    requires !s.dat_addr.v().live, !s.dat_addr.v().owned
{ unimplemented!() }

} // verus!
fn main() {}
