//@props P17
//@title byte values as `bytes::Bytes` and back, and as `Buf`, for values of every representation
//@assume the layout of `Bytes` is that of `SBytes` (a transmute), and its data pointer is null only where its bytes may be kept for ever
//@assume `Bytes::slice` gives the part it is asked for; a `Bytes` has the same bytes wherever it stands
use vstd::prelude::*;

verus! {

//@uses bytedata.rs
//@uses bytes_shared.rs

impl XBytes {
    #[verifier::external_body]
    fn v_from_static(s: &Bytes) -> (r: XBytes)
        requires s.lasting()
        ensures r@ == s@
    { unimplemented!() }
    #[verifier::external_body]
    fn slice<R: RangeBounds<usize>>(&self, range: R) -> (r: XBytes)
        requires in_range(range, self@.len() as int)
        ensures r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), r.block() == self.block()
    { unimplemented!() }
    /// The fields, where those of `SBytes` are.
    #[verifier::external_body]
    fn v_look<'s>(&self) -> (r: Look<'s>)
        ensures r.len == self@.len(), r.ptr.s@ == self@, r.null ==> r.ptr.s.lasting()
    { unimplemented!() }
    #[verifier::external_body]
    fn v_forget(self) { unimplemented!() }
}
pub struct Look<'s> { pub ptr: To<'s>, pub len: usize, pub null: bool }
/// A `Bytes` has the same bytes wherever it stands.
#[verifier::external_body]
proof fn bytes_steady(b: XBytes, at: int)
    ensures ext::bytes_of(b, at) == b@
{ unimplemented!() }
impl<'a> ByteSlice<'a> {
//@fn bytedata.rs ByteSlice::as_static
//@ret r
//@sig [ u8 ] => Bytes
//@sub core::mem::transmute::<& [ u8 ] , &'static [ u8 ] > ( $(x) ) => $(x).v_keep()
//@spec
    requires self.wf()
    ensures r is Some == self.marked(), r matches Some(s) ==> s@ =~= self@ && s.lasting()
//@end
}
impl XBytes {
//@fn bytes_1/bytedata.rs <bytes::Bytes as From<ByteData<'a>>>::from as from_data
//@ret r
//@sig ByteData<'a> => ByteData<'_>
//@sig Self => XBytes
//@sub bytedata::Kind => Kind
//@sub Self::new => XBytes::new
//@sub Self::from_static => XBytes::v_from_static
//@opt Self::copy_from_slice ( aa . as_slice ( ) ) => XBytes::copy_from_slice(aa.as_slice().v_raw())
//@sub Self::copy_from_slice => XBytes::copy_from_slice
//@sub & dat . slice => dat.v_slice()
//@sub dat . chunk . => dat.v_chunk().
//@sub core::mem::forget ( dat ) => dat.v_forget()
//@sub core::mem::transmute::<ByteData<'a> , SharedBytes> ( dat ) => dat.v_take_shared()
//@sub core::mem::transmute::<ByteData<'a> , external::ExtBytes> ( dat ) => dat.v_take_external()
//@sub ret . into ( ) => XBytes::from_shared(ret)
//@sub | tval : & Self , extb : & [ u8 ] | { =>> |tval: &XBytes, extb: ext::Placed<'_>| -> (x: XBytes) requires ext::bytes_of(*tval, ext::here(tval)) == ext.block().bytes && extb.of(ext.block().bytes), ensures x@ =~= extb.s@ { proof { bytes_steady(*tval, ext::here(tval)); }
//@sub let sp : * const u8 = extb . as_ptr ( ) ; =>
//@sub let tp : * const u8 = tval . as_ptr ( ) ; =>
//@sub sp as usize - tp as usize => extb.v_offset(tval.as_ref())
//@sub ret . unwrap_or_else ( || $(x) ) =>> (match ret { Some(v_x) => v_x, None => $(x) })
//@spec
    requires dat.wf()
    ensures r@ =~= dat@,
        dat matches ByteData::Shared(s) ==> dat@.len() > 0 ==> r.block() == s.dat_addr.v().id,
//@end
}
impl<'a> ByteData<'a> {
    fn v_take_shared(self) -> (r: SharedBytes)
        requires self is Shared
        ensures r == self->Shared_0
    { match self { ByteData::Shared(c) => c, _ => v_never() } }
    fn v_take_external(self) -> (r: ext::ExtBytes)
        requires self is External
        ensures r == self->External_0
    { match self { ByteData::External(c) => c, _ => v_never() } }

//@fn bytes_1/bytedata.rs <ByteData as From<bytes::Bytes>>::from as from_any_bytes
//@ret r
//@sig bytes::Bytes => XBytes
//@sub let b = unsafe { core::mem::transmute::<& bytes::Bytes , & SBytes> ( & dat ) } ; => let b = dat.v_look();
//@sub b . data . load ( $(o) ) . is_null ( ) => b.null
//@sub dat . into ( ) => SharedBytes::from_xbytes(dat)
//@sub core::slice::from_raw_parts ( $(p) , $(n) ) => v_parts($(p), $(n))
//@sub core::mem::forget ( dat ) => dat.v_forget()
//@spec
    ensures r.wf(), r@ =~= dat@, r.own()
//@end
//@fn bytes_1/bytedata.rs <ByteData as Buf>::remaining
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end
//@fn bytes_1/bytedata.rs <ByteData as Buf>::chunk
//@ret r
//@sig [ u8 ] => Bytes
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn bytes_1/bytedata.rs <ByteData as Buf>::has_remaining
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() > 0)
//@end
//@fn bytes_1/bytedata.rs <ByteData as Buf>::advance
//@refuse cnt > old(self)@.len()
//@spec
    requires old(self).wf()
    ensures cnt <= old(self)@.len(), final(self).wf(), final(self)@ =~= old(self)@.skip(cnt as int)
//@end
//@fn bytes_1/bytedata.rs <ByteData as Buf>::copy_to_bytes
//@ret r
//@sig bytes::Bytes => XBytes
//@refuse len > old(self)@.len()
//@sub bytes::Bytes::new => XBytes::new
//@sub core::mem::replace ( self , ByteData::empty ( ) ) . into ( ) => XBytes::from_data(v_replace(self, ByteData::empty()))
//@sub self . sliced ( $(a) ) . into ( ) => XBytes::from_data(self.sliced($(a)))
//@spec
    requires old(self).wf()
    ensures len <= old(self)@.len(), final(self).wf(), r@ =~= old(self)@.take(len as int), final(self)@ =~= old(self)@.skip(len as int)
//@end
}

} // verus!
fn main() {}
