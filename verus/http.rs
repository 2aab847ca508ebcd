//@props P19
//@title polling a byte value or a block of shared bytes as an HTTP body, for every length and representation
//@assume the polled value is not behind a `Pin` that forbids moving it (it is `Unpin`); what is replaced or cut was dropped or forgotten
use vstd::prelude::*;

verus! {

//@uses bytedata.rs

//@include http.rs
impl SharedBytes {
    fn v_sliced(&self, offset: usize, len: usize) -> (r: SharedBytes)
        requires self.wf(), offset + len <= self@.len()
        ensures r.wf(), r@ =~= self@.subrange(offset as int, offset + len)
    { let tracked mut rights = no_rights(); self.sliced(Tracked(&mut rights), offset, len) }
    fn v_sliced_r<R: RangeBounds<usize>>(&self, range: R) -> (r: SharedBytes)
        requires self.wf(), in_range(range, self@.len() as int)
        ensures r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
    { let tracked mut rights = no_rights(); self.sliced_range(Tracked(&mut rights), range) }
}

// ---- http_body_04, ByteData ----

impl<'a> ByteData<'a> {
//@fn http_body_04.rs <ByteData as Body>::poll_data as poll_data_04
//@ret r
//@sig mut self : Pin<& mut Self> => &mut self
//@sig _cx : & mut Context<'_> , =>
//@sig Self::Data => ByteData<'a>
//@sig Self::Error => Infallible
//@opt core::ops::DerefMut::deref_mut ( & mut self ) => self
//@opt core::mem::replace ( this , $(x) ) => v_replace(this, $(x))
//@opt core::mem::take ( this ) => v_replace(this, ByteData::empty())
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        match r {
            Poll::Ready(None) => step(old(self)@, None, final(self)@),
            Poll::Ready(Some(Ok(x))) => x.wf() && step(old(self)@, Some(x@), final(self)@),
            _ => false,
        }
//@end
//@fn http_body_04.rs <ByteData as Body>::poll_trailers
//@ret r
//@sig self : Pin<& mut Self> => &mut self
//@sig _cx : & mut Context<'_> , =>
//@sig http_02::HeaderMap => HeaderMap
//@sig Self::Error => Infallible
//@spec
    ensures r matches Poll::Ready(Ok(None)), *final(self) == *old(self)
//@end
//@fn http_body_04.rs <ByteData as Body>::is_end_stream as is_end_stream_04
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end
//@fn http_body_04.rs <ByteData as Body>::size_hint as size_hint_04
//@ret r
//@sig http_body::SizeHint => SizeHint
//@opt http_body::SizeHint => SizeHint
//@spec
    requires self.wf()
    ensures exact(r, self@.len() as int)
//@end
}

// ---- http_body_04, SharedBytes ----

impl SharedBytes {
//@fn http_body_04.rs <SharedBytes as Body>::poll_data as poll_data_04
//@ret r
//@sig mut self : Pin<& mut Self> => &mut self
//@sig _cx : & mut Context<'_> , =>
//@sig Self::Data => SharedBytes
//@sig Self::Error => Infallible
//@opt core::ops::DerefMut::deref_mut ( & mut self ) => self
//@opt core::mem::replace ( this , $(x) ) => v_replace(this, $(x))
//@opt core::mem::take ( this ) => v_replace(this, SharedBytes::empty())
//@opt . sliced ( => .v_sliced(
//@opt . sliced_range ( => .v_sliced_r(
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        match r {
            Poll::Ready(None) => step(old(self)@, None, final(self)@),
            Poll::Ready(Some(Ok(x))) => x.wf() && step(old(self)@, Some(x@), final(self)@),
            _ => false,
        }
//@end
//@fn http_body_04.rs <SharedBytes as Body>::poll_trailers
//@ret r
//@sig self : Pin<& mut Self> => &mut self
//@sig _cx : & mut Context<'_> , =>
//@sig http_02::HeaderMap => HeaderMap
//@sig Self::Error => Infallible
//@spec
    ensures r matches Poll::Ready(Ok(None)), *final(self) == *old(self)
//@end
//@fn http_body_04.rs <SharedBytes as Body>::is_end_stream as is_end_stream_04
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end
//@fn http_body_04.rs <SharedBytes as Body>::size_hint as size_hint_04
//@ret r
//@sig http_body::SizeHint => SizeHint
//@opt http_body::SizeHint => SizeHint
//@spec
    requires self.wf()
    ensures exact(r, self@.len() as int)
//@end
}

// ---- http_body_1, ByteData ----

impl<'a> ByteData<'a> {
//@fn http_body_1.rs <ByteData as Body>::poll_frame as poll_frame_1
//@ret r
//@sig mut self : Pin<& mut Self> => &mut self
//@sig _cx : & mut Context<'_> , =>
//@sig Self::Data => ByteData<'a>
//@sig Self::Error => Infallible
//@sig http_body::Frame => Frame
//@opt http_body::Frame::data => Frame::data
//@opt core::ops::DerefMut::deref_mut ( & mut self ) => self
//@opt core::mem::replace ( this , $(x) ) => v_replace(this, $(x))
//@opt core::mem::take ( this ) => v_replace(this, ByteData::empty())
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        match r {
            Poll::Ready(None) => step(old(self)@, None, final(self)@),
            Poll::Ready(Some(Ok(f))) => f.of() is Some && f.of()->0.wf() && step(old(self)@, Some(f.of()->0@), final(self)@),
            _ => false,
        }
//@end
//@fn http_body_1.rs <ByteData as Body>::is_end_stream as is_end_stream_1
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end
//@fn http_body_1.rs <ByteData as Body>::size_hint as size_hint_1
//@ret r
//@sig http_body::SizeHint => SizeHint
//@opt http_body::SizeHint => SizeHint
//@spec
    requires self.wf()
    ensures exact(r, self@.len() as int)
//@end
}

// ---- http_body_1, SharedBytes ----

impl SharedBytes {
//@fn http_body_1.rs <SharedBytes as Body>::poll_frame as poll_frame_1
//@ret r
//@sig mut self : Pin<& mut Self> => &mut self
//@sig _cx : & mut Context<'_> , =>
//@sig Self::Data => SharedBytes
//@sig Self::Error => Infallible
//@sig http_body::Frame => Frame
//@opt http_body::Frame::data => Frame::data
//@opt core::ops::DerefMut::deref_mut ( & mut self ) => self
//@opt core::mem::replace ( this , $(x) ) => v_replace(this, $(x))
//@opt core::mem::take ( this ) => v_replace(this, SharedBytes::empty())
//@opt . sliced ( => .v_sliced(
//@opt . sliced_range ( => .v_sliced_r(
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        match r {
            Poll::Ready(None) => step(old(self)@, None, final(self)@),
            Poll::Ready(Some(Ok(f))) => f.of() is Some && f.of()->0.wf() && step(old(self)@, Some(f.of()->0@), final(self)@),
            _ => false,
        }
//@end
//@fn http_body_1.rs <SharedBytes as Body>::is_end_stream as is_end_stream_1
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end
//@fn http_body_1.rs <SharedBytes as Body>::size_hint as size_hint_1
//@ret r
//@sig http_body::SizeHint => SizeHint
//@opt http_body::SizeHint => SizeHint
//@spec
    requires self.wf()
    ensures exact(r, self@.len() as int)
//@end
}

} // verus!
fn main() {}
