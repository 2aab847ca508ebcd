//@props P19
//@title polling a queue as an HTTP body, for every division into chunks
use vstd::prelude::*;

verus! {

//@uses queue.rs

//@include http.rs
impl<'a> ByteQueue<'a> {
//@fn http_body_1.rs <ByteQueue as Body>::poll_frame
//@ret r
//@sig mut self : Pin<& mut Self> => &mut self
//@sig _cx : & mut Context<'_> , =>
//@sig Self::Data => ByteData<'a>
//@sig Self::Error => Infallible
//@sig http_body::Frame => Frame
//@opt http_body::Frame::data => Frame::data
//@opt core::ops::DerefMut::deref_mut ( & mut self ) => self
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        match r {
            Poll::Ready(None) => step(old(self)@, None, final(self)@),
            Poll::Ready(Some(Ok(f))) => f.of() is Some && step(old(self)@, Some(f.of()->0@), final(self)@),
            _ => false,
        }
//@at start
    proof { full_parts(self.queue@); }
//@end
//@fn http_body_1.rs <ByteQueue as Body>::is_end_stream as is_end_stream_1
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end
//@fn http_body_1.rs <ByteQueue as Body>::size_hint as size_hint_1
//@ret r
//@sig http_body::SizeHint => SizeHint
//@opt http_body::SizeHint => SizeHint
//@spec
    requires self.wf()
    ensures exact(r, self@.len() as int)
//@end
}

} // verus!
fn main() {}
