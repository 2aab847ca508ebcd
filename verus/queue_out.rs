//@props P09 P14
//@title queues from other values and into them; extending a queue from an iterator; writing text into it and out of it
//@assume what an iterator given as argument hands out is a sequence of values; `ByteData`, `StringData` and `SharedBytesBuilder` keep the contracts proved for them in bytedata.rs, stringdata.rs and builder.rs
//@assume a formatter without width, fill or precision takes the bytes of a text as they are
use vstd::prelude::*;

verus! {

//@uses strings.rs

impl StrRef {
    /// The text of a string that was given away: the reference's lifetime is not modelled.
    #[verifier::external_body]
    fn v_of<'b>(s: &'b [u8]) -> (r: &'b StrRef) requires valid(s@) ensures r@ == s@ { unimplemented!() }
}
/// `alloc::string::String`: its bytes, always a text.
#[verifier::external_body]
pub struct String(u8);
impl View for String { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl String {
    #[verifier::external_body]
    fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: String) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn push_str(&mut self, s: &StrRef) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}
pub enum Cow<'a> { Borrowed(&'a [u8]), Owned(Vec<u8>) }
impl<'a> View for Cow<'a> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { match self { Cow::Borrowed(b) => b@, Cow::Owned(v) => v@ } } }
pub enum CowStr<'a> { Borrowed(&'a StrRef), Owned(String) }
impl<'a> View for CowStr<'a> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { match self { CowStr::Borrowed(b) => b@, CowStr::Owned(v) => v@ } } }
impl<'a> ByteData<'a> {
    #[verifier::external_body]
    fn from_borrowed(s: &'a [u8]) -> (r: ByteData<'a>) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    fn from_owned(v: Vec<u8>) -> (r: ByteData<'a>) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    fn from_cow(c: Cow<'a>) -> (r: ByteData<'a>) ensures r@ == c@ { unimplemented!() }
    #[verifier::external_body]
    fn from_shared(c: SharedBytes) -> (r: ByteData<'a>) ensures r@ == c@ { unimplemented!() }
    #[verifier::external_body]
    fn into_shared<'s>(self) -> (r: ByteData<'s>) ensures r@ == self@ { unimplemented!() }
    /// `Vec::from(ByteData)`
    #[verifier::external_body]
    fn v_into_vec(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
pub trait IntoData<'a>: Sized {
    spec fn content(&self) -> Seq<u8>;
    fn v_data(self) -> (r: ByteData<'a>) ensures r@ == self.content();
}
impl<'a> IntoData<'a> for &'a [u8] {
    open spec fn content(&self) -> Seq<u8> { self@ }
    fn v_data(self) -> (r: ByteData<'a>) { ByteData::from_borrowed(self) }
}
impl<'a> IntoData<'a> for Vec<u8> {
    open spec fn content(&self) -> Seq<u8> { self@ }
    fn v_data(self) -> (r: ByteData<'a>) { ByteData::from_owned(self) }
}
impl<'a> IntoData<'a> for String {
    open spec fn content(&self) -> Seq<u8> { self@ }
    fn v_data(self) -> (r: ByteData<'a>) { ByteData::from_owned(self.into_bytes()) }
}
impl<'a> IntoData<'a> for ByteData<'a> {
    open spec fn content(&self) -> Seq<u8> { self@ }
    fn v_data(self) -> (r: ByteData<'a>) { self }
}
impl<'a> StringData<'a> {
    #[verifier::external_body]
    fn from_static(s: &'static StrRef) -> (r: StringData<'a>) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    fn from_borrowed(s: &'a StrRef) -> (r: StringData<'a>) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    fn from_owned(s: String) -> (r: StringData<'a>) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    fn into_shared<'s>(self) -> (r: StringData<'s>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn as_str(&self) -> (r: &StrRef) ensures r@ == self@ { unimplemented!() }
}
/// `StringData::from(x)` of a text.
pub trait IntoText<'a>: Sized {
    spec fn content(&self) -> Seq<u8>;
    fn v_text(self) -> (r: StringData<'a>) ensures r@ == self.content();
}
impl<'a> IntoText<'a> for &'a StrRef {
    open spec fn content(&self) -> Seq<u8> { self@ }
    fn v_text(self) -> (r: StringData<'a>) { StringData::from_borrowed(self) }
}
impl<'a> IntoText<'a> for String {
    open spec fn content(&self) -> Seq<u8> { self@ }
    fn v_text(self) -> (r: StringData<'a>) { StringData::from_owned(self) }
}
#[verifier::external_body]
pub struct SharedBytes(u8);
impl View for SharedBytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct SharedBytesBuilder(u8);
impl View for SharedBytesBuilder { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// The bytes a builder can hold for certain.
pub open spec fn room(n: int) -> bool { n < 0x8000_0000 }
impl SharedBytesBuilder {
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: SharedBytesBuilder) requires room(n as int) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn extend_from_slice(&mut self, s: &[u8]) requires room((old(self)@.len() + s@.len()) as int) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    fn build(self) -> (r: SharedBytes) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
fn v_with_capacity(n: usize) -> (r: Vec<u8>) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
fn v_extend(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }

/// What an iterator hands out, in order.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Items<T>(core::marker::PhantomData<T>);
impl<T> View for Items<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Items<T> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        }
    { unimplemented!() }
    fn into_iter(self) -> (r: Self)
        ensures r == self
    { self }
}
/// The bytes of values one after the other.
pub open spec fn glued<T: View<V = Seq<u8>>>(s: Seq<T>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { s[0]@ + glued(s.skip(1)) } }
pub open spec fn all_texts<T: View<V = Seq<u8>>>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> valid((#[trigger] s[i])@) }
proof fn glued_step<T: View<V = Seq<u8>>>(s: Seq<T>)
    requires s.len() > 0
    ensures glued(s) == s[0]@ + glued(s.skip(1)), glued(s).len() == s[0]@.len() + glued(s.skip(1)).len(), all_texts(s) ==> valid(s[0]@) && all_texts(s.skip(1))
{
    assert forall|i: int| 0 <= i < s.skip(1).len() && all_texts(s) implies valid((#[trigger] s.skip(1)[i])@) by { assert(s.skip(1)[i] == s[i + 1]); }
}

impl<'a> ByteQueue<'a> {
//@fn queue/byte_queue.rs ByteQueue::is_full
//@prop P09
//@ret r
//@spec
    ensures !r
//@end
//@fn queue/byte_queue.rs <ByteQueue as From<ByteData<'a>>>::from as from_value
//@prop P09
//@ret r
//@spec
    ensures r.wf(), r@ == data@
//@end
//@fn queue/byte_queue.rs <ByteQueue as From<&'a[u8]>>::from as from_slice
//@prop P09
//@ret r
//@sub data . into ( ) => data.v_data()
//@spec
    ensures r.wf(), r@ == data@
//@end
//@fn queue/byte_queue.rs <ByteQueue as From<alloc::vec::Vec<u8>>>::from as from_vec
//@prop P09
//@ret r
//@sig alloc::vec::Vec<u8> => Vec<u8>
//@sub data . into ( ) => data.v_data()
//@spec
    ensures r.wf(), r@ == data@
//@end
//@fn queue/byte_queue.rs <ByteQueue as From<alloc::string::String>>::from as from_string
//@prop P09
//@ret r
//@sig alloc::string::String => String
//@sub data . into ( ) => data.v_data()
//@spec
    ensures r.wf(), r@ == data@
//@end
//@fn queue/byte_queue.rs <ByteQueue as From<alloc::borrow::Cow<'a,[u8]>>>::from as from_cow
//@prop P09
//@ret r
//@sig alloc::borrow::Cow<'a , [ u8 ] > => Cow<'a>
//@spec
    ensures r.wf(), r@ == data@
//@end
//@fn queue/byte_queue.rs <ByteQueue as From<alloc::borrow::Cow<'a,str>>>::from as from_cow_text
//@prop P09
//@ret r
//@sig alloc::borrow::Cow<'a , str> => CowStr<'a>
//@sub alloc::borrow::Cow::Borrowed => CowStr::Borrowed
//@sub alloc::borrow::Cow::Owned => CowStr::Owned
//@spec
    ensures r.wf(), r@ == data@
//@end
//@fn queue/byte_queue.rs <ByteQueue as FromIterator<ByteData<'a>>>::from_iter
//@prop P09
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <T : IntoIterator<Item = ByteData<'a>>> ( iter : T ) => (iter: Items<ByteData<'a>>)
//@iter 0 it
//@spec
    requires glued(iter@).len() <= usize::MAX
    ensures r.wf(), r@ =~= glued(iter@)
//@loop 0 for
    invariant out.wf(), out@ + glued(it@) =~= glued(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { glued_step(it_0); }
//@end
//@fn queue/byte_queue.rs <ByteQueue as Extend<ByteData<'a>>>::extend as extend_values
//@prop P09
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <T : IntoIterator<Item = ByteData<'a>>> ( & mut self , iter : T ) => (&mut self, iter: Items<ByteData<'a>>)
//@iter 0 it
//@spec
    requires old(self).wf(), old(self)@.len() + glued(iter@).len() <= usize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@ + glued(iter@)
//@loop 0 for
    invariant self.wf(), self@ + glued(it@) =~= old(self)@ + glued(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { glued_step(it_0); }
//@end
//@fn queue/byte_queue.rs <ByteQueue as Extend<&'a[u8]>>::extend as extend_slices
//@prop P09
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <T : IntoIterator<Item = &'a [ u8 ] >> ( & mut self , iter : T ) => (&mut self, iter: Items<&'a [u8]>)
//@sub self . $m ( $(x) ) => self.$m($(x).v_data())
//@iter 0 it
//@spec
    requires old(self).wf(), old(self)@.len() + glued(iter@).len() <= usize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@ + glued(iter@)
//@loop 0 for
    invariant self.wf(), self@ + glued(it@) =~= old(self)@ + glued(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { glued_step(it_0); }
//@end
//@fn queue/byte_queue.rs <ByteQueue as Extend<alloc::string::String>>::extend as extend_strings
//@prop P09
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <T : IntoIterator<Item = alloc::string::String>> ( & mut self , iter : T ) => (&mut self, iter: Items<String>)
//@sub self . $m ( $(x) ) => self.$m($(x).v_data())
//@iter 0 it
//@spec
    requires old(self).wf(), old(self)@.len() + glued(iter@).len() <= usize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@ + glued(iter@)
//@loop 0 for
    invariant self.wf(), self@ + glued(it@) =~= old(self)@ + glued(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { glued_step(it_0); }
//@end
//@fn queue/byte_queue.rs <ByteQueue as Extend<StringData<'a>>>::extend as extend_text_values
//@prop P09
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <T : IntoIterator<Item = StringData<'a>>> ( & mut self , iter : T ) => (&mut self, iter: Items<StringData<'a>>)
//@iter 0 it
//@spec
    requires old(self).wf(), old(self)@.len() + glued(iter@).len() <= usize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@ + glued(iter@)
//@loop 0 for
    invariant self.wf(), self@ + glued(it@) =~= old(self)@ + glued(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { glued_step(it_0); }
//@end
//@fn queue/byte_queue.rs <ByteQueue as Extend<&'a str>>::extend as extend_texts
//@prop P09
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <T : IntoIterator<Item = &'a str>> ( & mut self , iter : T ) => (&mut self, iter: Items<&'a StrRef>)
//@iter 0 it
//@spec
    requires old(self).wf(), old(self)@.len() + glued(iter@).len() <= usize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@ + glued(iter@)
//@loop 0 for
    invariant self.wf(), self@ + glued(it@) =~= old(self)@ + glued(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { glued_step(it_0); }
//@end
//@fn queue/byte_queue.rs <ByteQueue as Extend<alloc::vec::Vec<u8>>>::extend as extend_vecs
//@prop P09
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <T : IntoIterator<Item = alloc::vec::Vec<u8>>> ( & mut self , iter : T ) => (&mut self, iter: Items<Vec<u8>>)
//@sub self . $m ( $(x) ) => self.$m($(x).v_data())
//@iter 0 it
//@spec
    requires old(self).wf(), old(self)@.len() + glued(iter@).len() <= usize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@ + glued(iter@)
//@loop 0 for
    invariant self.wf(), self@ + glued(it@) =~= old(self)@ + glued(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { glued_step(it_0); }
//@end
//@fn queue/byte_queue.rs <ByteQueue as Default>::default
//@prop P09
//@ret r
//@spec
    ensures r.wf(), r@ == Seq::<u8>::empty()
//@end
//@fn queue/byte_queue.rs <ByteQueue as core::fmt::Write>::write_str
//@prop P09
//@ret r
//@sig str => StrRef
//@sig core::fmt::Result => Result<(), FmtError>
//@spec
    requires old(self).wf(), old(self)@.len() + s@.len() <= usize::MAX
    ensures r is Ok, final(self).wf(), final(self)@ == old(self)@ + s@
//@end
//@fn queue/byte_queue.rs ByteQueue::split_on
//@prop P10
//@ret r
//@spec
    requires self.wf()
    ensures r.wf(), r.queue == self, r.left() == (if self@.len() == 0 { Seq::empty() } else { pieces(self@, needle@, 0, 0) })
//@end
//@fn queue/byte_queue.rs ByteQueue::splitn_on
//@prop P10
//@ret r
//@spec
    requires self.wf()
    ensures r.wf(), r.queue == self, r.left() == (if self@.len() == 0 { Seq::empty() } else { pieces(self@, needle@, 0, max as int) })
//@end
//@fn queue/byte_queue.rs ByteQueue::into_iter as into_chunks
//@prop P12
//@ret r
//@sub self . queue . into_iter ( ) => ChunkIter::new(self.queue)
//@spec
    ensures r@ == self.queue@
//@end
//@fn queue/byte_queue.rs ByteQueue::iter
//@prop P12
//@ret r
//@spec
    ensures r@ == self.queue@
//@end
//@fn queue/byte_queue.rs <&'b ByteQueue<'a> as IntoIterator>::into_iter as ref_into_iter
//@prop P12
//@ret r
//@sig self => &self
//@sig Self::IntoIter => LinkedIter<'a, '_>
//@spec
    ensures r@ == self.queue@
//@end
}
#[derive(Debug)]
pub struct FmtError;
//@fn queue/byte_queue.rs <alloc::vec::Vec<u8> as From<ByteQueue<'_>>>::from as vec_from_queue
//@prop P09
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut data => data
//@sig Self => Vec<u8>
//@sub alloc::vec::Vec::new ( ) => Vec::<u8>::new()
//@sub . unwrap ( ) . into ( ) => .unwrap().v_into_vec()
//@sub coll . extend_from_slice ( $(x) ) => v_extend(&mut coll, $(x))
//@sub in data { => in data.into_iter() {
//@sub alloc::vec::Vec::with_capacity ( $(x) ) => v_with_capacity($(x))
//@iter 0 it
//@spec
    requires data.wf()
    ensures r@ =~= data@
//@at start
    let mut data = data;
    let ghost q = data.queue@;
    proof { if q.len() == 1 { assert(q.skip(1) =~= Seq::<Seq<u8>>::empty()); assert(flat(q.skip(1)) =~= Seq::<u8>::empty()); } }
//@loop 0 for
    invariant coll@ + flat(it@) =~= flat(q)
    ensures it@.len() == 0
    decreases it@.len()
//@end
//@fn queue/byte_queue.rs <ByteData as From<ByteQueue<'a>>>::from as value_from_queue
//@prop P09
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig fn from => fn from<'a>
//@sig mut data => data
//@sub in data { => in data.into_iter() {
//@sig Self => ByteData<'a>
//@iter 0 it
//@spec
    requires data.wf(), room(data@.len() as int)
    ensures r@ =~= data@
//@at start
    let mut data = data;
    let ghost q = data.queue@;
    let ghost all = data@;
//@loop 0 for
    invariant out@ + flat(it@) =~= all
    ensures it@.len() == 0
    decreases it@.len()
//@end

impl<'a> ByteData<'a> {
    /// `SharedBytes::from(ByteData)`
    #[verifier::external_body]
    fn v_to_shared(self) -> (r: SharedBytes) ensures r@ == self@ { unimplemented!() }
}
//@fn shared_bytes.rs <SharedBytes as From<ByteQueue<'a>>>::from as shared_from_queue
//@prop P09
//@ret r
//@sig fn from => fn from<'a>
//@sig Self => SharedBytes
//@sub ByteData::from ( $(x) ) . into ( ) => value_from_queue($(x)).v_to_shared()
//@spec
    requires dat.wf(), room(dat@.len() as int)
    ensures r@ =~= dat@
//@end
/// A formatter without width, fill and precision.
#[verifier::external_body]
pub struct Formatter(u8);
impl View for Formatter { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// `Display::fmt(chunk, f)` of a text value (render.rs): its bytes, or an error of the formatter's.
#[verifier::external_body]
fn v_show(x: &StringData<'_>, f: &mut Formatter) -> (r: Result<(), FmtError>)
    ensures r is Ok ==> final(f)@ == old(f)@ + x@
{ unimplemented!() }
impl<'a> StringQueue<'a> {
//@fn queue/string_queue.rs StringQueue::is_full
//@prop P14
//@ret r
//@spec
    ensures !r
//@end
//@fn queue/string_queue.rs StringQueue::chunk_len
//@prop P14
//@ret r
//@spec
    ensures r == self.queue.queue@.len()
//@end
//@fn queue/string_queue.rs StringQueue::as_bytequeue_mut
//@prop P14
//@ret r
//@spec
    ensures *r == old(self).queue, *final(r) == final(self).queue
//@end
//@fn queue/string_queue.rs <StringQueue as From<StringData<'a>>>::from as from_text_value
//@prop P14
//@ret r
//@spec
    requires data.wf()
    ensures r.wf(), r@ == data@
//@end
//@fn queue/string_queue.rs <StringQueue as From<&'a str>>::from as from_text
//@prop P14
//@ret r
//@sig & 'a str => &'a StrRef
//@sub data . into ( ) => data.v_text()
//@spec
    requires valid(data@)
    ensures r.wf(), r@ == data@
//@end
//@fn queue/string_queue.rs <StringQueue as From<alloc::string::String>>::from as from_string
//@prop P14
//@ret r
//@sig alloc::string::String => String
//@sub data . into ( ) => data.v_text()
//@spec
    requires valid(data@)
    ensures r.wf(), r@ == data@
//@end
//@fn queue/string_queue.rs <StringQueue as From<alloc::borrow::Cow<'a,str>>>::from as from_cow
//@prop P14
//@ret r
//@sig alloc::borrow::Cow<'a , str> => CowStr<'a>
//@sub alloc::borrow::Cow::Borrowed => CowStr::Borrowed
//@sub alloc::borrow::Cow::Owned => CowStr::Owned
//@spec
    requires valid(data@)
    ensures r.wf(), r@ == data@
//@end
//@fn queue/string_queue.rs <StringQueue as FromIterator<StringData<'a>>>::from_iter
//@prop P14
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <T : IntoIterator<Item = StringData<'a>>> ( iter : T ) => (iter: Items<StringData<'a>>)
//@iter 0 it
//@spec
    requires all_texts(iter@), glued(iter@).len() <= usize::MAX
    ensures r.wf(), r@ =~= glued(iter@)
//@loop 0 for
    invariant out.wf(), all_texts(it@), out@ + glued(it@) =~= glued(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { glued_step(it_0); }
//@end
//@fn queue/string_queue.rs <StringQueue as Extend<StringData<'a>>>::extend as extend_values
//@prop P14
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <T : IntoIterator<Item = StringData<'a>>> ( & mut self , iter : T ) => (&mut self, iter: Items<StringData<'a>>)
//@iter 0 it
//@spec
    requires old(self).wf(), all_texts(iter@), old(self)@.len() + glued(iter@).len() <= usize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@ + glued(iter@)
//@loop 0 for
    invariant self.wf(), all_texts(it@), self@ + glued(it@) =~= old(self)@ + glued(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { glued_step(it_0); }
//@end
//@fn queue/string_queue.rs <StringQueue as Extend<&'a str>>::extend as extend_texts
//@prop P14
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <T : IntoIterator<Item = &'a str>> ( & mut self , iter : T ) => (&mut self, iter: Items<&'a StrRef>)
//@sub self . queue . $m ( $(x) ) => self.queue.$m(($(x)).into_bytedata())
//@iter 0 it
//@spec
    requires old(self).wf(), all_texts(iter@), old(self)@.len() + glued(iter@).len() <= usize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@ + glued(iter@)
//@loop 0 for
    invariant self.wf(), all_texts(it@), self@ + glued(it@) =~= old(self)@ + glued(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { glued_step(it_0); }
//@end
//@fn queue/string_queue.rs <StringQueue as Extend<alloc::string::String>>::extend as extend_strings
//@prop P14
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <T : IntoIterator<Item = alloc::string::String>> ( & mut self , iter : T ) => (&mut self, iter: Items<String>)
//@sub self . queue . $m ( $(x) ) => self.queue.$m(($(x)).into_bytedata())
//@iter 0 it
//@spec
    requires old(self).wf(), all_texts(iter@), old(self)@.len() + glued(iter@).len() <= usize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@ + glued(iter@)
//@loop 0 for
    invariant self.wf(), all_texts(it@), self@ + glued(it@) =~= old(self)@ + glued(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { glued_step(it_0); }
//@end
//@fn queue/string_queue.rs <StringQueue as core::fmt::Display>::fmt
//@prop P14
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig core::fmt::Formatter<'_> => Formatter
//@sig core::fmt::Result => Result<(), FmtError>
//@sub core::fmt::Display::fmt ( $(a) , $(b) ) => v_show($(a), $(b))
//@iter 0 it
//@spec
    requires self.wf()
    ensures r is Ok ==> final(f)@ =~= old(f)@ + self@
//@loop 0 for
    invariant it.wf(), f@ + flat(it@) =~= old(f)@ + self@
    ensures it@.len() == 0
    decreases it@.len()
//@end
//@fn queue/string_queue.rs <StringQueue as core::fmt::Write>::write_str
//@prop P14
//@ret r
//@sig str => StrRef
//@sig core::fmt::Result => Result<(), FmtError>
//@spec
    requires old(self).wf(), valid(s@), old(self)@.len() + s@.len() <= usize::MAX
    ensures r is Ok, final(self).wf(), final(self)@ == old(self)@ + s@
//@end
//@fn queue/string_queue.rs <StringQueue as Default>::default
//@prop P14
//@ret r
//@spec
    ensures r.wf(), r@ == Seq::<u8>::empty()
//@end
}
//@fn queue/string_queue.rs <StringData as From<StringQueue<'a>>>::from as text_from_queue
//@prop P14
//@ret r
//@sig fn from => fn from<'a>
//@sig Self => StringData<'a>
//@sub From::from ( $(x) ) => value_from_queue($(x))
//@spec
    requires data.wf(), room(data@.len() as int)
    ensures r.wf(), r@ =~= data@
//@at start
    proof { data.is_text(); }
//@end
//@fn queue/string_queue.rs <alloc::string::String as From<StringQueue<'a>>>::from as string_from_queue
//@prop P14
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig StringQueue<'a> => StringQueue<'_>
//@sig Self => String
//@sub Self::with_capacity => String::with_capacity
//@iter 0 it
//@spec
    requires data.wf()
    ensures r@ =~= data@, valid(r@)
//@at start
    proof { data.is_text(); }
//@loop 0 for
    invariant it.wf(), out@ + flat(it@) =~= data@
    ensures it@.len() == 0
    decreases it@.len()
//@end

// ---- formatting into a queue ----

/// `core::fmt::Arguments`: the text they spell; a format string without arguments is that text itself.
#[verifier::external_body]
pub struct Arguments(u8);
impl View for Arguments { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Arguments {
    /// one of the values formatted reports an error
    pub uninterp spec fn fails(&self) -> bool;
    #[verifier::external_body]
    fn as_str(&self) -> (r: Option<&'static StrRef>)
        ensures r matches Some(t) ==> t@ == self@ && valid(t@)
    { unimplemented!() }
}
/// `fmt::Write::write_fmt` writes the text piece by piece with `write_str` (proved above).
#[verifier::external_body]
fn v_write_fmt<'a>(w: &mut StringQueue<'a>, a: Arguments) -> (r: Result<(), FmtError>)
    requires old(w).wf(), old(w)@.len() + a@.len() <= usize::MAX
    ensures final(w).wf(), !a.fails() ==> r is Ok && final(w)@ == old(w)@ + a@
{ unimplemented!() }
//@fn macros.rs __format_queue
//@prop P14
//@ret r
//@sig core::fmt::Arguments<'_> => Arguments
//@opt crate::StringQueue => StringQueue
//@opt crate::StringData => StringData
//@opt core::fmt::Write::write_fmt => v_write_fmt
//@spec
    requires !args.fails(), args@.len() <= usize::MAX
    ensures r.wf(), r@ =~= args@
//@end

} // verus!
fn main() {}
