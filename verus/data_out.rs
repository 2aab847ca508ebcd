//@props P01 P03 P04 P08 P13 P15
//@title values turned into vectors, owned or borrowed text and references; builders turned into values
//@assume `Vec::drain(0..n)` dropped at once removes the first n bytes, `mem::take` leaves an empty vector
use vstd::prelude::*;

verus! {

//@uses stringdata.rs

#[verifier::external_body]
fn v_cut_front(v: &mut Vec<u8>, n: usize)
    requires n <= old(v)@.len()
    ensures final(v)@ =~= old(v)@.skip(n as int)
{ unimplemented!() }
#[verifier::external_body]
fn v_take_vec(v: &mut Vec<u8>) -> (r: Vec<u8>)
    ensures r@ == old(v)@, final(v)@.len() == 0
{ unimplemented!() }
impl Bytes {
    #[verifier::external_body]
    fn to_vec(&self) -> (r: Vec<u8>)
        ensures r@ == self@
    { unimplemented!() }
    /// A borrowed slice has the lifetime the value names.
    #[verifier::external_body]
    fn v_long<'s>(&self) -> (r: &'s Bytes)
        ensures r@ == self@, r.lasting() == self.lasting()
    { unimplemented!() }
}
impl ext::ExtBytes {
    fn v_to_vec(&self) -> (r: Vec<u8>)
        requires self.wf()
        ensures r@ =~= self@
    { Bytes::v_of(self.as_slice()).to_vec() }
}
impl<'a> ByteData<'a> {
    fn v_take_ext(self) -> (r: ext::ExtBytes)
        requires self is External
        ensures r == self->External_0
    { match self { ByteData::External(c) => c, _ => v_never() } }
}
//@fn bytedata.rs <Vec<u8> as From<ByteData<'a>>>::from as vec_from_value
//@prop P01 P15
//@ret r
//@sig ByteData<'a> => ByteData<'_>
//@sig Self => Vec<u8>
//@sub core::mem::transmute::<ByteData<'a> , external::ExtBytes> ( dat ) => dat.v_take_ext()
//@sub dat . take_inner::<Self , Self , _> ( | inner | { =>> dat.take_inner::<Vec<u8>, Vec<u8>, _>(|inner: ext::TakeExtBytesInner<'_, Vec<u8>>| -> (x: Vec<u8>) requires ext::bytes_of(*inner.data, ext::here(&*inner.data)) == dat.block().bytes && inner.slice.of(dat.block().bytes), ensures x@ =~= inner.slice.s@ { proof { vec_steady(*inner.data); }
//@sub | vec , slic | { =>> |vec: &Vec<u8>, slic: ext::Placed<'_>| -> (x: (usize, usize)) requires slic.of(vec@), ensures x.0 == slic.at@, x.1 == slic.s@.len(), vec@.len() <= usize::MAX {
//@sub slic . as_ptr ( ) . byte_offset_from ( vec . as_slice ( ) . as_ptr ( ) ) => slic.v_offset(vec.as_slice())
//@sub core::mem::take ( inner ) => v_take_vec(inner)
//@sub core::mem::drop ( inner . drain ( 0 .. off ) ) => v_cut_front(&mut inner, off)
//@sub err . as_slice ( ) . to_vec ( ) => err.v_to_vec()
//@spec
    requires dat.wf()
    ensures r@ =~= dat@
//@end

/// What an iterator hands out, in order.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Items<T>(core::marker::PhantomData<T>);
impl<T> View for Items<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Items<T> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        }
    { unimplemented!() }
    fn into_iter(self) -> (r: Self)
        ensures r == self
    { self }
    /// Any bounds: the result does not depend on them.
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
}
/// The bytes of texts one after the other.
pub open spec fn all_text(s: Seq<&Bytes>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { s[0]@ + all_text(s.skip(1)) } }
/// Room in the builder for what is to come (the builder refuses more).
pub open spec fn fits(b: &SharedBytesBuilder, n: int) -> bool { b@.len() + n < 0x8000_0000 }

impl<'a> ByteData<'a> {
    fn v_copy_slice(&self) -> (r: ByteSlice<'a>)
        requires self is Slice
        ensures r == self->Slice_0
    { match self { ByteData::Slice(c) => *c, _ => v_never() } }
}
//@fn bytedata.rs <Cow<[u8]> as From<ByteData<'a>>>::from as cow_from_value
//@prop P01 P15
//@ret r
//@sig fn from => fn from<'a>
//@sig Self => Cow<'a>
//@opt alloc::borrow::Cow::Borrowed => Cow::Borrowed
//@opt alloc::borrow::Cow::Owned => Cow::Owned
//@sub unsafe { dat . slice } . as_slice ( ) => dat.v_copy_slice().as_slice().v_long()
//@sub dat . into ( ) => vec_from_value(dat)
//@spec
    requires dat.wf()
    ensures r@ =~= dat@
//@end
//@fn stringdata.rs <String as From<StringData<'a>>>::from as string_from_value
//@prop P08
//@ret r
//@sig StringData<'a> => StringData<'_>
//@sig Self => String
//@sub Vec::<u8>::from ( $(x) ) => vec_from_value($(x))
//@sub Self::from_utf8_unchecked ( $(x) ) => v_string($(x))
//@spec
    requires dat.wf()
    ensures r@ =~= dat@, valid(r@)
//@end
fn v_string(v: Vec<u8>) -> (r: String)
    requires valid(v@)
    ensures r@ == v@
{ String { v } }
//@fn stringdata.rs <Cow<str> as From<StringData<'a>>>::from as cow_from_text
//@prop P08
//@ret r
//@sig fn from => fn from<'a>
//@sig Self => CowStr<'a>
//@sub Cow::<'a , [ u8 ] >::from ( $(x) ) => cow_from_value($(x))
//@sub Cow::Borrowed ( unsafe { core::str::from_utf8_unchecked ( $(x) ) } ) => CowStr::Borrowed(v_text($(x)))
//@sub Cow::Owned ( unsafe { String::from_utf8_unchecked ( $(x) ) } ) => CowStr::Owned(v_string($(x)))
//@spec
    requires dat.wf()
    ensures r@ =~= dat@, valid(r@)
//@end
//@fn stringdata.rs <alloc::vec::Vec<u8> as From<StringData<'a>>>::from as vec_from_text
//@prop P08
//@ret r
//@sig StringData<'a> => StringData<'_>
//@sig Self => Vec<u8>
//@sub Self::from ( $(x) ) => vec_from_value($(x))
//@spec
    requires dat.wf()
    ensures r@ =~= dat@
//@end

impl<'a> ByteData<'a> {
//@fn bytedata.rs <ByteData as From<alloc::borrow::Cow<'a,str>>>::from as from_cow_text
//@prop P01
//@ret r
//@sig alloc::borrow::Cow<'a , str> => CowStr<'a>
//@opt alloc::borrow::Cow::Borrowed => CowStr::Borrowed
//@opt alloc::borrow::Cow::Owned => CowStr::Owned
//@sub Self::from ( $(x) ) => Self::from_string($(x))
//@spec
    requires valid(data@)
    ensures r.wf(), r@ =~= data@
//@end
//@fn stringdata.rs <ByteData as From<StringData<'a>>>::from as from_text
//@prop P08
//@ret r
//@spec
    requires dat.wf()
    ensures r.wf(), r == dat.data
//@end
//@fn bytedata.rs <ByteData as AsRef<[u8]>>::as_ref
//@prop P01
//@ret r
//@sig [ u8 ] => Bytes
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn bytedata.rs <ByteData as Deref>::deref
//@prop P01
//@ret r
//@sig Self::Target => Bytes
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn bytedata.rs <ByteData as core::borrow::Borrow<[u8]>>::borrow
//@prop P01
//@ret r
//@sig [ u8 ] => Bytes
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn bytedata.rs <ByteData as FromIterator<u8>>::from_iter
//@prop P01
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <T : IntoIterator<Item = u8>> ( iter : T ) => (iter: Items<u8>)
//@opt shared_bytes_builder::SharedBytesBuilder => SharedBytesBuilder
//@sub SharedBytesBuilder::with_capacity ( siz ) => v_builder_for(siz)
//@sub min + ( siz . saturating_sub ( min ) >> 2_u8 ) => v_guess(min, siz)
//@sub dat . extend_from_slice ( & [ aa ] ) => ({ let v_one = [aa]; dat.extend_from_slice(v_one.as_slice()) })
//@sub Self::from ( dat ) => Self::from_builder(dat)
//@iter 0 it
//@spec
    requires iter@.len() < 0x4000_0000
    ensures r.wf(), r@ =~= iter@
//@loop 0 for
    invariant dat.wf(), dat@ + it@ =~= iter@
    ensures it@.len() == 0
    decreases it@.len()
//@end
}
/// A builder with some room (too much room is refused).
#[verifier::external_body]
fn v_builder_for(n: usize) -> (r: SharedBytesBuilder)
    ensures r.wf(), r@.len() == 0
{ unimplemented!() }
#[verifier::external_body]
fn v_guess(min: usize, siz: usize) -> (r: usize) { unimplemented!() }

impl<'a> StringData<'a> {
//@fn stringdata.rs <StringData as From<&'a str>>::from as from_text_ref
//@prop P08
//@ret r
//@sig &'a str => &'a Bytes
//@spec
    requires valid(dat@)
    ensures r.wf(), r@ =~= dat@
//@end
//@fn stringdata.rs <StringData as From<String>>::from as from_string
//@prop P08
//@ret r
//@spec
    requires valid(dat@)
    ensures r.wf(), r@ =~= dat@
//@end
//@fn stringdata.rs <StringData as AsRef<[u8]>>::as_ref as as_ref_bytes
//@prop P08
//@ret r
//@sig [ u8 ] => Bytes
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn stringdata.rs <StringData as AsRef<str>>::as_ref as as_ref_text
//@prop P08
//@ret r
//@sig str => Bytes
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn stringdata.rs <StringData as AsRef<ByteData<'a>>>::as_ref as as_ref_value
//@prop P08
//@ret r
//@spec
    requires self.wf()
    ensures *r == self.data
//@end
//@fn stringdata.rs <StringData as Deref>::deref
//@prop P08
//@ret r
//@sig Self::Target => Bytes
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn stringdata.rs <StringData as core::borrow::Borrow<str>>::borrow
//@prop P08
//@ret r
//@sig str => Bytes
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn stringdata.rs <StringData as Default>::default
//@prop P08
//@ret r
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty()
//@end
}

// ---- builders and blocks ----

impl SharedStrBuilder {
//@fn shared_str_builder.rs <SharedStrBuilder as Default>::default
//@prop P08
//@ret r
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty()
//@end
//@fn shared_str_builder.rs <SharedStrBuilder as core::str::FromStr>::from_str
//@prop P08
//@ret r
//@sig str => Bytes
//@sig Self::Err => core::convert::Infallible
//@sub s . into ( ) => Self::from_text(s)
//@spec
    requires valid(s@), s@.len() < 0x4000_0000
    ensures r matches Ok(x) && x.wf() && x@ =~= s@
//@end
//@fn shared_str_builder.rs <SharedStrBuilder as core::fmt::Write>::write_str
//@prop P08
//@ret r
//@sig str => Bytes
//@sig core::fmt::Result => Result<(), FmtError>
//@spec
    requires old(self).wf(), valid(s@), fits(&old(self).inner, s@.len() as int)
    ensures r is Ok, final(self).wf(), final(self)@ =~= old(self)@ + s@
//@end
//@fn shared_str_builder.rs <SharedStrBuilder as core::borrow::Borrow<str>>::borrow
//@prop P08
//@ret r
//@sig str => Bytes
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
}
#[derive(Debug)]
pub struct FmtError;
//@fn shared_str_builder.rs <SharedBytesBuilder as From<SharedStrBuilder>>::from as builder_from_text
//@prop P08
//@ret r
//@sig Self => SharedBytesBuilder
//@spec
    requires value.wf()
    ensures r.wf(), r@ =~= value@
//@end
//@fn shared_str_builder.rs <SharedBytes as From<SharedStrBuilder>>::from as block_from_text
//@prop P08
//@ret r
//@sig Self => SharedBytes
//@spec
    requires value.wf()
    ensures r.wf(), r@ =~= value@
//@end
//@fn shared_str_builder.rs <ByteData as From<SharedStrBuilder>>::from as value_from_text_builder
//@prop P08
//@ret r
//@sig fn from => fn from<'a>
//@sig Self => ByteData<'a>
//@sub value . inner . into ( ) => ByteData::from_builder(value.inner)
//@spec
    requires value.wf()
    ensures r.wf(), r@ =~= value@
//@end
//@fn shared_str_builder.rs <StringData as From<SharedStrBuilder>>::from as text_from_builder
//@prop P08
//@ret r
//@sig fn from => fn from<'a>
//@sig Self => StringData<'a>
//@spec
    requires value.wf()
    ensures r.wf(), r@ =~= value@
//@end

impl SharedBytesBuilder {
//@fn shared_bytes_builder.rs <SharedBytesBuilder as Extend<u8>>::extend as extend_bytes
//@prop P04
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <I : IntoIterator<Item = u8>> ( & mut self , iter : I ) => (&mut self, iter: Items<u8>)
//@sub self . extend_from_slice ( & [ i ] ) => ({ let v_one = [i]; self.extend_from_slice(v_one.as_slice()) })
//@iter 0 it
//@spec
    requires old(self).wf(), fits(old(self), iter@.len() as int)
    ensures final(self).wf(), final(self)@ =~= old(self)@ + iter@
//@loop 0 for
    invariant self.wf(), self@ + it@ =~= old(self)@ + iter@
    ensures it@.len() == 0
    decreases it@.len()
//@end
//@fn shared_bytes_builder.rs <SharedBytesBuilder as Extend<&'a[u8]>>::extend as extend_slices
//@prop P04
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <I : IntoIterator<Item = &'a [ u8 ] >> ( & mut self , iter : I ) => (&mut self, iter: Items<&Bytes>)
//@sub self . extend_from_slice ( i ) => self.extend_from_slice(i.v_raw())
//@iter 0 it
//@spec
    requires old(self).wf(), fits(old(self), all_text(iter@).len() as int)
    ensures final(self).wf(), final(self)@ =~= old(self)@ + all_text(iter@)
//@loop 0 for
    invariant self.wf(), self@ + all_text(it@) =~= old(self)@ + all_text(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@end
//@fn shared_bytes_builder.rs <SharedBytesBuilder as Extend<&'a str>>::extend as extend_texts
//@prop P04
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <I : IntoIterator<Item = &'a str>> ( & mut self , iter : I ) => (&mut self, iter: Items<&Bytes>)
//@sub i . as_bytes ( ) => i.as_bytes().v_raw()
//@iter 0 it
//@spec
    requires old(self).wf(), fits(old(self), all_text(iter@).len() as int)
    ensures final(self).wf(), final(self)@ =~= old(self)@ + all_text(iter@)
//@loop 0 for
    invariant self.wf(), self@ + all_text(it@) =~= old(self)@ + all_text(iter@)
    ensures it@.len() == 0
    decreases it@.len()
//@end
//@fn shared_bytes_builder.rs <SharedBytesBuilder as core::fmt::Write>::write_str
//@prop P04
//@ret r
//@sig str => Bytes
//@sig core::fmt::Result => Result<(), FmtError>
//@sub s . as_bytes ( ) => s.as_bytes().v_raw()
//@spec
    requires old(self).wf(), fits(old(self), s@.len() as int)
    ensures r is Ok, final(self).wf(), final(self)@ =~= old(self)@ + s@
//@end
}

impl SharedBytes {
//@fn shared_bytes.rs <SharedBytes as AsRef<[u8]>>::as_ref
//@prop P03
//@ret r
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn shared_bytes.rs <SharedBytes as Deref>::deref
//@prop P03
//@ret r
//@sig Self::Target => [u8]
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn shared_bytes.rs <SharedBytes as From<SharedBytesBuilder>>::from as from_builder
//@prop P04
//@ret r
//@spec
    requires dat.wf()
    ensures r.wf(), r@ =~= dat@
//@end
//@fn shared_bytes.rs <SharedBytes as core::str::FromStr>::from_str
//@prop P03
//@ret r
//@sig str => Bytes
//@sig Self::Err => core::convert::Infallible
//@sub s . as_bytes ( ) => s.as_bytes().v_raw()
//@spec
    ensures r matches Ok(x) && x.wf() && x@ =~= s@
//@end
}
impl SharedBytes {
//@fn shared_bytes.rs SharedBytes::eq_const
//@prop P13
//@ret r
//@opt const_eq ( $(a) , $(b) ) => find::const_eq($(a), $(b))
//@spec
    requires self.wf(), other.wf()
    ensures r == (self@ =~= other@)
//@end
//@fn shared_bytes.rs SharedBytes::eq_slice
//@prop P13
//@ret r
//@opt const_eq ( $(a) , $(b) ) => find::const_eq($(a), $(b))
//@spec
    requires self.wf()
    ensures r == (self@ =~= other@)
//@end
//@fn shared_bytes.rs SharedBytes::ends_with
//@prop P13
//@ret r
//@opt const_ends_with ( $(a) , $(b) ) => find::const_ends_with($(a), $(b))
//@spec
    requires self.wf()
    ensures r == (needle@.len() <= self@.len() && self@.skip(self@.len() - needle@.len()) =~= needle@)
//@end
//@fn shared_bytes.rs SharedBytes::starts_with
//@prop P13
//@ret r
//@opt const_starts_with ( $(a) , $(b) ) => find::const_starts_with($(a), $(b))
//@spec
    requires self.wf()
    ensures r == (needle@.len() <= self@.len() && self@.take(needle@.len() as int) =~= needle@)
//@end
//@fn shared_bytes.rs <SharedBytes as Default>::default
//@prop P03
//@ret r
//@sub Self::EMPTY => Self::v_empty()
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty()
//@end
//@fn shared_bytes.rs <SharedBytes as Index<usize>>::index as index_byte
//@prop P03
//@ret r
//@sig Self::Output => u8
//@refuse index >= self@.len()
//@sub self . dat ( ) . add ( $(x) ) => self.dat().v_add($(x))
//@sub & * ptr => self.dat().v_at(ptr)
//@spec
    requires self.wf()
    ensures index < self@.len(), *r == self@[index as int]
//@end
//@fn shared_bytes.rs <SharedBytes as Index<RangeFull>>::index as index_all
//@prop P03
//@ret r
//@sig Self::Output => [u8]
//@opt self . as_slice ( ) . index ( index ) => v_index(self.as_slice(), index, Ghost(yes(!in_range(index, self@.len() as int))))
//@opt & self . as_slice ( ) [ index ] => v_index(self.as_slice(), index, Ghost(yes(!in_range(index, self@.len() as int))))
//@refuse !in_range(index, self@.len() as int)
//@spec
    requires self.wf()
    ensures in_range(index, self@.len() as int), r@ =~= self@.subrange(first(index), past(index, self@.len() as int))
//@end
//@fn shared_bytes.rs <SharedBytes as Index<RangeTo<usize>>>::index as index_to
//@prop P03
//@ret r
//@sig Self::Output => [u8]
//@opt self . as_slice ( ) . index ( index ) => v_index(self.as_slice(), index, Ghost(yes(!in_range(index, self@.len() as int))))
//@opt & self . as_slice ( ) [ index ] => v_index(self.as_slice(), index, Ghost(yes(!in_range(index, self@.len() as int))))
//@refuse !in_range(index, self@.len() as int)
//@spec
    requires self.wf()
    ensures in_range(index, self@.len() as int), r@ =~= self@.subrange(first(index), past(index, self@.len() as int))
//@end
//@fn shared_bytes.rs <SharedBytes as Index<RangeFrom<usize>>>::index as index_from
//@prop P03
//@ret r
//@sig Self::Output => [u8]
//@opt self . as_slice ( ) . index ( index ) => v_index(self.as_slice(), index, Ghost(yes(!in_range(index, self@.len() as int))))
//@opt & self . as_slice ( ) [ index ] => v_index(self.as_slice(), index, Ghost(yes(!in_range(index, self@.len() as int))))
//@refuse !in_range(index, self@.len() as int)
//@spec
    requires self.wf()
    ensures in_range(index, self@.len() as int), r@ =~= self@.subrange(first(index), past(index, self@.len() as int))
//@end
//@fn shared_bytes.rs <SharedBytes as Index<Range<usize>>>::index as index_range
//@prop P03
//@ret r
//@sig Self::Output => [u8]
//@opt self . as_slice ( ) . index ( index ) => v_index(self.as_slice(), index, Ghost(yes(!in_range(index, self@.len() as int))))
//@opt & self . as_slice ( ) [ index ] => v_index(self.as_slice(), index, Ghost(yes(!in_range(index, self@.len() as int))))
//@refuse !in_range(index, self@.len() as int)
//@spec
    requires self.wf()
    ensures in_range(index, self@.len() as int), r@ =~= self@.subrange(first(index), past(index, self@.len() as int))
//@end
}
/// `<[u8]>::index`
#[verifier::external_body]
fn v_index<'x, R: RangeBounds<usize>>(s: &'x [u8], range: R, allowed: Ghost<bool>) -> (r: &'x [u8])
    requires !in_range(range, s@.len() as int) ==> allowed@
    ensures in_range(range, s@.len() as int), r@ =~= s@.subrange(first(range), past(range, s@.len() as int))
{ unimplemented!() }
impl SharedBytesBuilder {
//@fn shared_bytes_builder.rs <SharedBytesBuilder as Extend<&'a u8>>::extend as extend_refs
//@prop P04
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig <I : IntoIterator<Item = &'a u8>> ( & mut self , iter : I ) => (&mut self, iter: Items<&u8>)
//@sub self . extend_from_slice ( core::slice::from_ref ( i ) ) => ({ let v_one = [*i]; self.extend_from_slice(v_one.as_slice()) })
//@iter 0 it
//@spec
    requires old(self).wf(), fits(old(self), iter@.len() as int)
    ensures final(self).wf(), final(self)@ =~= old(self)@ + iter@.map_values(|b: &u8| *b)
//@loop 0 for
    invariant self.wf(), self@ + it@.map_values(|b: &u8| *b) =~= old(self)@ + iter@.map_values(|b: &u8| *b)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { assert(it_0.map_values(|b: &u8| *b) =~= seq![*i] + it@.map_values(|b: &u8| *b)); }
//@end
}

// ---- texts shown and iterated over ----

/// The characters of a text, one after the other.
pub struct Chars<'x> { pub s: &'x Bytes }
impl Bytes {
    fn chars(&self) -> (r: Chars<'_>)
        requires valid(self@)
        ensures r.s == self
    { Chars { s: self } }
}
/// What the standard library says about how many characters are to come.
pub uninterp spec fn hint_of(s: Seq<u8>) -> (usize, Option<usize>);
impl<'x> Chars<'x> {
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r == hint_of(self.s@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Formatter(u8);
/// What the standard library does with a formatter (and its width, fill, precision) when it shows a text, and what it answers.
pub uninterp spec fn shown(f: Formatter, s: Seq<u8>, debug: bool) -> (Formatter, Result<(), FmtError>);
#[verifier::external_body]
fn v_display(s: &Bytes, f: &mut Formatter) -> (r: Result<(), FmtError>)
    ensures *final(f) == shown(*old(f), s@, false).0, r == shown(*old(f), s@, false).1
{ unimplemented!() }
#[verifier::external_body]
fn v_debug(s: &Bytes, f: &mut Formatter) -> (r: Result<(), FmtError>)
    ensures *final(f) == shown(*old(f), s@, true).0, r == shown(*old(f), s@, true).1
{ unimplemented!() }
impl<'a> StringData<'a> {
//@fn stringdata.rs StringData::iter
//@prop P08
//@ret r
//@sig core::str::Chars => Chars
//@spec
    requires self.wf()
    ensures r.s@ =~= self@
//@end
//@fn stringdata.rs <&'b StringData<'_> as IntoIterator>::into_iter as ref_into_iter
//@prop P08
//@ret r
//@sig self => &self
//@sig Self::IntoIter => Chars<'_>
//@spec
    requires self.wf()
    ensures r.s@ =~= self@
//@end
//@fn stringdata.rs <StringData as Iterator>::size_hint
//@prop P08
//@ret r
//@spec
    requires self.wf()
    ensures r == hint_of(self@)
//@end
//@fn stringdata.rs <StringData as core::fmt::Display>::fmt as display
//@prop P08
//@ret r
//@sig core::fmt::Formatter<'_> => Formatter
//@sig core::fmt::Result => Result<(), FmtError>
//@sub core::fmt::Display::fmt ( $(a) , $(b) ) => v_display($(a), $(b))
//@spec
    requires self.wf()
    ensures *final(f) == shown(*old(f), self@, false).0, r == shown(*old(f), self@, false).1
//@end
//@fn stringdata.rs <StringData as core::fmt::Debug>::fmt as debug
//@prop P08
//@ret r
//@sig core::fmt::Formatter<'_> => Formatter
//@sig core::fmt::Result => Result<(), FmtError>
//@sub core::fmt::Debug::fmt ( $(a) , $(b) ) => v_debug($(a), $(b))
//@spec
    requires self.wf()
    ensures *final(f) == shown(*old(f), self@, true).0, r == shown(*old(f), self@, true).1
//@end
}
impl SharedStrBuilder {
//@fn shared_str_builder.rs <SharedStrBuilder as core::fmt::Display>::fmt as display
//@prop P08
//@ret r
//@sig core::fmt::Formatter<'_> => Formatter
//@sig core::fmt::Result => Result<(), FmtError>
//@sub core::fmt::Display::fmt ( $(a) , $(b) ) => v_display($(a), $(b))
//@spec
    requires self.wf()
    ensures *final(f) == shown(*old(f), self@, false).0, r == shown(*old(f), self@, false).1
//@end
}
impl SharedBytes {
//@fn shared_bytes.rs SharedBytes::builder
//@prop P04
//@ret r
//@spec
    ensures r.wf(), r@.len() == 0
//@end
}

// ---- formatting into a text ----

/// `core::fmt::Arguments`: the text they spell; a format string without arguments is that text itself.
#[verifier::external_body]
pub struct Arguments(u8);
impl View for Arguments { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Arguments {
    /// one of the values formatted reports an error
    pub uninterp spec fn fails(&self) -> bool;
    #[verifier::external_body]
    fn as_str(&self) -> (r: Option<&'static Bytes>)
        ensures r matches Some(t) ==> t@ == self@ && valid(t@) && t.lasting()
    { unimplemented!() }
}
/// `fmt::Write::write_fmt` writes the text piece by piece with `write_str` (proved above).
#[verifier::external_body]
fn v_write_fmt(w: &mut SharedStrBuilder, a: Arguments) -> (r: Result<(), FmtError>)
    requires old(w).wf(), fits(&old(w).inner, a@.len() as int)
    ensures final(w).wf(), !a.fails() ==> r is Ok && final(w)@ == old(w)@ + a@
{ unimplemented!() }
//@fn macros.rs __format_shared
//@prop P08
//@ret r
//@sig core::fmt::Arguments<'_> => Arguments
//@opt crate::StringData => StringData
//@opt crate::SharedStrBuilder => SharedStrBuilder
//@opt core::fmt::Write::write_fmt => v_write_fmt
//@spec
    requires !args.fails(), args@.len() < 0x4000_0000
    ensures r.wf(), r@ =~= args@
//@end

} // verus!
fn main() {}
