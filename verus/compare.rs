//@props P13
//@title comparing and hashing values of every type with values of every other
//@assume the comparisons of slices, of `str` and of `Vec` in the standard library are those of their bytes; hashing a slice or a `str` is one unspecified function of its bytes each
//@assume `as_slice`, `as_bytes` and `as_str` of byte values, strings and shared blocks have the contracts proved in their modules
use vstd::prelude::*;

verus! {

//@uses strings.rs
//@uses queue_cmp.rs

/// A value that is some bytes.
pub trait Bs {
    spec fn bs(&self) -> Seq<u8>;
    spec fn good(&self) -> bool;
}
impl Bs for [u8] { open spec fn bs(&self) -> Seq<u8> { self@ } open spec fn good(&self) -> bool { true } }
impl Bs for Vec<u8> { open spec fn bs(&self) -> Seq<u8> { self@ } open spec fn good(&self) -> bool { true } }
impl Bs for StrRef { open spec fn bs(&self) -> Seq<u8> { self@ } open spec fn good(&self) -> bool { true } }
impl Bs for String { open spec fn bs(&self) -> Seq<u8> { self.b@ } open spec fn good(&self) -> bool { true } }
impl Bs for SharedBytes { open spec fn bs(&self) -> Seq<u8> { self.b@ } open spec fn good(&self) -> bool { true } }
impl<'a> Bs for ByteData<'a> { open spec fn bs(&self) -> Seq<u8> { self@ } open spec fn good(&self) -> bool { true } }
impl<'a> Bs for StringData<'a> { open spec fn bs(&self) -> Seq<u8> { self@ } open spec fn good(&self) -> bool { self.wf() } }
impl<'a> Bs for ByteQueue<'a> { open spec fn bs(&self) -> Seq<u8> { self@ } open spec fn good(&self) -> bool { self.wf() } }
impl<'a> Bs for StringQueue<'a> { open spec fn bs(&self) -> Seq<u8> { self@ } open spec fn good(&self) -> bool { self.wf() } }
impl<T: Bs + ?Sized> Bs for &T { open spec fn bs(&self) -> Seq<u8> { (**self).bs() } open spec fn good(&self) -> bool { (**self).good() } }

/// `PartialEq`: equal exactly when the bytes are equal.
pub trait PartialEq<R: Bs + ?Sized>: Bs {
    fn v_eq(&self, other: &R) -> (r: bool)
        requires self.good(), other.good()
        ensures r == (self.bs() =~= other.bs());
}
/// `PartialOrd`: the order of the bytes, always.
pub trait PartialOrd<R: Bs + ?Sized>: Bs {
    fn v_partial_cmp(&self, other: &R) -> (r: Option<core::cmp::Ordering>)
        requires self.good(), other.good()
        ensures r == Some(lex(self.bs(), other.bs()));
}
pub trait Ord: Bs {
    fn v_cmp(&self, other: &Self) -> (r: core::cmp::Ordering)
        requires self.good(), other.good()
        ensures r == lex(self.bs(), other.bs());
}
/// `Hash`: what the hasher is fed is a function of the bytes.
pub trait Hash: Bs {
    spec fn feed(s: Seq<u8>) -> Seq<Fed>;
    fn hash<H: Hasher>(&self, state: &mut H)
        requires self.good()
        ensures final(state).log() == old(state).log() + Self::feed(self.bs());
}
pub uninterp spec fn fed_slice(s: Seq<u8>) -> Seq<Fed>;
pub uninterp spec fn fed_str(s: Seq<u8>) -> Seq<Fed>;

// ---- what lies outside: the standard library ----

#[verifier::external_body]
pub struct Raw {}
impl View for Raw { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub struct String { pub b: Raw }
pub struct SharedBytes { pub b: Raw }
impl String {
    #[verifier::external_body]
    fn as_str(&self) -> (r: &StrRef) ensures r@ == self.b@ { unimplemented!() }
}
impl SharedBytes {
    #[verifier::external_body]
    fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.b@ { unimplemented!() }
}
impl<'a> StringData<'a> {
    #[verifier::external_body]
    fn as_str(&self) -> (r: &StrRef) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl PartialEq<[u8]> for [u8] { #[verifier::external_body] fn v_eq(&self, other: &[u8]) -> bool { unimplemented!() } }
impl PartialOrd<[u8]> for [u8] { #[verifier::external_body] fn v_partial_cmp(&self, other: &[u8]) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialEq<[u8]> for Vec<u8> { #[verifier::external_body] fn v_eq(&self, other: &[u8]) -> bool { unimplemented!() } }
impl PartialOrd<[u8]> for Vec<u8> { #[verifier::external_body] fn v_partial_cmp(&self, other: &[u8]) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialEq<Vec<u8>> for [u8] { #[verifier::external_body] fn v_eq(&self, other: &Vec<u8>) -> bool { unimplemented!() } }
impl PartialOrd<Vec<u8>> for [u8] { #[verifier::external_body] fn v_partial_cmp(&self, other: &Vec<u8>) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialEq<Vec<u8>> for Vec<u8> { #[verifier::external_body] fn v_eq(&self, other: &Vec<u8>) -> bool { unimplemented!() } }
impl PartialOrd<Vec<u8>> for Vec<u8> { #[verifier::external_body] fn v_partial_cmp(&self, other: &Vec<u8>) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialEq<StrRef> for StrRef { #[verifier::external_body] fn v_eq(&self, other: &StrRef) -> bool { unimplemented!() } }
impl PartialOrd<StrRef> for StrRef { #[verifier::external_body] fn v_partial_cmp(&self, other: &StrRef) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialEq<String> for StrRef { #[verifier::external_body] fn v_eq(&self, other: &String) -> bool { unimplemented!() } }
impl PartialOrd<String> for StrRef { #[verifier::external_body] fn v_partial_cmp(&self, other: &String) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialEq<StrRef> for String { #[verifier::external_body] fn v_eq(&self, other: &StrRef) -> bool { unimplemented!() } }
impl PartialOrd<StrRef> for String { #[verifier::external_body] fn v_partial_cmp(&self, other: &StrRef) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialEq<String> for String { #[verifier::external_body] fn v_eq(&self, other: &String) -> bool { unimplemented!() } }
impl PartialOrd<String> for String { #[verifier::external_body] fn v_partial_cmp(&self, other: &String) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl Ord for [u8] { #[verifier::external_body] fn v_cmp(&self, other: &[u8]) -> core::cmp::Ordering { unimplemented!() } }
impl Hash for [u8] { open spec fn feed(s: Seq<u8>) -> Seq<Fed> { fed_slice(s) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Ord for StrRef { #[verifier::external_body] fn v_cmp(&self, other: &StrRef) -> core::cmp::Ordering { unimplemented!() } }
impl Hash for StrRef { open spec fn feed(s: Seq<u8>) -> Seq<Fed> { fed_str(s) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl<A: PartialEq<B> + ?Sized, B: Bs + ?Sized> PartialEq<&B> for &A { #[verifier::external_body] fn v_eq(&self, other: &&B) -> bool { unimplemented!() } }
impl<A: PartialOrd<B> + ?Sized, B: Bs + ?Sized> PartialOrd<&B> for &A { #[verifier::external_body] fn v_partial_cmp(&self, other: &&B) -> Option<core::cmp::Ordering> { unimplemented!() } }
#[verifier::external_body]
fn v_same_queue<'x, 'a, 'b>(q: &'x ByteQueue<'b>) -> (r: &'x ByteQueue<'a>) ensures r@ == q@, r.wf() == q.wf() { unimplemented!() }

// ---- the comparisons of queues, from their contracts ----

impl<'b> PartialEq<ByteQueue<'b>> for ByteQueue<'_> { fn v_eq(&self, other: &ByteQueue<'b>) -> bool { self.eq_queue(other) } }
impl PartialEq<[u8]> for ByteQueue<'_> { fn v_eq(&self, other: &[u8]) -> bool { self.eq_slice(other) } }
impl Ord for ByteQueue<'_> { fn v_cmp(&self, other: &Self) -> core::cmp::Ordering { self.cmp_queue(other) } }
impl PartialOrd<[u8]> for ByteQueue<'_> { fn v_partial_cmp(&self, other: &[u8]) -> Option<core::cmp::Ordering> { self.partial_cmp_slice(other) } }
impl PartialOrd<ByteQueue<'_>> for [u8] { fn v_partial_cmp(&self, other: &ByteQueue<'_>) -> Option<core::cmp::Ordering> { partial_cmp_reversed(self, other) } }

// ---- every other pair of types ----

impl<'b> PartialEq<ByteData<'b>> for ByteData<'_> {
//@fn bytedata.rs <ByteData as PartialEq<ByteData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<[u8]> for ByteData<'_> {
//@fn bytedata.rs <ByteData as PartialEq<[u8]>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<&'b [u8]> for ByteData<'_> {
//@fn bytedata.rs <ByteData as PartialEq<&[u8]>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<ByteData<'_>> for [u8] {
//@fn bytedata.rs <[u8] as PartialEq<ByteData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'a> PartialEq<ByteData<'a>> for &[u8] {
//@fn bytedata.rs <&[u8] as PartialEq<ByteData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<Vec<u8>> for ByteData<'_> {
//@fn bytedata.rs <ByteData as PartialEq<Vec<u8>>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<ByteData<'_>> for Vec<u8> {
//@fn bytedata.rs <Vec<u8> as PartialEq<ByteData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl Hash for ByteData<'_> {
    open spec fn feed(s: Seq<u8>) -> Seq<Fed> { fed_slice(s) }
//@fn bytedata.rs <ByteData as Hash>::hash
//@prop P13
//@sig core :: hash :: Hasher => Hasher
//@end
}
impl<'b> PartialOrd<ByteData<'b>> for ByteData<'_> {
//@fn bytedata.rs <ByteData as PartialOrd<ByteData>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<[u8]> for ByteData<'_> {
//@fn bytedata.rs <ByteData as PartialOrd<[u8]>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<ByteData<'_>> for [u8] {
//@fn bytedata.rs <[u8] as PartialOrd<ByteData>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<Vec<u8>> for ByteData<'_> {
//@fn bytedata.rs <ByteData as PartialOrd<Vec<u8>>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@opt AsRef :: < [ u8 ] > :: as_ref ( $x ) => $x.as_slice()
//@end
}
impl PartialOrd<ByteData<'_>> for Vec<u8> {
//@fn bytedata.rs <Vec<u8> as PartialOrd<ByteData>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@opt AsRef :: < [ u8 ] > :: as_ref ( $x ) => $x.as_slice()
//@end
}
impl Ord for ByteData<'_> {
//@fn bytedata.rs <ByteData as Ord>::cmp
//@prop P13
//@ret r
//@sig fn cmp => fn v_cmp
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialEq<Self> for SharedBytes {
//@fn shared_bytes.rs <SharedBytes as PartialEq>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<SharedBytes> for [u8] {
//@fn shared_bytes.rs <[u8] as PartialEq<SharedBytes>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<SharedBytes> for Vec<u8> {
//@fn shared_bytes.rs <Vec<u8> as PartialEq<SharedBytes>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<[u8]> for SharedBytes {
//@fn shared_bytes.rs <SharedBytes as PartialEq<[u8]>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<Vec<u8>> for SharedBytes {
//@fn shared_bytes.rs <SharedBytes as PartialEq<Vec<u8>>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<&'b [u8]> for SharedBytes {
//@fn shared_bytes.rs <SharedBytes as PartialEq<&[u8]>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl Hash for SharedBytes {
    open spec fn feed(s: Seq<u8>) -> Seq<Fed> { fed_slice(s) }
//@fn shared_bytes.rs <SharedBytes as Hash>::hash
//@prop P13
//@sig core :: hash :: Hasher => Hasher
//@end
}
impl PartialOrd<Self> for SharedBytes {
//@fn shared_bytes.rs <SharedBytes as PartialOrd>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<SharedBytes> for [u8] {
//@fn shared_bytes.rs <[u8] as PartialOrd<SharedBytes>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<SharedBytes> for Vec<u8> {
//@fn shared_bytes.rs <Vec<u8> as PartialOrd<SharedBytes>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<[u8]> for SharedBytes {
//@fn shared_bytes.rs <SharedBytes as PartialOrd<[u8]>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<Vec<u8>> for SharedBytes {
//@fn shared_bytes.rs <SharedBytes as PartialOrd<Vec<u8>>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialOrd<&'b [u8]> for SharedBytes {
//@fn shared_bytes.rs <SharedBytes as PartialOrd<&[u8]>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl Ord for SharedBytes {
//@fn shared_bytes.rs <SharedBytes as Ord>::cmp
//@prop P13
//@ret r
//@sig fn cmp => fn v_cmp
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialEq<StringData<'b>> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialEq<StringData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<StrRef> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialEq<str>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@sig str => StrRef
//@end
}
impl PartialEq<[u8]> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialEq<[u8]>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<&'b StrRef> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialEq<&str>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@sig str => StrRef
//@end
}
impl<'b> PartialEq<&'b [u8]> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialEq<&[u8]>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<StringData<'_>> for [u8] {
//@fn stringdata.rs <[u8] as PartialEq<StringData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<StringData<'_>> for StrRef {
//@fn stringdata.rs <str as PartialEq<StringData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'a> PartialEq<StringData<'a>> for &StrRef {
//@fn stringdata.rs <&str as PartialEq<StringData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'a> PartialEq<StringData<'a>> for &[u8] {
//@fn stringdata.rs <&[u8] as PartialEq<StringData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<Vec<u8>> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialEq<Vec<u8>>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<String> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialEq<String>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<StringData<'_>> for Vec<u8> {
//@fn stringdata.rs <Vec<u8> as PartialEq<StringData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<StringData<'_>> for String {
//@fn stringdata.rs <String as PartialEq<StringData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<ByteData<'b>> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialEq<ByteData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'a> PartialEq<StringData<'a>> for ByteData<'_> {
//@fn stringdata.rs <ByteData as PartialEq<StringData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl Hash for StringData<'_> {
    open spec fn feed(s: Seq<u8>) -> Seq<Fed> { fed_str(s) }
//@fn stringdata.rs <StringData as Hash>::hash
//@prop P13
//@sig core :: hash :: Hasher => Hasher
//@end
}
impl<'b> PartialOrd<StringData<'b>> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialOrd<StringData>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<[u8]> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialOrd<[u8]>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<StrRef> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialOrd<str>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@sig str => StrRef
//@end
}
impl PartialOrd<StringData<'_>> for [u8] {
//@fn stringdata.rs <[u8] as PartialOrd<StringData>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<StringData<'_>> for StrRef {
//@fn stringdata.rs <str as PartialOrd<StringData>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<Vec<u8>> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialOrd<Vec<u8>>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@opt AsRef :: < [ u8 ] > :: as_ref ( $x ) => $x.as_slice()
//@end
}
impl PartialOrd<StringData<'_>> for Vec<u8> {
//@fn stringdata.rs <Vec<u8> as PartialOrd<StringData>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@opt AsRef :: < [ u8 ] > :: as_ref ( $x ) => $x.as_slice()
//@end
}
impl PartialOrd<String> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialOrd<String>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<StringData<'_>> for String {
//@fn stringdata.rs <String as PartialOrd<StringData>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialOrd<ByteData<'b>> for StringData<'_> {
//@fn stringdata.rs <StringData as PartialOrd<ByteData>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'a> PartialOrd<StringData<'a>> for ByteData<'_> {
//@fn stringdata.rs <ByteData as PartialOrd<StringData>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl Ord for StringData<'_> {
//@fn stringdata.rs <StringData as Ord>::cmp
//@prop P13
//@ret r
//@sig fn cmp => fn v_cmp
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialEq<ByteData<'b>> for ByteQueue<'_> {
//@fn queue/byte_queue.rs <ByteQueue as PartialEq<ByteData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<ByteQueue<'b>> for ByteData<'_> {
//@fn queue/byte_queue.rs <ByteData as PartialEq<ByteQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<StringData<'b>> for ByteQueue<'_> {
//@fn queue/byte_queue.rs <ByteQueue as PartialEq<StringData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<ByteQueue<'b>> for StringData<'_> {
//@fn queue/byte_queue.rs <StringData as PartialEq<ByteQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<&'b [u8]> for ByteQueue<'_> {
//@fn queue/byte_queue.rs <ByteQueue as PartialEq<&[u8]>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<ByteQueue<'_>> for [u8] {
//@fn queue/byte_queue.rs <[u8] as PartialEq<ByteQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'a> PartialEq<ByteQueue<'a>> for &[u8] {
//@fn queue/byte_queue.rs <&[u8] as PartialEq<ByteQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<&'b StrRef> for ByteQueue<'_> {
//@fn queue/byte_queue.rs <ByteQueue as PartialEq<&str>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@sig str => StrRef
//@end
}
impl PartialEq<StrRef> for ByteQueue<'_> {
//@fn queue/byte_queue.rs <ByteQueue as PartialEq<str>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@sig str => StrRef
//@end
}
impl PartialEq<ByteQueue<'_>> for StrRef {
//@fn queue/byte_queue.rs <str as PartialEq<ByteQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'a> PartialEq<ByteQueue<'a>> for &StrRef {
//@fn queue/byte_queue.rs <&str as PartialEq<ByteQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<Vec<u8>> for ByteQueue<'_> {
//@fn queue/byte_queue.rs <ByteQueue as PartialEq<Vec<u8>>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@sig alloc :: vec :: Vec => Vec
//@end
}
impl PartialEq<ByteQueue<'_>> for Vec<u8> {
//@fn queue/byte_queue.rs <Vec<u8> as PartialEq<ByteQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'a, 'b> PartialOrd<ByteQueue<'b>> for ByteQueue<'a> {
//@fn queue/byte_queue.rs <ByteQueue as PartialOrd<ByteQueue>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@opt unsafe { core :: mem :: transmute :: < & ByteQueue < 'b > , & ByteQueue < 'a >> ( other ) } => v_same_queue(other)
//@end
}
impl PartialOrd<Vec<u8>> for ByteQueue<'_> {
//@fn queue/byte_queue.rs <ByteQueue as PartialOrd<Vec<u8>>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@sig alloc :: vec :: Vec => Vec
//@end
}
impl PartialOrd<ByteQueue<'_>> for Vec<u8> {
//@fn queue/byte_queue.rs <Vec<u8> as PartialOrd<ByteQueue>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialEq<StringQueue<'b>> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialEq<StringQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<ByteQueue<'b>> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialEq<ByteQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<StringQueue<'b>> for ByteQueue<'_> {
//@fn queue/string_queue.rs <ByteQueue as PartialEq<StringQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<StringData<'b>> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialEq<StringData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<StringQueue<'b>> for StringData<'_> {
//@fn queue/string_queue.rs <StringData as PartialEq<StringQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<ByteData<'b>> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialEq<ByteData>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<StringQueue<'b>> for ByteData<'_> {
//@fn queue/string_queue.rs <ByteData as PartialEq<StringQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<&'b StrRef> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialEq<&str>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@sig str => StrRef
//@end
}
impl PartialEq<StrRef> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialEq<str>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@sig str => StrRef
//@end
}
impl<'a> PartialEq<StringQueue<'a>> for StrRef {
//@fn queue/string_queue.rs <str as PartialEq<StringQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'a> PartialEq<StringQueue<'a>> for &StrRef {
//@fn queue/string_queue.rs <&str as PartialEq<StringQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl PartialEq<[u8]> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialEq<[u8]>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'a> PartialEq<StringQueue<'a>> for [u8] {
//@fn queue/string_queue.rs <[u8] as PartialEq<StringQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'a> PartialEq<StringQueue<'a>> for &[u8] {
//@fn queue/string_queue.rs <&[u8] as PartialEq<StringQueue>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialEq<&'b [u8]> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialEq<&[u8]>>::eq
//@prop P13
//@ret r
//@sig fn eq => fn v_eq
//@eq PartialEq::v_eq
//@opt . eq ( => .v_eq(
//@end
}
impl<'b> PartialOrd<StringQueue<'b>> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialOrd<StringQueue>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialOrd<ByteQueue<'b>> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialOrd<ByteQueue>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialOrd<StringQueue<'b>> for ByteQueue<'_> {
//@fn queue/string_queue.rs <ByteQueue as PartialOrd<StringQueue>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialOrd<StringData<'b>> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialOrd<StringData>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialOrd<StringQueue<'b>> for StringData<'_> {
//@fn queue/string_queue.rs <StringData as PartialOrd<StringQueue>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialOrd<ByteData<'b>> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialOrd<ByteData>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialOrd<StringQueue<'b>> for ByteData<'_> {
//@fn queue/string_queue.rs <ByteData as PartialOrd<StringQueue>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialOrd<&'b StrRef> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialOrd<&str>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@sig str => StrRef
//@end
}
impl PartialOrd<StrRef> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialOrd<str>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@sig str => StrRef
//@end
}
impl<'a> PartialOrd<StringQueue<'a>> for StrRef {
//@fn queue/string_queue.rs <str as PartialOrd<StringQueue>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl PartialOrd<[u8]> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialOrd<[u8]>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'a> PartialOrd<StringQueue<'a>> for [u8] {
//@fn queue/string_queue.rs <[u8] as PartialOrd<StringQueue>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl<'b> PartialOrd<&'b [u8]> for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as PartialOrd<&[u8]>>::partial_cmp
//@prop P13
//@ret r
//@sig fn partial_cmp => fn v_partial_cmp
//@opt . partial_cmp ( => .v_partial_cmp(
//@opt . cmp ( => .v_cmp(
//@end
}
impl Ord for StringQueue<'_> {
//@fn queue/string_queue.rs <StringQueue as Ord>::cmp
//@prop P13
//@ret r
//@sig fn cmp => fn v_cmp
//@opt . cmp ( => .v_cmp(
//@end
}

} // verus!
fn main() {}
