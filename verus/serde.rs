//@props P21
//@title what serializing hands over and what visitors make of it, for values of every length and form
//@assume a serializer answers for what it is handed, a deserializer calls one function of the visitor it is given with its data (serde's contracts)
use vstd::prelude::*;

verus! {

//@uses stringdata.rs

// ---- what lies outside: serde ----

/// The answer of a serializer to bytes and to text.
pub uninterp spec fn took_bytes<S, O, E>(s: S, b: Seq<u8>) -> Result<O, E>;
pub uninterp spec fn took_text<S, O, E>(s: S, b: Seq<u8>) -> Result<O, E>;
pub trait Serializer: Sized {
    type Ok;
    type Error;
    fn serialize_bytes(self, v: &Bytes) -> (r: Result<Self::Ok, Self::Error>)
        ensures r == took_bytes::<Self, Self::Ok, Self::Error>(self, v@);
    fn serialize_str(self, v: &Bytes) -> (r: Result<Self::Ok, Self::Error>)
        requires valid(v@)
        ensures r == took_text::<Self, Self::Ok, Self::Error>(self, v@);
}

/// What a visitor can be told.
pub enum Event {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), F32(f32), F64(f64), Char(char),
    Str(Seq<u8>), BorrowedStr(Seq<u8>), String(Seq<u8>), Bytes(Seq<u8>), BorrowedBytes(Seq<u8>), ByteBuf(Seq<u8>),
}
pub uninterp spec fn on<V, T, E>(v: V, e: Event) -> Result<T, E>;
/// What it makes of a nested value, given by its source.
pub uninterp spec fn within<V, D, T, E>(v: V, d: D, n: int) -> Result<T, E>;
pub trait Visitor: Sized + Copy {
    type Value;
    fn visit_bool<E>(self, v: bool) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::Bool(v));
    fn visit_i8<E>(self, v: i8) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::I8(v));
    fn visit_i16<E>(self, v: i16) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::I16(v));
    fn visit_i32<E>(self, v: i32) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::I32(v));
    fn visit_i64<E>(self, v: i64) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::I64(v));
    fn visit_i128<E>(self, v: i128) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::I128(v));
    fn visit_u8<E>(self, v: u8) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::U8(v));
    fn visit_u16<E>(self, v: u16) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::U16(v));
    fn visit_u32<E>(self, v: u32) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::U32(v));
    fn visit_u64<E>(self, v: u64) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::U64(v));
    fn visit_u128<E>(self, v: u128) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::U128(v));
    fn visit_f32<E>(self, v: f32) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::F32(v));
    fn visit_f64<E>(self, v: f64) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::F64(v));
    fn visit_char<E>(self, v: char) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::Char(v));
    fn visit_str<E>(self, v: &Bytes) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::Str(v@));
    fn visit_borrowed_str<E>(self, v: &Bytes) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::BorrowedStr(v@));
    fn visit_string<E>(self, v: String) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::String(v@));
    fn visit_bytes<E>(self, v: &[u8]) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::Bytes(v@));
    fn visit_borrowed_bytes<E>(self, v: &[u8]) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::BorrowedBytes(v@));
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> (r: Result<Self::Value, E>) ensures r == on::<Self, Self::Value, E>(self, Event::ByteBuf(v@));
    fn deserialize<D: Deser>(self, d: D) -> (r: Result<Self::Value, D::Error>) ensures r == within::<Self, D, Self::Value, D::Error>(self, d, 0);
    fn visit_newtype_struct<D: Deser>(self, d: D) -> (r: Result<Self::Value, D::Error>) ensures r == within::<Self, D, Self::Value, D::Error>(self, d, 1);
    fn visit_seq<D: Deser>(self, d: D) -> (r: Result<Self::Value, D::Error>) ensures r == within::<Self, D, Self::Value, D::Error>(self, d, 2);
    fn visit_map<D: Deser>(self, d: D) -> (r: Result<Self::Value, D::Error>) ensures r == within::<Self, D, Self::Value, D::Error>(self, d, 3);
    fn visit_enum<D: Deser>(self, d: D) -> (r: Result<Self::Value, D::Error>) ensures r == within::<Self, D, Self::Value, D::Error>(self, d, 4);
}
pub trait Deser { type Error; }
pub open spec fn some_of<T, E>(r: Result<T, E>) -> Result<Option<T>, E> { match r { Ok(x) => Ok(Some(x)), Err(e) => Err(e) } }
/// `map(Some)`
fn v_some<T, E>(x: Result<T, E>) -> (r: Result<Option<T>, E>)
    ensures r == some_of(x)
{ match x { Ok(v) => Ok(Some(v)), Err(e) => Err(e) } }

// ---- serializing ----

impl<'a> ByteData<'a> {
//@fn serde_1/bytedata.rs <ByteData as Serialize>::serialize
//@ret r
//@sig S : serde::ser::Serializer => S: Serializer
//@spec
    requires self.wf()
    ensures r == took_bytes::<S, S::Ok, S::Error>(serializer, self@)
//@end
}
impl<'a> StringData<'a> {
//@fn serde_1/stringdata.rs <StringData as Serialize>::serialize
//@ret r
//@sig S : serde::ser::Serializer => S: Serializer
//@spec
    requires self.wf()
    ensures r == took_text::<S, S::Ok, S::Error>(serializer, self@)
//@end
}
impl SharedBytes {
//@fn serde_1/shared_bytes.rs <SharedBytes as Serialize>::serialize
//@ret r
//@sig S : serde::ser::Serializer => S: Serializer
//@sub serialize_bytes ( $(x) ) => serialize_bytes(Bytes::v_of($(x)))
//@spec
    requires self.wf()
    ensures r == took_bytes::<S, S::Ok, S::Error>(serializer, self@)
//@end
}

// ---- visitors ----

#[derive(Clone, Copy)]
//@item serde_1/bytedata.rs struct StaticByteDataVisitor
//@item serde_1/bytedata.rs struct ByteDataVisitor
#[derive(Clone, Copy)]
//@item serde_1/stringdata.rs struct StaticStringDataVisitor
//@item serde_1/stringdata.rs struct StringDataVisitor
/// `ByteDataVisitor` of serde_1/shared_bytes.rs
pub struct SharedVisitor;

pub open spec fn kept<'a, E>(r: Result<ByteData<'a>, E>, v: Seq<u8>) -> bool { r matches Ok(x) && x.wf() && x@ =~= v }
pub open spec fn kept_text<'a, E>(r: Result<StringData<'a>, E>, v: Seq<u8>) -> bool { r matches Ok(x) && x.wf() && x@ =~= v }

impl StaticByteDataVisitor {
//@fn serde_1/bytedata.rs <StaticByteDataVisitor as Visitor>::visit_bytes
//@ret r
//@sig E : serde::de::Error => E
//@sig Self::Value => ByteData<'static>
//@opt crate::ByteChunk => ByteChunk
//@opt from_shared ( v . into ( ) ) => from_shared(SharedBytes::from_bytes(v))
//@spec
    ensures kept(r, v@), r->Ok_0.own()
//@end
//@fn serde_1/bytedata.rs <StaticByteDataVisitor as Visitor>::visit_byte_buf
//@ret r
//@sig E : serde::de::Error => E
//@sig Self::Value => ByteData<'static>
//@sig alloc::vec::Vec => Vec
//@spec
    ensures kept(r, v@), r->Ok_0.own()
//@end
}
impl ByteDataVisitor {
//@fn serde_1/bytedata.rs <ByteDataVisitor as Visitor>::visit_borrowed_bytes
//@ret r
//@sig < E : serde::de::Error => <'de, E
//@sig &'de [ u8 ] => &'de Bytes
//@sig Self::Value => ByteData<'de>
//@spec
    ensures kept(r, v@)
//@end
//@fn serde_1/bytedata.rs <ByteDataVisitor as Visitor>::visit_bytes
//@ret r
//@sig < E : serde::de::Error => <'de, E
//@sig Self::Value => ByteData<'de>
//@opt crate::ByteChunk => ByteChunk
//@opt from_shared ( v . into ( ) ) => from_shared(SharedBytes::from_bytes(v))
//@spec
    ensures kept(r, v@)
//@end
//@fn serde_1/bytedata.rs <ByteDataVisitor as Visitor>::visit_byte_buf
//@ret r
//@sig < E : serde::de::Error => <'de, E
//@sig Self::Value => ByteData<'de>
//@sig alloc::vec::Vec => Vec
//@spec
    ensures kept(r, v@)
//@end
}
impl SharedVisitor {
//@fn serde_1/shared_bytes.rs <ByteDataVisitor as Visitor>::visit_bytes
//@ret r
//@sig E : serde::de::Error => E
//@sig Self::Value => SharedBytes
//@opt v . into ( ) => SharedBytes::from_bytes(v)
//@spec
    ensures r matches Ok(x) && x.wf() && x@ =~= v@
//@end
//@fn serde_1/shared_bytes.rs <ByteDataVisitor as Visitor>::visit_byte_buf
//@ret r
//@sig where E : serde::de::Error , =>
//@sig alloc::vec::Vec => Vec
//@sig Self::Value => SharedBytes
//@opt v . into ( ) => SharedBytes::from_vec(v)
//@spec
    ensures r matches Ok(x) && x.wf() && x@ =~= v@
//@end
}
impl StaticStringDataVisitor {
//@fn serde_1/stringdata.rs <StaticStringDataVisitor as Visitor>::visit_str
//@ret r
//@sig E : serde::de::Error => E
//@sig & str => &Bytes
//@sig Self::Value => StringData<'static>
//@opt from_chunk_slice ( $(x) ) => from_chunk_slice($(x).v_raw_of())
//@spec
    requires valid(v@)
    ensures kept_text(r, v@), r->Ok_0.data.own()
//@end
//@fn serde_1/stringdata.rs <StaticStringDataVisitor as Visitor>::visit_string
//@ret r
//@sig E : serde::de::Error => E
//@sig alloc::string::String => String
//@sig Self::Value => StringData<'static>
//@spec
    requires valid(v@)
    ensures kept_text(r, v@), r->Ok_0.data.own()
//@end
}
impl StringDataVisitor {
//@fn serde_1/stringdata.rs <StringDataVisitor as Visitor>::visit_borrowed_str
//@ret r
//@sig < E : serde::de::Error => <'de, E
//@sig &'de str => &'de Bytes
//@sig Self::Value => StringData<'de>
//@spec
    requires valid(v@)
    ensures kept_text(r, v@)
//@end
//@fn serde_1/stringdata.rs <StringDataVisitor as Visitor>::visit_str
//@ret r
//@sig < E : serde::de::Error => <'de, E
//@sig & str => &Bytes
//@sig Self::Value => StringData<'de>
//@opt from_chunk_slice ( $(x) ) => from_chunk_slice($(x).v_raw_of())
//@spec
    requires valid(v@)
    ensures kept_text(r, v@)
//@end
//@fn serde_1/stringdata.rs <StringDataVisitor as Visitor>::visit_string
//@ret r
//@sig < E : serde::de::Error => <'de, E
//@sig alloc::string::String => String
//@sig Self::Value => StringData<'de>
//@spec
    requires valid(v@)
    ensures kept_text(r, v@)
//@end
}

// ---- nothing or something, and sequences ----

//@item serde_1/mod.rs struct OptVisit
//@item serde_1/mod.rs struct VecVisit
impl<V: Visitor> OptVisit<V> {
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_none
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@spec
    ensures r == Ok::<Option<V::Value>, E>(None)
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_unit
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@spec
    ensures r == Ok::<Option<V::Value>, E>(None)
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_some
//@ret r
//@sig where D : serde_1::de::Deserializer<'de> , => where D: Deser,
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . deserialize ( $(x) ) . map ( Some ) => v_some(self.0.deserialize($(x)))
//@spec
    ensures r == some_of(within::<V, D, V::Value, D::Error>(self.0, deserializer, 0))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_bool
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_bool ( $(x) ) . map ( Some ) => v_some(self.0.visit_bool($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::Bool(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_i8
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_i8 ( $(x) ) . map ( Some ) => v_some(self.0.visit_i8($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::I8(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_i16
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_i16 ( $(x) ) . map ( Some ) => v_some(self.0.visit_i16($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::I16(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_i32
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_i32 ( $(x) ) . map ( Some ) => v_some(self.0.visit_i32($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::I32(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_i64
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_i64 ( $(x) ) . map ( Some ) => v_some(self.0.visit_i64($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::I64(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_i128
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_i128 ( $(x) ) . map ( Some ) => v_some(self.0.visit_i128($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::I128(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_u8
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_u8 ( $(x) ) . map ( Some ) => v_some(self.0.visit_u8($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::U8(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_u16
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_u16 ( $(x) ) . map ( Some ) => v_some(self.0.visit_u16($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::U16(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_u32
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_u32 ( $(x) ) . map ( Some ) => v_some(self.0.visit_u32($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::U32(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_u64
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_u64 ( $(x) ) . map ( Some ) => v_some(self.0.visit_u64($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::U64(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_u128
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_u128 ( $(x) ) . map ( Some ) => v_some(self.0.visit_u128($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::U128(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_f32
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_f32 ( $(x) ) . map ( Some ) => v_some(self.0.visit_f32($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::F32(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_f64
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_f64 ( $(x) ) . map ( Some ) => v_some(self.0.visit_f64($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::F64(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_char
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_char ( $(x) ) . map ( Some ) => v_some(self.0.visit_char($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::Char(v)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_str
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@sig & str => &Bytes
//@opt self . 0 . visit_str ( $(x) ) . map ( Some ) => v_some(self.0.visit_str($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::Str(v@)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_borrowed_str
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@sig &'de str => &Bytes
//@opt self . 0 . visit_borrowed_str ( $(x) ) . map ( Some ) => v_some(self.0.visit_borrowed_str($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::BorrowedStr(v@)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_string
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@sig alloc::string::String => String
//@opt self . 0 . visit_string ( $(x) ) . map ( Some ) => v_some(self.0.visit_string($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::String(v@)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_bytes
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_bytes ( $(x) ) . map ( Some ) => v_some(self.0.visit_bytes($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::Bytes(v@)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_borrowed_bytes
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@sig &'de [ u8 ] => &[u8]
//@opt self . 0 . visit_borrowed_bytes ( $(x) ) . map ( Some ) => v_some(self.0.visit_borrowed_bytes($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::BorrowedBytes(v@)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_byte_buf
//@ret r
//@sig where E : serde_1::de::Error , =>
//@sig Self::Value => Option<V::Value>
//@sig alloc::vec::Vec => Vec
//@opt self . 0 . visit_byte_buf ( $(x) ) . map ( Some ) => v_some(self.0.visit_byte_buf($(x)))
//@spec
    ensures r == some_of(on::<V, V::Value, E>(self.0, Event::ByteBuf(v@)))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_newtype_struct
//@ret r
//@sig where D : serde_1::Deserializer<'de> , => where D: Deser,
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_newtype_struct ( $(x) ) . map ( Some ) => v_some(self.0.visit_newtype_struct($(x)))
//@spec
    ensures r == some_of(within::<V, D, V::Value, D::Error>(self.0, deserializer, 1))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_seq
//@ret r
//@sig where A : serde_1::de::SeqAccess<'de> , => where A: Deser,
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_seq ( $(x) ) . map ( Some ) => v_some(self.0.visit_seq($(x)))
//@spec
    ensures r == some_of(within::<V, A, V::Value, A::Error>(self.0, seq, 2))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_map
//@ret r
//@sig where A : serde_1::de::MapAccess<'de> , => where A: Deser,
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_map ( $(x) ) . map ( Some ) => v_some(self.0.visit_map($(x)))
//@spec
    ensures r == some_of(within::<V, A, V::Value, A::Error>(self.0, map, 3))
//@end
//@fn serde_1/mod.rs <OptVisit as Visitor>::visit_enum
//@ret r
//@sig where A : serde_1::de::EnumAccess<'de> , => where A: Deser,
//@sig Self::Value => Option<V::Value>
//@opt self . 0 . visit_enum ( $(x) ) . map ( Some ) => v_some(self.0.visit_enum($(x)))
//@spec
    ensures r == some_of(within::<V, A, V::Value, A::Error>(self.0, data, 4))
//@end
}

/// The rest of a sequence: values, and then the end or an error.
pub trait SeqAccess: Sized {
    type Error;
    spec fn rest<V: Visitor>(&self) -> Seq<V::Value>;
    spec fn fault<V: Visitor>(&self) -> Option<Self::Error>;
    fn next_element_seed<V: Visitor>(&mut self, seed: V) -> (r: Result<Option<V::Value>, Self::Error>)
        ensures
            final(self).fault::<V>() == old(self).fault::<V>(),
            old(self).rest::<V>().len() > 0 ==> r == Ok::<Option<V::Value>, Self::Error>(Some(old(self).rest::<V>()[0])) && final(self).rest::<V>() == old(self).rest::<V>().skip(1),
            old(self).rest::<V>().len() == 0 ==> r == (match old(self).fault::<V>() { Some(e) => Err::<Option<V::Value>, Self::Error>(e), None => Ok(None) }) && final(self).rest::<V>() == old(self).rest::<V>();
}
impl<V: Visitor> VecVisit<V> {
//@fn serde_1/mod.rs <VecVisit as Visitor>::visit_seq
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig mut seq => seq
//@sig where A : serde_1::de::SeqAccess<'de> , => where A: SeqAccess,
//@sig Self::Value => Vec<V::Value>
//@opt alloc::vec::Vec => Vec
//@spec
    ensures match seq.fault::<V>() { None => r matches Ok(v) && v@ =~= seq.rest::<V>(), Some(e) => r == Err::<Vec<V::Value>, A::Error>(e) }
//@at start
    let ghost given = seq;
    let mut seq = seq;
//@loop 0 while
    invariant vec@ + seq.rest::<V>() =~= given.rest::<V>(), seq.fault::<V>() == given.fault::<V>()
    ensures seq.rest::<V>().len() == 0, seq.fault::<V>() is None
    decreases seq.rest::<V>().len()
//@end
}

// ---- deserializing: what is asked for ----

/// A visitor of this crate, by what it makes of bytes (or of a text) it is told in whatever form: proved above, function by function.
pub trait Takes<'de>: Sized { type Value; spec fn reads(x: Self::Value, b: Seq<u8>) -> bool; }
impl<'de> Takes<'de> for StaticByteDataVisitor { type Value = ByteData<'static>; open spec fn reads(x: ByteData<'static>, b: Seq<u8>) -> bool { x.wf() && x@ =~= b && x.own() } }
impl<'de> Takes<'de> for ByteDataVisitor { type Value = ByteData<'de>; open spec fn reads(x: ByteData<'de>, b: Seq<u8>) -> bool { x.wf() && x@ =~= b } }
impl<'de> Takes<'de> for SharedVisitor { type Value = SharedBytes; open spec fn reads(x: SharedBytes, b: Seq<u8>) -> bool { x.wf() && x@ =~= b } }
impl<'de> Takes<'de> for StaticStringDataVisitor { type Value = StringData<'static>; open spec fn reads(x: StringData<'static>, b: Seq<u8>) -> bool { x.wf() && x@ =~= b && x.data.own() } }
impl<'de> Takes<'de> for StringDataVisitor { type Value = StringData<'de>; open spec fn reads(x: StringData<'de>, b: Seq<u8>) -> bool { x.wf() && x@ =~= b } }

/// A source of one value: it hands what it holds to the visitor when it is asked for that kind of value.
pub trait Asked<'de>: Sized {
    type Error;
    spec fn bytes(self) -> Option<Seq<u8>>;
    spec fn text(self) -> Option<Seq<u8>>;
    /// an optional value: bytes or text
    spec fn optional(self) -> Option<Option<Seq<u8>>>;
    spec fn several(self) -> Option<Seq<Seq<u8>>>;
    fn deserialize_bytes<V: Takes<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        ensures self.bytes() matches Some(b) ==> (r matches Ok(x) && V::reads(x, b));
    fn deserialize_byte_buf<V: Takes<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        ensures self.bytes() matches Some(b) ==> (r matches Ok(x) && V::reads(x, b));
    fn deserialize_str<V: Takes<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        ensures self.text() matches Some(b) ==> (r matches Ok(x) && V::reads(x, b));
    fn deserialize_string<V: Takes<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        ensures self.text() matches Some(b) ==> (r matches Ok(x) && V::reads(x, b));
    fn deserialize_option<V: Takes<'de>>(self, v: OptVisit<V>) -> (r: Result<Option<V::Value>, Self::Error>)
        ensures self.optional() matches Some(o) ==> (r matches Ok(y) && opt_reads::<V>(y, o));
    fn deserialize_seq<V: Takes<'de>>(self, v: VecVisit<V>) -> (r: Result<Vec<V::Value>, Self::Error>)
        ensures self.several() matches Some(o) ==> (r matches Ok(y) && all_read::<V>(y@, o));
}
pub open spec fn opt_reads<'de, V: Takes<'de>>(y: Option<V::Value>, o: Option<Seq<u8>>) -> bool {
    match o { None => y is None, Some(b) => y matches Some(x) && V::reads(x, b) }
}
pub open spec fn all_read<'de, V: Takes<'de>>(y: Seq<V::Value>, o: Seq<Seq<u8>>) -> bool {
    y.len() == o.len() && forall|i: int| 0 <= i < y.len() ==> V::reads(#[trigger] y[i], o[i])
}

impl StaticByteDataVisitor {
//@fn serde_1/bytedata.rs <StaticByteDataVisitor as DeserializeSeed>::deserialize
//@ret r
//@sig < D : serde::de::Deserializer<'de>> => <'de, D: Asked<'de>>
//@sig Self::Value => ByteData<'static>
//@spec
    ensures deserializer.bytes() matches Some(b) ==> (r matches Ok(x) && StaticByteDataVisitor::reads(x, b))
//@end
}
impl ByteData<'static> {
//@fn serde_1/bytedata.rs ByteData::deserialize_static
//@ret r
//@sig where D : serde::de::Deserializer<'de> , => where D: Asked<'de>,
//@spec
    ensures deserializer.bytes() matches Some(b) ==> (r matches Ok(x) && StaticByteDataVisitor::reads(x, b))
//@end
//@fn serde_1/bytedata.rs ByteData::deserialize_static_opt
//@ret r
//@sig where D : serde::de::Deserializer<'de> , => where D: Asked<'de>,
//@spec
    ensures deserializer.optional() matches Some(o) ==> (r matches Ok(y) && opt_reads::<StaticByteDataVisitor>(y, o))
//@end
//@fn serde_1/bytedata.rs ByteData::deserialize_static_vec
//@ret r
//@sig where D : serde::de::Deserializer<'de> , => where D: Asked<'de>,
//@sig alloc::vec::Vec => Vec
//@spec
    ensures deserializer.several() matches Some(o) ==> (r matches Ok(y) && all_read::<StaticByteDataVisitor>(y@, o))
//@end
}
impl StaticStringDataVisitor {
//@fn serde_1/stringdata.rs <StaticStringDataVisitor as DeserializeSeed>::deserialize
//@ret r
//@sig fn deserialize < D > => fn deserialize<'de, D>
//@sig where D : serde_1::Deserializer<'de> , => where D: Asked<'de>,
//@sig Self::Value => StringData<'static>
//@spec
    ensures deserializer.text() matches Some(b) ==> (r matches Ok(x) && StaticStringDataVisitor::reads(x, b))
//@end
}
impl StringData<'static> {
//@fn serde_1/stringdata.rs StringData::deserialize_static
//@ret r
//@sig where D : serde::de::Deserializer<'de> , => where D: Asked<'de>,
//@spec
    ensures deserializer.text() matches Some(b) ==> (r matches Ok(x) && StaticStringDataVisitor::reads(x, b))
//@end
//@fn serde_1/stringdata.rs StringData::deserialize_static_opt
//@ret r
//@sig where D : serde::de::Deserializer<'de> , => where D: Asked<'de>,
//@spec
    ensures deserializer.optional() matches Some(o) ==> (r matches Ok(y) && opt_reads::<StaticStringDataVisitor>(y, o))
//@end
//@fn serde_1/stringdata.rs StringData::deserialize_static_vec
//@ret r
//@sig where D : serde::de::Deserializer<'de> , => where D: Asked<'de>,
//@sig alloc::vec::Vec => Vec
//@spec
    ensures deserializer.several() matches Some(o) ==> (r matches Ok(y) && all_read::<StaticStringDataVisitor>(y@, o))
//@end
}
impl<'de> ByteData<'de> {
//@fn serde_1/bytedata.rs <ByteData as Deserialize>::deserialize
//@ret r
//@sig D : serde::de::Deserializer<'de>> => D: Asked<'de>>
//@spec
    ensures deserializer.bytes() matches Some(b) ==> (r matches Ok(x) && ByteDataVisitor::reads(x, b))
//@end
}
impl<'de> StringData<'de> {
//@fn serde_1/stringdata.rs <StringData as Deserialize>::deserialize
//@ret r
//@sig D : serde::de::Deserializer<'de>> => D: Asked<'de>>
//@spec
    ensures deserializer.text() matches Some(b) ==> (r matches Ok(x) && StringDataVisitor::reads(x, b))
//@end
}
impl SharedBytes {
//@fn serde_1/shared_bytes.rs <SharedBytes as Deserialize>::deserialize
//@ret r
//@sig < D : serde::de::Deserializer<'de>> => <'de, D: Asked<'de>>
//@sub ByteDataVisitor => SharedVisitor
//@spec
    ensures deserializer.bytes() matches Some(b) ==> (r matches Ok(x) && SharedVisitor::reads(x, b))
//@end
}

} // verus!
fn main() {}
