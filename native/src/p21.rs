//! Serializing and deserializing a value preserves it.
use crate::ck;
use crate::ctx::{same, Ctx};
use crate::reps;
use bytedata::{ByteData, SharedBytes, StringData};
use serde::de::{self, Deserializer, Visitor};
use serde::ser::{Impossible, Serialize, Serializer};
use serde::Deserialize;

#[derive(Debug)]
struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl serde::ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

/// What a serializer saw.
#[derive(PartialEq, Debug)]
enum Saw {
    Bytes(Vec<u8>),
    Str(String),
}
struct Rec;
macro_rules! no {
    ($($f:ident($($t:ty),*)),*) => { $(fn $f(self, $(_: $t),*) -> Result<Saw, E> { Err(E("another form".into())) })* };
}
impl Serializer for Rec {
    type Ok = Saw;
    type Error = E;
    type SerializeSeq = Impossible<Saw, E>;
    type SerializeTuple = Impossible<Saw, E>;
    type SerializeTupleStruct = Impossible<Saw, E>;
    type SerializeTupleVariant = Impossible<Saw, E>;
    type SerializeMap = Impossible<Saw, E>;
    type SerializeStruct = Impossible<Saw, E>;
    type SerializeStructVariant = Impossible<Saw, E>;
    no!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_none(), serialize_unit(), serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_str(self, v: &str) -> Result<Saw, E> {
        Ok(Saw::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Saw, E> {
        Ok(Saw::Bytes(v.into()))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Saw, E> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Saw, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<Saw, E> {
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E("another form".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E("another form".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E("another form".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E("another form".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E("another form".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        Err(E("another form".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E("another form".into()))
    }
}

/// How the format hands over a value.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Form {
    Borrowed,
    Transient,
    Owned,
    /// Owned, in a buffer with room to spare.
    Roomy,
    Spacious,
}
const FORMS: [Form; 5] = [Form::Borrowed, Form::Transient, Form::Owned, Form::Roomy, Form::Spacious];
fn roomy(b: &[u8], f: Form) -> Vec<u8> {
    let mut v = Vec::with_capacity(match f {
        Form::Roomy => b.len() * 2 + 1,
        Form::Spacious => b.len() * 8 + 4096,
        _ => b.len(),
    });
    v.extend_from_slice(b);
    v
}

#[derive(Clone)]
enum Val<'de> {
    Bytes(&'de [u8], Form),
    Text(&'de str, Form),
    Some(Box<Val<'de>>),
    Nothing,
    Unit,
    Seq(Vec<Val<'de>>, Option<usize>),
    Num,
}
struct De<'de>(Val<'de>);
struct SeqA<'de>(std::vec::IntoIter<Val<'de>>, Option<usize>);
impl<'de> de::SeqAccess<'de> for SeqA<'de> {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some(v) => s.deserialize(De(v)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.1
    }
}
impl<'de> Deserializer<'de> for De<'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Val::Bytes(b, Form::Borrowed) => v.visit_borrowed_bytes(b),
            Val::Bytes(b, Form::Transient) => {
                let mut t = b.to_vec();
                let r = v.visit_bytes(&t);
                t.iter_mut().for_each(|x| *x = !*x);
                r
            }
            Val::Bytes(b, f) => v.visit_byte_buf(roomy(b, f)),
            Val::Text(b, Form::Borrowed) => v.visit_borrowed_str(b),
            Val::Text(b, Form::Transient) => {
                let t = b.to_string();
                let r = v.visit_str(&t);
                let mut t = t.into_bytes();
                t.iter_mut().for_each(|x| *x = !*x);
                r
            }
            Val::Text(b, f) => v.visit_string(String::from_utf8(roomy(b.as_bytes(), f)).unwrap()),
            Val::Some(x) => v.visit_some(De(*x)),
            Val::Nothing => v.visit_none(),
            Val::Unit => v.visit_unit(),
            Val::Num => v.visit_u64(7),
            Val::Seq(x, n) => v.visit_seq(SeqA(x.into_iter(), n)),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

fn ok<T>(what: &str, r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{what}: {e}"))
}

fn bytes(c: &'static [u8], k: usize) -> Result<(), String> {
    if let Some(d) = reps::data(k, c) {
        ck!(ok("serialize", d.serialize(Rec))? == Saw::Bytes(c.to_vec()), "byte data serializes as something else");
    }
    ck!(ok("serialize", SharedBytes::from_slice(c).serialize(Rec))? == Saw::Bytes(c.to_vec()), "shared bytes serialize as something else");
    for f in FORMS {
        let v = Val::Bytes(c, f);
        let d = ok("ByteData", ByteData::deserialize(De(v.clone())))?;
        same("ByteData", d.as_slice(), c)?;
        if f == Form::Borrowed && c.len() > 14 {
            ck!(d.as_slice().as_ptr() == c.as_ptr(), "borrowed bytes were copied");
        }
        let d = ok("deserialize_static", ByteData::deserialize_static(De(v.clone())))?;
        same("deserialize_static", d.as_slice(), c)?;
        let d = ok("SharedBytes", SharedBytes::deserialize(De(v.clone())))?;
        same("SharedBytes", d.as_slice(), c)?;
        for x in [v.clone(), Val::Some(Box::new(v.clone()))] {
            let d = ok("deserialize_static_opt", ByteData::deserialize_static_opt(De(x)))?;
            same("deserialize_static_opt", d.ok_or("a value became nothing")?.as_slice(), c)?;
        }
    }
    for f in FORMS {
        let list: Vec<Val<'_>> = vec![Val::Bytes(c, f), Val::Bytes(&c[c.len() / 2..], Form::Transient), Val::Bytes(b"", f)];
        for n in [None, Some(0), Some(3), Some(usize::MAX)] {
            if n == Some(usize::MAX) {
                continue;
            }
            let d = ok("deserialize_static_vec", ByteData::deserialize_static_vec(De(Val::Seq(list.clone(), n))))?;
            ck!(d.len() == 3, "{} of 3 elements", d.len());
            same("element 0", d[0].as_slice(), c)?;
            same("element 1", d[1].as_slice(), &c[c.len() / 2..])?;
            same("element 2", d[2].as_slice(), b"")?;
        }
        let mut bad = list.clone();
        bad.insert(1, Val::Num);
        ck!(ByteData::deserialize_static_vec(De(Val::Seq(bad, None))).is_err(), "a number became bytes");
    }
    Ok(())
}

fn text(t: &'static str, k: usize) -> Result<(), String> {
    let c = t.as_bytes();
    if let Some(d) = reps::string(k, t) {
        ck!(ok("serialize", d.serialize(Rec))? == Saw::Str(t.to_string()), "string data serializes as something else");
    }
    for f in FORMS {
        let v = Val::Text(t, f);
        let d = ok("StringData", StringData::deserialize(De(v.clone())))?;
        same("StringData", d.as_bytes(), c)?;
        if f == Form::Borrowed && c.len() > 14 {
            ck!(d.as_bytes().as_ptr() == c.as_ptr(), "borrowed text was copied");
        }
        let d = ok("deserialize_static", StringData::deserialize_static(De(v.clone())))?;
        same("deserialize_static", d.as_bytes(), c)?;
        for x in [v.clone(), Val::Some(Box::new(v.clone()))] {
            let d = ok("deserialize_static_opt", StringData::deserialize_static_opt(De(x)))?;
            same("deserialize_static_opt", d.ok_or("a value became nothing")?.as_bytes(), c)?;
        }
        let d = ok("deserialize_static_vec", StringData::deserialize_static_vec(De(Val::Seq(vec![v.clone(), Val::Text("x", f), v], None))))?;
        ck!(d.len() == 3, "{} of 3 elements", d.len());
        same("element 0", d[0].as_bytes(), c)?;
        same("element 1", d[1].as_bytes(), b"x")?;
        same("element 2", d[2].as_bytes(), c)?;
    }
    Ok(())
}

fn nothing() -> Result<(), String> {
    for v in [Val::Nothing, Val::Unit] {
        ck!(matches!(ByteData::deserialize_static_opt(De(v.clone())), Ok(None)), "nothing became bytes");
        ck!(matches!(StringData::deserialize_static_opt(De(v)), Ok(None)), "nothing became text");
    }
    ck!(ByteData::deserialize(De(Val::Num)).is_err(), "a number became bytes");
    ck!(StringData::deserialize(De(Val::Num)).is_err(), "a number became text");
    for f in FORMS {
        for bad in [&b"\xff"[..], b"ab\xc0\x80", b"0123456789abcdef\xe2\x82", b"\xed\xa0\x80"] {
            if let Ok(d) = StringData::deserialize(De(Val::Bytes(bad, f))) {
                return Err(format!("invalid text became the string value {:?}", d.as_bytes()));
            }
            if let Ok(d) = StringData::deserialize_static(De(Val::Bytes(bad, f))) {
                return Err(format!("invalid text became the string value {:?}", d.as_bytes()));
            }
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.case("nothing and things of another kind", 0, nothing);
    for &len in crate::util::LENS.iter().chain(crate::util::BIG.iter().take(6)) {
        for k in 0..reps::KINDS {
            for at in 0..c.pick(1, 7) {
                c.case("byte values", (len, k, at), || bytes(reps::bytes(at * 13, len), k));
            }
        }
    }
    for &t in crate::util::TEXTS {
        for k in 0..reps::SKINDS {
            c.case("string values", (t, k), || text(t, k));
        }
    }
}
