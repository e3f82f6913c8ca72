//! A minimal non-self-describing wire format: a record of one number, one flag and one byte string.
use serde::de::{self, DeserializeSeed, Deserializer, SeqAccess, Visitor};
use serde::ser::{self, Serialize, SerializeStruct, Serializer};

pub const CAP: usize = 50;
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Wire {
    pub num: u32,
    pub flag: bool,
    pub bytes: [u8; CAP],
    pub len: usize,
}
impl Wire {
    pub fn new() -> Self {
        Wire { num: 0, flag: false, bytes: [0; CAP], len: 0 }
    }
}
#[derive(Debug)]
pub struct E;
impl core::fmt::Display for E {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        E
    }
}
impl de::Error for E {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        E
    }
}

pub struct Ser<'a>(pub &'a mut Wire);
macro_rules! no {
    ($($f:ident $t:ty),*) => { $( fn $f(self, _: $t) -> Result<(), E> { Err(E) } )* };
}
impl<'a> Serializer for Ser<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = ser::Impossible<(), E>;
    type SerializeTuple = ser::Impossible<(), E>;
    type SerializeTupleStruct = ser::Impossible<(), E>;
    type SerializeTupleVariant = ser::Impossible<(), E>;
    type SerializeMap = ser::Impossible<(), E>;
    type SerializeStruct = Self;
    type SerializeStructVariant = ser::Impossible<(), E>;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.0.flag = v;
        Ok(())
    }
    fn serialize_u32(self, v: u32) -> Result<(), E> {
        self.0.num = v;
        Ok(())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.0.len = v.len();
        self.0.bytes[..v.len()].copy_from_slice(v);
        Ok(())
    }
    no!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
        serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str);
    fn serialize_none(self) -> Result<(), E> { Err(E) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> { Err(E) }
    fn serialize_unit(self) -> Result<(), E> { Err(E) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> { Err(E) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> { Err(E) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> { Err(E) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> { Err(E) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { Err(E) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
}
impl<'a> SerializeStruct for Ser<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(Ser(&mut *self.0))
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}

pub struct De<'a>(pub &'a Wire);
impl<'de, 'a> Deserializer<'de> for De<'a> {
    type Error = E;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_bytes(&self.0.bytes[..self.0.len])
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_bool(self.0.flag)
    }
    fn deserialize_u32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_u32(self.0.num)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Fields(self.0, f.len()))
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        i8 i16 i32 i64 i128 u8 u16 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct seq tuple
        tuple_struct map enum identifier ignored_any
    }
}
struct Fields<'a>(&'a Wire, usize);
impl<'de, 'a> SeqAccess<'de> for Fields<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(De(self.0)).map(Some)
    }
}

pub fn to_wire<T: Serialize>(x: &T) -> Wire {
    let mut w = Wire::new();
    let r = x.serialize(Ser(&mut w));
    assert!(r.is_ok());
    w
}
pub fn from_wire<'de, T: serde::Deserialize<'de>>(w: &Wire) -> Option<T> {
    T::deserialize(De(w)).ok()
}
pub fn to_bytes<T: Serialize>(x: &T) -> Vec<u8> {
    let w = to_wire(x);
    w.bytes[..w.len].to_vec()
}
