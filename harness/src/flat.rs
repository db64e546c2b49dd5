//! A minimal binary serde format (a stream of u64 words) so that persistence can be executed symbolically.
use serde::de::{self, DeserializeOwned, DeserializeSeed, IntoDeserializer, SeqAccess, MapAccess, EnumAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct E;
impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }
impl de::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } fn invalid_length(_: usize, _: &dyn de::Expected) -> E { E } fn missing_field(_: &'static str) -> E { E } }

/// words written, (position, length) of the longest sequence, and whether only that length is wanted
pub struct W(pub Vec<u64>, (usize, usize), bool);
pub fn to_words<T: Serialize + ?Sized>(t: &T) -> Vec<u64> { let mut w = W(Vec::with_capacity(64), (0, 0), false); match t.serialize(&mut w) { Ok(()) => w.0, Err(_) => panic!("serialization failed") } }
pub fn from_words<T: DeserializeOwned>(v: &[u64]) -> T { let mut r = Rd { v, i: 0 }; match T::deserialize(&mut r) { Ok(x) => { if r.i != v.len() { panic!("trailing data") } x } Err(_) => panic!("deserialization failed") } }
pub fn round_trip<T: Serialize + DeserializeOwned>(t: &T) -> T { from_words(&to_words(t)) }

/// the elements (one word each) of the longest sequence in the serialized form
pub fn longest_seq<T: Serialize + ?Sized>(t: &T) -> Vec<u64> { let mut w = W(Vec::with_capacity(64), (0, 0), false); match t.serialize(&mut w) { Ok(()) => w.0[w.1 .0..w.1 .0 + w.1 .1].to_vec(), Err(_) => panic!("serialization failed") } }
/// an object like t whose longest sequence has the elements e
pub fn with_seq<T: Serialize + DeserializeOwned>(t: &T, e: &[u64]) -> T { let mut w = W(Vec::with_capacity(64), (0, 0), false); match t.serialize(&mut w) { Ok(()) => { w.0[w.1 .0..w.1 .0 + w.1 .1].copy_from_slice(e); from_words(&w.0) } Err(_) => panic!("serialization failed") } }

/// the length of the longest sequence, without visiting the elements
pub fn longest_len<T: Serialize + ?Sized>(t: &T) -> u64 { let mut w = W(Vec::with_capacity(64), (0, 0), true); let _ = t.serialize(&mut w); w.1 .1 as u64 }

type O = Result<(), E>;
macro_rules! ints { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> O { self.0.push(v as u64); Ok(()) })* } }
impl<'a> ser::Serializer for &'a mut W {
    type Ok = (); type Error = E;
    type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = Self; type SerializeMap = Self; type SerializeStruct = Self; type SerializeStructVariant = Self;
    ints! { serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_char char }
    fn serialize_f32(self, v: f32) -> O { self.0.push(v.to_bits() as u64); Ok(()) }
    fn serialize_f64(self, v: f64) -> O { self.0.push(v.to_bits()); Ok(()) }
    fn serialize_str(self, v: &str) -> O { self.serialize_bytes(v.as_bytes()) }
    fn serialize_bytes(self, v: &[u8]) -> O { if self.2 { if v.len() > self.1 .1 { self.1 = (0, v.len()); } return Ok(()); } self.0.push(v.len() as u64); for b in v { self.0.push(*b as u64) } Ok(()) }
    fn serialize_none(self) -> O { self.0.push(0); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> O { self.0.push(1); v.serialize(self) }
    fn serialize_unit(self) -> O { Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> O { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> O { self.0.push(i as u64); Ok(()) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> O { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> O { self.0.push(i as u64); v.serialize(self) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> { match n { Some(n) => { self.0.push(n as u64); if n > self.1 .1 { self.1 = (self.0.len(), n); } if self.2 { Err(E) } else { Ok(self) } } None => Err(E) } }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> { self.0.push(i as u64); Ok(self) }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, E> { match n { Some(n) => { self.0.push(n as u64); Ok(self) } None => Err(E) } }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> { self.0.push(i as u64); Ok(self) }
    fn is_human_readable(&self) -> bool { false }
}
macro_rules! seqs { ($($t:ident $f:ident),*) => { $(impl<'a> ser::$t for &'a mut W { type Ok = (); type Error = E; fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> O { v.serialize(&mut **self) } fn end(self) -> O { Ok(()) } })* } }
seqs! { SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field }
impl<'a> ser::SerializeMap for &'a mut W { type Ok = (); type Error = E; fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> O { k.serialize(&mut **self) } fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> O { v.serialize(&mut **self) } fn end(self) -> O { Ok(()) } }
impl<'a> ser::SerializeStruct for &'a mut W { type Ok = (); type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> O { let r = v.serialize(&mut **self); if self.2 { Ok(()) } else { r } } fn end(self) -> O { Ok(()) } }
impl<'a> ser::SerializeStructVariant for &'a mut W { type Ok = (); type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> O { let r = v.serialize(&mut **self); if self.2 { Ok(()) } else { r } } fn end(self) -> O { Ok(()) } }

pub struct Rd<'v> { v: &'v [u64], i: usize }
impl<'v> Rd<'v> { fn n(&mut self) -> Result<u64, E> { match self.v.get(self.i) { Some(x) => { self.i += 1; Ok(*x) } None => Err(E) } } }
macro_rules! dints { ($($f:ident $g:ident $t:ty),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let x = self.n()?; v.$g(x as $t) })* } }
impl<'de, 'a, 'v> de::Deserializer<'de> for &'a mut Rd<'v> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) }
    dints! { deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64 }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let x = self.n()?; v.visit_bool(x != 0) }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let x = self.n()?; match char::from_u32(x as u32) { Some(c) => v.visit_char(c), None => Err(E) } }
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let x = self.n()?; v.visit_f32(f32::from_bits(x as u32)) }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let x = self.n()?; v.visit_f64(f64::from_bits(x)) }
    fn deserialize_str<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_string<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_byte_buf(v) }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let n = self.n()? as usize; let mut b = Vec::with_capacity(n); for _ in 0..n { b.push(self.n()? as u8) } v.visit_byte_buf(b) }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { if self.n()? == 0 { v.visit_none() } else { v.visit_some(self) } }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_unit() }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_unit() }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let n = self.n()? as usize; v.visit_seq(Sq { r: self, n }) }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> { v.visit_seq(Sq { r: self, n }) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> { v.visit_seq(Sq { r: self, n }) }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let n = self.n()? as usize; v.visit_map(Sq { r: self, n }) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> { v.visit_seq(Sq { r: self, n: f.len() }) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { v.visit_enum(self) }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) }
    fn is_human_readable(&self) -> bool { false }
}
struct Sq<'a, 'v> { r: &'a mut Rd<'v>, n: usize }
impl<'de, 'a, 'v> SeqAccess<'de> for Sq<'a, 'v> { type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> { if self.n == 0 { return Ok(None); } self.n -= 1; s.deserialize(&mut *self.r).map(Some) }
    fn size_hint(&self) -> Option<usize> { Some(self.n) } }
impl<'de, 'a, 'v> MapAccess<'de> for Sq<'a, 'v> { type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> { if self.n == 0 { return Ok(None); } self.n -= 1; s.deserialize(&mut *self.r).map(Some) }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> { s.deserialize(&mut *self.r) } }
impl<'de, 'a, 'v> EnumAccess<'de> for &'a mut Rd<'v> { type Error = E; type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), E> { let i = self.n()? as u32; let d: de::value::U32Deserializer<E> = i.into_deserializer(); Ok((s.deserialize(d)?, self)) } }
impl<'de, 'a, 'v> VariantAccess<'de> for &'a mut Rd<'v> { type Error = E;
    fn unit_variant(self) -> O { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> { s.deserialize(self) }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> { v.visit_seq(Sq { r: self, n }) }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> { v.visit_seq(Sq { r: self, n: f.len() }) } }
