//! Assumed contract on `serde_json` 1.0: what `to_vec` writes, `from_slice` reads back.  The bytes
//! written are a name under which the model keeps the value, as a list of tokens of serde's data model;
//! the code under proof meets the text only through serde's traits.  No other bytes are accepted.
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

pub mod error {
  pub use super::Error;
  pub type Result<T> = std::result::Result<T, Error>;
}
pub use error::Result;

/// which kind of error
#[derive(Debug)]
pub struct Error(pub u8);
impl fmt::Display for Error {
  fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
    Ok(())
  }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
  fn custom<T: fmt::Display>(_: T) -> Self {
    Error(1)
  }
}
impl de::Error for Error {
  fn custom<T: fmt::Display>(_: T) -> Self {
    Error(2)
  }
  fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
    Error(3)
  }
  fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
    Error(4)
  }
  fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
    Error(5)
  }
  fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
    Error(6)
  }
  fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
    Error(7)
  }
  fn missing_field(_: &'static str) -> Self {
    Error(8)
  }
  fn duplicate_field(_: &'static str) -> Self {
    Error(9)
  }
}

// ---------------------------------------------------------------- writing

#[derive(Clone, Copy)]
pub struct Token {
  kind: u8,
  num: u64,
  text: &'static [u8]
}
/// the values written so far
static mut WRITTEN: [&'static [Token]; 12] = [&[]; 12];
static mut COUNT: u8 = 0;
const NAME: [u8; 3] = [b'{', b'j', b'}'];

pub fn to_vec<T: ?Sized + Serialize>(value: &T) -> Result<Vec<u8>> {
  let mut s = Ser { out: Vec::with_capacity(48) };
  value.serialize(&mut s)?;
  let id = unsafe { COUNT };
  assert!(id < 12, "ghost: more values than the model keeps");
  unsafe {
    WRITTEN[id as usize] = Vec::leak(s.out);
    COUNT = id + 1;
  }
  let mut v = Vec::with_capacity(4);
  v.extend_from_slice(&NAME);
  v.push(id);
  Ok(v)
}

pub struct Ser {
  out: Vec<Token>
}
impl Ser {
  fn put(&mut self, kind: u8, num: u64, text: &'static [u8]) {
    assert!(self.out.len() < 48, "ghost: a longer value than the model keeps");
    self.out.push(Token { kind, num, text });
  }
  fn num(&mut self, v: u64) -> Result<()> {
    self.put(b'u', v, &[]);
    Ok(())
  }
  fn text(&mut self, v: &str) {
    let mut t = Vec::with_capacity(v.len());
    t.extend_from_slice(v.as_bytes());
    self.put(b's', 0, Vec::leak(t));
  }
}
fn not_modelled<T>() -> Result<T> {
  panic!("ghost: a kind of value that is not modelled")
}
impl<'a> ser::Serializer for &'a mut Ser {
  type Ok = ();
  type Error = Error;
  type SerializeSeq = Parts<'a>;
  type SerializeTuple = Parts<'a>;
  type SerializeTupleStruct = Parts<'a>;
  type SerializeTupleVariant = Parts<'a>;
  type SerializeMap = Parts<'a>;
  type SerializeStruct = Parts<'a>;
  type SerializeStructVariant = Parts<'a>;

  fn serialize_bool(self, v: bool) -> Result<()> {
    self.put(if v { b't' } else { b'f' }, 0, &[]);
    Ok(())
  }
  fn serialize_i8(self, _: i8) -> Result<()> {
    not_modelled()
  }
  fn serialize_i16(self, _: i16) -> Result<()> {
    not_modelled()
  }
  fn serialize_i32(self, _: i32) -> Result<()> {
    not_modelled()
  }
  fn serialize_i64(self, _: i64) -> Result<()> {
    not_modelled()
  }
  fn serialize_u8(self, v: u8) -> Result<()> {
    self.num(v as u64)
  }
  fn serialize_u16(self, v: u16) -> Result<()> {
    self.num(v as u64)
  }
  fn serialize_u32(self, v: u32) -> Result<()> {
    self.num(v as u64)
  }
  fn serialize_u64(self, v: u64) -> Result<()> {
    self.num(v)
  }
  fn serialize_f32(self, _: f32) -> Result<()> {
    not_modelled()
  }
  fn serialize_f64(self, _: f64) -> Result<()> {
    not_modelled()
  }
  fn serialize_char(self, _: char) -> Result<()> {
    not_modelled()
  }
  fn serialize_str(self, v: &str) -> Result<()> {
    self.text(v);
    Ok(())
  }
  fn serialize_bytes(self, v: &[u8]) -> Result<()> {
    self.put(b'[', 0, &[]);
    let mut i = 0;
    while i < v.len() {
      self.num(v[i] as u64)?;
      i += 1;
    }
    self.put(b']', 0, &[]);
    Ok(())
  }
  fn serialize_none(self) -> Result<()> {
    self.put(b'n', 0, &[]);
    Ok(())
  }
  fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<()> {
    value.serialize(self)
  }
  fn serialize_unit(self) -> Result<()> {
    self.put(b'n', 0, &[]);
    Ok(())
  }
  fn serialize_unit_struct(self, _: &'static str) -> Result<()> {
    self.put(b'n', 0, &[]);
    Ok(())
  }
  fn serialize_unit_variant(self, _: &'static str, _: u32, variant: &'static str) -> Result<()> {
    self.text(variant);
    Ok(())
  }
  fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, value: &T) -> Result<()> {
    value.serialize(self)
  }
  fn serialize_newtype_variant<T: ?Sized + Serialize>(
    self, _: &'static str, _: u32, _: &'static str, _: &T
  ) -> Result<()> {
    not_modelled()
  }
  fn serialize_seq(self, _: Option<usize>) -> Result<Parts<'a>> {
    self.put(b'[', 0, &[]);
    Ok(Parts { ser: self, end: b']' })
  }
  fn serialize_tuple(self, _: usize) -> Result<Parts<'a>> {
    self.serialize_seq(None)
  }
  fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Parts<'a>> {
    self.serialize_seq(None)
  }
  fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Parts<'a>> {
    not_modelled()
  }
  fn serialize_map(self, _: Option<usize>) -> Result<Parts<'a>> {
    self.put(b'{', 0, &[]);
    Ok(Parts { ser: self, end: b'}' })
  }
  fn serialize_struct(self, _: &'static str, _: usize) -> Result<Parts<'a>> {
    self.serialize_map(None)
  }
  fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Parts<'a>> {
    not_modelled()
  }
}

pub struct Parts<'a> {
  ser: &'a mut Ser,
  end: u8
}
macro_rules! parts {
  ($t:ident, $f:ident) => {
    impl<'a> ser::$t for Parts<'a> {
      type Ok = ();
      type Error = Error;
      fn $f<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
        value.serialize(&mut *self.ser)
      }
      fn end(self) -> Result<()> {
        self.ser.put(self.end, 0, &[]);
        Ok(())
      }
    }
  };
}
parts!(SerializeSeq, serialize_element);
parts!(SerializeTuple, serialize_element);
parts!(SerializeTupleStruct, serialize_field);
parts!(SerializeTupleVariant, serialize_field);
impl<'a> ser::SerializeMap for Parts<'a> {
  type Ok = ();
  type Error = Error;
  fn serialize_key<T: ?Sized + Serialize>(&mut self, key: &T) -> Result<()> {
    key.serialize(&mut *self.ser)
  }
  fn serialize_value<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
    value.serialize(&mut *self.ser)
  }
  fn end(self) -> Result<()> {
    self.ser.put(self.end, 0, &[]);
    Ok(())
  }
}
macro_rules! fields {
  ($t:ident) => {
    impl<'a> ser::$t for Parts<'a> {
      type Ok = ();
      type Error = Error;
      fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> Result<()> {
        self.ser.text(key);
        value.serialize(&mut *self.ser)
      }
      fn end(self) -> Result<()> {
        self.ser.put(self.end, 0, &[]);
        Ok(())
      }
    }
  };
}
fields!(SerializeStruct);
fields!(SerializeStructVariant);

// ---------------------------------------------------------------- reading

pub fn from_slice<'a, T: de::Deserialize<'a>>(v: &'a [u8]) -> Result<T> {
  if v.len() != 4 || v[0] != NAME[0] || v[1] != NAME[1] || v[2] != NAME[2] || v[3] >= unsafe { COUNT } {
    return Err(Error(17));
  }
  let mut d = De { b: unsafe { WRITTEN[v[3] as usize] }, at: 0 };
  let t = T::deserialize(&mut d)?;
  if d.at == d.b.len() {
    Ok(t)
  } else {
    Err(Error(10))
  }
}

pub struct De {
  b: &'static [Token],
  at: usize
}
impl De {
  fn peek(&self) -> Result<u8> {
    if self.at < self.b.len() {
      Ok(self.b[self.at].kind)
    } else {
      Err(Error(11))
    }
  }
}
impl<'de, 'a> de::Deserializer<'de> for &'a mut De {
  type Error = Error;

  fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
    let t = self.peek()?;
    self.at += 1;
    match t {
      b'n' => visitor.visit_unit(),
      b't' => visitor.visit_bool(true),
      b'f' => visitor.visit_bool(false),
      b'u' => visitor.visit_u64(self.b[self.at - 1].num),
      b's' => visitor.visit_str(unsafe { std::str::from_utf8_unchecked(self.b[self.at - 1].text) }),
      b'[' => {
        let v = visitor.visit_seq(Items { de: &mut *self })?;
        if self.peek()? == b']' {
          self.at += 1;
          Ok(v)
        } else {
          Err(Error(13))
        }
      }
      b'{' => {
        let v = visitor.visit_map(Items { de: &mut *self })?;
        if self.peek()? == b'}' {
          self.at += 1;
          Ok(v)
        } else {
          Err(Error(13))
        }
      }
      _ => Err(Error(14))
    }
  }
  fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
    if self.peek()? == b'n' {
      self.at += 1;
      visitor.visit_none()
    } else {
      visitor.visit_some(self)
    }
  }
  fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, visitor: V) -> Result<V::Value> {
    visitor.visit_newtype_struct(self)
  }
  fn deserialize_enum<V: Visitor<'de>>(
    self, _: &'static str, _: &'static [&'static str], visitor: V
  ) -> Result<V::Value> {
    if self.peek()? == b's' {
      visitor.visit_enum(Unit { de: self })
    } else {
      Err(Error(15))
    }
  }
  serde::forward_to_deserialize_any! {
    bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit
    unit_struct seq tuple tuple_struct map struct identifier ignored_any
  }
}

struct Items<'a> {
  de: &'a mut De
}
impl<'a, 'de> SeqAccess<'de> for Items<'a> {
  type Error = Error;
  fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>> {
    if self.de.peek()? == b']' {
      return Ok(None);
    }
    seed.deserialize(&mut *self.de).map(Some)
  }
}
impl<'a, 'de> MapAccess<'de> for Items<'a> {
  type Error = Error;
  fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>> {
    if self.de.peek()? == b'}' {
      return Ok(None);
    }
    seed.deserialize(&mut *self.de).map(Some)
  }
  fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value> {
    seed.deserialize(&mut *self.de)
  }
}
struct Unit<'a> {
  de: &'a mut De
}
impl<'a, 'de> EnumAccess<'de> for Unit<'a> {
  type Error = Error;
  type Variant = Self;
  fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Self)> {
    let v = seed.deserialize(&mut *self.de)?;
    Ok((v, self))
  }
}
impl<'a, 'de> VariantAccess<'de> for Unit<'a> {
  type Error = Error;
  fn unit_variant(self) -> Result<()> {
    Ok(())
  }
  fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value> {
    Err(Error(16))
  }
  fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value> {
    Err(Error(16))
  }
  fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value> {
    Err(Error(16))
  }
}
