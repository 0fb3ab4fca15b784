//! A small positional binary serde format (not self-describing), used as the second image format.
//! The serializer checks announced lengths and can fail at a chosen call (injected fault).
use serde::de::{self, DeserializeSeed, EnumAccess, SeqAccess, VariantAccess, Visitor};
use serde::{ser, Serialize};
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum BErr {
  Injected,
  Eof,
  BadLen(String),
  Msg(String),
}
impl fmt::Display for BErr {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "{:?}", self)
  }
}
impl std::error::Error for BErr {}
impl ser::Error for BErr {
  fn custom<T: fmt::Display>(m: T) -> Self {
    BErr::Msg(m.to_string())
  }
}
impl de::Error for BErr {
  fn custom<T: fmt::Display>(m: T) -> Self {
    BErr::Msg(m.to_string())
  }
}

pub struct BinSer {
  pub out: Vec<u8>,
  /// remaining calls before the injected failure
  pub fuel: u64,
  pub calls: u64,
  pub bad_len: Option<String>,
}
impl BinSer {
  pub fn new(fuel: u64) -> Self {
    BinSer { out: vec![], fuel, calls: 0, bad_len: None }
  }
  fn tick(&mut self) -> Result<(), BErr> {
    self.calls += 1;
    if self.fuel == 0 {
      return Err(BErr::Injected);
    }
    self.fuel -= 1;
    Ok(())
  }
  fn u(&mut self, x: u64) {
    self.out.extend_from_slice(&x.to_le_bytes());
  }
}
pub struct Comp<'a> {
  s: &'a mut BinSer,
  want: usize,
  got: usize,
  what: &'static str,
}
impl<'a> Comp<'a> {
  fn el<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), BErr> {
    self.got += 1;
    v.serialize(&mut *self.s)
  }
  fn fin(self) -> Result<(), BErr> {
    self.s.tick()?;
    if self.want != self.got {
      self.s.bad_len = Some(format!("{} announced {} elements, wrote {}", self.what, self.want, self.got));
    }
    Ok(())
  }
}
macro_rules! num {
  ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), BErr> { self.tick()?; self.u(v as u64); Ok(()) })* };
}
impl<'a> ser::Serializer for &'a mut BinSer {
  type Ok = ();
  type Error = BErr;
  type SerializeSeq = Comp<'a>;
  type SerializeTuple = Comp<'a>;
  type SerializeTupleStruct = Comp<'a>;
  type SerializeTupleVariant = Comp<'a>;
  type SerializeMap = Comp<'a>;
  type SerializeStruct = Comp<'a>;
  type SerializeStructVariant = Comp<'a>;
  num!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_char char);
  fn serialize_f32(self, v: f32) -> Result<(), BErr> {
    self.serialize_u32(v.to_bits())
  }
  fn serialize_f64(self, v: f64) -> Result<(), BErr> {
    self.serialize_u64(v.to_bits())
  }
  fn serialize_str(self, v: &str) -> Result<(), BErr> {
    self.serialize_bytes(v.as_bytes())
  }
  fn serialize_bytes(self, v: &[u8]) -> Result<(), BErr> {
    self.tick()?;
    self.u(v.len() as u64);
    self.out.extend_from_slice(v);
    Ok(())
  }
  fn serialize_none(self) -> Result<(), BErr> {
    self.tick()?;
    self.out.push(0);
    Ok(())
  }
  fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), BErr> {
    self.tick()?;
    self.out.push(1);
    v.serialize(self)
  }
  fn serialize_unit(self) -> Result<(), BErr> {
    self.tick()
  }
  fn serialize_unit_struct(self, _: &'static str) -> Result<(), BErr> {
    self.tick()
  }
  fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), BErr> {
    self.tick()?;
    self.u(i as u64);
    Ok(())
  }
  fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), BErr> {
    self.tick()?;
    v.serialize(self)
  }
  fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), BErr> {
    self.tick()?;
    self.u(i as u64);
    v.serialize(self)
  }
  fn serialize_seq(self, len: Option<usize>) -> Result<Comp<'a>, BErr> {
    self.tick()?;
    let len = len.ok_or_else(|| BErr::BadLen("sequence of unknown length".into()))?;
    self.u(len as u64);
    Ok(Comp { s: self, want: len, got: 0, what: "sequence" })
  }
  fn serialize_tuple(self, len: usize) -> Result<Comp<'a>, BErr> {
    self.tick()?;
    Ok(Comp { s: self, want: len, got: 0, what: "tuple" })
  }
  fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<Comp<'a>, BErr> {
    self.serialize_tuple(len)
  }
  fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, len: usize) -> Result<Comp<'a>, BErr> {
    self.u(i as u64);
    self.serialize_tuple(len)
  }
  fn serialize_map(self, len: Option<usize>) -> Result<Comp<'a>, BErr> {
    self.serialize_seq(len)
  }
  fn serialize_struct(self, _: &'static str, len: usize) -> Result<Comp<'a>, BErr> {
    self.tick()?;
    Ok(Comp { s: self, want: len, got: 0, what: "struct" })
  }
  fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, len: usize) -> Result<Comp<'a>, BErr> {
    self.u(i as u64);
    self.serialize_struct("", len)
  }
  fn is_human_readable(&self) -> bool {
    false
  }
}
impl<'a> ser::SerializeSeq for Comp<'a> {
  type Ok = ();
  type Error = BErr;
  fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), BErr> {
    self.el(v)
  }
  fn end(self) -> Result<(), BErr> {
    self.fin()
  }
}
impl<'a> ser::SerializeTuple for Comp<'a> {
  type Ok = ();
  type Error = BErr;
  fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), BErr> {
    self.el(v)
  }
  fn end(self) -> Result<(), BErr> {
    self.fin()
  }
}
impl<'a> ser::SerializeTupleStruct for Comp<'a> {
  type Ok = ();
  type Error = BErr;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), BErr> {
    self.el(v)
  }
  fn end(self) -> Result<(), BErr> {
    self.fin()
  }
}
impl<'a> ser::SerializeTupleVariant for Comp<'a> {
  type Ok = ();
  type Error = BErr;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), BErr> {
    self.el(v)
  }
  fn end(self) -> Result<(), BErr> {
    self.fin()
  }
}
impl<'a> ser::SerializeMap for Comp<'a> {
  type Ok = ();
  type Error = BErr;
  fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), BErr> {
    self.el(v)
  }
  fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), BErr> {
    v.serialize(&mut *self.s)
  }
  fn end(self) -> Result<(), BErr> {
    self.fin()
  }
}
impl<'a> ser::SerializeStruct for Comp<'a> {
  type Ok = ();
  type Error = BErr;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), BErr> {
    self.el(v)
  }
  fn end(self) -> Result<(), BErr> {
    self.fin()
  }
}
impl<'a> ser::SerializeStructVariant for Comp<'a> {
  type Ok = ();
  type Error = BErr;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), BErr> {
    self.el(v)
  }
  fn end(self) -> Result<(), BErr> {
    self.fin()
  }
}

pub struct BinDe<'de> {
  pub b: &'de [u8],
}
impl<'de> BinDe<'de> {
  fn take(&mut self, n: usize) -> Result<&'de [u8], BErr> {
    if n > self.b.len() {
      return Err(BErr::Eof);
    }
    let (x, y) = self.b.split_at(n);
    self.b = y;
    Ok(x)
  }
  fn u(&mut self) -> Result<u64, BErr> {
    Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
  }
}
macro_rules! denum {
  ($($f:ident $v:ident $t:ty),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BErr> { let x = self.u()?; v.$v(x as $t) })* };
}
struct Els<'a, 'de> {
  d: &'a mut BinDe<'de>,
  n: usize,
}
impl<'a, 'de> SeqAccess<'de> for Els<'a, 'de> {
  type Error = BErr;
  fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, BErr> {
    if self.n == 0 {
      return Ok(None);
    }
    self.n -= 1;
    s.deserialize(&mut *self.d).map(Some)
  }
  fn size_hint(&self) -> Option<usize> {
    Some(self.n.min(self.d.b.len()))
  }
}
impl<'de> de::Deserializer<'de> for &mut BinDe<'de> {
  type Error = BErr;
  denum!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);
  fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, BErr> {
    Err(BErr::Msg("not self-describing".into()))
  }
  fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BErr> {
    let x = self.u()?;
    v.visit_bool(x != 0)
  }
  fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BErr> {
    let x = self.u()?;
    v.visit_f32(f32::from_bits(x as u32))
  }
  fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BErr> {
    let x = self.u()?;
    v.visit_f64(f64::from_bits(x))
  }
  fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BErr> {
    let x = self.u()?;
    v.visit_char(char::from_u32(x as u32).ok_or(BErr::Eof)?)
  }
  fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BErr> {
    let n = self.u()? as usize;
    let b = self.take(n)?;
    v.visit_borrowed_str(std::str::from_utf8(b).map_err(|e| BErr::Msg(e.to_string()))?)
  }
  fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BErr> {
    self.deserialize_str(v)
  }
  fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BErr> {
    let n = self.u()? as usize;
    v.visit_borrowed_bytes(self.take(n)?)
  }
  fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BErr> {
    self.deserialize_bytes(v)
  }
  fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BErr> {
    if self.take(1)?[0] == 0 {
      v.visit_none()
    } else {
      v.visit_some(self)
    }
  }
  fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BErr> {
    v.visit_unit()
  }
  fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, BErr> {
    v.visit_unit()
  }
  fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, BErr> {
    v.visit_newtype_struct(self)
  }
  fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BErr> {
    let n = self.u()? as usize;
    v.visit_seq(Els { d: self, n })
  }
  fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, BErr> {
    v.visit_seq(Els { d: self, n })
  }
  fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, BErr> {
    v.visit_seq(Els { d: self, n })
  }
  fn deserialize_map<V: Visitor<'de>>(self, _: V) -> Result<V::Value, BErr> {
    Err(BErr::Msg("maps unused".into()))
  }
  fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, BErr> {
    v.visit_seq(Els { d: self, n: f.len() })
  }
  fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, BErr> {
    v.visit_enum(self)
  }
  fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> Result<V::Value, BErr> {
    Err(BErr::Msg("identifier".into()))
  }
  fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, BErr> {
    Err(BErr::Msg("ignored".into()))
  }
  fn is_human_readable(&self) -> bool {
    false
  }
}
impl<'de> EnumAccess<'de> for &mut BinDe<'de> {
  type Error = BErr;
  type Variant = Self;
  fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), BErr> {
    let i = self.u()? as u32;
    let v = s.deserialize(de::value::U32Deserializer::<BErr>::new(i))?;
    Ok((v, self))
  }
}
impl<'de> VariantAccess<'de> for &mut BinDe<'de> {
  type Error = BErr;
  fn unit_variant(self) -> Result<(), BErr> {
    Ok(())
  }
  fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, BErr> {
    s.deserialize(self)
  }
  fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, BErr> {
    v.visit_seq(Els { d: self, n })
  }
  fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, BErr> {
    v.visit_seq(Els { d: self, n: f.len() })
  }
}
