//! A recording format that stores values only: no names, no types, not human-readable, little endian.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::{self, Display};
use std::io::{Read, Write};

#[derive(Debug)]
pub struct Failure(pub String);
impl Display for Failure {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Failure {}
impl ser::Error for Failure {
    fn custom<T: Display>(m: T) -> Self {
        Failure(m.to_string())
    }
}
impl de::Error for Failure {
    fn custom<T: Display>(m: T) -> Self {
        Failure(m.to_string())
    }
}
type Res<T> = Result<T, Failure>;

pub struct Out<W: Write>(pub W);
impl<W: Write> Out<W> {
    fn put(&mut self, b: &[u8]) -> Res<()> {
        self.0.write_all(b).map_err(|e| Failure(e.to_string()))
    }
}
macro_rules! put {
    ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Res<()> { self.put(&v.to_le_bytes()) } )* };
}
impl<'a, W: Write> ser::Serializer for &'a mut Out<W> {
    type Ok = ();
    type Error = Failure;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    put!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
         serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_i128 i128, serialize_u128 u128);
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> Res<()> {
        self.put(&[v as u8])
    }
    fn serialize_char(self, v: char) -> Res<()> {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> Res<()> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Res<()> {
        self.put(&(v.len() as u64).to_le_bytes())?;
        self.put(v)
    }
    fn serialize_none(self) -> Res<()> {
        self.put(&[0])
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Res<()> {
        self.put(&[1])?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Res<()> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Res<()> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Res<()> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Res<()> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Res<()> {
        self.put(&i.to_le_bytes())?;
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Res<Self> {
        self.put(&(n.ok_or(Failure("length unknown".into()))? as u64).to_le_bytes())?;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Res<Self> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Res<Self> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Res<Self> {
        self.put(&i.to_le_bytes())?;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Res<Self> {
        self.serialize_seq(n)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Res<Self> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Res<Self> {
        self.put(&i.to_le_bytes())?;
        Ok(self)
    }
}
macro_rules! each {
    ($($t:ident $f:ident),*) => { $( impl<'a, W: Write> ser::$t for &'a mut Out<W> {
        type Ok = ();
        type Error = Failure;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> { v.serialize(&mut **self) }
        fn end(self) -> Res<()> { Ok(()) }
    } )* };
}
each!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! named {
    ($($t:ident),*) => { $( impl<'a, W: Write> ser::$t for &'a mut Out<W> {
        type Ok = ();
        type Error = Failure;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Res<()> { v.serialize(&mut **self) }
        fn end(self) -> Res<()> { Ok(()) }
    } )* };
}
named!(SerializeStruct, SerializeStructVariant);
impl<'a, W: Write> ser::SerializeMap for &'a mut Out<W> {
    type Ok = ();
    type Error = Failure;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Res<()> {
        Ok(())
    }
}

pub struct In<R: Read>(pub R);
impl<R: Read> In<R> {
    fn take<const N: usize>(&mut self) -> Res<[u8; N]> {
        let mut b = [0; N];
        self.0.read_exact(&mut b).map_err(|e| Failure(e.to_string()))?;
        Ok(b)
    }
    fn bytes(&mut self) -> Res<Vec<u8>> {
        let n = u64::from_le_bytes(self.take()?);
        if n > 1 << 16 {
            return Err(Failure("absurd length".into()));
        }
        let mut b = vec![0; n as usize];
        self.0.read_exact(&mut b).map_err(|e| Failure(e.to_string()))?;
        Ok(b)
    }
}
struct Some_<'a, R: Read>(&'a mut In<R>, u64);
impl<'de, 'a, R: Read> de::SeqAccess<'de> for Some_<'a, R> {
    type Error = Failure;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Res<Option<T::Value>> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
}
impl<'de, 'a, R: Read> de::MapAccess<'de> for Some_<'a, R> {
    type Error = Failure;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Res<Option<T::Value>> {
        de::SeqAccess::next_element_seed(self, s)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Res<T::Value> {
        s.deserialize(&mut *self.0)
    }
}
macro_rules! take {
    ($($f:ident $v:ident $t:ty),*) => { $( fn $f<V: Visitor<'de>>(self, v: V) -> Res<V::Value> { v.$v(<$t>::from_le_bytes(self.take()?)) } )* };
}
impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut In<R> {
    type Error = Failure;
    take!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
          deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64,
          deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64, deserialize_i128 visit_i128 i128, deserialize_u128 visit_u128 u128);
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Res<V::Value> {
        Err(Failure("the format does not say what there is".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        self.deserialize_any(v)
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        self.deserialize_any(v)
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        match self.take::<1>()? {
            [0] => v.visit_bool(false),
            [1] => v.visit_bool(true),
            _ => Err(Failure("not a truth value".into())),
        }
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        v.visit_char(char::from_u32(u32::from_le_bytes(self.take()?)).ok_or(Failure("not a character".into()))?)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        v.visit_string(String::from_utf8(self.bytes()?).map_err(|e| Failure(e.to_string()))?)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        v.visit_byte_buf(self.bytes()?)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        match self.take::<1>()? {
            [0] => v.visit_none(),
            [1] => v.visit_some(self),
            _ => Err(Failure("not an option".into())),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Res<V::Value> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Res<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let n = u64::from_le_bytes(self.take()?);
        v.visit_seq(Some_(self, n))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Res<V::Value> {
        v.visit_seq(Some_(self, n as u64))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Res<V::Value> {
        self.deserialize_tuple(n, v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let n = u64::from_le_bytes(self.take()?);
        v.visit_map(Some_(self, n))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Res<V::Value> {
        self.deserialize_tuple(f.len(), v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Res<V::Value> {
        v.visit_enum(self)
    }
}
impl<'de, 'a, R: Read> de::EnumAccess<'de> for &'a mut In<R> {
    type Error = Failure;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Res<(T::Value, Self)> {
        let i = u32::from_le_bytes(self.take()?);
        let d: de::value::U32Deserializer<Failure> = i.into_deserializer();
        Ok((s.deserialize(d)?, self))
    }
}
impl<'de, 'a, R: Read> de::VariantAccess<'de> for &'a mut In<R> {
    type Error = Failure;
    fn unit_variant(self) -> Res<()> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Res<T::Value> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Res<V::Value> {
        de::Deserializer::deserialize_tuple(self, n, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Res<V::Value> {
        de::Deserializer::deserialize_tuple(self, f.len(), v)
    }
}
