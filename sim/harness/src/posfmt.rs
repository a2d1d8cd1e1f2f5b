//! A positional, not self-describing binary format (in the manner of bincode)
//! that reads from any reader: a loader gets back only what the types on both
//! sides agree on.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;
use std::io::Read;

#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}

pub fn save<T: Serialize>(v: &T) -> Result<Vec<u8>, E> {
    let mut s = S { o: vec![], one_nan: false };
    v.serialize(&mut s)?;
    Ok(s.o)
}
/// As `save`, with every NaN the same NaN.
pub fn save_canon<T: Serialize>(v: &T) -> Result<Vec<u8>, E> {
    let mut s = S { o: vec![], one_nan: true };
    v.serialize(&mut s)?;
    Ok(s.o)
}
/// Loads and requires the whole input to be used.
pub fn load<T: de::DeserializeOwned>(r: &mut dyn Read) -> Result<T, E> {
    let mut d = D { r };
    let v = T::deserialize(&mut d)?;
    let mut b = [0u8; 1];
    loop {
        match d.r.read(&mut b) {
            Ok(0) => return Ok(v),
            Ok(_) => return Err(E("trailing bytes".into())),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) => return Err(E(e.to_string())),
        }
    }
}

pub struct S {
    o: Vec<u8>,
    one_nan: bool,
}
macro_rules! put {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), E> { self.o.extend_from_slice(&v.to_le_bytes()); Ok(()) })* };
}
impl<'a> ser::Serializer for &'a mut S {
    type Ok = ();
    type Error = E;
    type SerializeSeq = &'a mut S;
    type SerializeTuple = &'a mut S;
    type SerializeTupleStruct = &'a mut S;
    type SerializeTupleVariant = &'a mut S;
    type SerializeMap = &'a mut S;
    type SerializeStruct = &'a mut S;
    type SerializeStructVariant = &'a mut S;
    fn is_human_readable(&self) -> bool {
        false
    }
    put!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f64 f64);
    fn serialize_f32(self, v: f32) -> Result<(), E> {
        let v = if self.one_nan && v.is_nan() { f32::from_bits(0x7fc0_0000) } else { v };
        self.o.extend_from_slice(&v.to_le_bytes());
        Ok(())
    }
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.o.push(v as u8);
        Ok(())
    }
    fn serialize_char(self, v: char) -> Result<(), E> {
        (v as u32).serialize(self)
    }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.o.extend_from_slice(&(v.len() as u32).to_le_bytes());
        self.o.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> {
        self.o.push(0);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> {
        self.o.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        i.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), E> {
        i.serialize(&mut *self)?;
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<&'a mut S, E> {
        match n {
            Some(n) => {
                (n as u32).serialize(&mut *self)?;
                Ok(self)
            }
            None => Err(E("length needed".into())),
        }
    }
    fn serialize_tuple(self, _: usize) -> Result<&'a mut S, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<&'a mut S, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<&'a mut S, E> {
        i.serialize(&mut *self)?;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<&'a mut S, E> {
        self.serialize_seq(n)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<&'a mut S, E> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<&'a mut S, E> {
        i.serialize(&mut *self)?;
        Ok(self)
    }
}
macro_rules! seq {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for &mut S {
        type Ok = ();
        type Error = E;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
        fn end(self) -> Result<(), E> { Ok(()) }
    })* };
}
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for &mut S {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
macro_rules! fields {
    ($($t:ident),*) => { $(impl ser::$t for &mut S {
        type Ok = ();
        type Error = E;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
        fn end(self) -> Result<(), E> { Ok(()) }
    })* };
}
fields!(SerializeStruct, SerializeStructVariant);

pub struct D<'r> {
    r: &'r mut dyn Read,
}
impl D<'_> {
    fn get<const N: usize>(&mut self) -> Result<[u8; N], E> {
        let mut b = [0u8; N];
        self.r.read_exact(&mut b).map_err(|e| E(e.to_string()))?;
        Ok(b)
    }
    fn len(&mut self) -> Result<usize, E> {
        Ok(u32::from_le_bytes(self.get()?) as usize)
    }
    fn bytes(&mut self) -> Result<Vec<u8>, E> {
        let n = self.len()?;
        let mut v = vec![];
        let mut left = n;
        let mut buf = [0u8; 256];
        while left > 0 {
            let k = left.min(buf.len());
            self.r.read_exact(&mut buf[..k]).map_err(|e| E(e.to_string()))?;
            v.extend_from_slice(&buf[..k]);
            left -= k;
        }
        Ok(v)
    }
}
macro_rules! take {
    ($($f:ident $v:ident $t:ty),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let b = self.get()?; v.$v(<$t>::from_le_bytes(b)) })* };
}
struct Count<'a, 'r>(&'a mut D<'r>, usize);
impl<'de> de::SeqAccess<'de> for Count<'_, '_> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.1)
    }
}
impl<'de> de::MapAccess<'de> for Count<'_, '_> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(&mut *self.0)
    }
}
impl<'de, 'a, 'r> de::EnumAccess<'de> for &'a mut D<'r> {
    type Error = E;
    type Variant = &'a mut D<'r>;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self::Variant), E> {
        let i = u32::from_le_bytes(self.get()?);
        let v = s.deserialize(IntoDeserializer::<E>::into_deserializer(i))?;
        Ok((v, self))
    }
}
impl<'de> de::VariantAccess<'de> for &mut D<'_> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Count(self, n))
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Count(self, f.len()))
    }
}
impl<'de> de::Deserializer<'de> for &mut D<'_> {
    type Error = E;
    fn is_human_readable(&self) -> bool {
        false
    }
    take!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
        deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64,
        deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("the format does not describe itself".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("the format does not describe itself".into()))
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("the format has no names".into()))
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.get::<1>()?[0] {
            0 => v.visit_bool(false),
            1 => v.visit_bool(true),
            x => Err(E(format!("{x} is no bool"))),
        }
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let c = u32::from_le_bytes(self.get()?);
        v.visit_char(char::from_u32(c).ok_or_else(|| E("no char".into()))?)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_string(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_string(String::from_utf8(self.bytes()?).map_err(|e| E(e.to_string()))?)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_byte_buf(self.bytes()?)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_byte_buf(self.bytes()?)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.get::<1>()?[0] {
            0 => v.visit_none(),
            1 => v.visit_some(self),
            x => Err(E(format!("{x} is no option"))),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.len()?;
        v.visit_seq(Count(self, n))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Count(self, n))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Count(self, n))
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.len()?;
        v.visit_map(Count(self, n))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Count(self, f.len()))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_enum(self)
    }
}
