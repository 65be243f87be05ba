//! A self-describing serde data format kept in memory, as a list of tokens.

use core::fmt;

use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use serde::{Deserialize, Deserializer};

#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    Bool(bool),
    Int(u64, u8),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some,
    Unit,
    Seq,
    Map,
    Variant(&'static str),
    End,
}

pub struct SerErr;
impl fmt::Debug for SerErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("serde error") }
}
impl fmt::Display for SerErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("serde error") }
}
impl std::error::Error for SerErr {}
impl ser::Error for SerErr {
    fn custom<T: fmt::Display>(_: T) -> Self { SerErr }
}
impl de::Error for SerErr {
    fn custom<T: fmt::Display>(_: T) -> Self { SerErr }
}

pub fn write<T: Serialize>(v: &T, human: bool) -> Result<Vec<Tok>, SerErr> {
    let mut w = Writer { out: vec![], human };
    v.serialize(&mut w)?;
    Ok(w.out)
}
/// Returns the value and how many tokens it took.
pub fn read<T: for<'d> Deserialize<'d>>(toks: &[Tok], human: bool) -> Result<(T, usize), SerErr> {
    let mut r = Reader { toks, at: 0, human };
    let v = T::deserialize(&mut r)?;
    Ok((v, r.at))
}

pub struct Writer {
    out: Vec<Tok>,
    human: bool,
}
macro_rules! ints {
    ($($f:ident $t:ty, $n:expr;)*) => { $(fn $f(self, v: $t) -> Result<(), SerErr> { self.out.push(Tok::Int(v as u64, $n)); Ok(()) })* };
}
impl<'a> ser::Serializer for &'a mut Writer {
    type Ok = ();
    type Error = SerErr;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    ints! { serialize_u8 u8, 1; serialize_u16 u16, 2; serialize_u32 u32, 4; serialize_u64 u64, 8;
            serialize_i8 i8, 11; serialize_i16 i16, 12; serialize_i32 i32, 14; serialize_i64 i64, 18; }
    fn is_human_readable(&self) -> bool { self.human }
    fn serialize_bool(self, v: bool) -> Result<(), SerErr> {
        self.out.push(Tok::Bool(v));
        Ok(())
    }
    fn serialize_f32(self, _: f32) -> Result<(), SerErr> { Err(SerErr) }
    fn serialize_f64(self, _: f64) -> Result<(), SerErr> { Err(SerErr) }
    fn serialize_char(self, _: char) -> Result<(), SerErr> { Err(SerErr) }
    fn serialize_str(self, v: &str) -> Result<(), SerErr> {
        self.out.push(Tok::Str(v.to_string()));
        Ok(())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), SerErr> {
        self.out.push(Tok::Bytes(v.to_vec()));
        Ok(())
    }
    fn serialize_none(self) -> Result<(), SerErr> {
        self.out.push(Tok::None);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), SerErr> {
        self.out.push(Tok::Some);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), SerErr> {
        self.out.push(Tok::Unit);
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), SerErr> { self.serialize_unit() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), SerErr> {
        self.out.push(Tok::Variant(v));
        self.serialize_unit()
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), SerErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self, _: &'static str, _: u32, n: &'static str, v: &T,
    ) -> Result<(), SerErr> {
        self.out.push(Tok::Variant(n));
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, SerErr> {
        self.out.push(Tok::Seq);
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, SerErr> { self.serialize_seq(None) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, SerErr> { self.serialize_seq(None) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Self, SerErr> {
        self.out.push(Tok::Variant(n));
        self.serialize_seq(None)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, SerErr> {
        self.out.push(Tok::Map);
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, SerErr> { self.serialize_map(None) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Self, SerErr> {
        self.out.push(Tok::Variant(n));
        self.serialize_map(None)
    }
}
impl Writer {
    fn end(&mut self) -> Result<(), SerErr> {
        self.out.push(Tok::End);
        Ok(())
    }
}
macro_rules! seqs {
    ($($t:ident $f:ident;)*) => { $(impl<'a> ser::$t for &'a mut Writer {
        type Ok = ();
        type Error = SerErr;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> { v.serialize(&mut **self) }
        fn end(self) -> Result<(), SerErr> { Writer::end(self) }
    })* };
}
seqs! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; SerializeTupleVariant serialize_field; }
macro_rules! structs {
    ($($t:ident;)*) => { $(impl<'a> ser::$t for &'a mut Writer {
        type Ok = ();
        type Error = SerErr;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SerErr> {
            self.out.push(Tok::Str(k.to_string()));
            v.serialize(&mut **self)
        }
        fn end(self) -> Result<(), SerErr> { Writer::end(self) }
    })* };
}
structs! { SerializeStruct; SerializeStructVariant; }
impl<'a> ser::SerializeMap for &'a mut Writer {
    type Ok = ();
    type Error = SerErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> { v.serialize(&mut **self) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), SerErr> { Writer::end(self) }
}

pub struct Reader<'t> {
    toks: &'t [Tok],
    at: usize,
    human: bool,
}
impl<'t> Reader<'t> {
    fn next(&mut self) -> Result<&'t Tok, SerErr> {
        let t = self.toks.get(self.at).ok_or(SerErr)?;
        self.at += 1;
        Ok(t)
    }
    fn peek(&self) -> Option<&'t Tok> { self.toks.get(self.at) }
}
impl<'de, 'a, 't> Deserializer<'de> for &'a mut Reader<'t> {
    type Error = SerErr;
    fn is_human_readable(&self) -> bool { self.human }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SerErr> {
        match self.next()? {
            Tok::Bool(b) => v.visit_bool(*b),
            Tok::Int(x, 1) => v.visit_u8(*x as u8),
            Tok::Int(x, 2) => v.visit_u16(*x as u16),
            Tok::Int(x, 4) => v.visit_u32(*x as u32),
            Tok::Int(x, 8) => v.visit_u64(*x),
            Tok::Int(x, _) => v.visit_i64(*x as i64),
            Tok::Str(s) => v.visit_str(s),
            Tok::Bytes(b) => v.visit_bytes(b),
            Tok::None => v.visit_none(),
            Tok::Some => v.visit_some(self),
            Tok::Unit => v.visit_unit(),
            Tok::Seq => {
                let x = v.visit_seq(&mut *self)?;
                self.close()?;
                Ok(x)
            }
            Tok::Map => {
                let x = v.visit_map(&mut *self)?;
                self.close()?;
                Ok(x)
            }
            Tok::Variant(_) => {
                self.at -= 1;
                v.visit_enum(self)
            }
            Tok::End => Err(SerErr),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SerErr> {
        match self.peek() {
            Some(Tok::None | Tok::Some) => self.deserialize_any(v),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, SerErr> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self, _: &'static str, _: &'static [&'static str], v: V,
    ) -> Result<V::Value, SerErr> {
        v.visit_enum(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct
        tuple_struct map struct identifier ignored_any
    }
    // a dependency writes bytes where it reads a sequence of them
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SerErr> {
        match self.peek() {
            Some(Tok::Bytes(b)) => {
                self.at += 1;
                let mut d = de::value::SeqDeserializer::<_, SerErr>::new(b.iter().copied());
                let x = v.visit_seq(&mut d)?;
                d.end()?;
                Ok(x)
            }
            _ => self.deserialize_any(v),
        }
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, SerErr> { self.deserialize_seq(v) }
}
impl<'t> Reader<'t> {
    fn close(&mut self) -> Result<(), SerErr> {
        match self.next()? {
            Tok::End => Ok(()),
            _ => Err(SerErr),
        }
    }
    fn more(&self) -> bool { !matches!(self.peek(), Some(Tok::End) | None) }
}
impl<'de, 'a, 't> SeqAccess<'de> for &'a mut Reader<'t> {
    type Error = SerErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SerErr> {
        if self.more() {
            seed.deserialize(&mut **self).map(Some)
        } else {
            Ok(None)
        }
    }
}
impl<'de, 'a, 't> MapAccess<'de> for &'a mut Reader<'t> {
    type Error = SerErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, SerErr> {
        if self.more() {
            seed.deserialize(&mut **self).map(Some)
        } else {
            Ok(None)
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, SerErr> {
        seed.deserialize(&mut **self)
    }
}
impl<'de, 'a, 't> EnumAccess<'de> for &'a mut Reader<'t> {
    type Error = SerErr;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Self), SerErr> {
        match self.next()? {
            Tok::Variant(n) => {
                let d: de::value::StrDeserializer<'_, SerErr> = (*n).into_deserializer();
                Ok((seed.deserialize(d)?, self))
            }
            _ => Err(SerErr),
        }
    }
}
impl<'de, 'a, 't> VariantAccess<'de> for &'a mut Reader<'t> {
    type Error = SerErr;
    fn unit_variant(self) -> Result<(), SerErr> {
        match self.next()? {
            Tok::Unit => Ok(()),
            _ => Err(SerErr),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, SerErr> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, SerErr> { self.deserialize_any(v) }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, SerErr> {
        self.deserialize_any(v)
    }
}
