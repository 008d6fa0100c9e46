//! A self-describing tree (`Value`) that any serde type can be turned into and built back from,
//! plus a canonical byte encoding of it. Both wire formats of this crate are made from it, so that
//! a message can be taken apart, changed at a chosen place and put together again without
//! knowing its Rust type.

use core::fmt;
use serde::{
    de::{self, value::StrDeserializer, DeserializeSeed, IntoDeserializer, Visitor},
    ser, Deserialize, Serialize,
};

#[derive(Debug, Clone, PartialEq)]
pub enum Value {
    Unit,
    Bool(bool),
    U(u128),
    I(i128),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Value>),
    Seq(Vec<Value>),
    /// A map with arbitrary keys, or a struct (then the keys are `Str`).
    Map(Vec<(Value, Value)>),
    /// Enum variant
    Variant(String, Box<Value>),
}

#[derive(Debug, Clone)]
pub struct Error(pub String);

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        Error(msg.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        Error(msg.to_string())
    }
}

pub fn to_value<T: Serialize + ?Sized>(x: &T, human_readable: bool) -> Result<Value, Error> {
    x.serialize(Ser { hr: human_readable })
}

pub fn from_value<T: for<'de> Deserialize<'de>>(v: &Value, human_readable: bool) -> Result<T, Error> {
    T::deserialize(De { v, hr: human_readable })
}

// ---------------------------------------------------------------- serialization

#[derive(Clone, Copy)]
struct Ser {
    hr: bool,
}

pub struct SerSeq {
    hr: bool,
    out: Vec<Value>,
    variant: Option<String>,
}
pub struct SerMap {
    hr: bool,
    out: Vec<(Value, Value)>,
    key: Option<Value>,
    variant: Option<String>,
}

fn wrap(variant: Option<String>, v: Value) -> Value {
    match variant {
        Some(name) => Value::Variant(name, Box::new(v)),
        None => v,
    }
}

impl ser::Serializer for Ser {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = SerSeq;
    type SerializeTuple = SerSeq;
    type SerializeTupleStruct = SerSeq;
    type SerializeTupleVariant = SerSeq;
    type SerializeMap = SerMap;
    type SerializeStruct = SerMap;
    type SerializeStructVariant = SerMap;

    fn is_human_readable(&self) -> bool {
        self.hr
    }
    fn serialize_bool(self, v: bool) -> Result<Value, Error> {
        Ok(Value::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Value, Error> {
        self.serialize_i128(v.into())
    }
    fn serialize_i16(self, v: i16) -> Result<Value, Error> {
        self.serialize_i128(v.into())
    }
    fn serialize_i32(self, v: i32) -> Result<Value, Error> {
        self.serialize_i128(v.into())
    }
    fn serialize_i64(self, v: i64) -> Result<Value, Error> {
        self.serialize_i128(v.into())
    }
    fn serialize_i128(self, v: i128) -> Result<Value, Error> {
        Ok(Value::I(v))
    }
    fn serialize_u8(self, v: u8) -> Result<Value, Error> {
        self.serialize_u128(v.into())
    }
    fn serialize_u16(self, v: u16) -> Result<Value, Error> {
        self.serialize_u128(v.into())
    }
    fn serialize_u32(self, v: u32) -> Result<Value, Error> {
        self.serialize_u128(v.into())
    }
    fn serialize_u64(self, v: u64) -> Result<Value, Error> {
        self.serialize_u128(v.into())
    }
    fn serialize_u128(self, v: u128) -> Result<Value, Error> {
        Ok(Value::U(v))
    }
    fn serialize_f32(self, _v: f32) -> Result<Value, Error> {
        Err(Error("floats are not supported".into()))
    }
    fn serialize_f64(self, _v: f64) -> Result<Value, Error> {
        Err(Error("floats are not supported".into()))
    }
    fn serialize_char(self, v: char) -> Result<Value, Error> {
        Ok(Value::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Value, Error> {
        Ok(Value::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Value, Error> {
        Ok(Value::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<Value, Error> {
        Ok(Value::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Value, Error> {
        Ok(Value::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Value, Error> {
        Ok(Value::Unit)
    }
    fn serialize_unit_struct(self, _name: &'static str) -> Result<Value, Error> {
        Ok(Value::Unit)
    }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, variant: &'static str) -> Result<Value, Error> {
        Ok(Value::Variant(variant.into(), Box::new(Value::Unit)))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _n: &'static str, v: &T) -> Result<Value, Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _n: &'static str,
        _i: u32,
        variant: &'static str,
        v: &T,
    ) -> Result<Value, Error> {
        Ok(Value::Variant(variant.into(), Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, _len: Option<usize>) -> Result<SerSeq, Error> {
        Ok(SerSeq {
            hr: self.hr,
            out: Vec::new(),
            variant: None,
        })
    }
    fn serialize_tuple(self, len: usize) -> Result<SerSeq, Error> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_struct(self, _n: &'static str, len: usize) -> Result<SerSeq, Error> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_variant(
        self,
        _n: &'static str,
        _i: u32,
        variant: &'static str,
        _len: usize,
    ) -> Result<SerSeq, Error> {
        Ok(SerSeq {
            hr: self.hr,
            out: Vec::new(),
            variant: Some(variant.into()),
        })
    }
    fn serialize_map(self, _len: Option<usize>) -> Result<SerMap, Error> {
        Ok(SerMap {
            hr: self.hr,
            out: Vec::new(),
            key: None,
            variant: None,
        })
    }
    fn serialize_struct(self, _n: &'static str, len: usize) -> Result<SerMap, Error> {
        self.serialize_map(Some(len))
    }
    fn serialize_struct_variant(
        self,
        _n: &'static str,
        _i: u32,
        variant: &'static str,
        _len: usize,
    ) -> Result<SerMap, Error> {
        Ok(SerMap {
            hr: self.hr,
            out: Vec::new(),
            key: None,
            variant: Some(variant.into()),
        })
    }
}

impl SerSeq {
    fn push<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.out.push(v.serialize(Ser { hr: self.hr })?);
        Ok(())
    }
    fn done(self) -> Result<Value, Error> {
        Ok(wrap(self.variant, Value::Seq(self.out)))
    }
}
impl ser::SerializeSeq for SerSeq {
    type Ok = Value;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.push(v)
    }
    fn end(self) -> Result<Value, Error> {
        self.done()
    }
}
impl ser::SerializeTuple for SerSeq {
    type Ok = Value;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.push(v)
    }
    fn end(self) -> Result<Value, Error> {
        self.done()
    }
}
impl ser::SerializeTupleStruct for SerSeq {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.push(v)
    }
    fn end(self) -> Result<Value, Error> {
        self.done()
    }
}
impl ser::SerializeTupleVariant for SerSeq {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.push(v)
    }
    fn end(self) -> Result<Value, Error> {
        self.done()
    }
}
impl ser::SerializeMap for SerMap {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        self.key = Some(k.serialize(Ser { hr: self.hr })?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.key.take().ok_or_else(|| Error("a map value without a key".into()))?;
        self.out.push((k, v.serialize(Ser { hr: self.hr })?));
        Ok(())
    }
    fn end(self) -> Result<Value, Error> {
        Ok(wrap(self.variant, Value::Map(self.out)))
    }
}
impl ser::SerializeStruct for SerMap {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.out.push((Value::Str(k.into()), v.serialize(Ser { hr: self.hr })?));
        Ok(())
    }
    fn end(self) -> Result<Value, Error> {
        Ok(wrap(self.variant, Value::Map(self.out)))
    }
}
impl ser::SerializeStructVariant for SerMap {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.out.push((Value::Str(k.into()), v.serialize(Ser { hr: self.hr })?));
        Ok(())
    }
    fn end(self) -> Result<Value, Error> {
        Ok(wrap(self.variant, Value::Map(self.out)))
    }
}

// ---------------------------------------------------------------- deserialization

#[derive(Clone, Copy)]
struct De<'a> {
    v: &'a Value,
    hr: bool,
}

impl<'a> De<'a> {
    fn at(&self, v: &'a Value) -> De<'a> {
        De { v, hr: self.hr }
    }
}

struct SeqAcc<'a> {
    it: core::slice::Iter<'a, Value>,
    hr: bool,
}
impl<'de> de::SeqAccess<'de> for SeqAcc<'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        match self.it.next() {
            Some(v) => seed.deserialize(De { v, hr: self.hr }).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.it.len())
    }
}
struct MapAcc<'a> {
    it: core::slice::Iter<'a, (Value, Value)>,
    val: Option<&'a Value>,
    hr: bool,
}
impl<'de> de::MapAccess<'de> for MapAcc<'de> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        match self.it.next() {
            Some((k, v)) => {
                self.val = Some(v);
                seed.deserialize(De { v: k, hr: self.hr }).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        let v = self.val.take().ok_or_else(|| Error("no value".into()))?;
        seed.deserialize(De { v, hr: self.hr })
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.it.len())
    }
}
struct EnumAcc<'a> {
    name: &'a str,
    v: &'a Value,
    hr: bool,
}
impl<'de> de::EnumAccess<'de> for EnumAcc<'de> {
    type Error = Error;
    type Variant = De<'de>;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, De<'de>), Error> {
        let d: StrDeserializer<'_, Error> = self.name.into_deserializer();
        let name = seed.deserialize(d)?;
        Ok((name, De { v: self.v, hr: self.hr }))
    }
}
impl<'de> de::VariantAccess<'de> for De<'de> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        match self.v {
            Value::Unit => Ok(()),
            _ => Err(Error("expected a unit variant".into())),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Error> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _len: usize, visitor: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_any(self, visitor)
    }
    fn struct_variant<V: Visitor<'de>>(self, _f: &'static [&'static str], visitor: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_any(self, visitor)
    }
}

impl<'de> de::Deserializer<'de> for De<'de> {
    type Error = Error;

    fn is_human_readable(&self) -> bool {
        self.hr
    }

    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.v {
            Value::Unit => visitor.visit_unit(),
            Value::Bool(b) => visitor.visit_bool(*b),
            Value::U(x) => match u64::try_from(*x) {
                Ok(y) => visitor.visit_u64(y),
                Err(_) => visitor.visit_u128(*x),
            },
            Value::I(x) => match i64::try_from(*x) {
                Ok(y) => visitor.visit_i64(y),
                Err(_) => visitor.visit_i128(*x),
            },
            Value::Str(s) => visitor.visit_borrowed_str(s),
            Value::Bytes(b) => visitor.visit_borrowed_bytes(b),
            Value::None => visitor.visit_none(),
            Value::Some(v) => visitor.visit_some(self.at(v)),
            Value::Seq(v) => {
                let mut acc = SeqAcc {
                    it: v.iter(),
                    hr: self.hr,
                };
                let r = visitor.visit_seq(&mut acc)?;
                if acc.it.len() != 0 {
                    return Err(Error("trailing elements in a sequence".into()));
                }
                Ok(r)
            }
            Value::Map(v) => {
                let mut acc = MapAcc {
                    it: v.iter(),
                    val: None,
                    hr: self.hr,
                };
                let r = visitor.visit_map(&mut acc)?;
                if acc.it.len() != 0 {
                    return Err(Error("trailing elements in a map".into()));
                }
                Ok(r)
            }
            Value::Variant(name, v) => visitor.visit_enum(EnumAcc {
                name,
                v,
                hr: self.hr,
            }),
        }
    }

    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.v {
            Value::None | Value::Some(_) => self.deserialize_any(visitor),
            _ => Err(Error("expected an option".into())),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, visitor: V) -> Result<V::Value, Error> {
        visitor.visit_newtype_struct(self)
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _n: &'static str,
        _f: &'static [&'static str],
        visitor: V,
    ) -> Result<V::Value, Error> {
        match self.v {
            Value::Map(_) => self.deserialize_any(visitor),
            _ => Err(Error("expected a struct".into())),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _n: &'static str,
        _variants: &'static [&'static str],
        visitor: V,
    ) -> Result<V::Value, Error> {
        match self.v {
            Value::Variant(_, _) => self.deserialize_any(visitor),
            _ => Err(Error("expected an enum".into())),
        }
    }

    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf unit unit_struct seq tuple tuple_struct map identifier ignored_any
    }
}

// ---------------------------------------------------------------- variants of an enum

struct VariantLister<'a>(&'a mut Option<(Vec<&'static str>, bool)>, Value);

impl<'de> de::Deserializer<'de> for VariantLister<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> {
        Err(Error("not an enum".into()))
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _n: &'static str,
        variants: &'static [&'static str],
        _visitor: V,
    ) -> Result<V::Value, Error> {
        *self.0 = Some((variants.to_vec(), false));
        Err(Error("listed".into()))
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, visitor: V) -> Result<V::Value, Error> {
        visitor.visit_newtype_struct(self)
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _n: &'static str,
        fields: &'static [&'static str],
        visitor: V,
    ) -> Result<V::Value, Error> {
        // Walk into the first field only
        let first = fields.first().copied().unwrap_or("");
        visitor.visit_map(FirstField {
            out: self.0,
            name: Some(first),
            v: self.1,
        })
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf unit unit_struct seq tuple tuple_struct map option identifier ignored_any
    }
}
struct FirstField<'a> {
    out: &'a mut Option<(Vec<&'static str>, bool)>,
    name: Option<&'static str>,
    v: Value,
}
impl<'de> de::MapAccess<'de> for FirstField<'_> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        match self.name.take() {
            Some(n) => {
                let d: StrDeserializer<'_, Error> = n.into_deserializer();
                seed.deserialize(d).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        seed.deserialize(VariantLister(self.out, self.v.clone()))
    }
}

/// The names of the variants of an enum (or of the enum in the first field of a struct);
/// empty if there is no enum there.
pub fn variants_of<T: for<'de> Deserialize<'de>>() -> Vec<&'static str> {
    let mut out = None;
    let _ = T::deserialize(VariantLister(&mut out, Value::Unit));
    out.map(|(v, _)| v).unwrap_or_default()
}

// ---------------------------------------------------------------- bytes

fn put_len(out: &mut Vec<u8>, n: usize) {
    out.extend_from_slice(&(n as u32).to_be_bytes());
}

pub fn encode(v: &Value, out: &mut Vec<u8>) {
    match v {
        Value::Unit => out.push(0),
        Value::Bool(b) => {
            out.push(1);
            out.push(*b as u8)
        }
        Value::U(x) => {
            out.push(2);
            out.extend_from_slice(&x.to_be_bytes())
        }
        Value::I(x) => {
            out.push(3);
            out.extend_from_slice(&x.to_be_bytes())
        }
        Value::Str(s) => {
            out.push(4);
            put_len(out, s.len());
            out.extend_from_slice(s.as_bytes())
        }
        Value::Bytes(b) => {
            out.push(5);
            put_len(out, b.len());
            out.extend_from_slice(b)
        }
        Value::None => out.push(6),
        Value::Some(v) => {
            out.push(7);
            encode(v, out)
        }
        Value::Seq(vs) => {
            out.push(8);
            put_len(out, vs.len());
            vs.iter().for_each(|v| encode(v, out))
        }
        Value::Map(kvs) => {
            out.push(9);
            put_len(out, kvs.len());
            kvs.iter().for_each(|(k, v)| {
                encode(k, out);
                encode(v, out)
            })
        }
        Value::Variant(name, v) => {
            out.push(10);
            put_len(out, name.len());
            out.extend_from_slice(name.as_bytes());
            encode(v, out)
        }
    }
}

fn take<'a>(inp: &mut &'a [u8], n: usize) -> Result<&'a [u8], Error> {
    if inp.len() < n {
        return Err(Error("unexpected end of input".into()));
    }
    let (a, b) = inp.split_at(n);
    *inp = b;
    Ok(a)
}
fn take_len(inp: &mut &[u8]) -> Result<usize, Error> {
    let b = take(inp, 4)?;
    Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize)
}

pub fn decode(inp: &mut &[u8]) -> Result<Value, Error> {
    let tag = take(inp, 1)?[0];
    let num = |inp: &mut &[u8]| -> Result<[u8; 16], Error> {
        let mut x = [0; 16];
        x.copy_from_slice(take(inp, 16)?);
        Ok(x)
    };
    let string = |inp: &mut &[u8]| -> Result<String, Error> {
        let n = take_len(inp)?;
        String::from_utf8(take(inp, n)?.to_vec()).map_err(|_| Error("not UTF-8".into()))
    };
    Ok(match tag {
        0 => Value::Unit,
        1 => Value::Bool(match take(inp, 1)?[0] {
            0 => false,
            1 => true,
            _ => return Err(Error("invalid boolean".into())),
        }),
        2 => Value::U(u128::from_be_bytes(num(inp)?)),
        3 => Value::I(i128::from_be_bytes(num(inp)?)),
        4 => Value::Str(string(inp)?),
        5 => {
            let n = take_len(inp)?;
            Value::Bytes(take(inp, n)?.to_vec())
        }
        6 => Value::None,
        7 => Value::Some(Box::new(decode(inp)?)),
        8 => {
            let n = take_len(inp)?;
            let mut out = Vec::new();
            for _ in 0..n {
                out.push(decode(inp)?);
            }
            Value::Seq(out)
        }
        9 => {
            let n = take_len(inp)?;
            let mut out = Vec::new();
            for _ in 0..n {
                out.push((decode(inp)?, decode(inp)?));
            }
            Value::Map(out)
        }
        10 => {
            let name = string(inp)?;
            Value::Variant(name, Box::new(decode(inp)?))
        }
        _ => return Err(Error("invalid tag".into())),
    })
}

impl Value {
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = Vec::new();
        encode(self, &mut out);
        out
    }
    pub fn from_bytes(bytes: &[u8]) -> Result<Value, Error> {
        let mut inp = bytes;
        let v = decode(&mut inp)?;
        if inp.is_empty() {
            Ok(v)
        } else {
            Err(Error("trailing bytes".into()))
        }
    }
    /// The value of the field (or string key) `name` of a struct (or map).
    pub fn get(&self, name: &str) -> Option<&Value> {
        match self {
            Value::Map(kvs) => kvs
                .iter()
                .find(|(k, _)| matches!(k, Value::Str(s) if s == name))
                .map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn get_mut(&mut self, name: &str) -> Option<&mut Value> {
        match self {
            Value::Map(kvs) => kvs
                .iter_mut()
                .find(|(k, _)| matches!(k, Value::Str(s) if s == name))
                .map(|(_, v)| v),
            _ => None,
        }
    }
    /// Children, in order (with a label for each).
    pub fn children(&self) -> Vec<(String, &Value)> {
        match self {
            Value::Seq(v) => v.iter().enumerate().map(|(i, v)| (i.to_string(), v)).collect(),
            Value::Map(kvs) => kvs
                .iter()
                .enumerate()
                .map(|(i, (k, v))| {
                    let label = match k {
                        Value::Str(s) => s.clone(),
                        _ => i.to_string(),
                    };
                    (label, v)
                })
                .collect(),
            Value::Some(v) => vec![("some".into(), v)],
            Value::Variant(n, v) => vec![(n.clone(), v)],
            _ => vec![],
        }
    }
    pub fn child_mut(&mut self, idx: usize) -> Option<&mut Value> {
        match self {
            Value::Seq(v) => v.get_mut(idx),
            Value::Map(kvs) => kvs.get_mut(idx).map(|(_, v)| v),
            Value::Some(v) | Value::Variant(_, v) if idx == 0 => Some(v),
            _ => None,
        }
    }
}
