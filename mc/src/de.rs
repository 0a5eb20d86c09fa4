//! Two in-memory formats to read recorded values back from: a self-describing one (what `ser` recorded,
//! maps by name) and a positional one (no names, no type tags: every read has to ask for what was written).
use crate::ser::{E, SV};
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use serde::Deserialize;

// ---------------------------------------------------------------- self-describing
struct De<'de> {
    v: &'de SV,
    /// read the fields of structures last to first
    back: bool,
}
pub fn from_recorded<'de, T: Deserialize<'de>>(v: &'de SV, back: bool) -> Result<T, E> {
    T::deserialize(De { v, back })
}
impl<'de> de::Deserializer<'de> for De<'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, E> {
        let back = self.back;
        match self.v {
            SV::U(x) => vis.visit_u64(*x),
            SV::I(x) => vis.visit_i64(*x),
            SV::F(x) => vis.visit_f64(*x),
            SV::F32(x) => vis.visit_f32(*x),
            SV::B(x) => vis.visit_bool(*x),
            SV::Str(x) => vis.visit_str(x),
            SV::Null | SV::Unit => vis.visit_unit(),
            SV::Some(x) => vis.visit_some(De { v: x, back }),
            SV::Newtype(x) => De { v: x, back }.deserialize_any(vis),
            SV::Variant(n, None) => vis.visit_str(n),
            SV::Variant(..) => Err(de::Error::custom("a variant where a value is wanted")),
            SV::Seq(x) => vis.visit_seq(Items { v: x.iter().collect(), at: 0, back }),
            SV::Map(_) => Err(de::Error::custom("a map where a structure is wanted")),
            SV::Struct(x) => {
                let mut v: Vec<(&str, &SV)> = x.iter().map(|(k, v)| (k.as_str(), v)).collect();
                if back {
                    v.reverse();
                }
                vis.visit_map(Fields { v, at: 0, back })
            },
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, E> {
        match self.v {
            SV::Null => vis.visit_none(),
            SV::Some(x) => vis.visit_some(De { v: x, back: self.back }),
            _ => vis.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, E> {
        let v = if let SV::Newtype(x) = self.v { x } else { self.v };
        vis.visit_newtype_struct(De { v, back: self.back })
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], vis: V) -> Result<V::Value, E> {
        match self.v {
            SV::Variant(n, p) => vis.visit_enum(Var { n, p: p.as_deref(), back: self.back }),
            SV::Str(n) => vis.visit_enum(Var { n, p: None, back: self.back }),
            x => Err(de::Error::custom(format!("{x:?} where a variant is wanted"))),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any }
}
struct Items<'de> {
    v: Vec<&'de SV>,
    at: usize,
    back: bool,
}
impl<'de> SeqAccess<'de> for Items<'de> {
    type Error = E;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        let Some(v) = self.v.get(self.at) else { return Ok(None) };
        self.at += 1;
        s.deserialize(De { v, back: self.back }).map(Some)
    }
}
struct Fields<'de> {
    v: Vec<(&'de str, &'de SV)>,
    at: usize,
    back: bool,
}
impl<'de> MapAccess<'de> for Fields<'de> {
    type Error = E;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        match self.v.get(self.at) {
            None => Ok(None),
            Some((k, _)) => {
                let d: de::value::StrDeserializer<E> = (*k).into_deserializer();
                s.deserialize(d).map(Some)
            },
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, E> {
        self.at += 1;
        s.deserialize(De { v: self.v[self.at - 1].1, back: self.back })
    }
}
struct Var<'de> {
    n: &'de str,
    p: Option<&'de SV>,
    back: bool,
}
impl<'de> EnumAccess<'de> for Var<'de> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Self), E> {
        let d: de::value::StrDeserializer<E> = self.n.into_deserializer();
        Ok((s.deserialize(d)?, self))
    }
}
impl<'de> VariantAccess<'de> for Var<'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        match self.p {
            None => Ok(()),
            Some(_) => Err(de::Error::custom("content in a variant without any")),
        }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, E> {
        let v = self.p.ok_or_else(|| <E as de::Error>::custom("a variant without content"))?;
        s.deserialize(De { v, back: self.back })
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, vis: V) -> Result<V::Value, E> {
        let v = self.p.ok_or_else(|| <E as de::Error>::custom("a variant without content"))?;
        de::Deserializer::deserialize_any(De { v, back: self.back }, vis)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], vis: V) -> Result<V::Value, E> {
        self.tuple_variant(0, vis)
    }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

// ---------------------------------------------------------------- positional
/// A written item: its kind and bits.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    N(&'static str, u64),
    Text(String),
}
pub struct Out(pub Vec<Tok>);
pub fn to_positions<T: Serialize>(t: &T) -> Result<Vec<Tok>, E> {
    let mut o = Out(vec![]);
    t.serialize(&mut o)?;
    Ok(o.0)
}
macro_rules! put {
    ($($f:ident $t:ty, $k:literal, $v:ident => $e:expr);*) => { $( fn $f(self, $v: $t) -> Result<(), E> { self.0.push(Tok::N($k, $e)); Ok(()) } )* };
}
impl<'de> ser::Serializer for &'de mut Out {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    put! { serialize_u8 u8, "u8", v => v as u64; serialize_u16 u16, "u16", v => v as u64; serialize_u32 u32, "u32", v => v as u64; serialize_u64 u64, "u64", v => v;
    serialize_i8 i8, "i8", v => v as u64; serialize_i16 i16, "i16", v => v as u64; serialize_i32 i32, "i32", v => v as u64; serialize_i64 i64, "i64", v => v as u64;
    serialize_f32 f32, "f32", v => v.to_bits() as u64; serialize_f64 f64, "f64", v => v.to_bits(); serialize_bool bool, "bool", v => v as u64; serialize_char char, "char", v => v as u64 }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.0.push(Tok::Text(v.into()));
        Ok(())
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), E> {
        Err(ser::Error::custom("bytes"))
    }
    fn serialize_none(self) -> Result<(), E> {
        self.0.push(Tok::N("option", 0));
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), E> {
        self.0.push(Tok::N("option", 1));
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        self.0.push(Tok::N("variant", i as u64));
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), E> {
        self.0.push(Tok::N("variant", i as u64));
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> {
        self.0.push(Tok::N("len", n.ok_or_else(|| <E as ser::Error>::custom("no length"))? as u64));
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.0.push(Tok::N("variant", i as u64));
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, E> {
        Err(ser::Error::custom("a map"))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.0.push(Tok::N("variant", i as u64));
        Ok(self)
    }
}
macro_rules! parts {
    ($($t:ident $f:ident),*) => { $(
        impl ser::$t for &mut Out {
            type Ok = ();
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
                v.serialize(&mut **self)
            }
            fn end(self) -> Result<(), E> {
                Ok(())
            }
        }
    )* };
}
parts!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! named {
    ($($t:ident),*) => { $(
        impl ser::$t for &mut Out {
            type Ok = ();
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), E> {
                v.serialize(&mut **self)
            }
            fn end(self) -> Result<(), E> {
                Ok(())
            }
        }
    )* };
}
named!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for &mut Out {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, _: &T) -> Result<(), E> {
        Err(ser::Error::custom("a map"))
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, _: &T) -> Result<(), E> {
        Err(ser::Error::custom("a map"))
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}

pub struct In<'de> {
    v: &'de [Tok],
    at: usize,
}
/// Reads a value; everything written has to be used up.
pub fn from_positions<'de, T: Deserialize<'de>>(v: &'de [Tok]) -> Result<T, E> {
    let mut d = In { v, at: 0 };
    let t = T::deserialize(&mut d)?;
    if d.at != v.len() {
        return Err(de::Error::custom(format!("{} items were written, {} read", v.len(), d.at)));
    }
    Ok(t)
}
impl In<'_> {
    fn take(&mut self, kind: &'static str) -> Result<u64, E> {
        self.at += 1;
        match self.v.get(self.at - 1) {
            Some(Tok::N(k, x)) if *k == kind => Ok(*x),
            x => Err(de::Error::custom(format!("{x:?} was written where {kind} is read"))),
        }
    }
}
macro_rules! get {
    ($($f:ident $vis:ident $t:ty, $k:literal, $v:ident => $e:expr);*) => { $( fn $f<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, E> { let $v = self.take($k)?; vis.$vis($e) } )* };
}
impl<'de> de::Deserializer<'de> for &mut In<'de> {
    type Error = E;
    get! { deserialize_u8 visit_u8 u8, "u8", v => v as u8; deserialize_u16 visit_u16 u16, "u16", v => v as u16; deserialize_u32 visit_u32 u32, "u32", v => v as u32; deserialize_u64 visit_u64 u64, "u64", v => v;
    deserialize_i8 visit_i8 i8, "i8", v => v as i8; deserialize_i16 visit_i16 i16, "i16", v => v as i16; deserialize_i32 visit_i32 i32, "i32", v => v as i32; deserialize_i64 visit_i64 i64, "i64", v => v as i64;
    deserialize_f32 visit_f32 f32, "f32", v => f32::from_bits(v as u32); deserialize_f64 visit_f64 f64, "f64", v => f64::from_bits(v); deserialize_bool visit_bool bool, "bool", v => v != 0 }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(de::Error::custom("the format does not describe itself"))
    }
    fn deserialize_str<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, E> {
        self.at += 1;
        match self.v.get(self.at - 1) {
            Some(Tok::Text(x)) => vis.visit_str(x),
            x => Err(de::Error::custom(format!("{x:?} was written where text is read"))),
        }
    }
    fn deserialize_string<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, E> {
        self.deserialize_str(vis)
    }
    fn deserialize_option<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, E> {
        match self.take("option")? {
            0 => vis.visit_none(),
            _ => vis.visit_some(self),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, E> {
        vis.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, E> {
        vis.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, E> {
        vis.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, E> {
        let n = self.take("len")? as usize;
        vis.visit_seq(Next { d: self, n })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, vis: V) -> Result<V::Value, E> {
        vis.visit_seq(Next { d: self, n })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, vis: V) -> Result<V::Value, E> {
        vis.visit_seq(Next { d: self, n })
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], vis: V) -> Result<V::Value, E> {
        vis.visit_seq(Next { d: self, n: f.len() })
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], vis: V) -> Result<V::Value, E> {
        vis.visit_enum(self)
    }
    serde::forward_to_deserialize_any! { char bytes byte_buf map identifier ignored_any }
}
struct Next<'b, 'de> {
    d: &'b mut In<'de>,
    n: usize,
}
impl<'de> SeqAccess<'de> for Next<'_, 'de> {
    type Error = E;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
}
impl<'de> EnumAccess<'de> for &mut In<'de> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Self), E> {
        let i = self.take("variant")? as u32;
        let d: de::value::U32Deserializer<E> = i.into_deserializer();
        Ok((s.deserialize(d)?, self))
    }
}
impl<'de> VariantAccess<'de> for &mut In<'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, E> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, vis: V) -> Result<V::Value, E> {
        vis.visit_seq(Next { d: self, n })
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], vis: V) -> Result<V::Value, E> {
        vis.visit_seq(Next { d: self, n: f.len() })
    }
}
