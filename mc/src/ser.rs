//! A serializer which records what it is given.
use serde::ser::*;
use std::fmt::Display;

#[derive(Clone, Debug, PartialEq)]
pub enum SV {
    U(u64),
    I(i64),
    F(f64),
    F32(f32),
    B(bool),
    Str(String),
    Null,
    Unit,
    Some(Box<SV>),
    Newtype(Box<SV>),
    Variant(String, Option<Box<SV>>),
    Seq(Vec<SV>),
    Map(Vec<(SV, SV)>),
    Struct(Vec<(String, SV)>),
}
impl SV {
    pub fn get(&self, k: &str) -> Option<&SV> {
        match self {
            SV::Struct(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            SV::Map(v) => v.iter().find(|x| x.0 == SV::Str(k.into())).map(|x| &x.1),
            _ => None,
        }
    }
    /// Without newtype wrappers and `Some`.
    pub fn plain(&self) -> &SV {
        match self {
            SV::Newtype(x) | SV::Some(x) => x.plain(),
            x => x,
        }
    }
}
#[derive(Debug)]
pub struct E(pub String);
impl Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl Error for E {
    fn custom<T: Display>(m: T) -> Self {
        E(m.to_string())
    }
}
pub fn capture<T: Serialize + ?Sized>(t: &T) -> Result<SV, E> {
    t.serialize(Cap)
}
pub struct Cap;
pub struct Parts {
    seq: Vec<SV>,
    map: Vec<(SV, SV)>,
    st: Vec<(String, SV)>,
    key: Option<SV>,
    variant: Option<&'static str>,
    len: Option<usize>,
}
impl Parts {
    fn new(len: Option<usize>) -> Self {
        Parts { seq: vec![], map: vec![], st: vec![], key: None, variant: None, len }
    }
    fn wrap(v: Option<&'static str>, x: SV) -> SV {
        match v {
            None => x,
            Some(n) => SV::Variant(n.into(), Some(Box::new(x))),
        }
    }
    fn check(&self, n: usize) -> Result<(), E> {
        match self.len {
            Some(l) if l != n => Err(E(format!("announced {l} elements, gave {n}"))),
            _ => Ok(()),
        }
    }
}
macro_rules! ints {
    ($($f:ident $t:ty, $v:ident $w:ty);*) => { $( fn $f(self, v: $t) -> Result<SV, E> { Ok(SV::$v(v as $w)) } )* };
}
impl Serializer for Cap {
    type Ok = SV;
    type Error = E;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = Parts;
    type SerializeStruct = Parts;
    type SerializeStructVariant = Parts;
    ints! { serialize_u8 u8, U u64; serialize_u16 u16, U u64; serialize_u32 u32, U u64; serialize_u64 u64, U u64;
    serialize_i8 i8, I i64; serialize_i16 i16, I i64; serialize_i32 i32, I i64; serialize_i64 i64, I i64;
    serialize_f32 f32, F32 f32; serialize_f64 f64, F f64 }
    fn serialize_bool(self, v: bool) -> Result<SV, E> {
        Ok(SV::B(v))
    }
    fn serialize_char(self, v: char) -> Result<SV, E> {
        Ok(SV::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<SV, E> {
        Ok(SV::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<SV, E> {
        Ok(SV::Seq(v.iter().map(|x| SV::U(*x as u64)).collect()))
    }
    fn serialize_none(self) -> Result<SV, E> {
        Ok(SV::Null)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<SV, E> {
        Ok(SV::Some(Box::new(v.serialize(Cap)?)))
    }
    fn serialize_unit(self) -> Result<SV, E> {
        Ok(SV::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<SV, E> {
        Ok(SV::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<SV, E> {
        Ok(SV::Variant(v.into(), None))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<SV, E> {
        Ok(SV::Newtype(Box::new(v.serialize(Cap)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<SV, E> {
        Ok(SV::Variant(n.into(), Some(Box::new(v.serialize(Cap)?))))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Parts, E> {
        Ok(Parts::new(n))
    }
    fn serialize_tuple(self, n: usize) -> Result<Parts, E> {
        Ok(Parts::new(Some(n)))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Parts, E> {
        Ok(Parts::new(Some(n)))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, n: usize) -> Result<Parts, E> {
        let mut p = Parts::new(Some(n));
        p.variant = Some(v);
        Ok(p)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Parts, E> {
        Ok(Parts::new(n))
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Parts, E> {
        Ok(Parts::new(Some(n)))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, n: usize) -> Result<Parts, E> {
        let mut p = Parts::new(Some(n));
        p.variant = Some(v);
        Ok(p)
    }
}
macro_rules! seqs {
    ($($t:ident $f:ident),*) => { $(
        impl $t for Parts {
            type Ok = SV;
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
                self.seq.push(v.serialize(Cap)?);
                Ok(())
            }
            fn end(self) -> Result<SV, E> {
                self.check(self.seq.len())?;
                Ok(Parts::wrap(self.variant, SV::Seq(self.seq)))
            }
        }
    )* };
}
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! structs {
    ($($t:ident),*) => { $(
        impl $t for Parts {
            type Ok = SV;
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
                self.st.push((k.into(), v.serialize(Cap)?));
                Ok(())
            }
            fn end(self) -> Result<SV, E> {
                self.check(self.st.len())?;
                Ok(Parts::wrap(self.variant, SV::Struct(self.st)))
            }
        }
    )* };
}
structs!(SerializeStruct, SerializeStructVariant);
impl SerializeMap for Parts {
    type Ok = SV;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        if self.key.is_some() {
            return Err(E("two keys in a row".into()));
        }
        self.key = Some(k.serialize(Cap)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let k = self.key.take().ok_or_else(|| E("a value without a key".into()))?;
        self.map.push((k, v.serialize(Cap)?));
        Ok(())
    }
    fn end(self) -> Result<SV, E> {
        self.check(self.map.len())?;
        if self.key.is_some() {
            return Err(E("a key without a value".into()));
        }
        Ok(SV::Map(self.map))
    }
}
