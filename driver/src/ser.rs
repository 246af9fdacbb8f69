//! serde: a plain positional format.  Every value is written as a sequence of u64 items; tuples, tuple structs, newtype
//! structs and structs are written as their fields in order, sequences with their length first.
use serde::de::{self, DeserializeSeed, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

const N: usize = 1024;

#[derive(Debug)]
pub struct E;
impl fmt::Display for E {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(_m: T) -> Self {
        E
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(_m: T) -> Self {
        E
    }
    fn invalid_length(_l: usize, _e: &dyn de::Expected) -> Self {
        E
    }
    fn invalid_type(_u: de::Unexpected, _e: &dyn de::Expected) -> Self {
        E
    }
    fn invalid_value(_u: de::Unexpected, _e: &dyn de::Expected) -> Self {
        E
    }
}

pub struct Buf {
    b: [u64; N],
    n: usize,
}
impl Buf {
    fn put(&mut self, v: u64) -> Result<(), E> {
        if self.n >= N {
            return Err(E);
        }
        self.b[self.n] = v;
        self.n += 1;
        Ok(())
    }
}

pub struct S<'a>(&'a mut Buf);
macro_rules! no {
    ($($f:ident($t:ty)),*) => { $(fn $f(self, _v: $t) -> Result<(), E> { Err(E) })* };
}
impl<'a> ser::Serializer for S<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = C<'a>;
    type SerializeTuple = C<'a>;
    type SerializeTupleStruct = C<'a>;
    type SerializeTupleVariant = ser::Impossible<(), E>;
    type SerializeMap = ser::Impossible<(), E>;
    type SerializeStruct = C<'a>;
    type SerializeStructVariant = ser::Impossible<(), E>;
    no!(serialize_f32(f32), serialize_f64(f64), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64));
    fn serialize_bool(self, v: bool) -> Result<(), E> { self.0.put(v as u64) }
    fn serialize_u8(self, v: u8) -> Result<(), E> { self.0.put(v as u64) }
    fn serialize_u16(self, v: u16) -> Result<(), E> { self.0.put(v as u64) }
    fn serialize_u32(self, v: u32) -> Result<(), E> { self.0.put(v as u64) }
    fn serialize_u64(self, v: u64) -> Result<(), E> { self.0.put(v) }
    fn serialize_char(self, v: char) -> Result<(), E> { self.0.put(v as u64) }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.0.put(v.len() as u64)?;
        for b in v {
            self.0.put(*b as u64)?;
        }
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> { self.0.put(0) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> {
        self.0.put(1)?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> { Ok(()) }
    fn serialize_unit_struct(self, _n: &'static str) -> Result<(), E> { Ok(()) }
    fn serialize_unit_variant(self, _n: &'static str, i: u32, _v: &'static str) -> Result<(), E> { self.0.put(i as u64) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _n: &'static str, v: &T) -> Result<(), E> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _n: &'static str, _i: u32, _v: &'static str, _t: &T) -> Result<(), E> { Err(E) }
    fn serialize_seq(self, len: Option<usize>) -> Result<C<'a>, E> {
        match len {
            Some(l) => {
                self.0.put(l as u64)?;
                Ok(C(self.0))
            }
            None => Err(E),
        }
    }
    fn serialize_tuple(self, _l: usize) -> Result<C<'a>, E> { Ok(C(self.0)) }
    fn serialize_tuple_struct(self, _n: &'static str, _l: usize) -> Result<C<'a>, E> { Ok(C(self.0)) }
    fn serialize_tuple_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, _l: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
    fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<C<'a>, E> { Ok(C(self.0)) }
    fn serialize_struct_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
    fn serialize_str(self, v: &str) -> Result<(), E> { self.serialize_bytes(v.as_bytes()) }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<(), E> { self.serialize_str(&v.to_string()) }
    fn is_human_readable(&self) -> bool { false }
}
pub struct C<'a>(&'a mut Buf);
impl<'a> ser::SerializeSeq for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(S(self.0)) }
    fn end(self) -> Result<(), E> { Ok(()) }
}
impl<'a> ser::SerializeTuple for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(S(self.0)) }
    fn end(self) -> Result<(), E> { Ok(()) }
}
impl<'a> ser::SerializeTupleStruct for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(S(self.0)) }
    fn end(self) -> Result<(), E> { Ok(()) }
}
impl<'a> ser::SerializeStruct for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _k: &'static str, v: &T) -> Result<(), E> { v.serialize(S(self.0)) }
    fn end(self) -> Result<(), E> { Ok(()) }
}

pub struct D<'a> {
    b: &'a Buf,
    p: &'a mut usize,
}
impl<'a> D<'a> {
    fn get(&mut self) -> Result<u64, E> {
        if *self.p >= self.b.n {
            return Err(E);
        }
        let v = self.b.b[*self.p];
        *self.p += 1;
        Ok(v)
    }
    fn bytes(&mut self, t: &mut [u8; N]) -> Result<usize, E> {
        let l = self.get()? as usize;
        if l > N {
            return Err(E);
        }
        for i in 0..l {
            let v = self.get()?;
            if v > 255 {
                return Err(E);
            }
            t[i] = v as u8;
        }
        Ok(l)
    }
}
macro_rules! nod {
    ($($f:ident),*) => { $(fn $f<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, E> { Err(E) })* };
}
macro_rules! int {
    ($($f:ident $t:ty, $v:ident);*) => { $(fn $f<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, E> {
        let x = self.get()?;
        if x > <$t>::MAX as u64 { return Err(E); }
        v.$v(x as $t)
    })* };
}
impl<'de, 'a> de::Deserializer<'de> for D<'a> {
    type Error = E;
    nod!(deserialize_any, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_f32, deserialize_f64,
         deserialize_char, deserialize_map, deserialize_identifier, deserialize_ignored_any);
    int!(deserialize_u8 u8, visit_u8; deserialize_u16 u16, visit_u16; deserialize_u32 u32, visit_u32; deserialize_u64 u64, visit_u64);
    fn deserialize_bool<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, E> {
        let x = self.get()?;
        if x > 1 { return Err(E); }
        v.visit_bool(x == 1)
    }
    fn deserialize_bytes<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, E> {
        let mut t = [0; N];
        let l = self.bytes(&mut t)?;
        v.visit_bytes(&t[..l])
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_bytes(v) }
    fn deserialize_str<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, E> {
        let mut t = [0; N];
        let l = self.bytes(&mut t)?;
        match std::str::from_utf8(&t[..l]) {
            Ok(s) => v.visit_str(s),
            Err(_) => Err(E),
        }
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_str(v) }
    fn deserialize_option<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, E> {
        if self.get()? == 0 { v.visit_none() } else { v.visit_some(self) }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_unit() }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, E> { v.visit_unit() }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, E> {
        let l = self.get()? as usize;
        v.visit_seq(Q { b: self.b, p: self.p, left: l })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, l: usize, v: V) -> Result<V::Value, E> { v.visit_seq(Q { b: self.b, p: self.p, left: l }) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _n: &'static str, l: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Q { b: self.b, p: self.p, left: l })
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Q { b: self.b, p: self.p, left: f.len() })
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _n: &'static str, _vs: &'static [&'static str], _v: V) -> Result<V::Value, E> { Err(E) }
    fn is_human_readable(&self) -> bool { false }
}
pub struct Q<'a> {
    b: &'a Buf,
    p: &'a mut usize,
    left: usize,
}
impl<'de, 'a> SeqAccess<'de> for Q<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(D { b: self.b, p: self.p }).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.left) }
}

pub fn roundtrip<T: Serialize + de::DeserializeOwned>(a: &T, o: &mut T) -> u8 {
    let mut w = Buf { b: [0; N], n: 0 };
    if a.serialize(S(&mut w)).is_err() {
        return 1;
    }
    let n = w.n;
    let _ = w.put(7); // something else follows
    let mut p = 0;
    match T::deserialize(D { b: &w, p: &mut p }) {
        Ok(v) => {
            *o = v;
            if p == n { 0 } else { 2 }
        }
        Err(_) => 3,
    }
}
