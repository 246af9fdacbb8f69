//! serde: a self-describing, human-readable format.  Every item carries its kind; structs are maps from field names to
//! values, read back by name; text and bytes are kept as such.
use super::ser::E;
use serde::de::{self, DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

const N: usize = 1024;
const UINT: u8 = 0;
const BOOL: u8 = 1;
const NONE: u8 = 2;
const SOME: u8 = 3;
const UNIT: u8 = 4;
const SEQ: u8 = 5;
const MAP: u8 = 6;
const STR: u8 = 7;
const NAME: u8 = 8;

pub struct Buf {
    kind: [u8; N],
    val: [u64; N],
    name: [&'static str; N],
    n: usize,
}
impl Buf {
    fn put(&mut self, k: u8, v: u64) -> Result<(), E> {
        if self.n >= N {
            return Err(E);
        }
        self.kind[self.n] = k;
        self.val[self.n] = v;
        self.n += 1;
        Ok(())
    }
    fn put_name(&mut self, s: &'static str) -> Result<(), E> {
        if self.n >= N {
            return Err(E);
        }
        self.name[self.n] = s;
        self.put(NAME, 0)
    }
}

pub struct S<'a>(&'a mut Buf);
macro_rules! no {
    ($($f:ident($t:ty)),*) => { $(fn $f(self, _v: $t) -> Result<(), E> { Err(E) })* };
}
impl<'a> ser::Serializer for S<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = C<'a>;
    type SerializeTuple = C<'a>;
    type SerializeTupleStruct = C<'a>;
    type SerializeTupleVariant = ser::Impossible<(), E>;
    type SerializeMap = ser::Impossible<(), E>;
    type SerializeStruct = C<'a>;
    type SerializeStructVariant = ser::Impossible<(), E>;
    no!(serialize_f32(f32), serialize_f64(f64), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64));
    fn serialize_bool(self, v: bool) -> Result<(), E> { self.0.put(BOOL, v as u64) }
    fn serialize_u8(self, v: u8) -> Result<(), E> { self.0.put(UINT, v as u64) }
    fn serialize_u16(self, v: u16) -> Result<(), E> { self.0.put(UINT, v as u64) }
    fn serialize_u32(self, v: u32) -> Result<(), E> { self.0.put(UINT, v as u64) }
    fn serialize_u64(self, v: u64) -> Result<(), E> { self.0.put(UINT, v) }
    fn serialize_char(self, _v: char) -> Result<(), E> { Err(E) }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.0.put(STR, v.len() as u64)?;
        for b in v.as_bytes() {
            self.0.put(UINT, *b as u64)?;
        }
        Ok(())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.0.put(SEQ, v.len() as u64)?;
        for b in v {
            self.0.put(UINT, *b as u64)?;
        }
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> { self.0.put(NONE, 0) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> {
        self.0.put(SOME, 0)?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> { self.0.put(UNIT, 0) }
    fn serialize_unit_struct(self, _n: &'static str) -> Result<(), E> { self.0.put(UNIT, 0) }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, _v: &'static str) -> Result<(), E> { Err(E) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _n: &'static str, v: &T) -> Result<(), E> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _n: &'static str, _i: u32, _v: &'static str, _t: &T) -> Result<(), E> { Err(E) }
    fn serialize_seq(self, len: Option<usize>) -> Result<C<'a>, E> {
        match len {
            Some(l) => C::open(self.0, SEQ, l),
            None => Err(E),
        }
    }
    fn serialize_tuple(self, l: usize) -> Result<C<'a>, E> { C::open(self.0, SEQ, l) }
    fn serialize_tuple_struct(self, _n: &'static str, l: usize) -> Result<C<'a>, E> { C::open(self.0, SEQ, l) }
    fn serialize_tuple_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, _l: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
    fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<C<'a>, E> { C::open(self.0, MAP, 0) }
    fn serialize_struct_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<(), E> { self.serialize_str(&v.to_string()) }
    fn is_human_readable(&self) -> bool { true }
}
/// an open sequence or map; the number of its members is filled in at the end
pub struct C<'a> {
    b: &'a mut Buf,
    at: usize,
    k: u64,
}
impl<'a> C<'a> {
    fn open(b: &'a mut Buf, kind: u8, l: usize) -> Result<C<'a>, E> {
        let at = b.n;
        b.put(kind, l as u64)?;
        Ok(C { b, at, k: 0 })
    }
    fn one<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.k += 1;
        v.serialize(S(&mut *self.b))
    }
    fn close(self) -> Result<(), E> {
        self.b.val[self.at] = self.k;
        Ok(())
    }
}
impl<'a> ser::SerializeSeq for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { self.one(v) }
    fn end(self) -> Result<(), E> { self.close() }
}
impl<'a> ser::SerializeTuple for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { self.one(v) }
    fn end(self) -> Result<(), E> { self.close() }
}
impl<'a> ser::SerializeTupleStruct for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { self.one(v) }
    fn end(self) -> Result<(), E> { self.close() }
}
impl<'a> ser::SerializeStruct for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.b.put_name(k)?;
        self.one(v)
    }
    fn end(self) -> Result<(), E> { self.close() }
}

pub struct D<'a> {
    b: &'a Buf,
    p: &'a mut usize,
}
impl<'a> D<'a> {
    fn peek(&self) -> Result<u8, E> {
        if *self.p >= self.b.n { Err(E) } else { Ok(self.b.kind[*self.p]) }
    }
    fn get(&mut self) -> Result<(u8, u64), E> {
        let k = self.peek()?;
        let v = self.b.val[*self.p];
        *self.p += 1;
        Ok((k, v))
    }
    fn text(&mut self, l: usize, t: &mut [u8; N]) -> Result<(), E> {
        if l > N {
            return Err(E);
        }
        for i in 0..l {
            let (k, v) = self.get()?;
            if k != UINT || v > 255 {
                return Err(E);
            }
            t[i] = v as u8;
        }
        Ok(())
    }
}
macro_rules! any {
    ($($f:ident),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_any(v) })* };
}
impl<'de, 'a> de::Deserializer<'de> for D<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, E> {
        let (k, x) = self.get()?;
        match k {
            UINT => v.visit_u64(x),
            BOOL => v.visit_bool(x == 1),
            NONE => v.visit_none(),
            SOME => v.visit_some(self),
            UNIT => v.visit_unit(),
            SEQ | MAP => {
                let mut q = Q { b: self.b, p: self.p, left: x as usize };
                let r = if k == SEQ { v.visit_seq(&mut q) } else { v.visit_map(&mut q) };
                let r = r?;
                if q.left == 0 { Ok(r) } else { Err(E) }
            }
            STR => {
                let mut t = [0; N];
                let l = x as usize;
                self.text(l, &mut t)?;
                match std::str::from_utf8(&t[..l]) {
                    Ok(s) => v.visit_str(s),
                    Err(_) => Err(E),
                }
            }
            NAME => v.visit_borrowed_str(self.b.name[*self.p - 1]),
            _ => Err(E),
        }
    }
    any!(deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_f32, deserialize_f64, deserialize_char,
         deserialize_str, deserialize_string, deserialize_map, deserialize_identifier, deserialize_bool, deserialize_u8,
         deserialize_u16, deserialize_u32, deserialize_u64, deserialize_unit, deserialize_seq);
    fn deserialize_bytes<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, E> {
        if self.peek()? != SEQ {
            return self.deserialize_any(v);
        }
        let mut t = [0; N];
        let (_, l) = self.get()?;
        self.text(l as usize, &mut t)?;
        v.visit_bytes(&t[..l as usize])
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_bytes(v) }
    fn deserialize_option<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, E> {
        match self.peek()? {
            NONE => { self.get()?; v.visit_none() }
            SOME => { self.get()?; v.visit_some(self) }
            _ => v.visit_some(self),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    fn deserialize_tuple<V: Visitor<'de>>(self, _l: usize, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _n: &'static str, _l: usize, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_struct<V: Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_enum<V: Visitor<'de>>(self, _n: &'static str, _vs: &'static [&'static str], _v: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn is_human_readable(&self) -> bool { true }
}
pub struct Q<'a> {
    b: &'a Buf,
    p: &'a mut usize,
    left: usize,
}
impl<'de, 'a> SeqAccess<'de> for &mut Q<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(D { b: self.b, p: self.p }).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.left) }
}
impl<'de, 'a> MapAccess<'de> for &mut Q<'a> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(D { b: self.b, p: self.p }).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(D { b: self.b, p: self.p })
    }
    fn size_hint(&self) -> Option<usize> { Some(self.left) }
}

pub fn roundtrip<T: Serialize + de::DeserializeOwned>(a: &T, o: &mut T) -> u8 {
    let mut w = Buf { kind: [0; N], val: [0; N], name: [""; N], n: 0 };
    if a.serialize(S(&mut w)).is_err() {
        return 1;
    }
    let n = w.n;
    let _ = w.put(UINT, 7); // something else follows
    let mut p = 0;
    match T::deserialize(D { b: &w, p: &mut p }) {
        Ok(v) => {
            *o = v;
            if p == n { 0 } else { 2 }
        }
        Err(_) => 3,
    }
}
