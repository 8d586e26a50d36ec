//! A serializer that records every call made to it and a deserializer driven by a token tree; either can be told to fail
//! at its k-th call. Both are strict about the protocol: what serde forbids, or what a fault must stop, is recorded in
//! `State::wrong`.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::cell::{Cell, RefCell};
use std::fmt::{Debug, Display};

/// what all of them say about being human-readable
pub static HUMAN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Er {
    /// the fault we injected, at call k
    Fault(usize),
    /// made by the code under test (or by serde on its behalf)
    Msg(String),
}
impl Display for Er {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Er {}
impl ser::Error for Er {
    fn custom<T: Display>(m: T) -> Self {
        Er::Msg(m.to_string())
    }
}
impl de::Error for Er {
    fn custom<T: Display>(m: T) -> Self {
        Er::Msg(m.to_string())
    }
}

/// Shared between all parts of one serializer or deserializer.
#[derive(Default)]
pub struct State {
    pub calls: Cell<usize>,
    /// fail at this call (0-based)
    pub fail: Option<usize>,
    pub failed: Cell<bool>,
    pub log: RefCell<Vec<Tok>>,
    pub hints: RefCell<Vec<&'static str>>,
    pub wrong: RefCell<Option<String>>,
    /// deserializer: refuse a hint that does not name the token (as formats that do not describe themselves would)
    pub strict: bool,
}
impl State {
    pub fn failing(fail: Option<usize>) -> State {
        State { fail, ..State::default() }
    }
    pub fn bad(&self, s: String) {
        self.wrong.borrow_mut().get_or_insert(s);
    }
    fn call(&self, what: &str) -> Result<(), Er> {
        if self.failed.get() {
            self.bad(format!("{what} called after the injected fault"));
        }
        let k = self.calls.get();
        self.calls.set(k + 1);
        if self.fail == Some(k) {
            self.failed.set(true);
            return Err(Er::Fault(k));
        }
        Ok(())
    }
}

/// What a serializer is told, and what a deserializer tells.
#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F64(f64),
    Str(&'static str),
    Unit,
    None,
    Variant(&'static str),
    Seq(Option<usize>),
    SeqEnd,
    Map(Option<usize>),
    Key,
    MapEnd,
    Other(&'static str),
}

// ------------------------------------------------------------------------------------------------ serializer
#[derive(Copy, Clone)]
pub struct Ser<'a>(pub &'a State);
impl<'a> Ser<'a> {
    fn put(self, t: Tok) -> Result<(), Er> {
        self.0.call("the serializer was")?;
        self.0.log.borrow_mut().push(t);
        Ok(())
    }
}
pub struct Items<'a>(&'a State, Option<usize>, usize, bool);
impl<'a> Items<'a> {
    fn done(&self, t: Tok) -> Result<(), Er> {
        self.0.call("end")?;
        if let Some(n) = self.1 {
            if n != self.2 {
                self.0.bad(format!("declared {n} items, wrote {}", self.2));
            }
        }
        self.0.log.borrow_mut().push(t);
        Ok(())
    }
}
impl ser::SerializeSeq for Items<'_> {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        self.0.call("serialize_element")?;
        self.2 += 1;
        v.serialize(Ser(self.0))
    }
    fn end(self) -> Result<(), Er> {
        self.done(Tok::SeqEnd)
    }
}
impl ser::SerializeMap for Items<'_> {
    type Ok = ();
    type Error = Er;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        self.0.call("serialize_key")?;
        if self.3 {
            self.0.bad("two keys in a row".into());
        }
        self.3 = true;
        self.0.log.borrow_mut().push(Tok::Key);
        v.serialize(Ser(self.0))
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        self.0.call("serialize_value")?;
        if !self.3 {
            self.0.bad("a value without a key".into());
        }
        self.3 = false;
        self.2 += 1;
        v.serialize(Ser(self.0))
    }
    fn end(self) -> Result<(), Er> {
        self.done(Tok::MapEnd)
    }
}
macro_rules! put {
    ($($f:ident $t:ty => $v:ident;)*) => { $(fn $f(self, v: $t) -> Result<(), Er> { self.put(Tok::$v(v)) })* };
}
type No = ser::Impossible<(), Er>;
impl<'a> ser::Serializer for Ser<'a> {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Items<'a>;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = Items<'a>;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn is_human_readable(&self) -> bool {
        HUMAN.load(std::sync::atomic::Ordering::Relaxed)
    }
    put! { serialize_bool bool => Bool; serialize_u8 u8 => U8; serialize_u16 u16 => U16; serialize_u32 u32 => U32; serialize_u64 u64 => U64; serialize_u128 u128 => U128;
    serialize_i8 i8 => I8; serialize_i16 i16 => I16; serialize_i32 i32 => I32; serialize_i64 i64 => I64; serialize_i128 i128 => I128; serialize_f64 f64 => F64; }
    fn serialize_f32(self, _: f32) -> Result<(), Er> {
        self.put(Tok::Other("f32"))
    }
    fn serialize_char(self, _: char) -> Result<(), Er> {
        self.put(Tok::Other("char"))
    }
    fn serialize_str(self, _: &str) -> Result<(), Er> {
        self.put(Tok::Other("str"))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), Er> {
        self.put(Tok::Other("bytes"))
    }
    fn serialize_none(self) -> Result<(), Er> {
        self.put(Tok::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), Er> {
        self.put(Tok::Other("some"))?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Er> {
        self.put(Tok::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Er> {
        self.put(Tok::Other("unit struct"))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), Er> {
        self.put(Tok::Variant(v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), Er> {
        self.put(Tok::Other("newtype struct"))?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<(), Er> {
        self.put(Tok::Other("newtype variant"))?;
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Items<'a>, Er> {
        self.put(Tok::Seq(n))?;
        Ok(Items(self.0, n, 0, false))
    }
    fn serialize_tuple(self, _: usize) -> Result<No, Er> {
        Err(Er::Msg("serialize_tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Er> {
        Err(Er::Msg("serialize_tuple_struct".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Er> {
        Err(Er::Msg("serialize_tuple_variant".into()))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Items<'a>, Er> {
        self.put(Tok::Map(n))?;
        Ok(Items(self.0, n, 0, false))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Er> {
        Err(Er::Msg("serialize_struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Er> {
        Err(Er::Msg("serialize_struct_variant".into()))
    }
}

// ------------------------------------------------------------------------------------------------ deserializer
/// A value to deserialize from. `Seq` and `Map` come with the size hint they claim.
#[derive(Clone, PartialEq, Debug)]
pub enum V {
    T(Tok),
    Seq(Option<usize>, Vec<V>),
    Map(Option<usize>, Vec<(V, V)>),
}
#[derive(Copy, Clone)]
pub struct De<'a>(pub &'a V, pub &'a State);
impl<'a> De<'a> {
    fn go<'de, W: Visitor<'de>>(self, hint: &'static str, v: W) -> Result<W::Value, Er> {
        let st = self.1;
        st.call(hint)?;
        st.hints.borrow_mut().push(hint);
        if st.strict && !self.fits(hint) {
            return Err(Er::Msg(format!("asked for {hint}, have {:?}", self.0)));
        }
        match self.0 {
            V::T(t) => match *t {
                Tok::Bool(x) => v.visit_bool(x),
                Tok::U8(x) => v.visit_u8(x),
                Tok::U16(x) => v.visit_u16(x),
                Tok::U32(x) => v.visit_u32(x),
                Tok::U64(x) => v.visit_u64(x),
                Tok::U128(x) => v.visit_u128(x),
                Tok::I8(x) => v.visit_i8(x),
                Tok::I16(x) => v.visit_i16(x),
                Tok::I32(x) => v.visit_i32(x),
                Tok::I64(x) => v.visit_i64(x),
                Tok::I128(x) => v.visit_i128(x),
                Tok::F64(x) => v.visit_f64(x),
                Tok::Str(s) => v.visit_str(s),
                Tok::Unit => v.visit_unit(),
                Tok::None => v.visit_none(),
                Tok::Variant(s) => {
                    if hint == "deserialize_enum" {
                        let d: de::value::StrDeserializer<Er> = s.into_deserializer();
                        v.visit_enum(d)
                    } else {
                        v.visit_str(s)
                    }
                }
                _ => panic!("mock: cannot deserialize {t:?}"),
            },
            V::Seq(n, items) => {
                let mut a = SeqA { it: items, at: 0, n: *n, st };
                let r = v.visit_seq(&mut a)?;
                if a.at < items.len() {
                    return Err(Er::Msg(format!("{} items of {} left unread", items.len() - a.at, items.len())));
                }
                Ok(r)
            }
            V::Map(n, items) => {
                let mut a = MapA { it: items, at: 0, key: false, n: *n, st };
                let r = v.visit_map(&mut a)?;
                if a.at < items.len() {
                    return Err(Er::Msg(format!("{} entries of {} left unread", items.len() - a.at, items.len())));
                }
                Ok(r)
            }
        }
    }
    fn fits(self, hint: &str) -> bool {
        match self.0 {
            V::T(t) => hint == match t {
                Tok::Bool(_) => "deserialize_bool",
                Tok::U8(_) => "deserialize_u8",
                Tok::U16(_) => "deserialize_u16",
                Tok::U32(_) => "deserialize_u32",
                Tok::U64(_) => "deserialize_u64",
                Tok::U128(_) => "deserialize_u128",
                Tok::I8(_) => "deserialize_i8",
                Tok::I16(_) => "deserialize_i16",
                Tok::I32(_) => "deserialize_i32",
                Tok::I64(_) => "deserialize_i64",
                Tok::I128(_) => "deserialize_i128",
                Tok::F64(_) => "deserialize_f64",
                Tok::Str(_) => "deserialize_str",
                Tok::Unit => "deserialize_unit",
                Tok::None => "deserialize_option",
                Tok::Variant(_) => "deserialize_enum",
                _ => "",
            },
            V::Seq(..) => hint == "deserialize_seq",
            V::Map(..) => hint == "deserialize_map",
        }
    }
}
macro_rules! hints {
    ($($f:ident)*) => { $(fn $f<W: Visitor<'de>>(self, v: W) -> Result<W::Value, Er> { self.go(stringify!($f), v) })* };
}
impl<'de, 'a> de::Deserializer<'de> for De<'a> {
    type Error = Er;
    fn is_human_readable(&self) -> bool {
        HUMAN.load(std::sync::atomic::Ordering::Relaxed)
    }
    hints! { deserialize_any deserialize_bool deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128 deserialize_i8 deserialize_i16 deserialize_i32
    deserialize_i64 deserialize_i128 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
    deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_unit_struct<W: Visitor<'de>>(self, _: &'static str, v: W) -> Result<W::Value, Er> {
        self.go("deserialize_unit_struct", v)
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, v: W) -> Result<W::Value, Er> {
        self.go("deserialize_newtype_struct", v)
    }
    fn deserialize_tuple<W: Visitor<'de>>(self, _: usize, v: W) -> Result<W::Value, Er> {
        self.go("deserialize_tuple", v)
    }
    fn deserialize_tuple_struct<W: Visitor<'de>>(self, _: &'static str, _: usize, v: W) -> Result<W::Value, Er> {
        self.go("deserialize_tuple_struct", v)
    }
    fn deserialize_struct<W: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: W) -> Result<W::Value, Er> {
        self.go("deserialize_struct", v)
    }
    fn deserialize_enum<W: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: W) -> Result<W::Value, Er> {
        self.go("deserialize_enum", v)
    }
}
struct SeqA<'a> {
    it: &'a [V],
    at: usize,
    n: Option<usize>,
    st: &'a State,
}
impl<'de, 'a> de::SeqAccess<'de> for SeqA<'a> {
    type Error = Er;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Er> {
        self.st.call("next_element")?;
        if self.at == self.it.len() {
            return Ok(None);
        }
        self.at += 1;
        s.deserialize(De(&self.it[self.at - 1], self.st)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.n
    }
}
struct MapA<'a> {
    it: &'a [(V, V)],
    at: usize,
    key: bool,
    n: Option<usize>,
    st: &'a State,
}
impl<'de, 'a> de::MapAccess<'de> for MapA<'a> {
    type Error = Er;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Er> {
        self.st.call("next_key")?;
        if self.key {
            self.st.bad("a key was asked for where a value is next".into());
        }
        if self.at == self.it.len() {
            return Ok(None);
        }
        self.key = true;
        s.deserialize(De(&self.it[self.at].0, self.st)).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Er> {
        self.st.call("next_value")?;
        if !self.key {
            self.st.bad("a value was asked for before its key".into());
            return Err(Er::Msg("protocol".into()));
        }
        self.key = false;
        self.at += 1;
        s.deserialize(De(&self.it[self.at - 1].1, self.st))
    }
    fn size_hint(&self) -> Option<usize> {
        self.n
    }
}
