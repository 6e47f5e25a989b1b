//! A reader and a writer which record what they are asked, fail where they are
//! told to, and give exactly the items they are given.

use core::cell::Cell;
use core::fmt;
use serde::de::{DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{Impossible, SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

use crate::shapes::*;

/// The error of the format: where it was raised.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error {
    Wrong,
    Custom,
    At(u8, u8),
}

impl fmt::Display for Error {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}

impl core::error::Error for Error {}

impl serde::ser::Error for Error {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Error::Custom
    }
}

impl serde::de::Error for Error {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Error::Custom
    }
    fn invalid_type(_: serde::de::Unexpected<'_>, _: &dyn serde::de::Expected) -> Self {
        Error::Custom
    }
}

/// What can be announced, written or read: more than any container here holds.
pub const MAX: usize = 10;

/// Everything that was written.
pub struct Log {
    pub map: Cell<bool>,
    pub announced: Cell<Option<usize>>,
    pub begun: Cell<u8>,
    pub keys: [Cell<u8>; MAX],
    pub values: [Cell<u8>; MAX],
    pub n_keys: Cell<usize>,
    pub n_values: Cell<usize>,
    pub ended: Cell<u8>,
    /// Calls made so far, and the one which fails with which code.
    pub calls: Cell<u8>,
    pub fail_at: u8,
    pub code: u8,
    pub after_failure: Cell<bool>,
    failed: Cell<bool>,
}

impl Log {
    pub fn new(fail_at: u8, code: u8) -> Self {
        Log {
            map: Cell::new(false),
            announced: Cell::new(None),
            begun: Cell::new(0),
            keys: [const { Cell::new(0) }; MAX],
            values: [const { Cell::new(0) }; MAX],
            n_keys: Cell::new(0),
            n_values: Cell::new(0),
            ended: Cell::new(0),
            calls: Cell::new(0),
            fail_at,
            code,
            after_failure: Cell::new(false),
            failed: Cell::new(false),
        }
    }

    fn call(&self) -> Result<(), Error> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.failed.get() {
            self.after_failure.set(true);
        }
        if n == self.fail_at {
            self.failed.set(true);
            return Err(Error::At(n, self.code));
        }
        Ok(())
    }
}

/// Marks that something was written to the end.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Done;

pub struct Writer<'a>(pub &'a Log);

macro_rules! wrong {
    ($($name:ident($($t:ty),*);)*) => {
        $(fn $name(self, $(_: $t),*) -> Result<Self::Ok, Error> {
            Err(Error::Wrong)
        })*
    };
}

macro_rules! impossible {
    () => {
        type SerializeTuple = Impossible<Self::Ok, Error>;
        type SerializeTupleStruct = Impossible<Self::Ok, Error>;
        type SerializeTupleVariant = Impossible<Self::Ok, Error>;
        type SerializeStruct = Impossible<Self::Ok, Error>;
        type SerializeStructVariant = Impossible<Self::Ok, Error>;

        wrong! {
            serialize_bool(bool);
            serialize_i8(i8);
            serialize_i16(i16);
            serialize_i32(i32);
            serialize_i64(i64);
            serialize_u16(u16);
            serialize_u32(u32);
            serialize_u64(u64);
            serialize_f32(f32);
            serialize_f64(f64);
            serialize_char(char);
            serialize_str(&str);
            serialize_bytes(&[u8]);
            serialize_none();
            serialize_unit();
            serialize_unit_struct(&'static str);
            serialize_unit_variant(&'static str, u32, &'static str);
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::Wrong)
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            _: &T,
        ) -> Result<Self::Ok, Error> {
            Err(Error::Wrong)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: &T,
        ) -> Result<Self::Ok, Error> {
            Err(Error::Wrong)
        }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> {
            Err(Error::Wrong)
        }
        fn serialize_tuple_struct(
            self,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeTupleStruct, Error> {
            Err(Error::Wrong)
        }
        fn serialize_tuple_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeTupleVariant, Error> {
            Err(Error::Wrong)
        }
        fn serialize_struct(
            self,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeStruct, Error> {
            Err(Error::Wrong)
        }
        fn serialize_struct_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeStructVariant, Error> {
            Err(Error::Wrong)
        }
        fn collect_str<T: ?Sized + fmt::Display>(self, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::Wrong)
        }
    };
}

impl<'a> Serializer for Writer<'a> {
    type Ok = Done;
    type Error = Error;
    type SerializeSeq = Writer<'a>;
    type SerializeMap = Writer<'a>;
    impossible!();

    fn serialize_u8(self, _: u8) -> Result<Done, Error> {
        Err(Error::Wrong)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Writer<'a>, Error> {
        self.0.call()?;
        self.0.begun.set(self.0.begun.get() + 1);
        self.0.announced.set(len);
        Ok(self)
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Writer<'a>, Error> {
        self.0.call()?;
        self.0.begun.set(self.0.begun.get() + 1);
        self.0.map.set(true);
        self.0.announced.set(len);
        Ok(self)
    }
}

impl SerializeMap for Writer<'_> {
    type Ok = Done;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, key: &T) -> Result<(), Error> {
        self.0.call()?;
        let v = key.serialize(Number)?;
        let n = self.0.n_keys.get();
        self.0.keys[n].set(v);
        self.0.n_keys.set(n + 1);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Error> {
        self.0.call()?;
        let v = value.serialize(Number)?;
        let n = self.0.n_values.get();
        assert!(n + 1 == self.0.n_keys.get(), "serialize: each value follows its key");
        self.0.values[n].set(v);
        self.0.n_values.set(n + 1);
        Ok(())
    }
    fn end(self) -> Result<Done, Error> {
        self.0.call()?;
        self.0.ended.set(self.0.ended.get() + 1);
        Ok(Done)
    }
}

impl SerializeSeq for Writer<'_> {
    type Ok = Done;
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, key: &T) -> Result<(), Error> {
        self.0.call()?;
        let v = key.serialize(Number)?;
        let n = self.0.n_keys.get();
        self.0.keys[n].set(v);
        self.0.n_keys.set(n + 1);
        Ok(())
    }
    fn end(self) -> Result<Done, Error> {
        self.0.call()?;
        self.0.ended.set(self.0.ended.get() + 1);
        Ok(Done)
    }
}

/// Takes one number.
pub struct Number;

impl Serializer for Number {
    type Ok = u8;
    type Error = Error;
    type SerializeSeq = Impossible<u8, Error>;
    type SerializeMap = Impossible<u8, Error>;
    impossible!();

    fn serialize_u8(self, v: u8) -> Result<u8, Error> {
        Ok(v)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Error> {
        Err(Error::Wrong)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> {
        Err(Error::Wrong)
    }
}

/// A key is written as its position.
pub struct Position(u8);

impl<'de> Visitor<'de> for Position {
    type Value = u8;
    fn expecting(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
    fn visit_u8<E: serde::de::Error>(self, v: u8) -> Result<u8, E> {
        if v < self.0 {
            Ok(v)
        } else {
            Err(E::custom("position"))
        }
    }
}

macro_rules! keys {
    ($($t:ty),*) => {
        $(
            impl Serialize for $t {
                fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    let mut at = 0;
                    each!(i in <$t as Shape>::N => {
                        if *self == <$t as Shape>::nth(i) {
                            at = i;
                        }
                    });
                    s.serialize_u8(at as u8)
                }
            }
            impl<'de> Deserialize<'de> for $t {
                fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                    let at = d.deserialize_u8(Position(<$t as Shape>::N as u8))?;
                    Ok(<$t as Shape>::nth(at as usize))
                }
            }
        )*
    };
}
keys!(U3, U4, B3, Mid, Unit, Tiny, Outer, Opt);

/// The kinds of keys serde itself writes are wrapped, to be numbers.
#[derive(Clone, Copy, PartialEq, Eq, Debug, fixed_map::Key)]
pub enum Wrap {
    Flag(bool),
    Opt(Option<()>),
}

impl Shape for Wrap {
    const N: usize = 4;
    fn nth(i: usize) -> Self {
        match i {
            0 => Wrap::Flag(true),
            1 => Wrap::Flag(false),
            2 => Wrap::Opt(Some(())),
            _ => Wrap::Opt(None),
        }
    }
    fn index(self) -> usize {
        match self {
            Wrap::Flag(true) => 0,
            Wrap::Flag(false) => 1,
            Wrap::Opt(Some(())) => 2,
            Wrap::Opt(None) => 3,
        }
    }
}
keys!(Wrap);

/// Gives items, failing at one call.
pub struct Reader<'a> {
    pub items: &'a [(u8, u8); MAX],
    pub len: usize,
    pub map: bool,
    pub hint: Option<usize>,
    pub calls: &'a Cell<u8>,
    pub fail_at: u8,
    pub code: u8,
    pub at: usize,
}

impl Reader<'_> {
    fn call(&self) -> Result<(), Error> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if n == self.fail_at {
            return Err(Error::At(n, self.code));
        }
        Ok(())
    }
}

macro_rules! forward {
    ($($name:ident)*) => {
        $(fn $name<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
            Err(Error::Wrong)
        })*
    };
}

macro_rules! no_structs {
    () => {
        forward! {
            deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
            deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32
            deserialize_f64 deserialize_char deserialize_str deserialize_string
            deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit
            deserialize_identifier deserialize_ignored_any
        }
        fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Error> {
            Err(Error::Wrong)
        }
        fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Error> {
            Err(Error::Wrong)
        }
        fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Error> {
            Err(Error::Wrong)
        }
        fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Error> {
            Err(Error::Wrong)
        }
        fn deserialize_struct<V: Visitor<'de>>(
            self,
            _: &'static str,
            _: &'static [&'static str],
            _: V,
        ) -> Result<V::Value, Error> {
            Err(Error::Wrong)
        }
        fn deserialize_enum<V: Visitor<'de>>(
            self,
            _: &'static str,
            _: &'static [&'static str],
            _: V,
        ) -> Result<V::Value, Error> {
            Err(Error::Wrong)
        }
    };
}

impl<'de> Deserializer<'de> for Reader<'_> {
    type Error = Error;
    no_structs!();

    forward!(deserialize_u8);
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        if self.map {
            visitor.visit_map(self)
        } else {
            visitor.visit_seq(self)
        }
    }
    fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        self.deserialize_any(visitor)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        self.deserialize_any(visitor)
    }
}

impl<'de> MapAccess<'de> for Reader<'_> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        self.call()?;
        if self.at == self.len {
            return Ok(None);
        }
        seed.deserialize(Give(self.items[self.at].0)).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        self.call()?;
        self.at += 1;
        seed.deserialize(Give(self.items[self.at - 1].1))
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

impl<'de> SeqAccess<'de> for Reader<'_> {
    type Error = Error;
    fn next_element_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        self.call()?;
        if self.at == self.len {
            return Ok(None);
        }
        self.at += 1;
        seed.deserialize(Give(self.items[self.at - 1].0)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

/// Gives one number.
pub struct Give(u8);

impl<'de> Deserializer<'de> for Give {
    type Error = Error;
    no_structs!();

    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        visitor.visit_u8(self.0)
    }
    fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        visitor.visit_u8(self.0)
    }
    forward!(deserialize_map deserialize_seq);
}
