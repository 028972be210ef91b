//! Serialization of system times, through a small serializer and deserializer of our own.

use crate::sym::*;
use crate::world::*;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, SerializeStruct, Serializer};
use serde::forward_to_deserialize_any;
use std::time::Duration;
use wasmtimer::std::{SystemTime, UNIX_EPOCH};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Error {
    Custom,
    UnknownField,
    DuplicateField,
    MissingField,
    InvalidLength,
    InvalidValue,
    /// misuse of this format
    Format,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Error::Custom
    }
}
impl de::Error for Error {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Error::Custom
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        Error::UnknownField
    }
    fn duplicate_field(_: &'static str) -> Self {
        Error::DuplicateField
    }
    fn missing_field(_: &'static str) -> Self {
        Error::MissingField
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        Error::InvalidLength
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Error::InvalidValue
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Error::InvalidValue
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Name {
    Secs,
    Nanos,
    Other,
}
impl Name {
    fn of(s: &str) -> Name {
        match s {
            "secs_since_epoch" => Name::Secs,
            "nanos_since_epoch" => Name::Nanos,
            _ => Name::Other,
        }
    }
    fn text(self, k: u32) -> &'static str {
        match self {
            Name::Secs => "secs_since_epoch",
            Name::Nanos => "nanos_since_epoch",
            Name::Other if k >= 4 => unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(&raw const ANY as *const u8, k as usize - 4)) },
            Name::Other => ["", "secs", "nanos_since_epoch ", "secs_since_epocH"][k as usize],
        }
    }
}

static mut ANY: [u8; 24] = [0; 24];

/// what was written: up to four fields
#[derive(Clone, Copy)]
struct Rec {
    n: usize,
    f: [(Name, u64, bool); 4],
}

struct Ser;
struct SerS(Rec);
struct Val;
macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<Self::Ok, Error> { Err(Error::Format) })* }
}
macro_rules! scalars {
    () => {
        no! {
            serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
            serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]);
            serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
            serialize_unit_variant(&'static str, u32, &'static str);
        }
        type SerializeSeq = ser::Impossible<Self::Ok, Error>;
        type SerializeTuple = ser::Impossible<Self::Ok, Error>;
        type SerializeTupleStruct = ser::Impossible<Self::Ok, Error>;
        type SerializeTupleVariant = ser::Impossible<Self::Ok, Error>;
        type SerializeMap = ser::Impossible<Self::Ok, Error>;
        type SerializeStructVariant = ser::Impossible<Self::Ok, Error>;
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::Format)
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::Format)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::Format)
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Error> {
            Err(Error::Format)
        }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> {
            Err(Error::Format)
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> {
            Err(Error::Format)
        }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> {
            Err(Error::Format)
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> {
            Err(Error::Format)
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> {
            Err(Error::Format)
        }
        fn collect_str<T: ?Sized + std::fmt::Display>(self, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::Format)
        }
    };
}
impl Serializer for Ser {
    type Ok = Rec;
    type Error = Error;
    type SerializeStruct = SerS;
    scalars!();
    no! { serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<SerS, Error> {
        Ok(SerS(Rec { n: 0, f: [(Name::Other, 0, false); 4] }))
    }
}
impl SerializeStruct for SerS {
    type Ok = Rec;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        if self.0.n == 4 {
            return Err(Error::Format);
        }
        let (v, wide) = v.serialize(Val)?;
        self.0.f[self.0.n] = (Name::of(k), v, wide);
        self.0.n += 1;
        Ok(())
    }
    fn end(self) -> Result<Rec, Error> {
        Ok(self.0)
    }
}
impl Serializer for Val {
    type Ok = (u64, bool);
    type Error = Error;
    type SerializeStruct = ser::Impossible<Self::Ok, Error>;
    scalars!();
    fn serialize_u8(self, v: u8) -> Result<(u64, bool), Error> {
        Ok((v as u64, false))
    }
    fn serialize_u16(self, v: u16) -> Result<(u64, bool), Error> {
        Ok((v as u64, false))
    }
    fn serialize_u32(self, v: u32) -> Result<(u64, bool), Error> {
        Ok((v as u64, false))
    }
    fn serialize_u64(self, v: u64) -> Result<(u64, bool), Error> {
        Ok((v, true))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
        Err(Error::Format)
    }
}

/// how the record is presented: field names as strings or bytes, or no names at all
#[derive(Clone, Copy, PartialEq)]
enum Form {
    Str,
    Bytes,
    Seq,
}
struct De {
    r: Rec,
    form: Form,
    at: usize,
    odd: u32,
}
impl<'de> Deserializer<'de> for De {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.form == Form::Seq {
            v.visit_seq(self)
        } else {
            v.visit_map(self)
        }
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Key(Name, Form, u32);
impl<'de> Deserializer<'de> for Key {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.1 {
            Form::Bytes => v.visit_bytes(self.0.text(self.2).as_bytes()),
            _ => v.visit_str(self.0.text(self.2)),
        }
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Num(u64, bool);
impl<'de> Deserializer<'de> for Num {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.1 {
            v.visit_u64(self.0)
        } else {
            v.visit_u32(self.0 as u32)
        }
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> MapAccess<'de> for De {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Error> {
        if self.at == self.r.n {
            return Ok(None);
        }
        s.deserialize(Key(self.r.f[self.at].0, self.form, self.odd)).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Error> {
        let f = self.r.f[self.at];
        self.at += 1;
        s.deserialize(Num(f.1, f.2))
    }
}
impl<'de> SeqAccess<'de> for De {
    type Error = Error;
    fn next_element_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Error> {
        if self.at == self.r.n {
            return Ok(None);
        }
        let f = self.r.f[self.at];
        self.at += 1;
        s.deserialize(Num(f.1, f.2)).map(Some)
    }
}

fn form() -> Form {
    match choice(3) {
        0 => Form::Str,
        1 => Form::Bytes,
        _ => Form::Seq,
    }
}

/// params: 0 bits of the time in milliseconds
#[no_mangle]
pub extern "C" fn h_roundtrip() {
    set_now(0);
    let lim = 1u64 << param(0);
    let x = range(0, lim);
    let t = UNIX_EPOCH + Duration::from_millis(x);
    if choice(2) == 1 {
        assume(x > 0);
        let t = UNIX_EPOCH - Duration::from_millis(x);
        check(t.serialize(Ser).is_err(), "a time before the epoch is refused");
        reach("refused");
        return;
    }
    let r = match t.serialize(Ser) {
        Ok(r) => r,
        Err(_) => {
            check(false, "a time since the epoch is serialized");
            return;
        }
    };
    // the record is what serde documents for the standard SystemTime
    check(r.n == 2, "two fields are written");
    let secs = r.f.iter().take(r.n).find(|f| f.0 == Name::Secs).map(|f| f.1);
    let nanos = r.f.iter().take(r.n).find(|f| f.0 == Name::Nanos).map(|f| f.1);
    check(secs == Some(x / 1000), "whole seconds are written");
    check(nanos == Some(x % 1000 * 1_000_000), "the rest is written as nanoseconds");
    let f = form();
    if f != Form::Seq && choice(2) == 1 {
        // fields may come in any order
        let mut q = r;
        q.f.swap(0, 1);
        let b = SystemTime::deserialize(De { r: q, form: f, at: 0, odd: 0 });
        check(matches!(b, Ok(b) if b == t), "the same time comes back");
        reach("swapped");
    } else {
        let b = SystemTime::deserialize(De { r, form: f, at: 0, odd: 0 });
        check(matches!(b, Ok(b) if b == t), "the same time comes back");
        reach("came back");
    }
    reach("end");
}

/// Any record of up to params[0] fields; params: 1 what seconds are (0 up to 2^53 ms, 1 the top of
/// the 64-bit range, 2 anything).
#[no_mangle]
pub extern "C" fn h_malformed() {
    set_now(0);
    let n = choice(param(0) as u32 + 1) as usize;
    let f = form();
    let mut r = Rec { n, f: [(Name::Other, 0, false); 4] };
    let limit = (1u64 << 53) / 1000;
    // what has to come out
    let mut want: Result<(), Error> = Ok(());
    let mut secs: Option<u64> = None;
    let mut nanos: Option<u64> = None;
    for i in 0..n {
        let name = if f == Form::Seq {
            if i == 0 {
                Name::Secs
            } else if i == 1 {
                Name::Nanos
            } else {
                Name::Other
            }
        } else {
            match choice(3) {
                0 => Name::Secs,
                1 => Name::Nanos,
                _ => Name::Other,
            }
        };
        let v = match (name, param(1)) {
            (Name::Secs, 0) => range(0, limit),
            (Name::Secs, 1) => range(u64::MAX - 5, u64::MAX),
            (Name::Secs, _) => range(0, u64::MAX),
            _ => range(0, u32::MAX as u64 + (param(1) == 0) as u64),
        };
        r.f[i] = (name, v, name == Name::Secs || v > u32::MAX as u64 || choice(2) == 1);
        if want.is_err() || (f == Form::Seq && i >= 2) {
            continue;
        }
        match name {
            Name::Secs if secs.is_some() => want = Err(Error::DuplicateField),
            Name::Secs => secs = Some(v),
            Name::Nanos if nanos.is_some() => want = Err(Error::DuplicateField),
            Name::Nanos if v > u32::MAX as u64 => want = Err(Error::InvalidValue),
            Name::Nanos => nanos = Some(v),
            Name::Other => want = Err(Error::UnknownField),
        }
    }
    if want.is_ok() {
        if secs.is_none() || nanos.is_none() {
            want = Err(if f == Form::Seq { Error::InvalidLength } else { Error::MissingField });
        } else if secs.unwrap().checked_add(nanos.unwrap() / 1_000_000_000).is_none() {
            want = Err(Error::Custom);
        }
    }
    let odd = choice(4);
    let got = SystemTime::deserialize(De { r, form: f, at: 0, odd });
    match want {
        Err(_) => {
            check(got.is_err(), "a malformed record is refused");
            reach("refused");
        }
        Ok(()) => {
            let (s, n) = (secs.unwrap(), nanos.unwrap());
            match got {
                Err(_) => check(false, "a well-formed record is accepted"),
                Ok(t) => {
                    if param(1) == 0 {
                        let ms = s * 1000 + n / 1_000_000;
                        check(t == UNIX_EPOCH + Duration::from_millis(ms), "the time is the one written");
                        reach("accepted");
                    } else {
                        check(t > UNIX_EPOCH || s < 1, "the time is not wrong by sign");
                        reach("accepted");
                    }
                }
            }
        }
    }
    reach("end");
}

/// A field of any other name beside, or instead of, one of the two.
/// params: 0 length of the name
#[no_mangle]
pub extern "C" fn h_names() {
    set_now(0);
    let len = param(0) as usize;
    for i in 0..len {
        unsafe { ANY[i] = range(0, 127) as u8 };
    }
    for known in [&b"secs_since_epoch"[..], &b"nanos_since_epoch"[..]] {
        if known.len() == len {
            let mut diff = 0;
            for i in 0..len {
                diff |= known[i] ^ unsafe { ANY[i] };
            }
            assume(diff != 0);
        }
    }
    let form = if choice(2) == 1 { Form::Str } else { Form::Bytes };
    let mut r = Rec { n: 2, f: [(Name::Secs, 1, true), (Name::Nanos, 1_000_000, false), (Name::Other, 0, false), (Name::Other, 0, false)] };
    match choice(5) {
        0 => r.f[0].0 = Name::Other,
        1 => r.f[1].0 = Name::Other,
        2 => r.n = 3,
        3 => {
            r.n = 3;
            r.f.swap(1, 2);
        }
        _ => {
            r.n = 3;
            r.f.swap(0, 2);
        }
    }
    let got = SystemTime::deserialize(De { r, form, at: 0, odd: 4 + len as u32 });
    check(got.is_err(), "a field of any other name is refused");
    reach("refused");
    reach("end");
}
