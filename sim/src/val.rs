//! A neutral, ordered, duplicate-preserving document tree, and a serde serializer that records into it.

use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

use serde::de::{self, Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Val {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Seq(Vec<Val>),
    Map(Vec<(String, Val)>),
}

pub fn s(text: impl Into<String>) -> Val {
    Val::Str(text.into())
}

impl Val {
    /// Sort map entries by key, keeping duplicates.
    pub fn canon(&self) -> Val {
        match self {
            Val::Seq(items) => Val::Seq(items.iter().map(Val::canon).collect()),
            Val::Map(entries) => {
                let mut entries = entries.iter().map(|(k, v)| (k.clone(), v.canon())).collect::<Vec<_>>();
                entries.sort();
                Val::Map(entries)
            }
            other => other.clone(),
        }
    }

    pub fn get(&self, key: &str) -> Option<&Val> {
        match self {
            Val::Map(entries) => entries.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }

    pub fn entries(&self) -> &[(String, Val)] {
        match self {
            Val::Map(entries) => entries,
            _ => &[],
        }
    }

    pub fn text(&self) -> String {
        let mut out = String::new();
        self.write(&mut out);
        out
    }

    fn write(&self, out: &mut String) {
        match self {
            Val::Null => out.push_str("null"),
            Val::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Val::Num(n) => out.push_str(n),
            Val::Str(s) => out.push_str(&format!("{:?}", s)),
            Val::Seq(items) => {
                out.push('[');
                for (i, item) in items.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    item.write(out);
                }
                out.push(']');
            }
            Val::Map(entries) => {
                out.push('{');
                for (i, (key, value)) in entries.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    out.push_str(&format!("{:?}: ", key));
                    value.write(out);
                }
                out.push('}');
            }
        }
    }

    /// First difference between two trees, for messages.
    pub fn diff(&self, other: &Val, at: &str) -> Option<String> {
        if self == other {
            return None;
        }
        match (self, other) {
            (Val::Map(a), Val::Map(b)) => {
                for (i, (key, value)) in a.iter().enumerate() {
                    match b.get(i) {
                        Some((k, v)) if k == key => {
                            if let Some(d) = value.diff(v, &format!("{}/{}", at, key)) {
                                return Some(d);
                            }
                        }
                        _ => {
                            return Some(format!(
                                "at {}: keys {:?} vs {:?}",
                                at,
                                a.iter().map(|x| &x.0).collect::<Vec<_>>(),
                                b.iter().map(|x| &x.0).collect::<Vec<_>>()
                            ))
                        }
                    }
                }
                Some(format!(
                    "at {}: keys {:?} vs {:?}",
                    at,
                    a.iter().map(|x| &x.0).collect::<Vec<_>>(),
                    b.iter().map(|x| &x.0).collect::<Vec<_>>()
                ))
            }
            (Val::Seq(a), Val::Seq(b)) if a.len() == b.len() => {
                a.iter().zip(b).enumerate().find_map(|(i, (x, y))| x.diff(y, &format!("{}/{}", at, i)))
            }
            (a, b) => Some(format!("at {}: {} vs {}", at, a.text(), b.text())),
        }
    }
}

impl<'de> Deserialize<'de> for Val {
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Val;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
                Ok(Val::Null)
            }
            fn visit_none<E: de::Error>(self) -> Result<Val, E> {
                Ok(Val::Null)
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
                Val::deserialize(d)
            }
            fn visit_bool<E: de::Error>(self, v: bool) -> Result<Val, E> {
                Ok(Val::Bool(v))
            }
            fn visit_i64<E: de::Error>(self, v: i64) -> Result<Val, E> {
                Ok(Val::Num(v.to_string()))
            }
            fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> {
                Ok(Val::Num(v.to_string()))
            }
            fn visit_f64<E: de::Error>(self, v: f64) -> Result<Val, E> {
                Ok(Val::Num(v.to_string()))
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
                Ok(Val::Str(v.to_owned()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
                let mut items = Vec::new();
                while let Some(item) = a.next_element()? {
                    items.push(item);
                }
                Ok(Val::Seq(items))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
                let mut entries = Vec::new();
                while let Some(key) = a.next_key::<Val>()? {
                    let key = match key {
                        Val::Str(s) | Val::Num(s) => s,
                        other => other.text(),
                    };
                    entries.push((key, a.next_value()?));
                }
                Ok(Val::Map(entries))
            }
        }
        deserializer.deserialize_any(V)
    }
}

/// Serialize a Val as is (for feeding references through the same sinks).
impl Serialize for Val {
    fn serialize<S: ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        use ser::{SerializeMap, SerializeSeq};
        match self {
            Val::Null => serializer.serialize_unit(),
            Val::Bool(b) => serializer.serialize_bool(*b),
            Val::Num(n) => serializer.serialize_str(n),
            Val::Str(s) => serializer.serialize_str(s),
            Val::Seq(items) => {
                let mut seq = serializer.serialize_seq(Some(items.len()))?;
                for item in items {
                    seq.serialize_element(item)?;
                }
                seq.end()
            }
            Val::Map(entries) => {
                let mut map = serializer.serialize_map(Some(entries.len()))?;
                for (key, value) in entries {
                    map.serialize_entry(key, value)?;
                }
                map.end()
            }
        }
    }
}

/// What the recording serializer does at its n-th call.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Trouble {
    None,
    Error(u64),
    Panic(u64),
}

#[derive(Debug)]
pub struct RecState {
    pub events: u64,
    pub log: Vec<String>,
    pub trouble: Trouble,
    pub failed: bool,
    pub events_after_failure: u64,
    pub bad_lengths: Vec<String>,
    pub yield_every: u64,
    pub keep_log: bool,
}

#[derive(Clone, Debug)]
pub struct Rec(pub Rc<RefCell<RecState>>);

#[derive(Debug, PartialEq)]
pub struct RecErr(pub String);

pub const INJECTED: &str = "sink rejected the item";

impl fmt::Display for RecErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for RecErr {}
impl ser::Error for RecErr {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        RecErr(msg.to_string())
    }
}

impl Rec {
    pub fn new(trouble: Trouble, yield_every: u64, keep_log: bool) -> Rec {
        Rec(Rc::new(RefCell::new(RecState {
            events: 0,
            log: Vec::new(),
            trouble,
            failed: false,
            events_after_failure: 0,
            bad_lengths: Vec::new(),
            yield_every,
            keep_log,
        })))
    }

    fn event(&self, what: impl FnOnce() -> String) -> Result<(), RecErr> {
        let (n, yields) = {
            let mut st = self.0.borrow_mut();
            if st.failed {
                st.events_after_failure += 1;
                return Err(RecErr(INJECTED.to_owned()));
            }
            st.events += 1;
            if st.keep_log {
                let what = what();
                if st.trouble == Trouble::Error(st.events) || st.trouble == Trouble::Panic(st.events) {
                    // not accepted
                } else {
                    st.log.push(what);
                }
            }
            (st.events, st.yield_every > 0 && st.events % st.yield_every == 0 && st.events / st.yield_every <= 200)
        };
        if yields {
            crate::rt::sink_point("sink.item");
        }
        let trouble = self.0.borrow().trouble;
        match trouble {
            Trouble::Error(at) if at == n => {
                self.0.borrow_mut().failed = true;
                Err(RecErr(INJECTED.to_owned()))
            }
            Trouble::Panic(at) if at == n => {
                self.0.borrow_mut().failed = true;
                std::panic::panic_any(crate::rt::SimPanic(2))
            }
            _ => Ok(()),
        }
    }

    fn bad(&self, text: String) {
        self.0.borrow_mut().bad_lengths.push(text);
    }
}

pub struct Compound {
    rec: Rec,
    announced: Option<usize>,
    what: &'static str,
    items: Vec<Val>,
    entries: Vec<(String, Val)>,
    key: Option<String>,
    variant: Option<&'static str>,
    count: usize,
}

impl Compound {
    fn check(&self) {
        if let Some(n) = self.announced {
            if n != self.count {
                self.rec.bad(format!("{} announced {} elements, delivered {}", self.what, n, self.count));
            }
        }
    }
    fn wrap(&self, val: Val) -> Val {
        match self.variant {
            Some(name) => Val::Map(vec![(name.to_owned(), val)]),
            None => val,
        }
    }
}

impl Rec {
    fn compound(self, what: &'static str, announced: Option<usize>, variant: Option<&'static str>) -> Result<Compound, RecErr> {
        self.event(|| format!("{}({:?})", what, announced))?;
        Ok(Compound {
            rec: self,
            announced,
            what,
            items: Vec::new(),
            entries: Vec::new(),
            key: None,
            variant,
            count: 0,
        })
    }
    fn leaf(self, val: Val) -> Result<Val, RecErr> {
        self.event(|| val.text())?;
        Ok(val)
    }
}

impl ser::Serializer for Rec {
    type Ok = Val;
    type Error = RecErr;
    type SerializeSeq = Compound;
    type SerializeTuple = Compound;
    type SerializeTupleStruct = Compound;
    type SerializeTupleVariant = Compound;
    type SerializeMap = Compound;
    type SerializeStruct = Compound;
    type SerializeStructVariant = Compound;

    fn serialize_bool(self, v: bool) -> Result<Val, RecErr> {
        self.leaf(Val::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Val, RecErr> {
        self.leaf(Val::Num(v.to_string()))
    }
    fn serialize_i16(self, v: i16) -> Result<Val, RecErr> {
        self.leaf(Val::Num(v.to_string()))
    }
    fn serialize_i32(self, v: i32) -> Result<Val, RecErr> {
        self.leaf(Val::Num(v.to_string()))
    }
    fn serialize_i64(self, v: i64) -> Result<Val, RecErr> {
        self.leaf(Val::Num(v.to_string()))
    }
    fn serialize_u8(self, v: u8) -> Result<Val, RecErr> {
        self.leaf(Val::Num(v.to_string()))
    }
    fn serialize_u16(self, v: u16) -> Result<Val, RecErr> {
        self.leaf(Val::Num(v.to_string()))
    }
    fn serialize_u32(self, v: u32) -> Result<Val, RecErr> {
        self.leaf(Val::Num(v.to_string()))
    }
    fn serialize_u64(self, v: u64) -> Result<Val, RecErr> {
        self.leaf(Val::Num(v.to_string()))
    }
    fn serialize_f32(self, v: f32) -> Result<Val, RecErr> {
        self.leaf(Val::Num(v.to_string()))
    }
    fn serialize_f64(self, v: f64) -> Result<Val, RecErr> {
        self.leaf(Val::Num(v.to_string()))
    }
    fn serialize_char(self, v: char) -> Result<Val, RecErr> {
        self.leaf(Val::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Val, RecErr> {
        self.leaf(Val::Str(v.to_owned()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Val, RecErr> {
        self.leaf(Val::Str(format!("{:?}", v)))
    }
    fn serialize_none(self) -> Result<Val, RecErr> {
        self.leaf(Val::Null)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Val, RecErr> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Val, RecErr> {
        self.leaf(Val::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, RecErr> {
        self.leaf(Val::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, variant: &'static str) -> Result<Val, RecErr> {
        self.leaf(Val::Str(variant.to_owned()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Val, RecErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        v: &T,
    ) -> Result<Val, RecErr> {
        self.event(|| "newtype variant".to_owned())?;
        Ok(Val::Map(vec![(variant.to_owned(), v.serialize(self)?)]))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Compound, RecErr> {
        self.compound("seq", len, None)
    }
    fn serialize_tuple(self, len: usize) -> Result<Compound, RecErr> {
        self.compound("tuple", Some(len), None)
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<Compound, RecErr> {
        self.compound("tuple struct", Some(len), None)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, len: usize) -> Result<Compound, RecErr> {
        self.compound("tuple variant", Some(len), Some(v))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Compound, RecErr> {
        self.compound("map", len, None)
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<Compound, RecErr> {
        self.compound("struct", Some(len), None)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, len: usize) -> Result<Compound, RecErr> {
        self.compound("struct variant", Some(len), Some(v))
    }
}

macro_rules! seq_like {
    ($trait:ident, $method:ident) => {
        impl ser::$trait for Compound {
            type Ok = Val;
            type Error = RecErr;
            fn $method<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
                self.count += 1;
                let val = v.serialize(self.rec.clone())?;
                self.items.push(val);
                Ok(())
            }
            fn end(self) -> Result<Val, RecErr> {
                self.rec.event(|| "end".to_owned())?;
                self.check();
                let val = Val::Seq(self.items.clone());
                Ok(self.wrap(val))
            }
        }
    };
}
seq_like!(SerializeSeq, serialize_element);
seq_like!(SerializeTuple, serialize_element);
seq_like!(SerializeTupleStruct, serialize_field);
seq_like!(SerializeTupleVariant, serialize_field);

impl ser::SerializeMap for Compound {
    type Ok = Val;
    type Error = RecErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, key: &T) -> Result<(), RecErr> {
        self.count += 1;
        let key = key.serialize(self.rec.clone())?;
        self.key = Some(match key {
            Val::Str(s) | Val::Num(s) => s,
            other => other.text(),
        });
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        let val = v.serialize(self.rec.clone())?;
        let key = self.key.take().unwrap_or_else(|| "<value without key>".to_owned());
        self.entries.push((key, val));
        Ok(())
    }
    fn end(self) -> Result<Val, RecErr> {
        self.rec.event(|| "end".to_owned())?;
        self.check();
        if self.key.is_some() {
            self.rec.bad("map ended after a key without value".to_owned());
        }
        let val = Val::Map(self.entries.clone());
        Ok(self.wrap(val))
    }
}

macro_rules! struct_like {
    ($trait:ident) => {
        impl ser::$trait for Compound {
            type Ok = Val;
            type Error = RecErr;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T) -> Result<(), RecErr> {
                self.count += 1;
                self.rec.event(|| format!("{:?}:", key))?;
                let val = v.serialize(self.rec.clone())?;
                self.entries.push((key.to_owned(), val));
                Ok(())
            }
            fn end(self) -> Result<Val, RecErr> {
                self.rec.event(|| "end".to_owned())?;
                self.check();
                let val = Val::Map(self.entries.clone());
                Ok(self.wrap(val))
            }
        }
    };
}
struct_like!(SerializeStruct);
struct_like!(SerializeStructVariant);

/// Serialize into a Val with nothing going wrong.
pub fn to_val<T: Serialize + ?Sized>(value: &T) -> Val {
    match value.serialize(Rec::new(Trouble::None, 0, false)) {
        Ok(val) => val,
        Err(e) => crate::rt::fail("emit-error", format!("serializing failed without a fault: {}", e)),
    }
}
