//! Conversion of values to and from the uniform nodes of the specification,
//! and the custom (de)serialization functions used by the generated types.

use std::borrow::Cow;
use std::fmt;

use instant_xml::de::borrow_cow_slice_u8;
use instant_xml::ser::Context;
use instant_xml::{
    display_to_xml, from_xml_str, Accumulate, AnyElement, Deserializer, Error, FromXml, Id, Kind, OptionAccumulator,
    Serializer, ToXml,
};
use serde_json::{json, Value};

pub trait Node: Sized {
    fn put(&self) -> Value;
    fn get(v: &Value) -> Self;
}

pub fn node(k: &str, s: &str, c: Vec<Value>) -> Value {
    json!({"k": k, "s": s, "c": c})
}

pub fn scalar(s: &str) -> Value {
    node("s", s, vec![])
}

macro_rules! display_node {
    ($($t:ty),*) => { $(
        impl Node for $t {
            fn put(&self) -> Value { scalar(&self.to_string()) }
            fn get(v: &Value) -> Self { v["s"].as_str().unwrap().parse().unwrap() }
        }
    )* };
}

display_node!(
    i8, i16, i32, i64, isize, u8, u16, u32, u64, usize, f32, f64, bool, char, String,
    std::net::IpAddr
);

/// A scalar type of the user's: text that begins with `#`.
#[derive(Clone, Debug, PartialEq)]
pub struct Hand(String);

impl std::str::FromStr for Hand {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        s.strip_prefix('#').map(|s| Self(s.to_owned())).ok_or(())
    }
}

impl fmt::Display for Hand {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "#{}", self.0)
    }
}

impl<'xml> FromXml<'xml> for Hand {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        field.is_some_and(|field| id == field)
    }

    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        from_xml_str(into, field, deserializer)
    }

    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Scalar;
}

impl ToXml for Hand {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        field: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        display_to_xml(self, field, serializer)
    }
}

impl Node for Hand {
    fn put(&self) -> Value {
        scalar(&self.to_string())
    }
    fn get(v: &Value) -> Self {
        v["s"].as_str().unwrap().parse().unwrap()
    }
}

/// Borrowed bytes, by the helper function: for elements only, since that reads to the end.
#[derive(Clone, Debug, PartialEq)]
pub struct Raw<'a>(Cow<'a, [u8]>);

#[derive(Default)]
pub struct RawAccumulator<'xml>(Option<Cow<'xml, [u8]>>);

impl<'a, 'xml: 'a> Accumulate<Raw<'a>> for RawAccumulator<'xml> {
    fn try_done(self, field: &'static str) -> Result<Raw<'a>, Error> {
        self.0.map(Raw).ok_or(Error::MissingValue(field))
    }
}

impl<'a, 'xml: 'a> FromXml<'xml> for Raw<'a> {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        field.is_some_and(|field| id == field)
    }

    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        borrow_cow_slice_u8(&mut into.0, field, deserializer)
    }

    type Accumulator = RawAccumulator<'xml>;
    const KIND: Kind = Kind::Scalar;
}

impl ToXml for Raw<'_> {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        field: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        display_to_xml(&String::from_utf8_lossy(&self.0), field, serializer)
    }
}

impl Node for Raw<'_> {
    fn put(&self) -> Value {
        scalar(std::str::from_utf8(&self.0).unwrap())
    }
    fn get(v: &Value) -> Self {
        Raw(Cow::Owned(v["s"].as_str().unwrap().as_bytes().to_vec()))
    }
}

impl Node for () {
    fn put(&self) -> Value {
        scalar("")
    }
    fn get(_: &Value) -> Self {}
}

impl Node for chrono::NaiveDate {
    fn put(&self) -> Value {
        scalar(&self.format("%Y-%m-%d").to_string())
    }
    fn get(v: &Value) -> Self {
        v["s"].as_str().unwrap().parse().unwrap()
    }
}

impl Node for chrono::NaiveDateTime {
    fn put(&self) -> Value {
        scalar(&self.format("%Y-%m-%dT%H:%M:%S%.f").to_string())
    }
    fn get(v: &Value) -> Self {
        v["s"].as_str().unwrap().parse().unwrap()
    }
}

impl Node for chrono::DateTime<chrono::Utc> {
    fn put(&self) -> Value {
        scalar(&self.to_rfc3339())
    }
    fn get(v: &Value) -> Self {
        v["s"].as_str().unwrap().parse().unwrap()
    }
}

impl Node for Cow<'_, str> {
    fn put(&self) -> Value {
        scalar(self)
    }
    fn get(v: &Value) -> Self {
        Cow::Owned(v["s"].as_str().unwrap().to_owned())
    }
}

impl<T: Node + Clone> Node for Cow<'_, [T]> {
    fn put(&self) -> Value {
        node("v", "", self.iter().map(Node::put).collect())
    }
    fn get(v: &Value) -> Self {
        Cow::Owned(Vec::get(v))
    }
}

impl<T: Node> Node for Vec<T> {
    fn put(&self) -> Value {
        node("v", "", self.iter().map(Node::put).collect())
    }
    fn get(v: &Value) -> Self {
        v["c"].as_array().unwrap().iter().map(T::get).collect()
    }
}

impl<T: Node> Node for Option<T> {
    fn put(&self) -> Value {
        node("o", "", self.iter().map(Node::put).collect())
    }
    fn get(v: &Value) -> Self {
        v["c"].as_array().unwrap().first().map(T::get)
    }
}

impl<T: Node> Node for Box<T> {
    fn put(&self) -> Value {
        (**self).put()
    }
    fn get(v: &Value) -> Self {
        Box::new(T::get(v))
    }
}

impl<T: Node> Node for &'static T {
    fn put(&self) -> Value {
        (**self).put()
    }
    fn get(v: &Value) -> Self {
        Box::leak(Box::new(T::get(v)))
    }
}

fn captured(e: &AnyElement<'_>) -> Value {
    let attributes = e
        .attributes
        .iter()
        .map(|a| node("a", &a.name, vec![scalar(&a.ns), scalar(&a.value)]))
        .collect();
    node(
        "x",
        &e.name,
        vec![
            scalar(&e.ns),
            node("o", "", e.text.iter().map(|t| scalar(t)).collect()),
            node("v", "", attributes),
            node("v", "", e.children.iter().map(captured).collect()),
        ],
    )
}

impl Node for AnyElement<'_> {
    fn put(&self) -> Value {
        let value = captured(self);
        let owned: AnyElement<'static> = self.clone().into_owned();
        match captured(&owned) == value && owned == *self {
            true => value,
            false => node("the owned form differs", "", vec![value, captured(&owned)]),
        }
    }
    fn get(_: &Value) -> Self {
        unimplemented!()
    }
}

/// What fields with custom functions hold.
pub trait Custom {
    fn texts(&self) -> Vec<&str>;
}

impl Custom for String {
    fn texts(&self) -> Vec<&str> {
        vec![self]
    }
}

impl<T: Custom> Custom for Option<T> {
    fn texts(&self) -> Vec<&str> {
        self.iter().flat_map(T::texts).collect()
    }
}

impl<T: Custom> Custom for Vec<T> {
    fn texts(&self) -> Vec<&str> {
        self.iter().flat_map(T::texts).collect()
    }
}

impl<T: Custom> Custom for Box<T> {
    fn texts(&self) -> Vec<&str> {
        (**self).texts()
    }
}

pub fn with_put<T: Custom, W: fmt::Write + ?Sized>(
    value: &T,
    serializer: &mut Serializer<'_, W>,
) -> Result<(), Error> {
    for text in value.texts() {
        let element = serializer.write_start("put", "", None::<Context<0>>)?;
        serializer.end_start()?;
        text.serialize(None, serializer)?;
        serializer.write_close(element)?;
    }

    Ok(())
}

/// What such fields are read into.
pub trait Slot {
    fn put(&mut self, text: String) -> bool;
}

impl Slot for Option<String> {
    fn put(&mut self, text: String) -> bool {
        self.replace(text).is_none()
    }
}

impl Slot for Option<Box<String>> {
    fn put(&mut self, text: String) -> bool {
        self.replace(Box::new(text)).is_none()
    }
}

impl Slot for Vec<String> {
    fn put(&mut self, text: String) -> bool {
        self.push(text);
        true
    }
}

impl<T, A: Accumulate<T> + Slot> Slot for OptionAccumulator<T, A> {
    fn put(&mut self, text: String) -> bool {
        self.get_mut().put(text)
    }
}

pub fn with_get<A: Slot>(
    into: &mut A,
    field: &'static str,
    deserializer: &mut Deserializer<'_, '_>,
) -> Result<(), Error> {
    let text = match deserializer.take_str()? {
        Some(value) => value.into_owned(),
        None => String::new(),
    };

    match into.put(text) {
        true => deserializer.ignore(),
        false => Err(Error::DuplicateValue(field)),
    }
}
