//! Programs of calls to the low-level writer.

use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt;

use instant_xml::ser::{Context, Element};
use instant_xml::{Error, Id, Serializer, ToXml};
use serde_json::{json, Value};

thread_local! {
    static NAMES: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new());
}

fn fixed(v: &Value) -> &'static str {
    let s = v.as_str().unwrap();
    NAMES.with(|names| {
        let mut names = names.borrow_mut();
        match names.get(s) {
            Some(s) => s,
            None => {
                let s: &'static str = Box::leak(s.to_owned().into_boxed_str());
                names.insert(s);
                s
            }
        }
    })
}

const N: usize = 3;

fn context(v: &Value) -> Option<Context<N>> {
    let cx = v["cx"].get(0)?;
    let mut context = Context::<N>::default();
    context.default_ns = fixed(v.get("def").unwrap_or(&v["ns"]));
    if cx["force"] == true {
        context.force_prefix = true;
    }
    for (i, p) in cx["prefixes"].as_array().unwrap().iter().enumerate() {
        context.prefixes[i].prefix = fixed(&p[0]);
        context.prefixes[i].ns = fixed(&p[1]);
    }
    Some(context)
}

/// An element that belongs to another writer
fn stray() -> Element<'static, 0> {
    let mut out = String::new();
    let mut other = Serializer::new(&mut out);
    other.write_start("stray", "", None::<Context<0>>).unwrap()
}

/// A value that writes its text in pieces, and tries everything else before, between and after
struct Probe<'a> {
    text: &'a str,
    tried: &'a RefCell<Vec<Value>>,
    len: &'a dyn Fn() -> usize,
}

impl ToXml for Probe<'_> {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        _: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        attempt(serializer, "value", self.tried, self.len);
        for c in self.text.chars() {
            serializer.write_str(&c)?;
            attempt(serializer, "value", self.tried, self.len);
        }
        Ok(())
    }
}

/// Tries the calls that have no place in a mode
fn attempt<W: fmt::Write + ?Sized>(
    ser: &mut Serializer<'_, W>,
    mode: &str,
    tried: &RefCell<Vec<Value>>,
    len: &dyn Fn() -> usize,
) {
    let calls: &[&str] = match mode {
        "tag" => &["start", "str", "blank", "close"],
        "content" => &["attr", "open", "empty"],
        _ => &["start", "attr", "open", "empty", "close"],
    };

    for call in calls {
        let before = len();
        let ok = match *call {
            "start" => {
                let mut cx = Context::<N>::default();
                cx.default_ns = "urn:stray";
                cx.prefixes[0].prefix = "stray";
                cx.prefixes[0].ns = "urn:stray2";
                ser.write_start("stray", "urn:stray", Some(cx)).is_ok()
            }
            "attr" => ser.write_attr("stray", "", "x").is_ok(),
            "open" => ser.end_start().is_ok(),
            "empty" => ser.end_empty().is_ok(),
            "str" => ser.write_str("stray").is_ok(),
            "blank" => ser.write_str(&format_args!("")).is_ok(),
            _ => ser.write_close(stray()).is_ok(),
        };
        let wrote = len() != before;
        let call = if *call == "blank" { "str" } else { call };
        tried.borrow_mut().push(json!([mode, call, ok, wrote]));
        if ok || wrote {
            break;
        }
    }
}

/// Writes an attribute whose value is `text`, as one of the types that are written so
fn attr<W: fmt::Write + ?Sized>(
    ser: &mut Serializer<'_, W>,
    call: &Value,
    text: &str,
) -> Result<(), Error> {
    let (n, ns) = (fixed(&call["n"]), fixed(&call["ns"]));
    let mut chars = text.chars();
    let only = chars.next().filter(|_| chars.next().is_none());
    match (call["how"].as_u64().unwrap_or(0), text, only) {
        (1, "", _) => ser.write_attr(n, ns, &None::<String>),
        (2, "", _) => ser.write_attr(n, ns, &Some(None::<u8>)),
        (3, "", _) => ser.write_attr(n, ns, &Box::new(None::<bool>)),
        (4, "", _) => ser.write_attr(n, ns, &Vec::<u8>::new()),
        (1, ..) => ser.write_attr(n, ns, &Some(text)),
        (2, ..) => ser.write_attr(n, ns, &Some(Box::new(text.to_owned()))),
        (3, ..) => ser.write_attr(n, ns, &Cow::Borrowed(text)),
        (4, ..) => ser.write_attr(n, ns, &vec![Some(text.to_owned()), None]),
        (5, _, Some(c)) => ser.write_attr(n, ns, &c),
        (5, "true" | "false", _) => ser.write_attr(n, ns, &(text == "true")),
        (5, ..) if text.parse::<i8>().is_ok_and(|x| x.to_string() == text) => {
            ser.write_attr(n, ns, &text.parse::<i8>().unwrap())
        }
        (5, ..) => ser.write_attr(n, ns, &text.to_owned()),
        _ => ser.write_attr(n, ns, text),
    }
}

/// Writes text, as one of the types that are displayed so
fn text<W: fmt::Write + ?Sized>(
    ser: &mut Serializer<'_, W>,
    call: &Value,
    text: &str,
) -> Result<(), Error> {
    let (head, tail) = text.split_at(text.char_indices().nth(1).map_or(0, |(i, _)| i));
    match (call["how"].as_u64().unwrap_or(0), text.parse::<u8>()) {
        (1, _) => ser.write_str(&format_args!("{head}{tail}")),
        (2, _) => ser.write_str(&text.to_owned()),
        (3, Ok(n)) if n.to_string() == text => ser.write_str(&n),
        (3, _) => ser.write_str(&Cow::Borrowed(text)),
        (4, _) => ser.write_str(head).and_then(|()| ser.write_str(tail)),
        (5, _) => ser.write_str(&Box::new(text)),
        _ => ser.write_str(text),
    }
}

/// A sink shared with its observer
#[derive(Clone, Default)]
struct Shared(std::rc::Rc<RefCell<String>>);

impl fmt::Write for Shared {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.borrow_mut().push_str(s);
        Ok(())
    }
}

pub fn calls(req: &Value) -> Value {
    let out = Shared::default();
    let mut sink = out.clone();
    let len = || out.0.borrow().len();
    let mut ser = Serializer::new(&mut sink);
    let mut open: Vec<Element<'_, N>> = Vec::new();
    let mut reports = Vec::new();
    let mut mode = "content";
    for call in req["calls"].as_array().unwrap() {
        let before = len();
        let tried = RefCell::new(Vec::new());
        let k = call["k"].as_str().unwrap();
        let result = match k {
            "start" => ser
                .write_start(fixed(&call["n"]), fixed(&call["ns"]), context(call))
                .map(|element| open.push(element)),
            "attr" => {
                let text = call["v"].as_str().unwrap();
                let value = Probe { text, tried: &tried, len: &len };
                match req["probe"] == true {
                    true => ser.write_attr(fixed(&call["n"]), fixed(&call["ns"]), &value),
                    false => attr(&mut ser, call, text),
                }
            }
            "open" => ser.end_start(),
            "empty" => ser.end_empty().map(|_| drop(open.pop())),
            "str" => text(&mut ser, call, call["v"].as_str().unwrap()),
            _ => ser.write_close(open.pop().unwrap()),
        };

        if result.is_ok() {
            mode = match k {
                "start" | "attr" => "tag",
                _ => "content",
            };
        }

        let wrote = len() != before;
        let unharmed = tried.borrow().iter().all(|t: &Value| t[2] == false && t[3] == false);
        if unharmed && req["probe"] == true {
            attempt(&mut ser, mode, &tried, &len);
        }

        let prefixes = ["urn:a", "urn:b", "urn:c"]
            .iter()
            .map(|ns| json!([ns, ser.prefix(ns).into_iter().collect::<Vec<_>>()]))
            .collect::<Vec<_>>();
        reports.push(json!({
            "ok": result.is_ok(), "wrote": wrote, "tried": tried.into_inner(),
            "def": ser.default_ns(), "pre": prefixes,
        }));
    }

    let text = out.0.borrow().clone();
    json!({"ok": true, "out": text, "rep": reports})
}
