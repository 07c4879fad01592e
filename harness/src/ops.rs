//! The operations a request can ask for.

use instant_xml::de::Limits;
use instant_xml::{from_str, to_string, to_writer, Deserializer, Error, FromXml, ToXml};
use serde_json::{json, Value};

use crate::node::Node;

pub fn run(req: &Value) -> Value {
    match req["op"].as_str().unwrap() {
        "read" => crate::generated::read(req),
        "write" | "sink" => crate::generated::write(req),
        "calls" => crate::calls::calls(req),
        "cursor" => crate::cursor::cursor(req),
        "tokens" => tokens(req),
        "decode" => crate::codec::decode(req),
        "encode" => crate::codec::encode(req),
        "refs" => crate::codec::refs(req),
        "chars" => crate::codec::chars(req),
        op => panic!("harness: operation {op}"),
    }
}

pub fn error(e: &Error) -> Value {
    let text = format!("{e:?}");
    let kind = text.split(['(', ' ']).next().unwrap();
    json!({"ok": false, "kind": kind, "err": e.to_string()})
}

pub fn limits(v: &Value) -> Limits {
    let mut limits = Limits::default();
    limits.max_attributes = v["a"].as_u64().unwrap() as usize;
    limits.max_levels = v["l"].as_u64().unwrap() as usize;
    limits.max_ns_declarations = v["d"].as_u64().unwrap() as usize;
    limits
}

pub fn read_as<'xml, T: FromXml<'xml> + Node>(req: &'xml Value) -> Value {
    let xml = req["xml"].as_str().unwrap();
    let result = match req.get("lim") {
        None => from_str::<T>(xml),
        Some(lim) => Deserializer::new(xml)
            .map(|de| de.with_limits(limits(lim)))
            .and_then(|mut de| de.deserialize::<T>()),
    };

    match result {
        Ok(value) => json!({"ok": true, "val": value.put()}),
        Err(e) => error(&e),
    }
}

pub fn write_as<T: ToXml + Node>(req: &Value) -> Value {
    let value = T::get(&req["val"]);
    if req["op"] == "sink" {
        return sink(&value, req);
    }

    let back = value.put();
    match to_string(&value) {
        Ok(out) => {
            let mut res = json!({"ok": true, "out": out, "back": back == req["val"]});
            if req["rt"] == true {
                res["read"] = crate::generated::read(&json!({"t": req["t"], "xml": out}));
            }
            res
        }
        Err(e) => error(&e),
    }
}

/// A sink that records every write, and fails one of them.
struct Sink {
    out: String,
    log: Vec<Value>,
    /// Writes before the failing one
    calls: usize,
    /// Bytes accepted before the failing write
    room: usize,
    failed: bool,
}

impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        // After the failure every write would succeed again
        let fits = self.failed || (self.log.len() < self.calls && self.room >= s.len());
        let n = match fits {
            true => s.len(),
            false if self.log.len() >= self.calls => 0,
            false => (0..=self.room).rev().find(|n| s.is_char_boundary(*n)).unwrap(),
        };
        self.out.push_str(&s[..n]);
        self.room = self.room.saturating_sub(n);
        let chars = s[..n].chars().count();
        self.log.push(json!({"s": s, "n": chars, "ok": fits}));
        self.failed |= !fits;
        match fits {
            true => Ok(()),
            false => Err(std::fmt::Error),
        }
    }
}

fn sink<T: ToXml>(value: &T, req: &Value) -> Value {
    let run = |calls: usize, room: usize| {
        let mut sink = Sink { out: String::new(), log: Vec::new(), calls, room, failed: false };
        let result = match req["dyn"] == true {
            true => to_writer(value, &mut sink as &mut dyn std::fmt::Write),
            false => to_writer(value, &mut sink),
        };
        let mut res = match result {
            Ok(()) => json!({"ok": true, "kind": ""}),
            Err(e) => error(&e),
        };
        let n = sink.log.len();
        res["out"] = sink.out.into();
        res["log"] = sink.log.into();
        (res, n)
    };

    let (free, n) = run(usize::MAX, usize::MAX);
    let mut runs = Vec::new();
    for k in 0..n {
        runs.push(run(k, usize::MAX).0);
    }
    for room in req["rooms"].as_array().into_iter().flatten() {
        runs.push(run(usize::MAX, room.as_u64().unwrap() as usize).0);
    }
    let text = match to_string(value) {
        Ok(out) => json!({"ok": true, "out": out}),
        Err(e) => error(&e),
    };
    json!({"ok": true, "free": free, "text": text, "runs": runs})
}

/// The tokens of an input, by the tokenizer that the code under test uses.
pub fn tokens(req: &Value) -> Value {
    use xmlparser::{ElementEnd, Token, Tokenizer};
    let mut out = Vec::new();
    for token in Tokenizer::from(req["xml"].as_str().unwrap()) {
        out.push(match token {
            Ok(Token::ElementStart { prefix, local, .. }) => json!(["start", prefix.as_str(), local.as_str()]),
            Ok(Token::Attribute { prefix, local, value, .. }) => {
                json!(["attr", prefix.as_str(), local.as_str(), value.as_str()])
            }
            Ok(Token::ElementEnd { end: ElementEnd::Open, .. }) => json!(["open"]),
            Ok(Token::ElementEnd { end: ElementEnd::Empty, .. }) => json!(["empty"]),
            Ok(Token::ElementEnd { end: ElementEnd::Close(prefix, local), .. }) => {
                json!(["close", prefix.as_str(), local.as_str()])
            }
            Ok(Token::Text { text }) => json!(["text", text.as_str()]),
            Ok(Token::Cdata { text, .. }) => json!(["cdata", text.as_str()]),
            Ok(Token::Comment { .. }) => json!(["comment"]),
            Ok(Token::Declaration { .. }) => json!(["xmldecl"]),
            _ => json!(["stop"]),
        });
        if out.last().unwrap()[0] == "stop" {
            break;
        }
    }
    json!({"ok": true, "tokens": out})
}
