//! Decoding and encoding of character data in every place it can stand.

use std::borrow::Cow;
use std::fmt;

use instant_xml::{display_to_xml, from_str, to_string, AnyElement, Error, FromXml, Id, Serializer, ToXml};
use serde_json::{json, Value};

#[derive(FromXml, ToXml)]
#[xml(rename = "t")]
struct Element {
    v: String,
}

#[derive(FromXml, ToXml)]
#[xml(rename = "t")]
struct Attribute {
    #[xml(attribute)]
    v: String,
}

#[derive(FromXml, ToXml)]
#[xml(rename = "t")]
struct Direct {
    #[xml(direct)]
    v: String,
}

#[derive(FromXml, ToXml)]
#[xml(rename = "t")]
struct Cows {
    v: Cow<'static, str>,
}

#[derive(FromXml)]
#[xml(rename = "t")]
struct Borrow<'a> {
    #[xml(borrow)]
    v: Cow<'a, str>,
}

#[derive(FromXml, ToXml)]
#[xml(rename = "t")]
struct Items {
    v: Vec<String>,
}

#[derive(FromXml, ToXml)]
#[xml(rename = "v")]
struct Tuple(String);

#[derive(FromXml, ToXml)]
#[xml(rename = "t")]
struct Letter {
    v: char,
}

#[derive(FromXml, ToXml)]
#[xml(rename = "t")]
struct LetterAttribute {
    #[xml(attribute)]
    v: char,
}

fn points(s: &str) -> Vec<u32> {
    s.chars().map(u32::from).collect()
}

type Outcome = (bool, Vec<u32>);

fn read<'a, T: FromXml<'a>>(xml: &'a str, text: impl Fn(T) -> String) -> Outcome {
    match from_str::<T>(xml) {
        Ok(value) => (true, points(&text(value))),
        Err(_) => (false, Vec::new()),
    }
}

#[derive(Default)]
struct Outcomes(Vec<(Outcome, Vec<&'static str>)>);

impl Outcomes {
    fn add(&mut self, at: &'static str, outcome: Outcome) {
        match self.0.iter_mut().find(|(o, _)| *o == outcome) {
            Some((_, list)) => list.push(at),
            None => self.0.push((outcome, vec![at])),
        }
    }

    fn json(self) -> Value {
        self.0
            .into_iter()
            .map(|((ok, points), at)| json!([ok, points, at]))
            .collect()
    }
}

/// Raw text in content and attribute values; `content` for all but the latter
pub fn decode(req: &Value) -> Value {
    let s = req["s"].as_str().unwrap();
    let content = match req["cdata"] == true {
        true => format!("<![CDATA[{s}]]>"),
        false => s.to_owned(),
    };

    let child = format!("<t><v>{content}</v></t>");
    let own = format!("<t>{content}</t>");
    let quote = if s.contains('"') { '\'' } else { '"' };
    let attr = format!("<t v={quote}{s}{quote}/>");
    let mut out = Outcomes::default();
    let mut borrowed = true;
    if !s.contains("]]>") {
        out.add("element", read(&child, |t: Element| t.v));
        out.add("direct", read(&own, |t: Direct| t.v));
        out.add("cow", read(&child, |t: Cows| t.v.into_owned()));
        out.add("items", read(&child, |t: Items| t.v.concat()));
        out.add("tuple", read(&format!("<v>{content}</v>"), |t: Tuple| t.0));
        out.add("any", read(&own, |t: AnyElement<'_>| t.text.unwrap_or_default().into_owned()));
        if s.chars().count() == 1 || req["letter"] == true {
            out.add("letter", read(&child, |t: Letter| t.v.to_string()));
        }

        let inside = child.as_bytes().as_ptr_range();
        let mut note = |b: &[u8], is: bool| {
            borrowed &= is && (b.is_empty() || inside.contains(&b.as_ptr()));
        };
        match from_str::<Borrow<'_>>(&child) {
            Ok(t) => {
                note(t.v.as_bytes(), matches!(t.v, Cow::Borrowed(_)));
                out.add("borrow", (true, points(&t.v)));
            }
            Err(_) => out.add("borrow", (false, Vec::new())),
        }
    }

    if !(s.contains('"') && s.contains('\'')) && req["cdata"] != true {
        out.add("attr", read(&attr, |t: Attribute| t.v));
        out.add("any-attr", read(&attr, |t: AnyElement<'_>| t.attributes[0].value.clone().into_owned()));
        if s.chars().count() == 1 || req["letter"] == true {
            out.add("letter-attr", read(&attr, |t: LetterAttribute| t.v.to_string()));
        }
    }

    json!({"ok": true, "r": out.json(), "borrowed": borrowed})
}

/// Writes its text in pieces
struct Pieces<'a>(&'a str);

impl fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for c in self.0.chars() {
            write!(f, "{c}")?;
        }
        Ok(())
    }
}

impl ToXml for Pieces<'_> {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        field: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        display_to_xml(self, field, serializer)
    }
}

#[derive(ToXml)]
#[xml(rename = "t")]
struct Display<'a> {
    v: Pieces<'a>,
}

#[derive(ToXml)]
#[xml(rename = "t")]
struct DisplayAttribute<'a> {
    #[xml(attribute)]
    v: Pieces<'a>,
}

/// The part of the output that stands for the value
fn part(out: &str, attr: bool) -> Option<&str> {
    match attr {
        true => {
            let rest = &out[out.find("v=\"")? + 3..];
            Some(&rest[..rest.rfind('"')?])
        }
        false => match out.rfind("</v") {
            Some(end) => {
                let start = out.find("<v")?;
                let start = start + out[start..].find('>')? + 1;
                Some(&out[start..end])
            }
            None => out.contains("<v").then_some(""),
        },
    }
}

fn written(value: &impl ToXml, attr: bool) -> Outcome {
    match to_string(value) {
        Ok(out) => match part(&out, attr) {
            Some(part) => (true, points(part)),
            None => panic!("no place for the value in {out:?}"),
        },
        Err(_) => (false, Vec::new()),
    }
}

#[derive(ToXml)]
#[xml(rename = "v")]
struct Own<T: ToXml> {
    #[xml(direct)]
    v: T,
}

#[derive(ToXml)]
#[xml(rename = "t")]
struct Kid<T: ToXml> {
    v: T,
}

#[derive(ToXml)]
#[xml(rename = "t")]
struct Attr<T: ToXml> {
    #[xml(attribute)]
    v: T,
}

pub fn encode(req: &Value) -> Value {
    let s = req["s"].as_str().unwrap();
    let (mut text, mut attr) = (Outcomes::default(), Outcomes::default());
    text.add("element", written(&Kid { v: s.to_owned() }, false));
    text.add("direct", written(&Own { v: s.to_owned() }, false));
    text.add("cow", written(&Kid { v: Cow::Borrowed(s) }, false));
    text.add("box", written(&Kid { v: Some(Box::new(s.to_owned())) }, false));
    text.add("str", written(&Kid { v: s }, false));
    text.add("items", written(&Kid { v: vec![s] }, false));
    text.add("tuple", written(&Tuple(s.to_owned()), false));
    text.add("display", written(&Display { v: Pieces(s) }, false));
    attr.add("attr", written(&Attr { v: s.to_owned() }, true));
    attr.add("attr-option", written(&Attr { v: Some(Cow::Borrowed(s)) }, true));
    attr.add("attr-display", written(&DisplayAttribute { v: Pieces(s) }, true));
    let mut chars = s.chars();
    if let (Some(c), None) = (chars.next(), chars.next()) {
        text.add("letter", written(&Letter { v: c }, false));
        attr.add("letter-attr", written(&LetterAttribute { v: c }, true));
    }

    json!({"ok": true, "text": text.json(), "attr": attr.json()})
}

struct Runs(Vec<(u32, u32, &'static str)>);

impl Runs {
    fn add(&mut self, n: u32, class: &'static str) {
        match self.0.last_mut() {
            Some(last) if last.2 == class && last.1 + 1 == n => last.1 = n,
            _ => self.0.push((n, n, class)),
        }
    }
}

/// Numeric references to all characters of a range, in one of the forms
pub fn refs(req: &Value) -> Value {
    let (from, to) = (req["from"].as_u64().unwrap() as u32, req["to"].as_u64().unwrap() as u32);
    let mut runs = Runs(Vec::new());
    for n in from..=to {
        let r = match req["form"].as_str().unwrap() {
            "dec" => format!("&#{n};"),
            "hex" => format!("&#x{n:x};"),
            _ => format!("&#x{n:05X};"),
        };

        let got = match req["attr"] == true {
            true => from_str::<Attribute>(&format!("<t v='{r}'/>")).map(|t| t.v),
            false => from_str::<Tuple>(&format!("<v>{r}</v>")).map(|t| t.0),
        };

        runs.add(
            n,
            match got {
                Err(_) => "refused",
                Ok(v) if v.chars().map(u32::from).eq([n]) => "right",
                Ok(_) => "wrong",
            },
        );
    }

    json!({"ok": true, "runs": runs.0})
}

/// All characters of a range, written alone
pub fn chars(req: &Value) -> Value {
    let (from, to) = (req["from"].as_u64().unwrap() as u32, req["to"].as_u64().unwrap() as u32);
    let attr = req["attr"] == true;
    let (mut runs, mut others) = (Runs(Vec::new()), Vec::new());
    for n in from..=to {
        let Some(c) = char::from_u32(n) else {
            runs.add(n, "none");
            continue;
        };

        let s = c.to_string();
        let (a, b) = match attr {
            true => (written(&Attr { v: &*s }, true), written(&Attr { v: c }, true)),
            false => (written(&Own { v: &*s }, false), written(&Own { v: c }, false)),
        };

        for (i, (ok, out)) in [a, b].into_iter().enumerate() {
            match (ok, out) {
                (ok, out) if !ok || out == [n] => {
                    if i == 0 {
                        runs.add(n, if ok { "raw" } else { "refused" });
                    } else if runs.0.last().is_none_or(|r| r.1 != n || (r.2 == "raw") != ok) {
                        others.push((n, ok, out));
                    }
                }
                (ok, out) => others.push((n, ok, out)),
            }
        }
    }

    json!({"ok": true, "runs": runs.0, "others": others})
}
