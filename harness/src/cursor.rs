//! Programs of calls to the pull interface.

use std::borrow::Cow;

use instant_xml::de::Node;
use instant_xml::{Deserializer, Id};
use serde_json::{json, Value};

/// Where the calls come from
enum Source {
    Script(std::vec::IntoIter<String>),
    Random { state: u64, left: usize },
}

impl Source {
    fn choose(&mut self, legal: &[&'static str]) -> Option<&'static str> {
        match self {
            Self::Script(ops) => {
                let op = ops.next()?;
                Some(*legal.iter().find(|k| **k == op).unwrap_or(&"stuck"))
            }
            Self::Random { left: 0, .. } => None,
            Self::Random { state, left } => {
                *left -= 1;
                let mut sum = 0;
                for op in legal {
                    sum += weight(op);
                }
                *state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let mut at = (*state >> 33) % sum;
                for op in legal {
                    if at < weight(op) {
                        return Some(op);
                    }
                    at -= weight(op);
                }
                unreachable!()
            }
        }
    }
}

fn weight(op: &str) -> u64 {
    match op {
        "next" | "nest" => 12,
        "end" => 6,
        "forextra" => 1,
        _ => 2,
    }
}

struct Run {
    source: Source,
    prefixes: Vec<String>,
    rep: Vec<Value>,
}

impl Run {
    fn note(&mut self, op: &str, res: Value, de: Option<&Deserializer<'_, '_>>, parent: Option<Id<'_>>) {
        let ns = match de {
            None => Vec::new(),
            Some(de) => self
                .prefixes
                .iter()
                .map(|p| json!([p, de.namespace(p).into_iter().collect::<Vec<_>>()]))
                .collect(),
        };
        let parent = parent.map(|id| vec![id.ns, id.name]).unwrap_or_default();
        self.rep.push(json!({"op": op, "res": res, "parent": parent, "ns": ns}));
    }
}

enum Flow {
    Over,
    Back { ended: bool },
}

fn is_open(node: &Option<Node<'_>>) -> bool {
    matches!(node, Some(Node::Open(_)))
}

/// Calls on one reader. `named`: its element's name can be resolved; `child`:
/// it is for a child element; `waiting`: it was given an element up front;
/// `ended`: its element has been read to the end.
fn calls<'xml>(run: &mut Run, de: &mut Deserializer<'_, 'xml>, named: bool, child: bool, root: bool, mut waiting: bool, mut ended: bool) -> Flow {
    let mut have: Option<Node<'xml>> = None;
    // The name of the element handed out last can be resolved
    let mut known = false;
    loop {
        let mut legal = Vec::new();
        match &have {
            Some(Node::Open(_)) => legal.extend(["nest", "for"]),
            _ => {
                legal.extend(["next", "ignore", "take"]);
                if have.is_some() {
                    legal.push("for");
                }
                if let Some(Node::Attribute(_)) = have {
                    legal.push("forvalue");
                }
                if !waiting {
                    legal.push("forextra");
                    if !root && (ended || !child) {
                        legal.push("end");
                    }
                }
            }
        }

        let Some(op) = run.source.choose(&legal) else {
            return Flow::Over;
        };

        let node = have.take();
        let res = match op {
            "next" => {
                waiting = false;
                match de.next() {
                    None => {
                        ended = true;
                        json!(["none"])
                    }
                    Some(Err(_)) => json!(["err"]),
                    Some(Ok(node)) => {
                        fn id<E>(id: Result<Id<'_>, E>) -> Vec<&str> {
                            id.map(|id| vec![id.ns, id.name]).unwrap_or_default()
                        }
                        let res = match &node {
                            Node::Open(element) => {
                                let id = id(de.element_id(element));
                                known = !id.is_empty();
                                json!(["open", id])
                            }
                            Node::Attribute(attr) => json!(["attr", id(de.attribute_id(attr)), attr.value]),
                            Node::AttributeValue(value) => json!(["value", value]),
                            Node::Text(text) => json!(["text", text]),
                            Node::Close { .. } => json!(["close", ""]),
                        };
                        have = Some(node);
                        res
                    }
                }
            }
            "take" => {
                waiting = false;
                match de.take_str() {
                    Ok(Some(text)) => json!(["some", text]),
                    Ok(None) => {
                        ended = true;
                        json!(["none"])
                    }
                    Err(_) => json!(["err"]),
                }
            }
            "ignore" => {
                waiting = false;
                match de.ignore() {
                    Ok(()) => {
                        ended = true;
                        json!(["ok"])
                    }
                    Err(_) => json!(["err"]),
                }
            }
            _ => json!(["ok"]),
        };

        if res[0] == "err" {
            run.note(op, res, None, None);
            return Flow::Over;
        }

        let flow = match (op, node) {
            ("stuck", _) => {
                run.note(op, json!(["stuck"]), None, None);
                return Flow::Over;
            }
            ("end", _) => return Flow::Back { ended },
            ("nest", Some(Node::Open(element))) => {
                let mut nested = de.nested(element);
                let parent = known.then(|| nested.parent());
                run.note(op, res, Some(&nested), parent);
                calls(run, &mut nested, known, true, false, false, false)
            }
            ("for", Some(node)) => {
                let node = Some(node);
                let open = is_open(&node);
                let mut nested = de.for_node(node.unwrap());
                let parent = (!open && named && !ended).then(|| nested.parent());
                run.note(op, res, Some(&nested), parent);
                calls(run, &mut nested, named, false, false, open, ended)
            }
            ("forvalue", Some(Node::Attribute(attr))) => {
                let mut nested = de.for_node(Node::AttributeValue(attr.value));
                run.note(op, res, Some(&nested), None);
                calls(run, &mut nested, named, false, false, false, ended)
            }
            ("forextra", _) => {
                let mut nested = de.for_node(Node::Text(Cow::Borrowed("extra")));
                run.note(op, res, Some(&nested), None);
                calls(run, &mut nested, named, false, false, false, ended)
            }
            _ => {
                let parent = (named && !ended && !is_open(&have) && !waiting).then(|| de.parent());
                run.note(op, res, Some(de), parent);
                continue;
            }
        };

        match flow {
            Flow::Over => return Flow::Over,
            // An element read through a reader that was given a node is read for this one, too
            Flow::Back { ended: inner } => ended |= inner && op != "nest",
        }

        let parent = (named && !ended && !waiting).then(|| de.parent());
        run.note("end", json!(["ok"]), Some(de), parent);
    }
}

pub fn cursor(req: &Value) -> Value {
    let strings = |v: &Value| v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_owned()).collect::<Vec<_>>();
    let source = match req.get("ops") {
        Some(ops) => Source::Script(strings(ops).into_iter()),
        None => Source::Random {
            state: req["seed"].as_u64().unwrap(),
            left: req["left"].as_u64().unwrap() as usize,
        },
    };
    let mut run = Run { source, prefixes: strings(&req["prefixes"]), rep: Vec::new() };
    let named = req["named"] == true;
    match Deserializer::new(req["xml"].as_str().unwrap()) {
        Err(_) => run.note("new", json!(["err"]), None, None),
        Ok(mut de) => {
            let parent = named.then(|| de.parent());
            run.note("new", json!(["ok"]), Some(&de), parent);
            calls(&mut run, &mut de, named, true, true, false, false);
        }
    }
    json!({"ok": true, "rep": run.rep})
}
