"""Rust source for the generated types."""
import random

from types_ import NS

RUST = {"String": "String", "CowStr": "Cow<'static, str>", "BorrowStr": "Cow<'a, str>", "BorrowBytes": "crate::node::Raw<'a>",
        "NaiveDate": "chrono::NaiveDate", "NaiveDateTime": "chrono::NaiveDateTime",
        "DateTime": "chrono::DateTime<chrono::Utc>", "IpAddr": "std::net::IpAddr", "With": "String", "Nothing": "()", "Hand": "crate::node::Hand"}
CONST = {u: c for c, u in NS.items() if u}
CONST["http://www.w3.org/XML/1998/namespace"] = "NS_XML"


def uri(u, salt, const=False):
    n = sum(map(ord, salt))
    if u in CONST and (const or n % 2):
        return CONST[u] if const else ["", "", "self::", "crate::generated::", "::harness_self::generated::"][n // 2 % 5] + CONST[u]
    return '"%s"' % u.replace("\\", "\\\\").replace('"', '\\"')


def lit(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


class Gen:
    def __init__(self, T):
        self.T = T

    def ty(self, t, lt="'a"):
        k, s, c = t["k"], t["s"], t["c"]
        if k == "sc":
            return RUST.get(s, s).replace("'a", lt)
        if k == "any":
            return "AnyElement<%s>" % lt
        if k == "ref":
            d = self.T.t[s]
            args = []
            if self.T.borrows(s): args.append(lt)
            g = d["r"].get("generic")
            if g is not None: args.append(self.ty(self.generic_arg(d), lt))
            return s + ("<%s>" % ", ".join(args) if args else "")
        inner = self.ty(c[0], lt)
        if k == "opt": return "Option<%s>" % inner
        if k == "vec": return ("Cow<'static, [%s]>" if s == "cow" else "Vec<%s>") % inner
        if k == "box": return ("&'static %s" if s == "amp" else "Box<%s>") % inner

    def generic_arg(self, d):
        """The part of the field type that the type parameter stands for."""
        t = (d["fields"] or d["variants"])[d["r"]["generic"]]["ty"]
        while t["k"] in ("opt", "vec", "box"):
            t = t["c"][0]
        return t

    def param_ty(self, t):
        if t["k"] in ("opt", "vec", "box"):
            inner = self.param_ty(t["c"][0])
            return {"opt": "Option<%s>", "vec": "Vec<%s>", "box": "Box<%s>"}[t["k"]] % inner
        return "T"

    def container(self, id, d):
        items, r = [], d["r"]
        mode = {"inline": "transparent", "senum": "scalar", "fwd": "forward"}.get(d["k"])
        if mode: items.append(mode)
        if r.get("rename"): items.append("rename = " + lit(r["rename"]))
        if r.get("rule"): items.append('rename_all = "%s"' % r["rule"])
        ns = []
        if d["ns"] or (d["prefixes"] and sum(map(ord, id)) % 3 == 0):
            ns.append(uri(d["ns"], id))
        for p, u in d["prefixes"]:
            ns.append("%s = %s" % (p, uri(u, id + p)))
        if ns: items.append("ns(%s)" % ", ".join(ns))
        if d["force"]: items.append("force_prefix")
        return self.attrs(items, r.get("split"), id)

    def attrs(self, items, split, salt):
        """One list, or several in any order between other attributes."""
        if not items: return ""
        if split:
            rng = random.Random(salt)
            rng.shuffle(items)
            lists = [[]]
            for i in items:
                if lists[-1] and rng.random() < .7: lists.append([])
                lists[-1].append(i)
            between = lambda: rng.choice(["", "", "", "#[doc = \"text\"]\n", "#[allow(dead_code)]\n", "#[xml()]\n"])
            return "".join(between() + "#[xml(%s%s)]\n" % (", ".join(l), rng.choice(["", "", ","])) for l in lists) + between()
        return "#[xml(%s)]\n" % ", ".join(items)

    def decl(self, id):
        T, d = self.T, self.T.t[id]
        derives = ["Clone", "Debug"]
        if not T.writeonly(id) and not any(f["r"].get("wo") for f in d["fields"]): derives.append("FromXml")
        if not T.readonly(id) and not any(f["r"].get("ro") for f in d["fields"]): derives.append("ToXml")
        out = "#[derive(%s)]\n%s" % (", ".join(derives), self.container(id, d))
        lt = "<'a>" if T.borrows(id) else ""
        if d["r"].get("generic") is not None: lt = "<T>"
        if d["k"] in ("struct", "inline"):
            out += "pub struct %s%s {\n" % (id, lt)
            for i, f in enumerate(d["fields"]):
                items, r = [], f["r"]
                if f["mode"] == "attr": items.append("attribute")
                if f["mode"] == "direct": items.append("direct")
                if r.get("rename"): items.append("rename = " + lit(r["rename"]))
                default = d["ns"] if f["mode"] == "elem" else ""
                if f["mode"] != "direct" and f["ns"] != default:
                    items.append("ns(%s)" % uri(f["ns"], id + r["ident"], const=f["mode"] == "attr"))
                leaf = f["ty"]
                while leaf["c"]: leaf = leaf["c"][0]
                if leaf["k"] == "any" or (leaf["k"] == "sc" and leaf["s"].startswith("Borrow")) or \
                        (leaf["k"] == "ref" and T.borrows(leaf["s"])):
                    items.append("borrow")
                if leaf["k"] == "sc" and leaf["s"] == "With":
                    # Without one of the functions the field is written or read in the same way
                    which = sum(map(ord, id + r["ident"])) % 4
                    if which != 1: items.append('serialize_with = "crate::node::with_put"')
                    if which != 2: items.append('deserialize_with = "crate::node::with_get"')
                ty = self.param_ty(f["ty"]) if d["r"].get("generic") == i else self.ty(f["ty"])
                out += "    " + self.attrs(items, d["r"].get("split"), id + r["ident"]).replace("\n", " ") + "pub %s: %s,\n" % (r["ident"], ty)
            out += "}\n"
        elif d["k"] == "tuple":
            out += "pub struct %s%s(%s);\n" % (id, lt, ", ".join("pub " + (self.param_ty(f["ty"]) if d["r"].get("generic") == i else self.ty(f["ty"])) for i, f in enumerate(d["fields"])))
        elif d["k"] == "unit":
            out += "pub struct %s;\n" % id
        elif d["k"] == "senum":
            out += "pub enum %s {\n" % id
            for v in d["variants"]:
                a = "#[xml(rename = %s)] " % lit(v["rename"]) if "rename" in v else ""
                disc = ""
                if "disc" in v: disc = " = %s" % v.get("source", v["disc"])
                out += "    %s%s%s,\n" % (a, v["id"], disc)
            out += "}\n"
        elif d["k"] == "fwd":
            out += "pub enum %s%s {\n" % (id, lt)
            for i, v in enumerate(d["variants"]):
                out += "    %s(%s),\n" % (v["id"], self.param_ty(v["ty"]) if d["r"].get("generic") == i else self.ty(v["ty"]))
            out += "}\n"
        return out

    def node(self, id):
        d = self.T.t[id]
        lt, bound = ("<'a>", "<'a>") if self.T.borrows(id) else ("", "")
        if d["r"].get("generic") is not None: lt, bound = "<T>", "<T: Node>"
        out = "impl%s Node for %s%s {\n" % (bound, id, lt)
        if d["k"] in ("struct", "inline", "tuple", "unit"):
            k = "i" if d["k"] == "inline" else "r"
            names = [f["r"].get("ident", str(i)) for i, f in enumerate(d["fields"])]
            puts, gets = [], []
            for n, f in zip(names, d["fields"]):
                puts.append("self.%s.put()" % n)
                gets.append("Node::get(&v[\"c\"][%d])" % len(gets))
            out += "    fn put(&self) -> Value { node(\"%s\", \"\", vec![%s]) }\n" % (k, ", ".join(puts))
            if d["k"] == "unit": body = "Self"
            elif d["k"] == "tuple": body = "Self(%s)" % ", ".join(gets)
            else: body = "Self { %s }" % ", ".join("%s: %s" % x for x in zip(names, gets))
            out += "    fn get(v: &Value) -> Self { let _ = v; %s }\n" % body
        elif d["k"] == "senum":
            out += "    fn put(&self) -> Value { node(\"e\", match self { %s }, vec![]) }\n" % ", ".join(
                "Self::%s => \"%s\"" % (v["id"], v["id"]) for v in d["variants"])
            out += "    fn get(v: &Value) -> Self { match v[\"s\"].as_str().unwrap() { %s, x => panic!(\"{x}\") } }\n" % ", ".join(
                "\"%s\" => Self::%s" % (v["id"], v["id"]) for v in d["variants"])
        else:
            out += "    fn put(&self) -> Value { match self { %s } }\n" % ", ".join(
                "Self::%s(x) => node(\"f\", \"%s\", vec![x.put()])" % (v["id"], v["id"]) for v in d["variants"])
            out += "    fn get(v: &Value) -> Self { match v[\"s\"].as_str().unwrap() { %s, x => panic!(\"{x}\") } }\n" % ", ".join(
                "\"%s\" => Self::%s(Node::get(&v[\"c\"][0]))" % (v["id"], v["id"]) for v in d["variants"])
        return out + "}\n"

    def module(self, ids):
        out = ["// Generated by /verif/gen/rust.py.\n"]
        for id in ids:
            if self.T.t[id]["k"] == "alias": continue
            out.append(self.decl(id) + self.node(id))
        return "\n".join(out)

    def dispatch(self, ids):
        T = self.T
        r, w = [], []
        for id in ids:
            ty = self.ty(T.ref(id), "'_")
            if not T.writeonly(id):
                r.append('        "%s" => read_as::<%s>(req),' % (id, ty))
            if not T.readonly(id) and not any(f["r"].get("ro") for f in T.t[id]["fields"]):
                w.append('        "%s" => write_as::<%s>(req),' % (id, self.ty(T.ref(id), "'static")))
        return ("pub fn read(req: &Value) -> Value {\n    match req[\"t\"].as_str().unwrap() {\n"
                "        \"any\" => read_as::<AnyElement<'_>>(req),\n%s\n        t => json!({\"ok\": false, \"none\": t}),\n    }\n}\n\n"
                "pub fn write(req: &Value) -> Value {\n    match req[\"t\"].as_str().unwrap() {\n%s\n        t => panic!(\"harness: type {t}\"),\n    }\n}\n"
                % ("\n".join(r), "\n".join(w)))
