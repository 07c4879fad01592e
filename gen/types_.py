"""Type definitions: a fixed corpus and a random generator.

A type is a dict:
  id      name of the Rust type
  k       struct | tuple | unit | inline | senum | fwd
  name    tag, ns, prefixes [[p, uri]] sorted, force
  fields  [{mode attr|elem|direct, ns, n, ty, ...}]
  variants senum: [{id, text}], fwd: [{id, ty}]
  r       hints for the Rust source (ident, rename, ... per type and field)
A type node is {k, s, c}; k: sc (scalar s), ref (type s), opt, vec, box, any.
"""
import random

NS = {"": "", "NS_A": "urn:a", "NS_B": "urn:b", "NS_C": "urn:c", "NS_D": "urn:d", "NS_AA": "urn:aa"}
URI = {v: k for k, v in NS.items()}


def sc(s): return {"k": "sc", "s": s, "c": []}
def ref(s): return {"k": "ref", "s": s, "c": []}
def opt(t): return {"k": "opt", "s": "", "c": [t]}
def vec(t): return {"k": "vec", "s": "", "c": [t]}
def box(t): return {"k": "box", "s": "", "c": [t]}
def amp(t): return {"k": "box", "s": "amp", "c": [t]}         # &'static T, write only
def cow(t): return {"k": "vec", "s": "cow", "c": [t]}         # Cow<'static, [T]>
def any_(): return {"k": "any", "s": "", "c": []}


# ------------------------------------------------------------ names
def apply_field(rule, ident):
    """The documented case styles, from snake_case identifiers."""
    words = ident.split("_")
    if rule in (None, "lowercase", "snake_case"):
        return ident
    if rule in ("UPPERCASE", "SCREAMING_SNAKE_CASE"):
        return ident.upper()
    pascal = "".join(w[:1].upper() + w[1:] for w in words)
    if rule == "PascalCase":
        return pascal
    if rule == "camelCase":
        return pascal[:1].lower() + pascal[1:]
    if rule == "kebab-case":
        return ident.replace("_", "-")
    if rule == "SCREAMING-KEBAB-CASE":
        return ident.upper().replace("_", "-")
    raise ValueError(rule)


def apply_variant(rule, ident):
    if rule in (None, "PascalCase"):
        return ident
    if rule == "lowercase":
        return ident.lower()
    if rule == "UPPERCASE":
        return ident.upper()
    if rule == "camelCase":
        return ident[:1].lower() + ident[1:]
    snake = "".join(("_" if i and c.isupper() else "") + c.lower() for i, c in enumerate(ident))
    return {"snake_case": snake, "SCREAMING_SNAKE_CASE": snake.upper(),
            "kebab-case": snake.replace("_", "-"),
            "SCREAMING-KEBAB-CASE": snake.upper().replace("_", "-")}[rule]


RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case",
         "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]

# ------------------------------------------------------------ constructors
class Types:
    def __init__(self):
        self.t = {}

    def add(self, d):
        assert d["id"] not in self.t, d["id"]
        d.setdefault("prefixes", [])
        d.setdefault("force", False)
        d.setdefault("ns", "")
        d.setdefault("fields", [])
        d.setdefault("variants", [])
        d.setdefault("r", {})
        self.t[d["id"]] = d
        return d["id"]

    def struct(self, id, *fields, rename=None, rule=None, ns="", prefixes=None, force=False, k="struct", **r):
        fs = []
        for f in fields:
            f = dict(f)
            rf = f.pop("r")
            ident = rf["ident"]
            if rf.get("rename"):
                f["n"] = rf["rename"]
            else:
                f["n"] = apply_field(rule, ident[2:] if ident.startswith("r#") else ident)
            f["ns"] = f["ns"] if f["ns"] is not None else (ns if f["mode"] == "elem" else "")
            f["r"] = rf
            fs.append(f)
        return self.add({"id": id, "k": k, "name": rename or (id[2:] if id.startswith("r#") else id), "ns": ns,
                         "prefixes": sorted([[p, u] for p, u in (prefixes or {}).items()]),
                         "force": force, "fields": fs,
                         "r": dict(r, rename=rename, rule=rule)})

    def inline(self, id, *fields, rule=None, **r):
        return self.struct(id, *fields, k="inline", rule=rule, **r)

    def tuple(self, id, *tys, rename=None, ns="", prefixes=None, force=False, **r):
        return self.add({"id": id, "k": "tuple", "name": rename or id, "ns": ns,
                         "prefixes": sorted([[p, u] for p, u in (prefixes or {}).items()]), "force": force,
                         "fields": [{"mode": "pos", "ns": "", "n": "", "ty": t, "r": {}} for t in tys],
                         "r": dict(r, rename=rename)})

    def unit(self, id, rename=None, ns="", prefixes=None, force=False, **r):
        return self.add({"id": id, "k": "unit", "name": rename or id, "ns": ns,
                         "prefixes": sorted([[p, u] for p, u in (prefixes or {}).items()]), "force": force,
                         "r": dict(r, rename=rename)})

    def senum(self, id, *variants, rule=None, ns="", **r):
        """variants: name | (name, rename) | (name, ("=", discriminant))"""
        vs = []
        for v in variants:
            if isinstance(v, str):
                ident = v[2:] if v.startswith("r#") else v
                vs.append({"id": v, "text": apply_variant(rule, ident)})
            else:
                name, text = v
                if isinstance(text, tuple):
                    vs.append({"id": name, "text": str(text[1]), "disc": text[1], "source": text[-1]})
                else:
                    vs.append({"id": name, "text": text, "rename": text})
        return self.add({"id": id, "k": "senum", "name": "", "ns": ns, "variants": vs, "r": dict(r, rule=rule)})

    def fwd(self, id, *tys, **r):
        return self.add({"id": id, "k": "fwd", "name": "",
                         "variants": [{"id": "V%d" % i, "ty": t} for i, t in enumerate(tys)], "r": r})

    def alias(self, id, ty):
        """A type that is no definition, to read and write at the root."""
        return self.add({"id": id, "k": "alias", "name": "", "fields": [{"mode": "pos", "ns": "", "n": "", "ty": ty, "r": {}}]})

    # -------------------------------------------------------- queries
    def ref(self, id):
        if id == "any": return any_()
        return self.t[id]["fields"][0]["ty"] if self.t[id]["k"] == "alias" else ref(id)

    def walk(self, ty):
        yield ty
        for c in ty["c"]:
            yield from self.walk(c)

    def uses(self, id, seen=None):
        """Ids of all types reachable from a type, itself included."""
        seen = set() if seen is None else seen
        if id in seen:
            return seen
        seen.add(id)
        d = self.t[id]
        for x in d["fields"] + d["variants"]:
            if "ty" in x:
                for n in self.walk(x["ty"]):
                    if n["k"] == "ref":
                        self.uses(n["s"], seen)
        return seen

    def nodes(self, id):
        for u in self.uses(id):
            d = self.t[u]
            for x in d["fields"] + d["variants"]:
                if "ty" in x:
                    yield from self.walk(x["ty"])

    def readonly(self, id):
        return any(n["k"] == "any" or (n["k"] == "sc" and n["s"] == "Nothing") for n in self.nodes(id))

    def writeonly(self, id):
        return any(n["k"] == "box" and n["s"] == "amp" for n in self.nodes(id)) or any(self.t[u]["r"].get("wo") for u in self.uses(id)) or \
            any(f["r"].get("wo") for u in self.uses(id) for f in self.t[u]["fields"])

    def ambiguous(self, id):
        """Whether values of the type can look alike in XML."""
        return any(self.t[u]["r"].get("ambiguous") for u in self.uses(id))

    def borrows(self, id):
        """Whether the Rust type has a lifetime parameter."""
        return any(n["k"] == "any" or (n["k"] == "sc" and n["s"] in ("BorrowBytes", "BorrowStr")) for n in self.nodes(id))

    def spec(self):
        """The definitions as the specification sees them."""
        out = {}
        for id, d in self.t.items():
            if d["k"] == "alias": continue
            out[id] = {"k": d["k"], "n": d["name"], "ns": d["ns"], "prefixes": d["prefixes"], "force": d["force"],
                       "fields": [{"mode": f["mode"], "ns": f["ns"], "n": f["n"], "ty": f["ty"]} for f in d["fields"]],
                       "variants": [({"id": v["id"], "text": v["text"]} if d["k"] == "senum" else
                                     {"id": v["id"], "ty": v["ty"]}) for v in d["variants"]]}
        return out


def el(ident, ty, ns=None, rename=None, **r):
    return {"mode": "elem", "ns": ns, "ty": ty, "r": dict(r, ident=ident, rename=rename)}
def at(ident, ty, ns=None, rename=None, **r):
    return {"mode": "attr", "ns": ns, "ty": ty, "r": dict(r, ident=ident, rename=rename)}
def di(ident, ty, **r):
    return {"mode": "direct", "ns": None, "ty": ty, "r": dict(r, ident=ident, rename=None)}


A, B, C, D = "urn:a", "urn:b", "urn:c", "urn:d"


def corpus():
    T = Types()
    S, U = sc("String"), sc("u32")
    # --- plain structs
    T.struct("Person", el("name", S), at("age", U))
    T.struct("Opts", el("a", opt(S)), el("n", opt(U)), at("b", opt(sc("bool"))), at("c", opt(S)),
             el("list", vec(S)), el("nums", vec(sc("i32"))))
    T.struct("Scalars", at("i", sc("i8")), at("u", sc("u8")), at("ch", sc("char")), el("big", sc("u64")),
             el("neg", sc("i64")), el("flag", sc("bool")), el("letter", sc("char")), el("w", sc("i16")),
             el("x", sc("u16")), el("y", sc("isize")), el("z", sc("usize")))
    T.struct("Empty")
    T.unit("Unit")
    T.struct("Nothing", at("k", opt(S)))
    T.struct("Boxed", el("a", box(S)), el("b", opt(box(U))), at("c", box(S)), el("p", box(ref("Person"))))
    T.struct("Nothings", at("a", opt(sc("Nothing"))), el("b", sc("Nothing")), el("c", vec(sc("Nothing")), ns="urn:b"), el("d", opt(sc("Nothing"))), el("e", opt(sc("String"))))
    T.struct("Cows", el("a", sc("CowStr")), at("b", sc("CowStr")), el("c", opt(sc("CowStr"))), el("d", cow(U)),
             el("e", cow(ref("Person"))))
    T.struct("Borrowed", el("a", sc("BorrowStr")), at("b", S))
    T.struct("Bytes", el("a", cow(sc("u8"))), el("s", sc("BorrowStr")), el("n", opt(U)))
    T.struct("RawBytes", el("a", sc("BorrowBytes")), el("b", opt(sc("BorrowBytes")), ns=B), el("c", vec(box(sc("BorrowBytes")))), at("k", opt(S)))
    T.struct("Holder", el("x", ref("Borrowed")), el("y", opt(U)))
    # --- direct content
    T.struct("Par", at("lang", S), di("text", S))
    T.struct("ParOpt", at("lang", opt(S)), di("text", opt(S)))
    T.struct("ParNum", di("v", U))
    T.struct("ParNumOpt", at("id", opt(U)), di("v", opt(sc("i64"))))
    T.struct("ParBox", di("v", box(S)))
    T.struct("ParCow", di("v", sc("CowStr")))
    T.struct("ParEnum", di("v", ref("Level")))
    T.struct("ParKids", el("kid", opt(ref("Par"))), el("n", vec(U)), di("v", opt(S)))
    T.struct("ParNs", at("id", S), di("v", S), ns=A, prefixes={"p": A, "q": B})
    # --- scalar enums
    T.senum("Level", "Low", ("Mid", "middle"), ("High", ("=", 3)))
    T.senum("Kebab", "FooBar", "Baz", "XYZ", rule="kebab-case")
    T.senum("NsEnum", "On", "Off", ns=B)
    T.senum("Odd", ("Amp", "a&b"), ("Empty", ""), ("Quote", "\"<'>\""), ("Plain", "x y"))
    T.struct("Levels", at("l", ref("Level")), el("m", ref("Level")), el("o", opt(ref("Kebab"))), el("v", vec(ref("Level"))),
             at("k", opt(ref("Kebab"))))
    T.struct("OddOnes", at("a", ref("Odd")), el("b", opt(ref("Odd"))))
    T.struct("EnumNs", el("x", ref("NsEnum")), el("y", opt(ref("NsEnum"))), el("z", U), ns=A, prefixes={"b": B})
    T.struct("EnumNs2", el("x", ref("NsEnum")), el("z", U), ns=A)
    # --- namespaces
    T.struct("NsLeaf", el("v", S), ns=B)
    T.struct("NsLeafA", el("v", S), rename="NsLeaf", ns=A)
    T.struct("NsNone", el("v", S), at("id", opt(S)))
    T.struct("NsPlain", el("v", opt(S)), el("leaf", opt(ref("NsLeaf"))), el("same", opt(ref("NsLeafA"))),
             el("none", opt(ref("NsNone"))), el("after", opt(S)), ns=A)
    T.struct("NsPref", at("k", opt(S), ns=B), at("k2", opt(U), ns=C, rename="k"), at("k3", opt(S), rename="k"), el("plain", S), el("pre", S, ns=B),
             el("other", opt(S), ns=D), el("leaf", vec(ref("NsLeaf"))), el("none", opt(ref("NsNone"))),
             el("last", opt(S), ns=B), ns=A, prefixes={"p": B, "q": C})
    T.struct("SameName", el("a1", S, rename="v", ns=A), el("b1", opt(S), rename="v", ns=B), el("c1", vec(S), rename="v", ns=""),
             ns=A, prefixes={"b": B})
    T.struct("ForceIn", el("v", S), el("u", opt(ref("NsNone"))), ns=B, force=True)
    T.struct("ForceInA", el("v", opt(S)), ns=A, force=True)
    T.struct("ForceOwn", el("v", S), ns=B, prefixes={"f": B}, force=True)
    T.struct("ForceOut", el("a", opt(ref("ForceIn"))), el("b", opt(ref("ForceInA"))), el("c", vec(ref("ForceOwn"))), el("t", opt(S)),
             el("u", opt(S), ns=B), ns=A, prefixes={"a": A, "b": B})
    T.struct("Shadow1", el("v", opt(S), ns=B), el("w", opt(S), ns=C), at("z", opt(S), ns=C), ns=A, prefixes={"p": C})
    T.struct("Shadow", el("s", opt(ref("Shadow1"))), el("v", opt(S), ns=B), at("z", opt(S), ns=B), el("s2", vec(ref("Shadow2"))), ns=A,
             prefixes={"p": B})
    T.struct("Shadow2", at("z", opt(S), ns=B), el("v", opt(S), ns=B), el("d", opt(ref("Shadow1"))), ns=B, prefixes={"p": D, "q": B})
    T.struct("Twice", el("v", opt(S), ns=B), el("w", opt(ref("NsLeaf"))), at("z", opt(S), ns=B), ns=A, prefixes={"p": B, "q": B, "r": A})
    T.unit("NsUnit", ns=B, prefixes={"p": C})
    T.unit("NsUnitQ", ns=C, prefixes={"q": B})
    T.struct("Units", el("a", opt(ref("NsUnit"))), el("b", vec(ref("NsUnitQ"))), el("c", opt(ref("Unit"))), el("v", opt(S), ns=B),
             el("w", opt(S), ns=C), el("x", opt(S)), ns=A)
    T.struct("NsEmptyKid", at("k", opt(S), ns=B), ns=C, prefixes={"z": B})
    T.struct("NsMixed", el("k1", vec(ref("NsEmptyKid"))), el("m", vec(ref("NsPlain"))), el("n", vec(ref("NsNone"))), el("x", opt(S)), el("y", opt(S), ns=B), ns="",
             prefixes={"b": B, "c": C})
    T.struct("Dashed", el("v", S, ns=B), at("w", opt(S), ns=C), ns=A, prefixes={"my-ns.v1": B, "x.y-z": C})
    T.struct("DashFirst", el("v", S, ns=B), prefixes={"my-ns.v1": B})
    T.struct("InheritAttr", at("k", opt(S), ns=B), el("v", opt(S), ns=B), ns=A)
    T.struct("InheritTop", el("i", vec(ref("InheritAttr"))), ns=A, prefixes={"b": B})
    T.struct("XmlAttr", at("lang", opt(S), ns="http://www.w3.org/XML/1998/namespace", ro=True), el("v", opt(U)), ro=True)
    # --- tuples, forward enums, transparent structs
    T.tuple("Pair", ref("Person"), ref("NsLeaf"))
    T.tuple("Wrap", S, ns=A)
    T.tuple("WrapNum", U)
    T.tuple("TextThen", S, ref("Unit"))
    T.tuple("ElemText", ref("Unit"), S)
    T.tuple("Zero", ns=B, prefixes={"p": C})
    T.tuple("TupBox", box(ref("NsLeaf")), ref("Shape"), ns=B, prefixes={"p": B}, force=True)
    T.struct("HasTuples", el("a", ref("Pair")), el("b", vec(ref("Wrap"))), el("c", opt(ref("WrapNum"))), el("d", opt(ref("Zero"))),
             el("e", opt(ref("TextThen"))), el("f", opt(ref("ElemText"))), el("g", opt(ref("TupBox"))))
    T.struct("Circle", at("r", U), ns=A)
    T.struct("Square", el("side", U), ns=B)
    T.fwd("Shape", ref("Circle"), ref("Square"), box(ref("Unit")))
    T.fwd("Inner", ref("NsUnit"), box(ref("Par")))
    T.fwd("Nested", ref("Inner"), ref("Wrap"), ref("NsNone"))
    T.fwd("Overlap", ref("NsLeafA"), ref("Shape"), ref("Circle"), ref("NsLeafB2"), ambiguous=True)
    T.struct("NsLeafB2", at("w", opt(U)), rename="NsLeaf", ns=A)
    T.fwd("BoxFirst", box(ref("NsLeafA")), ref("NsLeafA"), box(ref("Gen1")), ref("NsLeafB2"), ref("Gen1"), box(ref("Shape")), ref("Overlap"), ambiguous=True)
    T.struct("HasOverlap", el("x", vec(ref("Overlap"))), el("y", opt(ref("BoxFirst"))), ambiguous=True)
    # Fields that claim the same elements
    T.inline("InlBoth", el("a", vec(ref("Circle"))), el("either", opt(ref("Shape"))), el("c", opt(ref("Square"))), ambiguous=True)
    T.inline("InlFirst", el("either", opt(ref("Shape"))), el("c", vec(ref("Circle"))), el("u", opt(ref("Unit"))), el("in_", opt(ref("InlLeaf"))), ambiguous=True)
    T.inline("InlLeaf", el("l", opt(ref("NsLeafA"))), el("v", opt(S)), ambiguous=True)
    T.struct("HasBoth", el("x", ref("InlBoth")), el("more", vec(ref("Shape"))), ambiguous=True)
    T.struct("HasFirst", el("more", vec(ref("Circle"))), el("x", ref("InlFirst")), el("rest", vec(any_())), el("never", opt(ref("Unit"))), ns=A, ambiguous=True)
    T.struct("Both", el("p", opt(U), rename="v"), el("q", vec(U), rename="v"), el("s", opt(ref("NsLeafA"))), el("o", vec(ref("Overlap"))), at("k", opt(S)), ambiguous=True)
    T.struct("Shapes", el("one", ref("Shape")), el("more", vec(ref("Nested"))), el("n", U), prefixes={"a": A})
    T.struct("MaybeShape", el("one", opt(ref("Shape"))), el("two", opt(box(ref("Nested2")))), ns=A)
    T.fwd("Nested2", ref("Par"), ref("Kids"))
    T.struct("Kids", el("k", vec(ref("Nested2"))))
    T.inline("Inl", el("foo", ref("Unit")), el("bar", opt(ref("NsLeaf"))), el("n", S))
    T.inline("InlDeep", el("i", ref("Inl")), el("many", vec(ref("Circle"))), el("b_c", opt(U), ns=B), rule="camelCase")
    T.struct("HasInline", el("before", opt(S)), el("x", ref("Inl")), el("after", opt(S)), ns=A)
    T.struct("HasDeep", at("z", opt(S)), el("x", ref("InlDeep")), el("after", opt(S), ns=B), prefixes={"b": B})
    T.inline("InlScalars", el("a", S), el("b", opt(U)), el("c", vec(sc("bool"))), el("l", opt(ref("Level"))))
    T.struct("HasScalars", el("x", ref("InlScalars")), el("d", opt(S)))
    # --- recursion
    T.struct("Tree", at("v", U), el("left", opt(box(ref("Tree")))), ns=A)
    T.struct("Forest", at("v", opt(S)), el("kids", vec(ref("Forest"))), di("t", opt(S)))
    T.struct("Many", el("v", vec(ref("Many"))), el("s", vec(S)), ns=A, prefixes={"p": B})
    # --- captured elements
    T.struct("HasAny", at("id", opt(S)), el("x", opt(S)), el("any", vec(any_())), ns=A)
    T.struct("OneAny", el("inner", any_()), ns=A)
    T.struct("OptAny", el("k", opt(U)), el("inner", opt(any_())))
    T.struct("BoxAny", el("inner", box(any_())))
    # --- other scalars
    T.struct("Dates", el("d", sc("NaiveDate")), at("e", opt(sc("NaiveDate"))), el("t", opt(sc("DateTime"))), el("n", opt(sc("NaiveDateTime"))))
    T.struct("Floats", el("d", sc("f64")), at("e", opt(sc("f32"))), el("ip", opt(sc("IpAddr"))))
    T.struct("Hands", at("a", sc("Hand")), el("b", opt(box(sc("Hand"))), ns=A), el("c", vec(sc("Hand"))), di("d", opt(sc("Hand"))), ns=A)
    T.tuple("WrapHand", sc("Hand"))
    T.struct("HasHand", el("x", vec(sc("Hand"))), el("y", opt(ref("Hands"))), el("z", opt(ref("WrapHand"))), ns=B)
    T.struct("Custom", el("put", sc("With")), el("v", opt(S)), ns="")
    T.struct("CustomOpt", at("v", opt(S)), el("put", opt(sc("With")), ns=""), ns=B)
    T.struct("CustomVec", el("put", vec(sc("With"))), el("v", opt(S)), ns="")
    T.struct("CustomBox", el("u", opt(U)), el("put", opt(box(sc("With")))), ns="")
    T.inline("CustomIn", el("put", sc("With"), ns=""), el("deep", opt(U)))
    T.inline("CustomIns", el("deep", vec(ref("Circle"))), el("put", vec(sc("With")), ns=""))
    T.struct("CustomHas", el("a", opt(S)), el("i", ref("CustomIn")), at("b", opt(S)), ns=A, prefixes={"a": A})
    T.struct("CustomHasMany", el("i", ref("CustomIns")), el("z", opt(S)))
    T.struct("CustomNs", el("v", opt(S)), el("put", sc("With"), ns=""), el("w", opt(S)), ns=A, prefixes={"a": A})
    # --- names
    T.struct("Camel", el("one_two", S), at("three_four_five", opt(S)), el("r#type", opt(U)), el("a_1b", vec(U)), el("kept_it", opt(S), rename="Kept_It"), rule="camelCase")
    T.struct("KebabS", el("one_two", S), at("three_four", opt(S)), rename="kebab-root", rule="kebab-case", ns=A)
    T.struct("r#gen", el("r#fn", S), at("r#match", opt(S)))
    T.senum("RawVar", "r#dyn", "Foo")
    T.struct("HasRaw", el("x", ref("r#gen")), el("e", opt(ref("RawVar"))), split=True, rename="has-raw", ns=A)
    # --- generics
    T.struct("Gen1", at("a", opt(S)), el("v", ref("NsLeaf")), generic=1)
    T.struct("Gen2", el("v", vec(ref("Gen1"))), el("w", opt(U)), ns=B, generic=1)
    T.fwd("GenFwd", ref("Unit"), box(ref("Person")), ref("Gen1"), generic=1)
    T.tuple("GenTup", ref("Unit"), box(ref("Person")), ns=B, generic=1)
    T.struct("HasGen", el("x", vec(ref("GenFwd"))), el("y", opt(ref("GenTup"))), ns=B)
    # --- borrowed data further down
    T.struct("Lent", at("k", opt(S)), el("v", opt(sc("BorrowStr"))), ns=A)
    T.struct("HasLent", el("x", vec(ref("Lent"))), el("b", vec(sc("BorrowStr"))), ns=B, prefixes={"p": A})
    T.struct("LentForce", el("v", opt(sc("BorrowStr"))), el("kid", opt(box(ref("LentForce")))), el("z", vec(ref("HasLent"))), ns=A, prefixes={"p": A}, force=True)
    # --- of some size
    T.struct("Wide", *[el("f%d" % i, [S, opt(U), vec(S), opt(sc("bool"))][i % 4], ns=[None, None, B, A, ""][i % 5]) for i in range(26)],
             *[at("a%d" % i, opt(S), ns=B if i % 3 == 2 else None) for i in range(20)], ns=A, prefixes={"p%d" % i: "urn:w%d" % i for i in range(9)} | {"b": B})
    T.senum("WideEnum", *["V%d" % i for i in range(30)], rule="kebab-case")
    for i in range(12): T.struct("WideV%d" % i, at("k", opt(S)), el("v", opt(ref("WideEnum"))), ns=[A, "", B][i % 3], rename="v%d" % (i // 3))
    T.fwd("WideFwd", *[ref("WideV%d" % i) for i in range(12)])
    T.tuple("LongTuple", *[ref("WideV%d" % (i % 12)) for i in (3, 1, 1, 7, 9)], ref("WideFwd"), S)
    T.struct("HasWide", el("a", vec(ref("WideFwd"))), el("b", vec(ref("LongTuple"))), el("c", vec(ref("WideEnum"))), el("d", opt(ref("Wide"))), prefixes={"w": "urn:w5", "ww": "urn:w6"})
    # --- at the root
    for i, t in enumerate([ref("Person"), ref("Shape"), ref("NsLeaf"), any_(), ref("Pair"), ref("Nested")]):
        for n, w in (("Opt", opt), ("Vec", vec), ("Box", box), ("OptBox", lambda t: opt(box(t))), ("VecBox", lambda t: vec(box(t)))): T.alias("Root%s%d" % (n, i), w(t))
    for s in ("u8", "i64", "bool", "char", "String", "CowStr", "f64", "NaiveDate", "DateTime", "NaiveDateTime", "IpAddr", "Nothing", "Hand", "f32", "u64", "i16", "BorrowStr", "BorrowBytes"): T.alias("Root_" + s, sc(s))
    for i, t in enumerate([amp(ref("Person")), box(amp(ref("Shape"))), box(box(ref("NsLeaf")))]): T.alias("RootRef%d" % i, t)
    T.alias("RootEnum", ref("Level"))
    T.alias("RootOptNum", opt(sc("u8")))
    T.alias("RootVecText", vec(sc("String")))
    T.alias("RootInl", ref("Inl"))
    T.alias("RootInlOne", ref("InlLeaf"))
    # --- write only
    T.struct("Refs", at("a", amp(opt(S))), el("b", amp(opt(U))), el("c", amp(ref("Person"))), el("d", opt(amp(S))), el("e", vec(amp(U))))
    T.struct("RefDirect", at("a", box(opt(S)), wo=True), di("t", amp(opt(S))))
    return T


# ------------------------------------------------------------ random types
NAMES = ["a", "b", "c", "item", "Name", "x-y", "v.1", "_u", "caf\u00e9", "\u65e5\u672c"]
IDENTS = ["a", "b", "c_d", "e_f_g", "item", "x1", "name", "val_2", "kind", "zed"]
PREFIXES = ["p", "q", "r", "p-x"]


def random_types(T, rng, n, tag):
    """Add n random types to T."""
    AA = "urn:aa"
    S_ = sc("BorrowStr")
    URIS = ["", A, B, C, A, B, C, AA]
    scal = ["String", "String", "u32", "i8", "bool", "char", "u64", "CowStr", "i64", "NaiveDate", "DateTime", "NaiveDateTime", "u8", "u16", "i16", "i32", "isize", "usize", "Hand"]
    made = []

    def pick(kinds, pred=lambda d: True):
        c = [i for i in made if T.t[i]["k"] in kinds and pred(T.t[i])]
        return rng.choice(c) if c else None

    def text_ty():
        e = pick(["senum"])
        return ref(e) if e and rng.random() < .2 else sc(rng.choice(scal))

    def elem_ty(lent=False):
        r = rng.random()
        if r < .45:
            t = text_ty()
        else:
            t = pick(["struct", "struct", "tuple", "unit", "fwd"], lambda d: lent or not T.borrows(d["id"]))
            t = ref(t) if t else text_ty()
        r = rng.random()
        if r < .3: return opt(t)
        if r < .5: return vec(t)
        if r < .58: return box(t)
        if r < .64: return opt(box(t))
        if r < .68: return vec(box(t))
        return t

    def decl():
        ns = rng.choice(URIS)
        prefixes = {p: rng.choice([A, B, C, A, B, C, AA]) for p in rng.sample(PREFIXES, rng.choice([0, 0, 1, 1, 2]))}
        return dict(ns=ns, prefixes=prefixes, force=rng.random() < .2,
                    rename=rng.choice(NAMES) if rng.random() < .8 else None)

    def head(d, ty):
        """What can match: (ns, name) pairs, to keep fields of a struct apart."""
        if ty["k"] in ("opt", "vec", "box"): return head(d, ty["c"][0])
        if ty["k"] == "any": return set()
        if ty["k"] == "ref":
            t = T.t[ty["s"]]
            if t["k"] == "senum": return {(t["ns"], d)}
            if t["k"] == "fwd": return set().union(*[head(None, v["ty"]) for v in t["variants"]])
            if t["k"] == "inline": return set().union(*[head(None, {**f["ty"], "_": f}) if f["ty"]["k"] != "sc" else {(f["ns"], f["n"])} for f in t["fields"]])
            return {(t["ns"], t["name"])}
        return None

    def heads(f_ns, f_n, ty):
        b = ty
        while b["k"] in ("opt", "vec", "box"): b = b["c"][0]
        if b["k"] == "sc": return {(f_ns, f_n)}
        if b["k"] == "ref" and T.t[b["s"]]["k"] == "senum": return {(T.t[b["s"]]["ns"], f_n)}
        if b["k"] == "ref" and T.t[b["s"]]["k"] == "inline":
            return set().union(*[heads(f["ns"], f["n"], f["ty"]) for f in T.t[b["s"]]["fields"]])
        if b["k"] == "ref" and T.t[b["s"]]["k"] == "fwd":
            return set().union(*[heads("", "", v["ty"]) for v in T.t[b["s"]]["variants"]])
        if b["k"] == "ref":
            return {(T.t[b["s"]]["ns"], T.t[b["s"]]["name"])}
        return set()

    for i in range(n):
        id = "%s%d" % (tag, i)
        k = rng.choice(["struct"] * 10 + ["tuple", "unit", "fwd", "senum", "inline"])
        if i < 2: k = "senum" if i == 0 else "unit"
        if k == "senum":
            vs = rng.sample(["On", "Off", "FooBar", "Ab", "X", "LongName"], rng.randint(2, 4))
            rule = rng.choice([None, None] + RULES)
            out = []
            for v in vs:
                r = rng.random()
                if r < .2: out.append((v, rng.choice(["r%d" % len(out), "two words", "<&>%d" % len(out)]) + v))
                elif r < .3: out.append((v, ("=", len(out) + 7)))
                else: out.append(v)
            T.senum(id, *out, rule=rule, ns=rng.choice(["", "", A, B]))
        elif k == "unit":
            T.unit(id, **decl())
        elif k == "tuple":
            tys, seen_text = [], False
            for _ in range(rng.randint(0, 3)):
                t = pick(["struct", "unit", "tuple", "fwd"], lambda d: not T.borrows(d["id"]))
                if t is None or (rng.random() < .3 and not seen_text):
                    if seen_text: continue
                    tys.append(sc(rng.choice(["String", "u32", "bool"]))); seen_text = True
                else:
                    tys.append(ref(t) if rng.random() < .8 else box(ref(t)))
            T.tuple(id, *tys, **decl())
        elif k == "fwd":
            tys, used = [], set()
            for _ in range(rng.randint(1, 4)):
                t = pick(["struct", "unit", "tuple", "fwd"], lambda d: not T.borrows(d["id"]))
                if t and not (heads("", "", ref(t)) & used):
                    used |= heads("", "", ref(t))
                    tys.append(ref(t) if rng.random() < .8 else box(ref(t)))
            if not tys: tys = [ref("Unit")]
            if rng.random() < .15:
                t = rng.choice(tys)     # another variant for the same elements
                tys.insert(rng.randint(0, len(tys)), t["c"][0] if t["k"] == "box" else box(t))
                T.fwd(id, *tys, ambiguous=True)
            else: T.fwd(id, *tys)
        else:
            d = decl() if k == "struct" else {}
            rule = rng.choice([None, None, None] + RULES)
            idents = rng.sample(IDENTS, rng.choice([0, 1, 2, 3, 4, 5, 7]) or (k == "inline"))
            # Types with fields that can only be read or only be written are not used in others.
            special = rng.choice(["read", "write"]) if k == "struct" and rng.random() < .15 else None
            fields, used, aused = [], set(), set()
            ns = d.get("ns", "")
            for ident in idents:
                mode = "elem" if k == "inline" or rng.random() < .65 else "attr"
                rename = rng.choice(NAMES) if rng.random() < .3 else None
                n = rename or apply_field(rule, ident)
                if mode == "attr":
                    uris = [""] * 3 + [u for u in d.get("prefixes", {}).values()]
                    if rng.random() < .1: uris.append(rng.choice([A, B, C]))
                    fns = rng.choice(uris)
                    if (fns, n) in aused: continue
                    aused.add((fns, n))
                    t = text_ty()
                    r = rng.random()
                    t = opt(t) if r < .4 else box(t) if r < .45 else t
                    if special == "write" and rng.random() < .5: t = rng.choice([amp(t), box(t), amp(amp(t))])
                    fields.append(at(ident, t, ns=fns if fns else None, rename=rename))
                else:
                    fns = rng.choice([None, None, None, A, B, C, ""])
                    lent = k == "struct" and special is None
                    t = elem_ty(lent)
                    if lent and rng.random() < .06: t = rng.choice([S_, opt(S_), vec(S_), box(S_)])
                    if rng.random() < .12:
                        il = pick(["inline"])
                        if il: t = ref(il)
                    h = heads(ns if fns is None else fns, n, t)
                    if h & used: continue
                    used |= h
                    if special == "write" and rng.random() < .5:
                        t = rng.choice([amp(t), box(t), amp(amp(t))]) if t["k"] in ("opt", "vec") else \
                            rng.choice([amp(t), opt(amp(t)), vec(amp(t)), vec(opt(t)), amp(opt(t)), vec(box(t))])
                    fields.append(el(ident, t, ns=fns, rename=rename))
            if rng.random() < .12 and not ({("", "put")} & used):
                t = sc("With")
                fields.insert(rng.randrange(len(fields) + 1), el("put", rng.choice([t, opt(t), vec(t), box(t), opt(box(t))]), ns="", rename="put"))
            if k == "inline":
                if not fields: fields = [el("solo", sc("String"))]
                T.inline(id, *fields, rule=rule)
            else:
                leaf = lambda t: leaf(t["c"][0]) if t["c"] else t
                if special is None and rng.random() < .1:
                    at_ = [i for i, f in enumerate(fields) if f["mode"] == "elem" and leaf(f["ty"])["k"] == "ref" and T.t[leaf(f["ty"])["s"]]["k"] in ("struct", "unit")]
                    if at_ and not any(n["k"] == "sc" and n["s"] == "BorrowStr" or n["k"] == "ref" and T.borrows(n["s"]) for n in map(leaf, (f["ty"] for f in fields))): d["generic"] = rng.choice(at_)
                if special == "read":
                    fields.insert(0 if not fields else rng.randrange(len(fields)) + 1, el("captured", rng.choice([any_(), opt(any_()), vec(any_()), box(any_()), opt(box(any_()))])))
                    last = [f for f in fields if f["r"]["ident"] == "captured"]     # takes whatever comes before the fields after it
                    fields = [f for f in fields if f["mode"] == "attr" or f not in last] + last
                elif rng.random() < .25:
                    t = sc(rng.choice(["String", "u32", "CowStr"]))
                    fields.append(di("direct_text", rng.choice([t, opt(t), opt(t), box(t)])))
                T.struct(id, *fields, rule=rule, split=rng.random() < .2, **d, **({"wo": True} if special == "write" else {}))
            if special: continue
        made.append(id)
    return made
