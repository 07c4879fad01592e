"""Types whose names follow the naming rules; names come from the specification (NameGen)."""
import copy
import re

import docs
import tool
import types_
from types_ import RULES, at, el, opt, ref, sc, vec

FIELDS = ["a", "z42", "foo", "foo_bar", "very_tasty", "one_two_three", "a_b_c", "x_1", "a1_b2", "id", "url_path", "foo_", "_foo", "foo__bar", "r#type", "r#match", "r#in",
          "r#async", "r#raw_foo", "r#fn", "two_2_go", "is_x", "x_is", "_a_b", "b_", "long_name_with_many_words", "r#ref", "e2e", "v_w"]
VARIANTS = ["A", "Z42", "Foo", "FooBar", "VeryTasty", "OneTwoThree", "HTTPServer", "XmlID", "ID", "V2Beta", "ABc", "AbC", "FooBAR", "X1Y2", "r#Type", "IsX", "XIs", "r#RawFoo",
            "LongNameWithManyWords", "IOError", "Foo2bar"]
TYPES = ["Simple", "r#struct", "r#Raw", "lower", "snake_case_name", "SHOUT", "R2D2", "HTTPThing", "PlainOne", "PlainTwo", "r#fn_x", "x"]
RENAMES = ["x-y", "v.1", "_u", "A_b-C", "UP", "caf\u00e9", "n1", "type", "self", "r_x", "a.b-c_d", "\u65e5\u672c"]
WORDS = ["a", "b2", "foo", "bar", "url", "x1", "id", "max", "to"]
NCNAME = re.compile(r"[A-Za-z_\u00c0-\u00d6\u00d8-\u02ff\u0370-\u037d\u4e00-\u9fff][\w.\-]*\Z")


def identifiers(rng, n):
    fields, variants = list(FIELDS), list(VARIANTS)
    for _ in range(n):
        ws = [rng.choice(WORDS) for _ in range(rng.randint(1, 4))]
        f = rng.choice(["", "", "", "", "_"]) + rng.choice(["_", "_", "_", "__"]).join(ws) + rng.choice(["", "", "", "", "_"])
        if f not in fields and f[0] not in "0123456789": fields.append(f)
        v = "".join(rng.choice([w.capitalize(), w.capitalize(), w.upper()]) for w in ws)
        if v not in variants: variants.append(v)
    return fields, variants


def named(ck, items):
    """Names of (kind, ident, rename or None, rule or None), by the specification."""
    cases = [{"kind": k, "ident": i, "rename": [] if rn is None else [rn], "rule": [] if ru is None else [ru]} for k, i, rn, ru in items]
    out, _ = tool.tlc("NameGen", cases, work=ck.work)
    names = {m[1]: m[2][0] for m in out if m[0] == "N"}
    return {items[i - 1]: n for i, n in names.items()}


def unraw(i): return i[2:] if i.startswith("r#") else i


def types(ck, T, n):
    """Adds types to T; returns their ids and, for every name in use, the names the same identifier has otherwise."""
    rng = ck.rng
    fields, variants = identifiers(rng, n)
    plan = []

    def item(kind, ident, rule, names):
        rename = None
        if rng.random() < .15:
            rename = rng.choice([r for r in RENAMES if r not in names] or [None])
        return (kind, ident, rename, rule)

    every = [(k, i, None, r) for k, l in (("field", fields), ("variant", variants), ("type", TYPES)) for i in l for r in [None] + RULES]
    every += [(k, i, rn, r) for k, l in (("field", fields), ("variant", variants), ("type", TYPES)) for i in l[:3] for r in (None, "kebab-case") for rn in RENAMES]
    # what the corpus and the random types use
    used = []
    for t, d in T.t.items():
        rule = d["r"].get("rule")
        for f in d["fields"]:
            if "ident" in f["r"]: used.append((("field", f["r"]["ident"], f["r"].get("rename"), rule), f["n"]))
        if d["k"] == "senum":
            for v in d["variants"]:
                if "disc" not in v and v["id"] not in ("r#dyn",): used.append((("variant", v["id"], v.get("rename"), rule), v["text"]))
    table = named(ck, list(dict.fromkeys(every + [u for u, _ in used])))
    for u, name in used:
        if table[u] != name: raise tool.ToolError("names: %r is %r by the specification, not %r" % (u, table[u], name))
    ck.notes["names"] = len(table)
    other = {}
    for k, i, rn, r in every:
        if rn is None: other.setdefault(unraw(i), set()).add(table[k, i, rn, r])

    def chunks(kind, idents, rule, size):
        """Items with different names."""
        rest = [(i, rng.choice(RENAMES) if rng.random() < .12 else None) for i in idents]
        rng.shuffle(rest)
        while rest:
            now, seen, later = [], set(), []
            for i, rn in rest:
                name = rn if rn is not None else table[kind, i, None, rule]
                if kind == "field" and not NCNAME.match(name): continue
                (later if name in seen or len(now) >= size else now).append((i, rn))
                if now and now[-1] == (i, rn): seen.add(name)
            if not now: return
            yield now
            rest = later

    made, count = [], [0]

    def fresh():
        count[0] += 1
        return "N%d" % count[0]

    def fix(id, kind):
        d = T.t[id]
        for x in d["fields"] if kind == "field" else d["variants"]:
            ident = x["r"]["ident"] if kind == "field" else x["id"]
            rn = x["r"].get("rename") if kind == "field" else x.get("rename")
            x["n" if kind == "field" else "text"] = rn if rn is not None else table[kind, ident, None, d["r"].get("rule")]
            x["alts"] = sorted((other.get(unraw(ident), set()) | {unraw(ident)}) - {x["n" if kind == "field" else "text"]})
        made.append(id)

    for rule in [None] + RULES:
        for mode in (el, at):
            for c in chunks("field", fields, rule, 9):
                ns = rng.choice(["", "", "urn:a"])
                id = T.struct(fresh(), *[mode(i, rng.choice([sc("String"), sc("String"), opt(sc("u32")), opt(sc("String"))]), rename=rn) for i, rn in c],
                              rule=rule, ns=ns, split=rng.random() < .6, rename=rng.choice([None, None, "root-x"]))
                fix(id, "field")
        for c in list(chunks("field", rng.sample(fields, 8), rule, 5))[:1]:
            id = T.inline(fresh(), *[el(i, sc("String"), rename=rn) for i, rn in c], rule=rule, split=True)
            fix(id, "field")
            made[-1] = T.struct(fresh(), el("inner", ref(id)))
        for c in chunks("variant", variants, rule, 12):
            id = T.senum(fresh(), *[i if rn is None else (i, rn) for i, rn in c], rule=rule, split=rng.random() < .6)
            fix(id, "variant")
            made[-1] = T.struct(fresh(), at("x", opt(ref(id))), el("y", ref(id)), el("z", vec(ref(id))), enum=id)
    for i, t in enumerate(TYPES):
        rule = None if i % 4 == 2 else rng.choice(RULES)
        T.struct(t, el("v_w", opt(sc("u8"))), rule=rule, split=True)
        T.t[t]["name"] = table["type", t, None, rule]
        fix(t, "field")
    T.senum(fresh(), ("Dec", ("=", 10)), ("Hex", ("=", 16, "0x10")), ("Long", ("=", 1000, "1_000")), ("Bin", ("=", 5, "0b101")), ("Typed", ("=", 7, "7isize")), "Plain", rule="UPPERCASE")
    made.append(T.struct(fresh(), at("x", opt(ref("N%d" % (count[0] - 1)))), el("y", ref("N%d" % (count[0] - 1)))))
    return made


def misnamed(ck, made, n):
    """Documents in which one name is another form of its identifier."""
    rng, T = ck.rng, ck.T
    G = docs.Gen(T, rng, dict(mutate=0, noise=0, badtext=0, badref=0, unknown=0, split=0, cdata=0, enc=0, reprefix=0, comments=0, loose=0))
    out = []
    for _ in range(n):
        t = rng.choice(made)
        root = G.elements({"k": "ref", "s": t, "c": []}, None, 4)[0]
        defs = [T.t[u] for u in T.uses(t)]
        alts = {}
        for d in defs:
            for x in d["fields"] + d["variants"]:
                if x.get("alts"): alts[x.get("n") if "n" in x else x["text"]] = x["alts"]
        places = []
        for e in root.all():
            if e.n in alts: places.append((e, "n"))
            places += [(e, i) for i, a in enumerate(e.attrs) if a[1] in alts]
            places += [(e, ("v", i)) for i, a in enumerate(e.attrs) if a[2] in alts]
            places += [(e, ("t", i)) for i, x in enumerate(e.items) if isinstance(x, str) and x in alts]
        if not places: continue
        e, p = rng.choice(places)
        if p == "n": e.n = rng.choice([a for a in alts[e.n] if NCNAME.match(a)] or ["zz"])
        elif isinstance(p, int):
            a = e.attrs[p]
            e.attrs[p] = (a[0], rng.choice([x for x in alts[a[1]] if NCNAME.match(x)] or ["zz"]), a[2])
        elif p[0] == "v":
            a = e.attrs[p[1]]
            e.attrs[p[1]] = (a[0], a[1], rng.choice(alts[a[2]]))
        else: e.items[p[1]] = rng.choice(alts[e.items[p[1]]])
        if len({(a[0], a[1]) for a in e.attrs}) < len(e.attrs): continue
        toks = docs.settle(G.tokens(root))
        out.append({"t": t, "toks": toks, "xml": docs.render(toks, rng, 0)})
    return out
