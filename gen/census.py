"""A census: one struct for every kind of value, place and wrapper, read from
documents with every number of occurrences, and written with each."""
import itertools

import docs
from cursor import attr, close, decl, open_, text
from types_ import any_, at, box, cow, di, el, opt, ref, sc, vec

SCALARS = ["String", "CowStr", "BorrowStr", "BorrowBytes", "bool", "char", "i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize",
           "f32", "f64", "NaiveDate", "DateTime", "NaiveDateTime", "IpAddr", "Nothing", "Hand"]
WRAPS = {"one": lambda t: t, "opt": opt, "box": box, "optbox": lambda t: opt(box(t)), "boxopt": lambda t: box(opt(t)), "vec": vec, "vecbox": lambda t: vec(box(t)),
         "cow": cow, "boxbox": lambda t: box(box(t)), "optoptbox": lambda t: opt(box(box(t))), "vecopt": lambda t: vec(opt(t)), "optvec": lambda t: opt(vec(t)), "vecboxopt": lambda t: vec(box(opt(t))), "boxvec": lambda t: box(vec(t)),
         "vecvec": lambda t: vec(vec(t))}
WRITE_ONLY = {"boxopt", "vecopt", "optvec", "vecboxopt", "boxvec", "vecvec"}
LISTS = {"vec", "vecbox", "cow", "vecopt", "optvec", "vecboxopt", "boxvec", "vecvec"}


def things(T):
    """Kinds of values: (name, type, what is written for one)."""
    out = [(s, sc(s), None) for s in SCALARS]
    out.append(("Level", ref("Level"), None))
    for id in ("Person", "Unit", "WrapNum", "Inner", "Inl1"): out.append((id, ref(id), id))
    out.append(("any", any_(), "any"))
    return out


def one(T, rng, id, good=True):
    """Tokens of an element that is (or is nearly) a value of the type."""
    if id == "Person": return [open_("Person", [attr("age", "1" if good else "x")]), open_("name", empty=True), close("Person")]
    if id == "Unit": return [open_("Unit", empty=True)]
    if id == "WrapNum": return [open_("WrapNum"), text("7" if good else "x"), close("WrapNum")]
    if id == "Inner": return [open_("Par", [attr("lang", "e")] if good else [], "", True)]
    if id == "Inl1": return [open_("deep"), text("5" if good else "x"), close("deep")]
    return [open_("anything", [attr("k", "v")]), text("t"), close("anything" if good else "other")]


def types(T, pick=lambda name, mode, wrap: True):
    """Adds the types; returns (id, name, mode, wrap)."""
    T.inline("Inl1", el("deep", sc("u32")))
    made = []
    for (name, ty, elem), mode, wrap in itertools.product(things(T), ("elem", "attr", "direct"), WRAPS):
        if mode != "elem" and (elem or wrap in LISTS or name in ("BorrowStr", "BorrowBytes")): continue
        if wrap == "cow" and (name in ("BorrowStr", "BorrowBytes", "any", "u8") or elem): continue
        if name in ("any", "Nothing") and wrap in WRITE_ONLY: continue
        if name == "Inl1" and wrap not in ("one",): continue
        if not pick(name, mode, wrap): continue
        id = "Z%s_%s_%s" % (name, mode, wrap)
        f = {"elem": el, "attr": at, "direct": di}[mode]("f", WRAPS[wrap](ty))
        extra = [el("z", opt(sc("String")))] if mode != "direct" else [at("z", opt(sc("String")))]
        if name == "any": extra = [at("z", opt(sc("String")))]
        T.struct(id, *(extra + [f] if mode == "direct" else [f] + extra), **({"wo": True} if wrap in WRITE_ONLY else {}))
        made.append((id, name, mode, wrap))
    return made


def documents(ck, made, most=3):
    """Every sequence of up to `most` occurrences, each good, empty or bad."""
    T, rng, out = ck.T, ck.rng, []

    def texts(name):
        if name == "Level": return rng.choice(["Low", "middle", "3"]), "", rng.choice(["low", "4", "High", "Mid"])
        return docs.good(rng, name), "", docs.bad(rng, name)

    for id, name, mode, wrap in made:
        if wrap in WRITE_ONLY: continue
        scalar = name in SCALARS or name == "Level"
        for n in range(most + 1):
            for seq in itertools.product("geb" if scalar or mode != "elem" else "gb", repeat=n):
                if n == most and seq.count("b") + seq.count("e") > 1: continue
                toks = [open_(id)]
                for i, s in enumerate(seq):
                    if scalar: t = texts(name)["geb".index(s)]
                    if mode == "attr": toks[0]["items"].append(attr("f", t))
                    elif mode == "direct":
                        # Pieces of text, apart or in one
                        if t: toks.append(text(t))
                        if i + 1 < n: toks.append(rng.choice([open_("zz", empty=True), {"k": "comment"}]))
                    elif not scalar: toks += one(T, rng, name, s == "g")
                    elif t == "": toks += rng.choice([[open_("f", empty=True)], [open_("f"), close("f")], [open_("f"), {"k": "comment"}, close("f")], [open_("f"), {"k": "cdata", "v": ""}, close("f")]])
                    else: toks += [open_("f"), text(t), close("f")]
                    if mode == "elem" and rng.random() < .3 and name != "any": toks.append(open_("zz", empty=True))
                toks.append(close(id))
                toks = docs.settle(toks)
                out.append({"t": id, "toks": toks, "xml": docs.render(toks, rng, .1)})
    return out


def lookalikes(ck, made):
    """Documents where something looks like the field, next to it or in its place."""
    T, rng, out = ck.T, ck.rng, []
    for id, name, mode, wrap in made:
        if wrap in WRITE_ONLY or mode == "direct" or name == "any": continue
        scalar = name in SCALARS or name == "Level"
        for ns, near, first in itertools.product(("", "urn:b"), (False, True, True, True), (True, False, None)):
            if ns == "" and not near: continue

            def put(elem):
                t = rng.choice(["Low", "3"]) if name == "Level" else docs.good(rng, name) if scalar else ""
                if not scalar: k = one(T, rng, name)
                elif mode == "elem": k = [open_("f"), *([text(t)] if t else []), close("f")]
                else: return attr("f", t) if elem else attr(docs.near(rng, "f") if near else "f", t, "p" if ns else "")
                if not elem:
                    if near: k[0]["n"] = docs.near(rng, k[0]["n"])
                    if ns: k[0]["items"].append(decl("", ns))
                    if k[-1]["k"] == "close": k[-1]["n"] = k[0]["n"]
                return k

            parts = [put(False)] if first is None else [put(False), put(True)] if first else [put(True), put(False)]
            if mode == "attr":
                if len({(a["p"], a["n"]) for a in parts}) < len(parts): continue
                toks = [open_(id, parts + [decl("p", "urn:b")]), close(id)]
            else: toks = [open_(id), *parts[0], *(parts[1] if len(parts) > 1 else []), close(id)]
            toks = docs.settle(toks)
            out.append({"t": id, "toks": toks, "xml": docs.render(toks, rng, .1)})
    return out


def values(ck, made, each=3):
    import values as v
    G = v.Values(ck.T, ck.rng, plain=.5)
    out = [{"t": id, "val": G.value(ref(id))} for id, name, _, _ in made for _ in range(each) if not ck.T.readonly(id)]
    for id, name, mode, wrap in made:       # every value that is special
        if wrap != "one": continue
        for t in docs.special(name):
            G.force = (name, t)
            out.append({"t": id, "val": G.value(ref(id))})
    return out


def edits(t, alphabet):
    """The text and all that one edit makes of it."""
    out = {t}
    for i in range(len(t) + 1):
        out |= {t[:i] + a + t[i:] for a in alphabet} | {t[:i] + a + t[i + 1:] for a in alphabet} | {t[:i] + t[i + 1:], t[:i], t[:i] + t[i:i + 2][::-1] + t[i + 2:], t[:i] + t[i:].upper(), t[:i] + t[i:].lower()}
    return out


def candidates(name, more):
    """Texts that are values of a type, or nearly."""
    if name in docs.INTS:
        out = set(docs.BADINTS)
        for t in docs.INTS[name]: out |= {t, "+" + t, "0" + t, " " + t, t + "\n", t + "0", t + ".", t + "_", "-" + t} | edits(t, "09")
        return out | {"".join(x) for n in range(more + 1) for x in itertools.product("01-+ ", repeat=n)}
    if name == "bool": return edits("true", "te 1") | edits("false", "ae ") | edits("1", "01 ") | edits("0", "0 ")
    if name == "char": return {"".join(x) for n in range(3) for x in itertools.product("a &<\u00e9\u65e5\n\u0301", repeat=n)} | {"\U0001d11e", "\U0001d11ea", "a" * 30, "\ufffd"}
    if name == "Level": return edits("Low", "lw ") | edits("middle", "m ") | edits("3", "30 ") | {"High", "Mid", "0", "1", "2"}
    if name == "NaiveDate":
        return {a + t[:i] + d + t[i + 1:] for t in ("2024-02-29", "2023-02-28", "1900-02-28", "2000-12-31", "2024-04-30") for i in range(10) if t[i] != "-" for d in "0123456789" for a in ("", " ")}
    if name in ("DateTime", "NaiveDateTime"):
        t = "2024-02-29T23:59:60.5"
        zones = ["", "Z", "+00:00", "-00:00", "+01:00", "-12:00", "+00:01"]
        out = {t[:i] + d + t[i + 1:] for i, c in enumerate(t) if c.isdigit() for d in "0123456789"} | {t[:20] + "." + "120034506"[:n] for n in range(1, 10)}
        return {x + z for x in out for z in zones} | {"", "x", t[:10], t[11:], t[:19] + "."} | edits(t, "T t_-:.0Z") | edits("0004-12-31T00:00:00Z", "T +x:1") | {"+12024-02-29T00:00:00", "-0004-02-29T00:00:00.5", "-0003-02-29T00:00:00"}
    if name in docs.FLOATS:
        out = set(docs.FLOATS[name]) | set(docs.BADFLOATS) | {x for t in ("1.5", "-0.25e1", "1e-7", "-inf", "NaN", "infinity", "+0") for x in edits(t, "0.eE+-_ n9")}
        # Halfway between two numbers, or nearly; where numbers end
        for t in ("9007199254740993", "9007199254740992.99", "9007199254740993.000000000000000000001", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.7976931348623158e308", "1.797693134862315807e308", "1.8e308", "16777217", "16777217.0000000001",
                  "16777219", "16777216.999999999", "3.4028235677973366e38", "3.4028235677973362e38", "7.006492321624085e-46", "7.006492321624086e-46", "1.00000017881393421514957253748434595763683319091796875001",
                  "1.00000017881393432617187499", "1.000000178813934326171875", "0.1000000000000000055511151231257827021181583404541015625", "0." + "0" * 340 + "1", "1" + "0" * 320, "1" + "0" * 300, "0." + "0" * 44 + "1", "123456789" * 5, "1e400", "-1e400", "1e-400"):
            out |= {t, "-" + t, " " + t}
        return out
    if name == "IpAddr":
        out = set(docs.ADDRESSES) | set(docs.BADADDRESSES)
        for t in ("127.0.0.1", "255.199.20.10", "::1", "1::2:0:0:3", "::ffff:1.2.3.4", "1:2:3:4:5:6:7:8", "0:0:1:0:0:1:0:0", "a:b:c:d:e:f:0:0"): out |= edits(t, ":.05fGx ")
        return out | {":".join(x) for x in itertools.product(("0", "1"), repeat=8)}
    if name == "Hand": return {"#" + t for t in ("", "#", "a", " a ", "&<>\"'", "\u00e9\n", "]]>")} | {"", " ", " #", "x#", "&#35;", "\u00e9#", "\n#a"}
    return {"", " ", "x", "\n", "a&b<c>\"'", " \u00e9 ", "]]"}


def texts(ck, made):
    """A document for each text in each place."""
    out = []
    for id, name, mode, wrap in made:
        if not (name in SCALARS or name == "Level"): continue
        for t in sorted(candidates(name, 3 if ck.quick else 5)):
            if mode == "attr": toks = [open_(id, [attr("f", t)]), close(id)]
            elif mode == "direct": toks = [open_(id), text(t), close(id)]
            else: toks = [open_(id), open_("f"), text(t), close("f"), close(id)]
            toks = docs.settle([k for k in toks if k["k"] != "text" or k["v"]])
            out.append({"t": id, "toks": toks, "xml": docs.render(toks, ck.rng, .05)})
    return out
