"""One function per property."""
import calls
import census
import codec
import cursor
import damage
import docs
import names
import small
import tool
import trees
from check import Check, check_reads, check_writes, make_docs, make_values

CHECKS = {}


def check(pid, level="model_checking"):
    def deco(f):
        def run():
            ck = Check(pid, level)
            f(ck)
            ck.finish()
        CHECKS[pid] = run
        return f
    return deco


def read_roots(T, pred=lambda t: True, any_=True):
    r = [t for t in T.t if T.t[t]["k"] in ("struct", "tuple", "unit", "fwd", "alias") and not T.writeonly(t) and pred(t)]
    return r + (["any"] if any_ else [])


def kinds(T, t):
    return {T.t[u]["k"] for u in T.uses(t)}


def has_ns(T, t):
    return any(T.t[u]["ns"] or any(f["ns"] for f in T.t[u]["fields"]) for u in T.uses(t))


def captures(T, t):
    return t == "any" or any(n["k"] == "any" for n in T.nodes(t))


PLAIN = dict(mutate=0, noise=0, badtext=0, badref=0, unknown=0, split=0, cdata=0, enc=0, reprefix=0, comments=0, loose=0)


@check("C06")
def c06(ck):
    ck.build(ck.types(ck.n(60, 300)))
    small.check(ck, small.scopes(ck))
    roots = read_roots(ck.T, lambda t: has_ns(ck.T, t))
    n = ck.n(5000)
    check_reads(ck, make_docs(ck, roots, n, dict(PLAIN, reprefix=1, noise=.2, alike=.6, decls=.2)))
    check_reads(ck, make_docs(ck, roots, n, dict(PLAIN, reprefix=1, decls=.3, unknown=.1, mutate=.6, ops=["ns", "attrns", "permute", "noise"])))
    amp = {"k": "open", "p": "", "n": "a", "items": [{"k": "decl", "p": "", "v": "urn:x&y"}], "empty": True}
    check_reads(ck, [{"t": "any", "toks": [amp], "xml": "<a xmlns='urn:x&amp;y'/>"}], key="reference-in-namespace")


@check("C07")
def c07(ck):
    T = ck.types(ck.n(60, 300))
    made = census.types(T, lambda name, mode, wrap: wrap in ("one", "opt", "vecbox"))
    ck.build(T)
    check_reads(ck, census.lookalikes(ck, made))
    small.check(ck, small.scopes(ck))
    roots = read_roots(ck.T, any_=False)
    n = ck.n(5000)
    check_reads(ck, make_docs(ck, roots, n, dict(PLAIN, noise=.7, alike=.6, reprefix=.2, comments=.1)))
    check_reads(ck, make_docs(ck, roots, n, dict(PLAIN, noise=.4, mutate=1, ops=["permute", "noise", "rename", "attradd", "attrname", "move", "addtext", "swapkids"])))


@check("C08")
def c08(ck):
    T = ck.types(ck.n(60, 300))
    made = census.types(T)
    ck.build(T)
    check_reads(ck, census.documents(ck, made, ck.n(3, 4)))
    small.check(ck, small.scopes(ck))
    roots = read_roots(ck.T, any_=False)
    n = ck.n(8000)
    check_reads(ck, make_docs(ck, roots, n, dict(PLAIN, mutate=.9, ops=["drop", "dup", "dup", "dupfar", "attrdrop", "empty", "attrdup"])))


@check("C09")
def c09(ck):
    ck.build(ck.types(ck.n(30, 200)))
    small.check(ck, small.scopes(ck))
    roots = read_roots(ck.T)
    n = ck.n(8000)
    check_reads(ck, make_docs(ck, roots, n, dict(PLAIN, damage=.85, noise=.1, comments=.1, cdata=.1, reprefix=.3)))


def deep(rng, n, k):
    """A chain of n elements around k."""
    toks = [{"k": "open", "p": "", "n": rng.choice("ab"), "items": [], "empty": False} for _ in range(n)]
    return toks + k + [{"k": "close", "p": "", "n": t["n"]} for t in reversed(toks)]


def limit_edges(ck):
    """Documents just within and just beyond each default limit, at several places."""
    out = []

    def el(na, nd, kids=(), ns=""):
        items = [{"k": "attr", "p": "", "n": "zz%d" % i, "v": "", "bad": False} for i in range(na)] + \
                [{"k": "decl", "p": "n%d" % i, "v": "urn:%d" % (i % 3)} for i in range(nd)]
        ck.rng.shuffle(items)
        if ns is not None and not kids: items.append({"k": "decl", "p": "", "v": ns})
        return [{"k": "open", "p": "", "n": "zz", "items": items, "empty": not kids}] + \
            ([k for k in kids] + [{"k": "close", "p": "", "n": "zz"}] if kids else [])

    A = {"k": "open", "p": "", "n": "HasAny", "items": [{"k": "decl", "p": "", "v": "urn:a"}], "empty": False}
    F = {"k": "open", "p": "", "n": "Empty", "items": [], "empty": False}
    for na in (63, 64, 65, 70):
        for nd in (0, 31, 32, 33):
            body = el(na, nd)
            out += [("any", body), ("any", el(0, 0, body)), ("HasAny", [A] + body + [{"k": "close", "p": "", "n": "HasAny"}]),
                    ("Empty", [F] + body + [{"k": "close", "p": "", "n": "Empty"}]),
                    ("any", el(0, 0, el(64, 32, el(64, 32, body))))]
    for n in (30, 31, 32, 33, 40):
        for k in ([], [{"k": "open", "p": "", "n": "c", "items": [], "empty": True}], [{"k": "text", "v": "x", "bad": False}]):
            out += [("any", deep(ck.rng, n, k)), ("Empty", [F] + deep(ck.rng, n - 1, k) + [{"k": "close", "p": "", "n": "Empty"}])]
    return [{"t": t, "toks": docs.settle(x), "xml": docs.render(docs.settle(x), ck.rng, 0)} for t, x in out]


@check("C10")
def c10(ck):
    ck.build(ck.types(ck.n(20, 100)))
    small.check(ck, small.scopes(ck))
    roots = read_roots(ck.T) + ["any"] * 20
    n = ck.n(5000)
    lim = lambda rng: {"a": rng.randint(0, 4), "l": rng.randint(1, 6), "d": rng.randint(0, 4)}
    crowd = lambda rng: (rng.choice([0, 0, 0, 1, 2, 3, 4, 5]), rng.choice([0, 0, 0, 1, 2, 3, 4, 5]))
    check_reads(ck, make_docs(ck, roots, n, dict(PLAIN, noise=.2, reprefix=.3, crowd=crowd), lim))
    tight = lambda rng: {"a": rng.randint(2, 3), "l": rng.randint(3, 5), "d": rng.randint(1, 3)}
    mild = lambda rng: (rng.choice([0, 0, 0, 0, 1, 2]), rng.choice([0, 0, 0, 0, 1]))
    check_reads(ck, make_docs(ck, roots, n, dict(PLAIN, noise=.2, reprefix=.3, crowd=mild, decls=.1), tight))
    check_reads(ck, limit_edges(ck))


@check("C11")
def c11(ck):
    ck.build(ck.types(0))
    small.check(ck, small.scopes(ck))
    roots = read_roots(ck.T, lambda t: captures(ck.T, t)) + ["any"] * 4
    n = ck.n(8000)
    check_reads(ck, make_docs(ck, roots, n, dict(PLAIN, noise=.3, reprefix=.5, cdata=.2, split=.3, comments=.1, enc=.3, mutate=.2, decls=.1)))


@check("C14")
def c14(ck):
    T = ck.types(ck.n(40, 200))
    made = census.types(T, lambda name, mode, wrap: wrap in ("one", "optbox"))
    ck.build(T)
    check_reads(ck, census.texts(ck, made))
    check_writes(ck, census.values(ck, made, 8), {"value", "back"}, readback=True)
    small.check(ck, small.scopes(ck))
    roots = read_roots(ck.T, any_=False)
    n = ck.n(8000)
    check_reads(ck, make_docs(ck, roots, n, dict(PLAIN, badtext=.1, loose=.8)))


@check("C18")
def c18(ck):
    ck.build(ck.types(ck.n(80, 400)))
    small.check(ck, small.scopes(ck))
    roots = read_roots(ck.T, lambda t: kinds(ck.T, t) & {"inline", "fwd", "tuple"}, any_=False)
    n = ck.n(8000)
    check_reads(ck, make_docs(ck, roots, n, dict(PLAIN, mutate=.6, noise=.1, ops=["permute", "drop", "dup", "rename", "ns", "move", "noise", "swapkids", "addtext", "empty"])))


def write_roots(T, pred=lambda t: True):
    return [t for t in T.t if (T.t[t]["k"] in ("struct", "tuple", "unit", "fwd") or T.t[t]["k"] == "alias" and T.ref(t)["k"] == "box") and not T.readonly(t)
            and not any(f["r"].get("ro") for f in T.t[t]["fields"]) and pred(t)]


def chains(ck, n):
    """Values of recursive types, up to the depth that can be read."""
    import values
    G = values.Values(ck.T, ck.rng, plain=.8, some=.93, depth=28, items=(1,) * 12 + (0,))
    return [{"t": t, "val": G.value(ck.T.ref(t))} for t in ("Tree", "Forest", "Many", "Kids") for _ in range(n)]


@check("C01")
def c01(ck):
    T = ck.types(ck.n(100, 400))
    trees.types(T)
    ck.build(T)
    check_writes(ck, trees.values(ck, trees.scopes(ck)[:2]), {"wf"})
    n = ck.n(8000)
    check_writes(ck, make_values(ck, write_roots(ck.T), n, forbidden=.02) + chains(ck, ck.n(20)), {"wf"})
    calls.check(ck, [[calls.call("start", "a", "urn:x&y"), calls.call("empty")]], {"wf"}, False, "namespace-with-markup")


@check("C02")
def c02(ck):
    T = ck.types(ck.n(150, 400))
    trees.types(T)
    ck.build(T)
    check_writes(ck, trees.values(ck, trees.scopes(ck)), {"name"})
    n = ck.n(8000)
    check_writes(ck, make_values(ck, write_roots(ck.T, lambda t: has_ns(ck.T, t)), n, plain=1) + chains(ck, ck.n(20)), {"name"})


def narrow(T, t):
    return all(len(T.t[u]["prefixes"]) < 4 for u in T.uses(t))


def elements(v):
    return (v["k"] in "rs") + sum(map(elements, v["c"]))


@check("C05")
def c05(ck):
    T = ck.types(ck.n(100, 400))
    trees.types(T)
    made = census.types(T, lambda name, mode, wrap: wrap not in census.WRITE_ONLY)
    ck.build(T)
    check_writes(ck, census.values(ck, made, ck.n(4, 50)), {"back", "refuse"}, readback=True)
    n = ck.n(8000)
    check_writes(ck, make_values(ck, write_roots(ck.T, lambda t: not ck.T.writeonly(t) and not ck.T.ambiguous(t)), n, forbidden=.01) + chains(ck, ck.n(20)), {"back", "refuse"}, readback=True)
    few = trees.FEW
    scopes = [(few, "nskl", 2), (few[:5], "n", 3)] if ck.quick else [(list(range(len(trees.KINDS))), "nskl", 2), (few, "nk", 3), (few[:5], "n", 4)]
    small = [c for c in make_values(ck, write_roots(ck.T, lambda t: not ck.T.writeonly(t) and not ck.T.ambiguous(t) and narrow(ck.T, t)), ck.n(3000), plain=1, forbidden=0) if elements(c["val"]) <= 4]
    trees.alternatives(ck, trees.values(ck, scopes, "W") + small)
    unit = {"k": "r", "s": "", "c": []}
    text = lambda t: {"k": "s", "s": t, "c": []}
    some = lambda v: {"k": "o", "s": "", "c": [v]}
    none = {"k": "o", "s": "", "c": []}
    for day in ("+12024-02-29", "-0044-03-15"):
        check_writes(ck, [{"t": "Dates", "val": {"k": "r", "s": "", "c": [text(day), some(text(day)), none, some(text(day + "T12:30:00.500"))]}}], {"back"}, readback=True)
        check_writes(ck, [{"t": "Dates", "val": {"k": "r", "s": "", "c": [text("2024-02-29"), none, some(text(day + "T12:30:00+00:00")), none]}}], {"back"}, readback=True, key="far-year")
    check_writes(ck, [{"t": "TextThen", "val": {"k": "r", "s": "", "c": [{"k": "s", "s": "", "c": []}, unit]}}], {"back"}, readback=True, key="tuple-empty-text")


@check("C17")
def c17(ck):
    T = ck.types(ck.n(150, 400))
    trees.types(T)
    ck.build(T)
    check_writes(ck, trees.values(ck, trees.scopes(ck)), {"place", "refuse"})
    n = ck.n(8000)
    check_writes(ck, make_values(ck, write_roots(ck.T, lambda t: has_ns(ck.T, t)), n, plain=1) + chains(ck, ck.n(20)), {"place", "refuse"})
    progs = calls.enumerated(ck, calls.FEW, ["", calls.A, calls.B], 3)
    progs += [calls.random_program(ck.rng, 30) for _ in range(ck.n(1500))]
    ck.rng.shuffle(progs)
    calls.check(ck, progs[:ck.n(4000)], {"place"}, False)


@check("C19")
def c19(ck):
    T = ck.types(ck.n(100, 400))
    made = census.types(T, lambda name, mode, wrap: name in ("String", "BorrowStr", "u8", "bool", "Level", "Person", "Unit", "Inner", "Inl1"))
    ck.build(T)
    check_writes(ck, census.values(ck, made, ck.n(6, 80)), {"value"})
    n = ck.n(8000)
    check_writes(ck, make_values(ck, write_roots(ck.T), n, plain=.7), {"value"})


ASPECTS = {"order", "wf", "name", "text", "report"}


@check("C13")
def c13(ck):
    ck.build(ck.types(0))
    progs = calls.enumerated(ck, calls.FEW, ["", calls.A, calls.B], 3)
    progs += calls.enumerated(ck, calls.ALL, ["", calls.A, calls.B], ck.n(2, 3))
    progs += [calls.random_program(ck.rng, 30) for _ in range(ck.n(6000))]
    half = len(progs) // 2
    ck.rng.shuffle(progs)
    for i, part in enumerate([progs[:half], progs[half:]]):
        calls.check(ck, part, ASPECTS, i == 0)
    # Known findings
    a = calls.call("start", "a", calls.A)
    calls.check(ck, [[a, calls.call("open"), calls.call("start", "b"), calls.call("empty"), calls.call("close")]], ASPECTS, False, "child-of-bare-element")
    calls.check(ck, [[{**a, "cx": [{"prefixes": [], "force": False}], "def": calls.B}, calls.call("empty")]], ASPECTS, False, "foreign-default")


@check("C16")
def c16(ck):
    ck.build(ck.types(ck.n(40, 150)))
    cases = make_values(ck, write_roots(ck.T), ck.n(450, 3000), plain=.5)
    reqs = [{"op": "sink", "t": c["t"], "val": c["val"], "dyn": ck.rng.random() < .5, "rooms": sorted({ck.rng.randint(0, 200) for _ in range(4)})} for c in cases]
    recs, index = [], []
    for c, r in zip(cases, ck.run(reqs)):
        what = {"type": c["t"], "value": c["val"]}
        if "panic" in r or "crash" in r:
            ck.violation("writing does not return", {**what, "result": r})
            continue
        free = r["free"]
        if (free["ok"], free["out"] if free["ok"] else "") != (r["text"]["ok"], r["text"].get("out", "")):
            ck.violation("the output depends on the sink", {**what, "to_writer": free, "to_string": r["text"]})
        if not free["ok"]: continue
        for x in [free] + r["runs"]:
            recs.append({"out": free["out"], "log": x["log"], "ok": x["ok"], "kind": x["kind"]})
            index.append({**what, "run": x})
    out, _ = tool.tlc("Sink", recs, work=ck.work) if recs else ([], "")
    for m in out:
        if m[0] == "MISMATCH":
            ck.violation("serializing into a failing sink: %s" % ", ".join(m[2]["bad"]), index[m[1] - 1])
    ck.traces += len(recs)
    ck.notes["failing_runs"] = sum(not r["ok"] for r in recs)
    for i in index[1:400:199]: ck.sample({"type": i["type"], "log": i["run"]["log"][-3:], "ok": i["run"]["ok"]})


TEXTUAL = ("String", "CowStr", "BorrowStr", "char", "With")


def textual(T, t):
    return t == "any" or any(x["k"] == "any" or (x["k"] == "sc" and x["s"] in TEXTUAL) for x in T.nodes(t))


@check("C03")
def c03(ck):
    ck.build(ck.types(ck.n(20, 150)))
    inputs, _ = codec.enumerated(ck, "&<\"'>];a\u00e9", ck.n(4, 6))
    for start in ("&am", "]]", "&#3"): inputs += codec.enumerated(ck, "&;pa]>4\"", len(start) + ck.n(2, 4), start)[0]
    inputs += [codec.padded(ck.rng, ck.rng.choice(inputs)) for _ in range(ck.n(3000))]
    codec.encoded(ck, inputs + [codec.plain(ck.rng, .2) for _ in range(ck.n(5000))])
    codec.sweep(ck, "chars", 0x10ffff, [{}, {"attr": True}])
    check_writes(ck, make_values(ck, write_roots(ck.T, lambda t: textual(ck.T, t)), ck.n(4000), plain=.2, forbidden=.03), {"value", "refuse"})


@check("C04")
def c04(ck):
    ck.build(ck.types(ck.n(20, 150)))
    for alphabet, n, start in (("&;amp", ck.n(6, 7), ""), ("&;#x41", ck.n(5, 7), ""), ("&;lgtquo", ck.n(3, 5), "&"), ("posa;", ck.n(6, 7), "&ap"),
                               ("0x14F;", ck.n(6, 8), "&#"), ("01DFd8;", ck.n(6, 8), "&#x"), (" \n\u00e9\u65e5&;p", ck.n(6, 7), "&am"),
                               ("+-_ 1;", ck.n(5, 7), "&#"), ("+-_ 1;", ck.n(6, 8), "&#x"), ("1;4\u00e9", ck.n(11, 13), "&#111111")):
        codec.decoded(ck, *codec.enumerated(ck, alphabet, n, start))
    codec.decoded(ck, [s for s in (codec.raw(ck.rng) for _ in range(ck.n(10000))) if codec.xmlish(s)])
    codec.sweep(ck, "refs", 0x110400, [{"form": "dec"}, {"form": "hex"}, {"form": "HEX", "attr": True}])
    verbatim(ck)
    roots = read_roots(ck.T, lambda t: textual(ck.T, t)) + ["any"] * 4
    check_reads(ck, make_docs(ck, roots, ck.n(4000), dict(PLAIN, noise=.1, cdata=.3, split=.3, enc=1, badref=.1, comments=.1)))


def verbatim(ck):
    """CDATA sections."""
    inputs = [codec.raw(ck.rng) + ck.rng.choice(["", "<", "<a>", "&"]) for _ in range(ck.n(2000))]
    codec.decoded(ck, [s for s in inputs if "]]>" not in s], cdata=True)




@check("C20")
def c20(ck):
    ck.build(ck.types(ck.n(30, 150)))
    small.check(ck, small.scopes(ck))
    roots = read_roots(ck.T, lambda t: not any(x["s"] == "IpAddr" for x in ck.T.nodes(t) if x["k"] == "sc")) + ["any"] * 6
    rng = ck.rng
    texts = []
    for c in make_docs(ck, roots, ck.n(9000), dict(PLAIN, mutate=.2, noise=.2, cdata=.1, split=.1, enc=.3, comments=.1, reprefix=.4, badref=.02)):
        x = c["xml"]
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])): x = damage.damage(rng, x)
        texts.append((c["t"], x))
    for _ in range(ck.n(2000)): texts.append((rng.choice(roots), damage.garbage(rng)))
    answered(ck, texts)
    codec.sweep(ck, "refs", 0x110400, [{"form": "dec"}, {"form": "hex", "attr": True}])
    large(ck)


def answered(ck, texts):
    """Any input is read as its tokens say."""
    cases, used, left = [], set(), []
    for (t, x), r in zip(texts, ck.run([{"op": "tokens", "xml": x} for _, x in texts])):
        if "tokens" not in r: raise tool.ToolError("tokens: %r" % r)
        toks = damage.convert(r["tokens"])
        if toks is None or not damage.special(damage.strings(toks), used): left.append((t, x))
        else: cases.append({"t": t, "toks": toks, "xml": x})
    for (t, x), r in zip(left, ck.run([{"op": "read", "t": t, "xml": x} for t, x in left])):
        if "panic" in r or "crash" in r: ck.violation("reading does not return", {"type": t, "xml": x, "result": r})
    ck.notes["only_returned"] = len(left)
    check_reads(ck, cases, "reading differs from what the tokens denote")


def large(ck):
    """Large inputs are read like small ones, in reasonable time."""
    n = 40000 if ck.quick else 400000
    person = "<Person age='1'>%s<name>%s</name>%s</Person>"
    pairs = [("Person", person % ("", "x", ""), person % (x, "x", x)) for x in
             ("<!-- c -->" * n, "<zz/>" * n, "<zz><a/></zz>" * n, " " * n * 10, "&amp;" * n, "<![CDATA[]]>" * n, "<!-- --> " * n, "<zz a='b' c='d'>t</zz>" * n)]
    pairs += [("Person", person % ("", "x", ""), "<!-- c -->" * n + person % ("", "x", "") + "<!-- c -->" * n),
              ("Person", person % ("", "xy", ""), person % ("", "x" + "<!-- c -->" * n + "y", "")),
              ("Person", person % ("", "x&amp;", ""), person % ("", "x" + "<!-- c --><![CDATA[]]>" * n + "&amp;", "")),
              ("any", "<a><b/></a>", "<a><b/>" + "<!-- c -->" * n + "</a>"),
              ("any", "<a>" + "<b>" * 40 + "</b>" * 40 + "</a>", "<a>" + "<b>" * n + "</b>" * n + "</a>"),
              ("Person", person % ("<b>" * 40 + "</b>" * 40, "x", ""), person % ("<b>" * n + "</b>" * n, "x", "")),
              ("Person", "<Person", "<Person" + " " * n * 10), ("Person", "<Person a='x'", "<Person a='" + "x" * n * 10), ("Person", "<b>", "<b>" * n),
              ("Person", "<Person " + " ".join("a%d='x'" % i for i in range(70)) + "/>", "<Person " + " ".join("a%d='x'" % i for i in range(n)) + "/>"),
              ("Person", "<Person " + " ".join("xmlns:a%d='x'" % i for i in range(70)) + "/>", "<Person " + " ".join("xmlns:a%d='x'" % i for i in range(n)) + "/>"),
              ("Person", "&" , "&" * n), ("Person", person % ("", "&a", ""), person % ("", "&" + "a" * n, ""))]
    answered(ck, [(t, small) for t, small, _ in pairs])
    res = ck.run([{"op": "read", "t": t, "xml": x} for t, *xs in pairs for x in xs])
    for (t, small, big), a, b in zip(pairs, res[::2], res[1::2]):
        if "panic" in b or "crash" in b: ck.violation("reading a large input does not return", {"type": t, "input": big[:200], "length": len(big), "result": b})
        elif (a["ok"], a.get("val")) != (b["ok"], b.get("val")):
            ck.violation("a large input is read differently from a small one", {"type": t, "small": small, "large": big[:200], "got": b, "expected": a})
    sums = [("Opts", "<Opts>" + "<nums>%d</nums>" * n % tuple(range(n)) + "</Opts>", n, lambda v: [x["s"] for x in v["c"][5]["c"]] == [str(i) for i in range(n)]),
            ("any", "<a>" + "<b/>" * n + "</a>", n, lambda v: len(v["c"][3]["c"]) == n),
            ("Person", person % ("", "ab&amp;" * n, ""), n, lambda v: v["c"][0]["s"] == "ab&" * n)]
    for (t, x, _, good), r in zip(sums, ck.run([{"op": "read", "t": t, "xml": x} for t, x, *_ in sums])):
        if not r["ok"] or not good(r["val"]): ck.violation("a large input is not read completely", {"type": t, "input": x[:200], "result": str(r)[:500]})
    ck.traces += len(pairs) + len(sums)


@check("C12")
def c12(ck):
    ck.build(ck.types(ck.n(20, 100)))
    progs = cursor.enumerated(ck, cursor.SMALL, ck.n(6, 8))
    ck.notes["enumerated"] = len(progs)
    cursor.check(ck, progs)
    roots = read_roots(ck.T) + ["any"] * 10
    out = []
    for prof in (dict(PLAIN, noise=.5, reprefix=.5, comments=.2, cdata=.2, split=.2, enc=.2, decls=.2), dict(PLAIN, noise=.5, reprefix=1, damage=.2, comments=.1, badref=.01, unknown=.1)):
        for c in make_docs(ck, roots, ck.n(1500), prof):
            if len(c["toks"]) > 60: continue
            for _ in range(2): out.append((c["toks"], (ck.rng.getrandbits(60), ck.rng.choice([5, 20, 60, 120]))))
    cursor.check(ck, out)


@check("C15")
def c15(ck):
    T = ck.types(ck.n(30, 100))
    for d in T.t.values():
        if d["id"][0] == "R": d["r"]["split"] = True
    made = names.types(ck, T, ck.n(25, 200))
    ck.build(T)
    roots = made + [t for t in T.t if t[0] == "R" and T.t[t]["k"] in ("struct", "tuple", "unit") and not T.readonly(t) and not T.writeonly(t)] + ["Camel", "KebabS", "HasRaw"]
    check_writes(ck, make_values(ck, roots, ck.n(2500)), {"name", "value"})
    check_reads(ck, make_docs(ck, roots, ck.n(2500), dict(PLAIN, reprefix=.3)))
    check_reads(ck, names.misnamed(ck, made, ck.n(3500)))
