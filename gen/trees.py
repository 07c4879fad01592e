"""Small scopes for writing: every tree of a few elements, each of any kind."""
import itertools

import tool
from types_ import A, B, at, el, opt, ref, sc, vec

PREFIXES = [{}, {"p": A}, {"p": B}, {"q": A}, {"p": A, "q": B}, {"p": B, "q": A}]
KINDS = list(itertools.product(("", A, B), PREFIXES, (False, True)))
# (kind, mark) of the scopes; marks: nothing, scalar children, an attribute in either namespace
FEW = [KINDS.index(k) for k in [("", {}, False), (A, {}, False), (A, {"p": A}, False), (B, {"p": A}, False), (A, {"p": B}, True), (B, {"p": B, "q": A}, False),
                                ("", {"q": A}, True), (A, {"q": A}, True)]]


def types(T):
    S = sc("String")
    for i, (ns, prefixes, force) in enumerate(KINDS):
        other = A if ns == B else B
        T.struct("U%d" % i, at("k", opt(S), ns=A), at("l", opt(S), ns=B), el("b", opt(S)), el("kids", vec(ref("UAny"))), el("t", opt(S)), el("f", opt(S), ns=other),
                 el("g", opt(S), rename="h", ns=""), rename="u%d" % (i % 3), ns=ns, prefixes=prefixes, force=force, **({"generic": 2} if i % 5 in (0, 2) else {}))
        # The same with names of their own, so that one can be told from the other when reading.
        T.struct("W%d" % i, at("k", opt(S), ns=A), at("l", opt(S), ns=B), el("b", opt(S)), el("kids", vec(ref("WAny"))), el("t", opt(S)), el("f", opt(S), ns=other),
                 el("g", opt(S), rename="h", ns=""), rename="w%d" % i, ns=ns, prefixes=prefixes, force=force)
    T.fwd("UAny", *[ref("U%d" % i) for i in range(len(KINDS))], ambiguous=True)
    T.fwd("WAny", *[ref("W%d" % i) for i in range(len(KINDS))])


def text(s): return {"k": "o", "s": "", "c": [{"k": "s", "s": s, "c": []}]}


NONE = {"k": "o", "s": "", "c": []}
MARKS = {"n": (0, 0, 0), "s": (0, 0, 1), "k": (1, 0, 0), "l": (0, 1, 0), "x": (1, 1, 1)}


def value(tree, letter="U"):
    """tree: [(depth, kind, mark)] in document order."""
    root, stack = None, []
    for d, i, m in tree:
        k, l, s = MARKS[m]
        kids = {"k": "v", "s": "", "c": []}
        v = {"k": "r", "s": "", "c": [text("x") if k else NONE, text("y") if l else NONE, text("1") if s else NONE, kids, text("2") if s else NONE, text("3") if s else NONE,
                                      text("4") if s else NONE]}
        del stack[d - 1:]
        if stack: stack[-1].append({"k": "f", "s": "V%d" % i, "c": [v]})
        else: root = v
        stack.append(kids["c"])
    return {"t": "%s%d" % (letter, tree[0][1]), "val": root}


def values(ck, scopes, letter="U"):
    """scopes: (kinds, marks, number of elements)"""
    out, _ = tool.tlc("TreeGen", [{"kinds": len(k), "marks": len(m), "max": n} for k, m, n in scopes], work=ck.work)
    res = []
    for _, c, tree in out:
        kinds, marks, n = scopes[c - 1]
        res.append(value([(d, kinds[k - 1], marks[m - 1]) for d, k, m in tree], letter))
    ck.notes["small_trees"] = ck.notes.get("small_trees", 0) + len(res)
    return res


def scopes(ck):
    every = list(range(len(KINDS)))
    if ck.quick: return [(every, "ns", 2), (every, "kl", 2), (FEW, "ns", 3)]
    return [(every, "nsklx", 2), (every, "n", 3), (FEW, "nskl", 3), (FEW, "n", 4), (FEW[:5], "ns", 4)]


def alternatives(ck, cases):
    """All outputs the specification allows for values: the real code has to
    read each of them as the value it was written for."""
    T = ck.T
    import docs
    import values as V
    out, _ = tool.tlc("WriteGen", [{"ty": T.ref(c["t"]), "val": c["val"]} for c in cases], T.spec(), ck.work, {t for c in cases for t in V.texts(c["val"])})
    got = [(cases[c - 1], docs.render(toks, ck.rng, 0)) for k, c, toks in out if k == "W"]
    for (c, x), r in zip(got, ck.run([{"op": "read", "t": c["t"], "xml": x} for c, x in got])):
        if r.get("ok") is not True or r["val"] != c["val"]:
            ck.violation("an output the specification allows is read as another value", {"type": c["t"], "xml": x, "got": r, "expected": c["val"]})
    ck.traces += len(got)
    ck.notes["alternative_outputs"] = ck.notes.get("alternative_outputs", 0) + len(got)
