"""Programs of calls to the low-level writer."""
import tool
import values

A, B, C = "urn:a", "urn:b", "urn:c"
CONTEXTS = [None, [], [["p", A]], [["p", B]], [["p", A], ["q", B]], [["p", B], ["q", A]], [["p", A], ["q", A]], [["p", C]], [["q", A]]]


def start(ns, prefixes, force=False):
    return {"ns": ns, "cx": [] if prefixes is None else [{"prefixes": prefixes, "force": force}]}


FEW = [start(A, []), start("", []), start(A, [["p", A]]), start(B, [["p", A]]), start(A, [["p", B]]), start("", [["p", B], ["q", A]]), start(B, [["q", A]], True), start(B, None),
       start("", None), start(A, [["p", C]], True)]
ALL = [start(ns, p, f) for ns in ("", A, B) for p in CONTEXTS for f in (False, True) if not (p is None and f)]


def call(k, n="", ns="", v="", cx=()):
    return {"k": k, "n": n, "ns": ns, "v": v, "cx": list(cx)}


def enumerated(ck, starts, attrs, n):
    out, _ = tool.tlc("CallGen", work=ck.work, constants={"starts": starts, "attrs": attrs, "max": n})
    return [m[1] for m in out if m[0] == "P"]


def random_program(rng, size):
    """Elements nested and in a row, with attributes and text."""
    prog = []

    def attrs():
        names = set()
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            n = (rng.choice(["", "", A, B, C, "urn:z"]), rng.choice(["k", "l", "m"]))
            if n not in names:
                names.add(n)
                prog.append(call("attr", n[1], n[0], rng.choice(["", "v", "w x", "true", "-7", "\u00e9"])))

    def element(depth):
        nonlocal size
        size -= 1
        ps = rng.sample(["p", "q", "r", "s"], rng.choice([0, 0, 1, 1, 2, 3]))
        cx = None if rng.random() < .25 and depth else [[p, rng.choice([A, B, C])] for p in ps]
        s = start(rng.choice(["", A, A, B, B, C]), cx, cx is not None and rng.random() < .3)
        prog.append(call("start", rng.choice("abc"), s["ns"], cx=s["cx"]))
        attrs()
        if rng.random() < .3:
            prog.append(call("empty"))
            return
        prog.append(call("open"))
        while rng.random() < .7:
            if rng.random() < .3 or size <= 0 or depth > 7 or cx is None: prog.append(call("str", v=rng.choice(["", "t", "u v", "12", "\u00e9l"])))
            else: element(depth + 1)
        prog.append(call("close"))

    element(0)
    return prog


def check(ck, progs, aspects, probe, key=None):
    """Runs programs and has TLC decide what was recorded."""
    ways = [[{**c, "how": ck.rng.randrange(6)} for c in p] for p in progs]
    res = ck.run([{"op": "calls", "calls": p, "probe": probe} for p in ways])
    recs, index = [], []
    for p, w, r in zip(progs, ways, res):
        what = {"calls": show(w), "result": r}
        if "panic" in r or "crash" in r:
            ck.violation("a call does not return", what, key)
            continue
        try: toks = values.lex(r["out"])
        except values.Malformed as e:
            ck.violation("output is not well-formed: %s" % e, what, key)
            continue
        recs.append({"calls": p, "rep": r["rep"], "toks": toks})
        index.append(what)
    out, _ = tool.tlc("CallCheck", recs, work=ck.work) if recs else ([], "")
    for m in out:
        if m[0] != "MISMATCH": continue
        hit = set(m[2]["aspects"]) & set(aspects)
        if hit: ck.violation("the writer leaves its protocol: %s" % ", ".join(sorted(hit)), {**index[m[1] - 1], "at token": m[2]["token"]}, key)
        else: ck.notes["other_aspects"] = ck.notes.get("other_aspects", 0) + 1
    ck.traces += len(recs)
    for w in index[:200:99]: ck.sample({"calls": w["calls"], "output": w["result"]["out"]})


def show(p):
    return [" ".join([c["k"]] + [repr(c[k]) for k in ("n", "ns", "v") if c[k]] + [str(x) for x in c["cx"]] + ["as %d" % c["how"]]) for c in p]
