"""Programs of calls to the pull interface."""
import docs
import tool

PREFIXES = ["p", "q", "xml", "zz"]


def open_(n, items=(), p="", empty=False):
    return {"k": "open", "p": p, "n": n, "items": list(items), "empty": empty}


def close(n, p=""): return {"k": "close", "p": p, "n": n}
def text(v): return {"k": "text", "v": v, "bad": False}
def attr(n, v, p=""): return {"k": "attr", "p": p, "n": n, "v": v, "bad": False}
def decl(p, v): return {"k": "decl", "p": p, "v": v}


# Small documents that hold each situation at a boundary of an element.
SMALL = [
    [open_("r"), open_("a", empty=True), open_("c", [attr("x", "1")]), text("t"), close("c"), close("r")],
    [open_("r", [attr("k", "v"), decl("p", "urn:a")]), open_("a", [decl("", "urn:b")]), open_("a", empty=True), close("a"), text("u"), close("r")],
    [open_("a", [decl("p", "urn:a"), attr("x", "1", "p")], "p"), open_("a", [decl("p", "urn:b"), attr("y", "2")], "p", True), close("a", "p")],
    [open_("r"), open_("r", [attr("x", "1"), attr("y", "2")]), open_("r", [], "", True), text("s"), close("r"), open_("r", empty=True), close("r")],
    [open_("r"), text("s"), {"k": "comment"}, open_("a"), {"k": "cdata", "v": "<"}, {"k": "comment"}, text("t"), close("a"), text("u"), close("r")],
    [open_("r", [attr("x", "1")], empty=True)],
    [open_("r"), open_("a"), open_("b", empty=True), close("b"), close("a"), close("r")],
    [open_("r"), open_("a"), text("t")],
]


def named(toks):
    """Whether the name of the root element can be resolved."""
    for t in toks:
        if t["k"] == "open": return t["p"] in ("", "xml") or any(i["k"] == "decl" and i["p"] == t["p"] for i in t["items"])
    return False


def enumerated(ck, toks, n):
    out, _ = tool.tlc("CursorGen", toks, work=ck.work, constants={"max": n})
    return [(toks[m[1] - 1], m[2]) for m in out if m[0] == "P"]


def check(ck, runs, key=None):
    """Runs (tokens, calls or (seed, length)): what was recorded against the specification."""
    reqs, cases = [], []
    for toks, ops in runs:
        xml = docs.render(toks, ck.rng, .2)
        how = {"ops": ops} if isinstance(ops, list) else {"seed": ops[0], "left": ops[1]}
        reqs.append({"op": "cursor", "xml": xml, "prefixes": PREFIXES, "named": named(toks), **how})
    res = ck.run(reqs)
    recs, index = [], []
    for (toks, ops), q, r in zip(runs, reqs, res):
        what = {"xml": q["xml"], "calls": ops}
        if "panic" in r or "crash" in r:
            ck.violation("a call does not return", {**what, "result": r}, key)
            continue
        recs.append({"toks": toks, "rep": r["rep"]})
        index.append(what)
    out, _ = tool.tlc("CursorCheck", recs, work=ck.work) if recs else ([], "")
    for m in out:
        if m[0] != "MISMATCH": continue
        rep = recs[m[1] - 1]["rep"]
        ck.violation("a reader leaves its element or its order", {**index[m[1] - 1], "recorded": rep[:m[2]], "at call": m[2]}, key)
    ck.traces += len(recs)
    ck.notes["calls"] = ck.notes.get("calls", 0) + sum(len(r["rep"]) for r in recs)
    for w, r in list(zip(index, recs))[:300:149]: ck.sample({"xml": w["xml"][:300], "calls": [x["op"] for x in r["rep"]]})
