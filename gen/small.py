"""Small scopes: alphabets of tokens whose sequences TLC enumerates."""
import docs
import tool
from cursor import attr, close, decl, open_, text
from tool import LIMITS

A, B = "urn:a", "urn:b"
CDATA = {"k": "cdata", "v": "y"}
COMMENT = {"k": "comment"}
BAD = {"k": "text", "v": "", "bad": True}
STOP = {"k": "stop"}


def el(n, *items, p=""):
    """Start tag, empty element and end tag."""
    return [open_(n, items, p), open_(n, items, p, True), close(n, p)]


def pair(n, *items, p=""):
    return [open_(n, items, p), close(n, p)]


def completed(toks):
    """End tags for what is left open."""
    left = []
    for t in toks:
        if t["k"] == "open" and not t["empty"]: left.append(t)
        elif t["k"] == "close" and left and (left[-1]["p"], left[-1]["n"]) == (t["p"], t["n"]): left.pop()
    return [close(t["n"], t["p"]) for t in reversed(left)]


def check(ck, scopes, what="a small document is read differently from the specification"):
    """Scopes (type, alphabet, length) or (type, alphabet, length, limits)."""
    cases = [{"ty": ck.T.ref(s[0]), "alphabet": s[1], "max": s[2], "lim": s[3] if len(s) > 3 else LIMITS} for s in scopes]
    texts = {t for s in scopes for t in tool.runs(s[1])}
    texts |= {a + b for a in texts for b in texts}
    out, _ = tool.tlc("ReadGen", cases, ck.T.spec(), ck.work, texts)
    reqs, expected = [], []
    for _, c, doc, res, val in out:
        t, alphabet, *rest = scopes[c - 1]
        toks = [alphabet[i - 1] for i in doc]
        if res == "fail": toks += completed(toks)     # so that nothing else is wrong
        reqs.append({"op": "read", "t": t, "xml": docs.render(toks, ck.rng, 0), **({"lim": rest[1]} if len(rest) > 1 else {})})
        expected.append({"ok": res == "ok", "val": val})
    for q, r, e in zip(reqs, ck.run(reqs), expected):
        if "panic" in r or "crash" in r: ck.violation("reading does not return", {"type": q["t"], "xml": q["xml"], "result": r})
        elif r["ok"] != e["ok"] or (r["ok"] and r["val"] != e["val"]):
            ck.violation(what, {"type": q["t"], "xml": q["xml"], "limits": q.get("lim"), "got": r, "expected": e})
    ck.traces += len(reqs)
    ck.notes["small_documents"] = ck.notes.get("small_documents", 0) + len(reqs)
    ck.notes["small_accepted"] = ck.notes.get("small_accepted", 0) + sum(e["ok"] for e in expected)


SCOPES = {
    "C06": [
        ("NsNone", [open_("NsNone"), close("NsNone"), open_("NsNone", [decl("p", A)]), open_("v"), open_("v", [decl("", A)]), open_("v", [decl("", "")]), close("v"), text("x")], 0),
        ("NsLeaf", [open_("NsLeaf", [decl("", B)]), open_("NsLeaf", [decl("p", B)], "p"), close("NsLeaf"), close("NsLeaf", "p"),
                    open_("v", [], "p"), open_("v"), close("v", "p"), close("v"), open_("v", [decl("p", A)], "p")], 0),
        ("HasAny", [open_("HasAny", [decl("", A), decl("p", B)]), close("HasAny"), open_("x", [], "p"), open_("x", [attr("k", "1", "p"), decl("p", A)], "p"), close("x", "p"),
                    open_("x", [decl("", "")], "", True), open_("y", [attr("k", "1", "q")], "", True), open_("y", [attr("k", "1", "p")], "", True)], 0),
        ("Twice", [open_("Twice", [decl("", A), decl("p", B)]), close("Twice"), open_("v", [], "p"), close("v", "p"), open_("NsLeaf", [decl("", B)]), close("NsLeaf"), open_("v"), close("v"), text("x")], 0),
    ],
    "C07": [
        ("Person", [open_("Person", [attr("age", "1")]), open_("Person", [attr("age", "1"), attr("agee", "x")]), close("Person"), *el("name"), *el("zz", attr("age", "2")), text("x"), COMMENT], 0),
        ("ParKids", [open_("ParKids"), close("ParKids"), *pair("kid", attr("lang", "e")), *pair("Par", attr("lang", "e")), *pair("n"), text("1"), open_("zz", empty=True)], 0),
        ("Opts", [open_("Opts", [attr("b", "1"), attr("c", "x")]), close("Opts"), *pair("n"), *el("a"), text("1"), *pair("zz"), open_("list", empty=True)], 0),
        ("NsPref", [open_("NsPref", [decl("", A), decl("p", B), attr("k", "1"), attr("k", "2", "p")]), close("NsPref"), *pair("plain"), *pair("plain", p="p"), *pair("pre", p="p"), open_("pre", empty=True), text("x")], 0),
    ],
    "C08": [
        ("Person", [open_("Person", [attr("age", "1")]), open_("Person", [attr("age", "1"), attr("age", "1")]), open_("Person"), close("Person"), *el("name"), text("x")], 0),
        ("Opts", [open_("Opts"), open_("Opts", [attr("b", "1"), attr("c", "x"), attr("b", "1")]), close("Opts"), *el("a"), *el("n"), *pair("nums"), text("1")], 0),
        ("CustomHas", [open_("CustomHas", [decl("p", A)], "p"), close("CustomHas", "p"), *el("put"), *el("deep"), text("1"), open_("zz", empty=True)], 1),
        ("CustomOpt", [open_("CustomOpt", [decl("p", B)], "p"), close("CustomOpt", "p"), *el("put"), text("1"), CDATA, open_("zz", empty=True)], 1),
        ("Boxed", [open_("Boxed", [attr("c", "")]), close("Boxed"), open_("a", empty=True), open_("b", empty=True), *pair("b"), open_("Person", [attr("age", "1")]), close("Person"), open_("name", empty=True), text("1")], 1),
        ("ParNumOpt", [open_("ParNumOpt"), open_("ParNumOpt", [attr("id", "1")]), close("ParNumOpt"), text("1"), CDATA, COMMENT, *el("v")], 0),
        ("Levels", [open_("Levels", [attr("l", "Low")]), close("Levels"), *el("m"), *el("o"), *pair("v"), text("Low"), text("baz")], 0),
        ("OptAny", [open_("OptAny"), close("OptAny"), *el("a"), *el("k"), text("1")], 1),
        ("MaybeShape", [open_("MaybeShape", [decl("", A)]), close("MaybeShape"), open_("Circle", [attr("r", "1")], "", True), *pair("Circle", attr("r", "1")), open_("Par", [decl("", ""), attr("lang", "")]), close("Par"),
                        open_("Unit", [decl("", "")], "", True)], 1),
    ],
    "C09": [
        ("any", [open_("a"), close("a"), open_("a", [decl("p", A)], "p"), close("a", "p"), open_("b", empty=True), close("A"), text("x"), STOP, COMMENT], 0),
        ("any", [open_("ab"), *map(close, ("ab", "AB", "aB", "a", "b", "abb", "ba")), open_("ab", [decl("ab", A)], "ab"), close("ab", "ab"), close("ab", "AB")], 0),
        ("Person", [open_("Person", [attr("age", "1")]), close("Person"), *el("name"), *el("zz"), close("Person", "p"), STOP], 1),
        ("Pair", [open_("Pair"), close("Pair"), open_("Person", [attr("age", "1")]), close("Person"), open_("name", empty=True), open_("NsLeaf", [decl("", B)]), close("NsLeaf"), open_("v", empty=True)], 2),
        ("Unit", [*el("Unit"), *el("a"), text("x"), CDATA, COMMENT, {"k": "xmldecl"}, STOP], 0),
        ("Shape", [*el("Unit"), open_("Circle", [decl("", A), attr("r", "1")]), close("Circle"), open_("a", empty=True), text("x")], 1),
    ],
    "C10": [
        ("any", [*el("a"), *pair("b", attr("x", ""), attr("y", "")), open_("c", [decl("p", A), decl("q", A)], "", True), open_("c", [decl("p", A), decl("p", B), decl("", A)], "", True)], 0, {"a": a, "l": l, "d": d})
        for a, l, d in ((2, 3, 1), (1, 2, 2), (2, 4, 2), (0, 3, 0), (1, 1, 1))] + [
        ("Empty", [*el("Empty"), *pair("b"), open_("c", [attr("x", "")], "", True), open_("c", [decl("p", A)], "", True), text("x")], 0, {"a": a, "l": l, "d": d})
        for a, l, d in ((1, 3, 0), (0, 2, 1), (0, 4, 0))],
    "C11": [
        ("any", [*el("a", attr("k", "v")), *pair("b", decl("", A)), text("x"), CDATA, COMMENT, open_("c", [decl("p", A), attr("l", "", "p")], "p", True)], 0),
        ("HasAny", [open_("HasAny", [decl("", A)]), close("HasAny"), *el("x"), *el("y"), text("x"), CDATA], 0),
        ("OneAny", [open_("OneAny", [decl("", A)]), close("OneAny"), *el("x"), *el("y", decl("", "")), text("x")], 1),
    ],
    "C14": [
        ("ParNum", [*pair("ParNum"), *map(text, ("1", "-", "+", "0", " ", "x")), {"k": "cdata", "v": "1"}, COMMENT], 0),
        ("ParEnum", [*pair("ParEnum"), *map(text, ("Low", "L", "ow", "3", " ", "middle", "Mid")), COMMENT], 0),
    ],
    "C18": [
        ("Pair", [open_("Pair"), close("Pair"), open_("Person", [attr("age", "1")]), close("Person"), open_("name", empty=True), open_("NsLeaf", [decl("", B)]), close("NsLeaf"), open_("v", empty=True), text("x")], 2),
        ("ElemText", [*el("ElemText"), *el("Unit"), text("x"), CDATA, COMMENT, open_("zz", empty=True)], 1),
        ("TextThen", [*el("TextThen"), *el("Unit"), text("x"), CDATA, COMMENT, open_("zz", empty=True)], 1),
        ("Wrap", [*el("Wrap", decl("", A)), *el("a"), text("x"), CDATA, COMMENT], 0),
        ("HasInline", [open_("HasInline", [decl("", A), decl("p", ""), attr("z", "1")]), close("HasInline"), open_("before", empty=True), open_("Unit", [decl("", "")], "", True), *pair("n", decl("", "")),
                       open_("NsLeaf", [decl("", B)]), close("NsLeaf"), open_("v", empty=True), open_("n", empty=True)], 1),
        ("HasScalars", [*pair("HasScalars"), *el("a"), open_("b", empty=True), *pair("c"), open_("d", empty=True), text("1")], 1),
        ("Shapes", [open_("Shapes", [decl("a", A)]), close("Shapes"), open_("Circle", [attr("r", "1")], "a", True), open_("Circle", [attr("r", "1")], "", True), open_("Unit", empty=True),
                    open_("Wrap", [decl("", A)], "", True), open_("NsNone", empty=True), *pair("n"), text("1")], 0),
        ("HasBoth", [open_("HasBoth", [decl("", A), decl("n", "")], "n"), close("HasBoth", "n"), open_("Circle", [attr("r", "1")], "", True), *el("Circle", decl("", "")), open_("Square", [decl("", B)]), close("Square"), open_("side", empty=True),
                     open_("Unit", [decl("", "")], "", True), open_("side", empty=True)], 0),
        ("HasFirst", [open_("HasFirst", [decl("", A), decl("n", "")]), close("HasFirst"), open_("Circle", [attr("r", "1")], "", True), *el("NsLeaf"), open_("v", empty=True), open_("Unit", [], "n", True), open_("rest", empty=True)], 1),
        ("Both", [open_("Both", [attr("k", "1")]), close("Both"), *pair("v"), *pair("NsLeaf", decl("", A)), open_("Circle", [decl("", A), attr("r", "1")], "", True), text("1")], 0),
        ("Nested", [open_("Par", [attr("lang", "")]), close("Par"), open_("Wrap", [decl("", A)]), close("Wrap"), open_("NsUnit", [decl("", B)], "", True), *el("NsNone"), open_("v", empty=True), text("x")], 0),
        ("BoxFirst", [*el("NsLeaf", decl("", A)), *pair("v"), *el("Gen1"), *el("v", decl("", "")), open_("Circle", [decl("", A), attr("r", "1")], "", True), text("x")], 0),
        ("HasOverlap", [*pair("HasOverlap"), *el("NsLeaf", decl("", A)), *pair("v"), open_("Circle", [decl("", A), attr("r", "1")], "", True), text("x")], 1),
    ],
}
def _stops():
    return [("any", [*pair("a"), text("x"), COMMENT, CDATA, STOP, BAD, {"k": "xmldecl"}, open_("a", empty=True)], 0),
            ("Person", [open_("Person", [attr("age", "1")]), close("Person"), *el("name"), STOP, BAD, text("x"), open_("Person", [{**attr("age", "1"), "bad": True}]), COMMENT], 0)]
SCOPES["C20"] = _stops()


def scopes(ck, extra=0):
    """The scopes of a property; lengths by tier."""
    n = ck.n(6, 8) + extra
    return [(t, a, n + more, *lim) for t, a, more, *lim in SCOPES[ck.pid]]
