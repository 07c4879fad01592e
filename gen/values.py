"""Random values of types, as nodes."""
import docs
import tool

FORBIDDEN = ["\x01", "a\x02b", "\ufffe", "x\uffff", "\x00", "tab\x0b", "esc\x1b[0m<"]


def xml_char(c):
    o = ord(c)
    return o in (9, 10, 13) or 0x20 <= o <= 0xd7ff or 0xe000 <= o <= 0xfffd or o >= 0x10000


class Values:
    def __init__(self, T, rng, forbidden=0, plain=.3, some=.65, depth=5, items=(0, 1, 1, 2, 3)):
        self.force = (None, "")
        self.T, self.rng, self.forbidden, self.plain, self.some, self.depth, self.items = T, rng, forbidden, plain, some, depth, items

    def scalar(self, s):
        rng = self.rng
        if s == self.force[0]: return self.force[1]
        if s == "Hand": return "#" + self.scalar("String")
        if s in docs.INTS or s in ("bool", "char") or s in docs.APART:
            return docs.good(rng, s)
        if rng.random() < self.forbidden: return rng.choice(FORBIDDEN)
        if rng.random() < self.plain: return rng.choice(docs.PLAIN) if rng.random() < .98 else "x" * len(docs.long(rng))
        return docs.string(rng, 0)

    def node(self, k, s="", c=()):
        return {"k": k, "s": s, "c": list(c)}

    def value(self, ty, depth=None, direct=False, attr=False):
        """direct: content of an element, where an absent and an empty text look alike."""
        rng = self.rng
        depth = self.depth if depth is None else depth
        k = ty["k"]
        if k == "sc": return self.node("s", self.scalar(ty["s"]))
        if k == "box": return self.value(ty["c"][0], depth, direct, attr)
        if k == "opt":
            if depth <= 0 or rng.random() > self.some: return self.node("o")
            v = self.value(ty["c"][0], depth, direct, attr)
            if direct and v["k"] == "s" and v["s"] == "": return self.node("o")
            return self.node("o", "", [v])
        if k == "vec":
            n = 0 if depth <= 0 else rng.choice(self.items) if rng.random() < .98 else rng.choice([4, 7, 8, 9, 16, 17, 33])
            if n > 3: depth = min(depth, 2)
            return self.node("v", "", [self.value(ty["c"][0], depth) for _ in range(n)])
        d = self.T.t[ty["s"]]
        if d["k"] == "senum":
            vs = d["variants"] if attr else [v for v in d["variants"] if v["text"]]
            return self.node("e", rng.choice(vs)["id"])
        if d["k"] == "fwd":
            v = rng.choice(d["variants"])
            return self.node("f", v["id"], [self.value(v["ty"], depth - 1)])
        if d["k"] == "tuple":
            # Empty text before an element is not read back: a known finding of C05
            vs = [self.value(f["ty"], depth - 1) for f in d["fields"]]
            for v in vs[:-1]:
                if v["k"] == "s" and v["s"] == "": v["s"] = "x"
            return self.node("r", "", vs)
        return self.node("i" if d["k"] == "inline" else "r", "",
                         [self.value(f["ty"], depth - 1, f["mode"] == "direct", f["mode"] == "attr") for f in d["fields"]])


def texts(v):
    """All scalar texts in a value."""
    if v["k"] == "s": yield v["s"]
    for c in v["c"]: yield from texts(c)


# ------------------------------------------------------------ output lexer
class Malformed(Exception):
    pass


REFS = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'"}


def decode(s):
    out, i = [], 0
    while True:
        j = s.find("&", i)
        if j < 0: return "".join(out) + s[i:]
        e = s.find(";", j)
        if e < 0: raise Malformed("unterminated reference")
        name = s[j + 1:e]
        out.append(s[i:j])
        if name in REFS: out.append(REFS[name])
        elif name.startswith("#"):
            try: c = chr(int(name[2:], 16) if name[1:2] == "x" else int(name[1:]))
            except (ValueError, OverflowError): raise Malformed("bad reference &%s;" % name)
            if not xml_char(c): raise Malformed("reference to a character not allowed")
            out.append(c)
        else: raise Malformed("unknown reference &%s;" % name)
        i = e + 1


import re
# https://www.w3.org/TR/xml-names/#NT-NCName
_START = ("A-Za-z_\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u02ff\u0370-\u037d\u037f-\u1fff\u200c\u200d\u2070-\u218f\u2c00-\u2fef"
          "\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd\U00010000-\U000effff")
NAME = "[%s][%s0-9.\\-\u00b7\u0300-\u036f\u203f\u2040]*" % (_START, _START)
START = re.compile(r"<(?:(%s):)?(%s)" % (NAME, NAME))
ATTR = re.compile(r"\s+(?:(%s):)?(%s)\s*=\s*(\"[^\"<]*\"|'[^'<]*')" % (NAME, NAME))
CLOSE = re.compile(r"</(?:(%s):)?(%s)\s*>" % (NAME, NAME))


def lex(xml):
    """Tokens of serializer output; Malformed if it is not made of tags and text."""
    out, i = [], 0
    for c in xml:
        if not xml_char(c): raise Malformed("character U+%04X" % ord(c))
    while i < len(xml):
        if xml.startswith("</", i):
            m = CLOSE.match(xml, i)
            if not m: raise Malformed("end tag at %d" % i)
            out.append({"k": "close", "p": m[1] or "", "n": m[2]})
            i = m.end()
        elif xml[i] == "<":
            m = START.match(xml, i)
            if not m: raise Malformed("start tag at %d" % i)
            tok = {"k": "open", "p": m[1] or "", "n": m[2], "items": [], "empty": False}
            i = m.end()
            while True:
                a = ATTR.match(xml, i)
                if not a: break
                v = decode(a[3][1:-1])
                if not a[1] and a[2] == "xmlns": tok["items"].append({"k": "decl", "p": "", "v": v})
                elif a[1] == "xmlns": tok["items"].append({"k": "decl", "p": a[2], "v": v})
                else: tok["items"].append({"k": "attr", "p": a[1] or "", "n": a[2], "v": v, "bad": False})
                i = a.end()
            m = re.compile(r"\s*(/?)>").match(xml, i)
            if not m: raise Malformed("inside a tag at %d" % i)
            tok["empty"] = bool(m[1])
            i = m.end()
            out.append(tok)
        else:
            j = xml.find("<", i)
            j = len(xml) if j < 0 else j
            raw = xml[i:j]
            if "]]>" in raw: raise Malformed("]]> in text")
            out.append({"k": "text", "v": decode(raw), "bad": False})
            i = j
    return out
