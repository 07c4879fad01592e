"""Random documents: element trees for a type, mutated, named with prefixes,
turned into the tokens the specification reads and into text.

Nothing here says what reading a document should yield: that is the
specification's business."""
import copy
import re
import struct

URIS = ["urn:a", "urn:b", "urn:c", "urn:d"]
PREF = ["p", "q", "r", "ns1", "x-y", "_z"]
XMLNS = "http://www.w3.org/XML/1998/namespace"

STRINGS = ["", "x", "hello", "two words", " padded ", "a&b", "<tag>", "\"q\" 'r'", "\u00fcn\u00ef", "\u65e5\u672c", "1", "true", "false", "0",
           "a\nb", "\tt", "&amp;", "]]>", "--", "\u00a0", "q=\"v\"", "12 ", "/>", "%s", "\U0001d11e clef", "e\u0301", " ", "\n", "-->", "&#38;", "&amp;lt;", "{}", "0x1f", "a" * 20]
PLAIN = ["x", "y", "hello", "two words", "v1", "abc"]
INTS = {"u8": ["0", "7", "255"], "u16": ["0", "65535", "42"], "u32": ["0", "1", "4294967295", "77"],
        "u64": ["0", "18446744073709551615"], "usize": ["0", "18446744073709551615"],
        "i8": ["0", "-128", "127", "-1"], "i16": ["-32768", "32767", "5"], "i32": ["-2147483648", "2147483647", "9"],
        "i64": ["-9223372036854775808", "9223372036854775807", "-3"], "isize": ["-9223372036854775808", "9223372036854775807"]}
BADINTS = ["", "x", "1x", "-", "+", "--1", "1 2", "1.0", "0x1", "256", "-129", "99999999999999999999", "-1", "32768", "4294967296", "2147483648",
           "18446744073709551616", "9223372036854775808", "-9223372036854775809", "65536", "1e3", "1_0", "\u0661"]
FLOATS = {"f64": ["0.5", "-2", "10000000000", "NaN", "inf", "-inf", "-0", "0", "0.1", "1" + "0" * 22, "9007199254740993", "0.30000000000000004", "5e-324", "2.2250738585072014e-308", "1.7976931348623157e308"],
          "f32": ["1.25", "0", "-0.5", "16777216", "3.4028235e38", "1e-45", "-0", "inf", "NaN", "0.1", "1.1754944e-38"]}
BADFLOATS = ["", "x", ".", "1.2.3", "1,5", "0x1p3", "1e", "e5", "--1", "+-1", "1 2", "1_0", "infin", "na n", "1.5f", "1e5.0", "\u0661"]
ADDRESSES = ["127.0.0.1", "::1", "2001:db8::1", "0.0.0.0", "255.255.255.255", "::", "::ffff:10.0.0.1", "::10.0.0.1", "1:2:3:4:5:6:7:8", "64:ff9b::c000:221", "1:0:0:2:0:0:0:3", "0:1:2:3:4:5:6:0",
             "fe80::1:0:0:2", "1:0:2:3:4:5:6:7", "1::", "1:2:3:4:5:6:7:0", "::ffff:0:a00:1", "::fffe:a00:1", "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255"]
BADADDRESSES = ["", "hello", "1.2.3", "2024", "1.2.3.256", "1.2.3.04", "1.2.3.4.5", "1.2.3.4 ", " ::1", ":::", "::1::", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7", "12345::", "::g", "::1.2.3", "1.2.3.4::", "::1%lo", "[::1]",
                "1:2:3:4:5:6:7:1.2.3.4", ":1", "1:", "0x7f.1", "::1/64"]
APART = ["f64", "f32", "NaiveDate", "NaiveDateTime", "DateTime", "IpAddr"]       # of which some values have many texts
CHARS = ["x", "&", "<", "\"", " ", "\u00e9", "\u65e5", "'", ">", "\n", "\t", "0", "\u00a0", "\U0001d11e", "]"]
DATES = ["2024-02-29", "1999-12-31", "0001-01-01", "2100-02-28"]
BADDATES = ["2023-02-29", "2024-13-01", "2024-00-10", "2024-04-31", "hello", "", "2100-02-29", "2024-01-00", "2024-01-32", "2024-06-31"]


def long(rng):
    """A long text, with something special somewhere."""
    n = rng.choice([7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300])
    t = [rng.choice("abc d") for _ in range(n)]
    for _ in range(rng.choice([0, 1, 1, 2, 5])): t[rng.choice([0, -1, rng.randrange(n)])] = rng.choice("&<>\"' \n\u00e9\u65e5")
    return "".join(t)


def string(rng, plain=.4):
    r = rng.random()
    return long(rng) if r < .02 else rng.choice(PLAIN) if r < .02 + plain else rng.choice(STRINGS)


def date(rng, far=False):
    """A date; also of a year that needs a sign."""
    y = rng.choice([0, 1, 400, 1582, 1900, 1970, 2000, 2023, 2024, 9999, rng.randint(0, 9999)])
    m = rng.choice([2, 12, rng.randint(1, 12)])
    year = "%04d" % y if not far or rng.random() < .9 else rng.choice(["+1%04d", "-%04d"]) % (y or 4)
    if len(year) > 4: y = int(year[1:])
    return "%s-%02d-%02d" % (year, m, rng.randint(1, 28) if rng.random() < .7 else [31, 29 if y % 400 == 0 or y % 4 == 0 and y % 100 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1])


def moment(rng, far=False):
    frac = rng.choice(["", "", ".%03d" % rng.randint(1, 999), ".%03d%03d" % (rng.randint(0, 999), rng.randint(1, 999)), ".%06d%03d" % (rng.randint(0, 999999), rng.randint(1, 999))])
    return "%sT%02d:%02d:%02d%s" % (date(rng, far), rng.randint(0, 23), rng.randint(0, 59), rng.choice([0, 59, 60, rng.randint(0, 59)]), frac)


def moments(rng, s):
    """Another text for a point in time, or nearly one."""
    t = moment(rng)
    if rng.random() < .3: t = t.split(".")[0] + "." + "".join(rng.choice("0019") for _ in range(rng.randint(1, 9)))
    if rng.random() < .3:
        i = rng.choice([i for i, c in enumerate(t) if c.isdigit()])
        t = t[:i] + rng.choice("0123456789") + t[i + 1:]
    return t + (rng.choice(["Z", "+00:00", "-00:00", "", "+01:00", "-00:30"]) if rng.random() < .5 else "+00:00" if s == "DateTime" else "")


def integer(rng, s):
    """A number of any length that fits."""
    top, least = int(max(INTS[s], key=int)), int(min(INTS[s], key=int))
    n = rng.choice([1, -1]) * rng.choice([10 ** rng.randint(0, 20) - rng.randint(0, 1), 2 ** rng.randint(0, 64) - rng.randint(0, 1), rng.randint(0, top), top - rng.randint(0, 9)])
    return str(max(least, min(top, n)))


def floating(rng, s):
    """A floating-point number as it is written."""
    import tool
    if rng.random() < .3: t = rng.choice(FLOATS[s])
    elif rng.random() < .5: t = rng.choice([repr(rng.uniform(-10, 10)), repr(rng.uniform(-1e9, 1e9)), "1e%d" % rng.randint(-20, 20), repr(rng.randint(-5, 5)), repr(rng.random() * 1e-9)])
    else:     # any bits
        n, f = (8, "<d") if s == "f64" else (4, "<f")
        t = repr(struct.unpack(f, bytes(rng.randrange(256) for _ in range(n)))[0])
    return tool.rust_float(tool.nearest(t), True) if s == "f32" else tool.rust_float(float(t), False)


def refloat(rng, t):
    """Another text for the same number, or one near it."""
    if not t[-1:].isdigit(): return rng.choice([t.upper(), t.lower(), "+" + t.lstrip("-"), t.replace("inf", "infinity"), "-" + t.lstrip("-")])
    n = rng.randint(0, 5)
    return rng.choice([" " + t + "\n", "+" + t.lstrip("-"), t + ("0" * n if "." in t else "." + "0" * n), t + "e0", t + "E+%d" % n, t + "e-%d" % n, t + rng.choice("123456789"), t.replace("0.", ".", 1), t + ("5" if "." in t else ".5"), "00" + t.lstrip("-")])


def address(rng):
    import ipaddress
    if rng.random() < .3: return show(ipaddress.ip_address(rng.choice(ADDRESSES)))
    if rng.random() < .3: return ".".join(str(rng.choice([0, 1, 10, 127, 255, rng.randint(0, 255)])) for _ in range(4))
    return show(ipaddress.IPv6Address(b"".join(rng.choice([0, 0, 0, 1, 0xffff, rng.randint(0, 65535)]).to_bytes(2, "big") for _ in range(8))))


def show(a):
    m = getattr(a, "ipv4_mapped", None)
    return "::ffff:%s" % m if m else str(a)


def readdress(rng, t):
    """Another text for an address, or nearly one."""
    import ipaddress
    if ":" not in t: return rng.choice([t.replace(".", ".0", 1), t + ".0", "0" + t, "::" + t, "::ffff:" + t, t.replace(".", ":"), t[:-1], t + "0"])
    a = ipaddress.IPv6Address(t)
    g = a.exploded.split(":")
    i = rng.randrange(8)
    return rng.choice([t.upper(), a.exploded, ":".join(x.lstrip("0") or "0" for x in g), ":".join(g[:6]) + ":%s" % ipaddress.IPv4Address(int(a) % 2 ** 32), ":".join(g[:i]) + "::" + ":".join(g[i + 1:]), ":".join(g[:i]) + "::" + ":".join(g[i:]),
                       ":".join(g[:i] + g[i + 1:]), t.replace("::", ":", 1), "0" + t, t + ":0", t[::-1], t.replace(":", ":0", 1)])


def special(s):
    """Canonical texts of values that are special."""
    import ipaddress
    import tool
    if s in INTS: return INTS[s]
    if s == "bool": return ["true", "false"]
    if s == "char": return CHARS
    if s == "NaiveDate": return DATES
    if s in ("NaiveDateTime", "DateTime"):
        return [d + "T" + t + ("+00:00" if s == "DateTime" else "") for d in DATES for t in ("00:00:00", "12:30:00", "23:59:60", "23:59:59.999999999", "00:00:00.100", "00:00:00.000001", "08:09:10.000000001")]
    if s in FLOATS: return sorted({tool.rust_float(tool.nearest(t), True) if s == "f32" else tool.rust_float(float(t), False) for t in FLOATS[s]})
    if s == "IpAddr": return [show(ipaddress.ip_address(t)) for t in ADDRESSES]
    if s == "Hand": return ["#" + t for t in STRINGS]
    if s in ("String", "CowStr", "BorrowStr", "BorrowBytes"): return STRINGS[1:]
    return []


def good(rng, s):
    """Canonical text of some value of a scalar type."""
    if s in INTS: return rng.choice(INTS[s]) if rng.random() < .5 else str(rng.randint(0, 99)) if rng.random() < .5 else integer(rng, s)
    if s == "bool": return rng.choice(["true", "false"])
    if s == "char": return rng.choice(CHARS)
    if s == "NaiveDate": return rng.choice(DATES) if rng.random() < .5 else date(rng, True)
    if s == "NaiveDateTime": return moment(rng, True)
    if s == "DateTime": return moment(rng) + "+00:00"
    if s in FLOATS: return floating(rng, s)
    if s == "IpAddr": return address(rng)
    if s == "Hand": return "#" + string(rng)
    return string(rng)


def loose(rng, s):
    """Text that denotes a value of a scalar type, not necessarily canonical."""
    t = good(rng, s)
    if s in INTS:
        if rng.random() < .3: t = rng.choice([" ", "\n", "\t ", ""]) + t + rng.choice([" ", "\r\n", ""])
        if t[:1] not in "- \n\t" and rng.random() < .15: t = "+" + t
        elif t.isdigit() and rng.random() < .15: t = "00" + t
    if s in ("DateTime", "NaiveDateTime") and rng.random() < .4: t = moments(rng, s)
    if s == "IpAddr" and rng.random() < .4: t = readdress(rng, t)
    if s in FLOATS and rng.random() < .4: t = refloat(rng, t)
    if s == "bool" and rng.random() < .4: t = {"true": "1", "false": "0"}[t]
    return t


def bad(rng, s):
    if s in INTS: return rng.choice(BADINTS)
    if s == "bool": return rng.choice(["", "True", "TRUE", " true", "yes", "2", "01", "false ", "00"])
    if s == "char": return rng.choice(["", "xy", "  ", "ab"])
    if s == "NaiveDate": return rng.choice(BADDATES)
    if s in FLOATS: return rng.choice(BADFLOATS)
    if s == "IpAddr": return rng.choice(BADADDRESSES)
    if s in APART: return rng.choice(["", "hello", "1.2.3", "2024"])
    return rng.choice(STRINGS)


class El:
    def __init__(self, ns, n, attrs=(), items=()):
        self.ns, self.n, self.attrs, self.items = ns, n, list(attrs), list(items)

    def all(self):
        yield self
        for i in self.items:
            if isinstance(i, El):
                yield from i.all()


def near(rng, n):
    """A name that is nearly the given one."""
    if not n: return "x"
    i = rng.randrange(len(n))
    out = rng.choice([n + n[-1], n + "x", n[:-1], n[1:], n[:i] + n[i:i + 1].swapcase() + n[i + 1:], n.swapcase(), n.upper(), n.lower(), n.replace("-", "_"), n.replace("_", "-"), n.replace("_", ""),
                      n[:i] + n[i:i + 2][::-1] + n[i + 2:], n[:i] + "-" + n[i:], n + ".", n + "-", "_" + n, n[::-1]])
    return out if out and re.match(r"[^\W\d][\w.\-]*$", out) else n + "y"


class Gen:
    def __init__(self, T, rng, profile=None):
        self.T, self.rng = T, rng
        self.p = dict(dict(mutate=.5, noise=.3, badtext=.05, depth=4, badref=.02, damage=0, unknown=.03, split=.15, loose=.5, limits=0,
                           cdata=.25, enc=.3, reprefix=.5, ops=None, comments=.05, decls=0, crowd=None, alike=0), **(profile or {}))

    # ---------------------------------------------------------- trees
    def text_for(self, ty):
        """Text for a scalar or scalar enum."""
        while ty["c"]: ty = ty["c"][0]
        rng = self.rng
        if ty["k"] == "ref":
            d = self.T.t[ty["s"]]
            if rng.random() < self.p["badtext"]: return rng.choice(["", "nope", "Low ", "low"])
            return rng.choice(d["variants"])["text"]
        if rng.random() < self.p["badtext"]: return bad(rng, ty["s"])
        return loose(rng, ty["s"]) if rng.random() < self.p["loose"] else good(rng, ty["s"])

    def elements(self, ty, fid, depth):
        """Elements for a field of type ty; fid is (ns, name) or None."""
        rng = self.rng
        k = ty["k"]
        if k == "opt":
            return [] if rng.random() < .4 or depth <= 0 else self.elements(ty["c"][0], fid, depth)
        if k == "vec":
            n = 0 if depth <= 0 else rng.choice([0, 1, 1, 2, 3]) if rng.random() < .98 else rng.choice([4, 7, 8, 9, 16, 17, 33])
            if n > 3: depth = min(depth, 2)
            return [e for _ in range(n) for e in self.elements(ty["c"][0], fid, depth)]
        if k == "box": return self.elements(ty["c"][0], fid, depth)
        if k == "any": return [self.noise(2)]
        if k == "sc":
            fid = fid or ("", "none")
            t = self.text_for(ty)
            return [El(fid[0], fid[1], items=[t] if t else [])]
        d = self.T.t[ty["s"]]
        if d["k"] == "senum":
            t = self.text_for(ty)
            return [El(d["ns"], fid[1] if fid else "none", items=[t] if t else [])]
        if d["k"] == "fwd":
            return self.elements(rng.choice(d["variants"])["ty"], None, depth)
        if d["k"] == "inline":
            return [e for f in d["fields"] for e in self.elements(f["ty"], (f["ns"], f["n"]), depth - 1)]
        return [self.element(ty["s"], depth)]

    def element(self, t, depth):
        d, rng = self.T.t[t], self.rng
        e = El(d["ns"], d["name"])
        for f in d["fields"]:
            if f["mode"] == "attr":
                b = f["ty"]
                if b["k"] == "opt" and rng.random() < .4: continue
                e.attrs.append((f["ns"], f["n"], self.text_for(b)))
            elif f["mode"] == "direct":
                if f["ty"]["k"] == "opt" and rng.random() < .4: continue
                t = self.text_for(f["ty"])
                if t: e.items.append(t)
            elif f["mode"] == "pos" and self.is_text(f["ty"]):
                t = self.text_for(f["ty"])
                if t: e.items.append(t)
            else:
                e.items += self.elements(f["ty"], (f["ns"], f["n"]), depth - 1)
        return e

    def is_text(self, ty):
        while ty["c"]: ty = ty["c"][0]
        return ty["k"] == "sc" or (ty["k"] == "ref" and self.T.t[ty["s"]]["k"] == "senum")

    def noise(self, depth):
        rng = self.rng
        e = El(rng.choice(["", ""] + URIS), rng.choice(["zz", "extra", "a", "v", "name", "X", "item"]))
        for i in range(rng.choice([0, 0, 1, 2])):
            e.attrs.append((rng.choice(["", "", "urn:a", "urn:b"]), "at%d" % i, rng.choice(STRINGS)))
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            if depth > 0 and rng.random() < .6: e.items.append(self.noise(depth - 1))
            else: e.items.append(rng.choice(STRINGS[1:]))
        return e

    def mutate(self, root):
        """One random change to a tree."""
        rng = self.rng
        es = list(root.all())
        e = rng.choice(es)
        kids = [i for i, x in enumerate(e.items) if isinstance(x, El)]
        texts = [i for i, x in enumerate(e.items) if isinstance(x, str)]
        op = rng.choice(self.p["ops"] or ["permute", "permute", "drop", "drop", "dup", "dup", "rename", "ns", "attrdrop", "attrdup", "attradd", "text", "addtext",
                         "noise", "noise", "swapkids", "empty", "attrns", "attrname", "move", "dupfar"])
        if op == "permute" and len(kids) > 1:
            order = kids[:]
            rng.shuffle(order)
            items = [e.items[i] for i in order]
            for k, it in zip(kids, items): e.items[k] = it
        elif op == "drop" and e.items:
            e.items.pop(rng.randrange(len(e.items)))
        elif op == "dup" and kids:
            i = rng.choice(kids)
            e.items.insert(rng.choice([i, i + 1, 0, len(e.items)]), copy.deepcopy(e.items[i]))
        elif op == "dupfar" and kids:
            e.items.append(copy.deepcopy(e.items[rng.choice(kids)]))
        elif op == "rename":
            e.n = rng.choice(["a", "b", "v", "name", "zz"] + [near(rng, e.n)] * 5)
        elif op == "ns":
            e.ns = rng.choice(["", *URIS, e.ns + "x", e.ns.upper(), e.ns + "/", e.ns[:-1], e.ns + " ", e.ns.replace(":", "")])
        elif op == "attrdrop" and e.attrs:
            e.attrs.pop(rng.randrange(len(e.attrs)))
        elif op == "attrns" and e.attrs:
            i = rng.randrange(len(e.attrs))
            e.attrs[i] = (rng.choice(["", e.ns, *URIS]), e.attrs[i][1], e.attrs[i][2])
        elif op == "attrname" and e.attrs:
            i = rng.randrange(len(e.attrs))
            e.attrs[i] = (e.attrs[i][0], rng.choice([near(rng, e.attrs[i][1])] * 3 + ["k"]), e.attrs[i][2])
        elif op == "attradd":
            e.attrs.append((rng.choice(["", "", e.ns, *URIS]), rng.choice(["k", "id", "name", "a", "zz", "v", "age", e.n]), rng.choice(STRINGS)))
        elif op == "attrdup" and e.attrs:
            a = rng.choice(e.attrs)
            e.attrs.append((rng.choice(URIS) if a[0] == "" else "", a[1], a[2]))
        elif op == "text" and texts:
            e.items[rng.choice(texts)] = rng.choice(STRINGS[1:] + BADINTS[1:])
        elif op == "addtext":
            e.items.insert(rng.randint(0, len(e.items)), rng.choice(["\n  ", "x", " "]))
        elif op == "noise":
            e.items.insert(rng.randint(0, len(e.items)), self.noise(2))
        elif op == "swapkids" and kids and len(es) > 1:
            o = rng.choice(es)
            x = e.items[rng.choice(kids)]
            if o is not e and o not in list(x.all()): o.items.append(copy.deepcopy(x))
        elif op == "empty":
            e.items = []
        elif op == "move" and kids:
            i = rng.choice(kids)
            x = e.items[i]
            e.items.pop(i)
            e.items.insert(rng.randint(0, len(e.items)), x)

    def harmless(self, root):
        """Changes that must not matter: noise elements and reordering of children with different names."""
        rng = self.rng
        for e in list(root.all()):
            if rng.random() < self.p["noise"]:
                n = self.noise(2)
                like = [x for x in e.items if isinstance(x, El)]
                if like and rng.random() < self.p["alike"]:     # looks like one of the others
                    l = rng.choice(like)
                    if rng.random() < .5: n.ns, n.n = rng.choice([u for u in ["", e.ns, *URIS] if u != l.ns]), l.n
                    else: n.ns, n.n = l.ns, near(rng, l.n)
                    if rng.random() < .5: n.items, n.attrs = copy.deepcopy(l.items), list(l.attrs)
                else: n.n = "zz" + n.n
                e.items.insert(rng.randint(0, len(e.items)), n)
            if rng.random() < self.p["noise"]:
                a = rng.choice(e.attrs) if e.attrs and rng.random() < self.p["alike"] else None
                if a: e.attrs.append((rng.choice([u for u in ["", e.ns, *URIS] if u != a[0]]), a[1], a[2]) if rng.random() < .5 else (a[0], near(rng, a[1]), a[2]))
                else: e.attrs.append((rng.choice(["", "urn:a", "urn:x"]), "zzattr", rng.choice(STRINGS)))
            if rng.random() < self.p["noise"]:
                kids = [i for i, x in enumerate(e.items) if isinstance(x, El)]
                groups = {}
                for i in kids: groups.setdefault((e.items[i].ns, e.items[i].n), []).append(e.items[i])
                keys = [k for k in groups for _ in groups[k]]
                rng.shuffle(keys)
                seq = [groups[k].pop(0) for k in keys]
                for k, it in zip(kids, seq): e.items[k] = it
            rng.random() < .5 and rng.shuffle(e.attrs)

    # ---------------------------------------------------------- tokens
    def binding(self, scope, p):
        for level in reversed(scope):
            if p in level: return level[p]
        return "" if p == "" else None

    def tokens(self, e, scope=()):
        rng, p = self.rng, self.p
        scope = list(scope)
        level = {}
        decls = []

        def declare(pref, u):
            level[pref] = u
            decls.append({"k": "decl", "p": pref, "v": u})

        # Sometimes declare things nobody asked for
        while rng.random() < p["decls"] and len(level) < 7:
            declare(rng.choice(PREF + ["l%d" % i for i in range(3)]), rng.choice(URIS))
        if rng.random() < p["reprefix"] * .4:
            declare(rng.choice(PREF), rng.choice(URIS))
        here = scope + [level]
        needed = [a for a in e.attrs if a[0] and a[0] != XMLNS]
        # name of the element
        cands = [x for x in PREF + [""] if self.binding(here, x) == e.ns]
        if cands and rng.random() > p["reprefix"] * .5 and "" in cands: ep = ""
        elif cands and rng.random() > p["reprefix"] * .5: ep = rng.choice(cands)
        elif e.ns == "":
            ep = ""
            if self.binding(here, "") != "": declare("", "")
        else:
            ep = "" if rng.random() < .5 else rng.choice([x for x in PREF if x not in level] or [""])
            if ep in level:
                ep = [x for x in PREF if x not in level][0]
            if self.binding(here, ep) != e.ns: declare(ep, e.ns)
        if ep == "" and "" not in level and self.binding(here, "") == e.ns and rng.random() < .1:
            declare("", e.ns)
        attrs, seen = [], set()
        for ns, n, v in e.attrs:
            if ns == "": ap = ""
            elif ns == XMLNS: ap = "xml"
            else:
                cands = [x for x in PREF if self.binding(here, x) == ns]
                if cands: ap = rng.choice(cands)
                else:
                    ap = rng.choice([x for x in PREF if x not in level and x != ep] or ["k9"])
                    declare(ap, ns)
            if (ns, n) in seen or (p["crowd"] and n.startswith("zz")): continue
            seen.add((ns, n))
            attrs.append({"k": "attr", "p": ap, "n": n, "v": v, "bad": False})
        if rng.random() < p["unknown"]:
            if attrs and rng.random() < .5: attrs[0]["p"] = "nope"
            else: ep = rng.choice(["nope", "q", "p"])
        if p["crowd"]:
            na, nd = p["crowd"](rng)
            for i in range(na): attrs.append({"k": "attr", "p": "", "n": "zz%d" % i, "v": "", "bad": False})
            for i in range(nd): declare("zz%d" % i, rng.choice(URIS))
            if rng.random() < .2: rng.shuffle(decls)
        # Not redeclared between an attribute and its use: re-check names
        items = attrs + decls
        rng.shuffle(items)
        empty = not e.items and rng.random() < .6
        out = [{"k": "open", "p": ep, "n": e.n, "items": items, "empty": empty}]
        if empty: return out
        for it in e.items:
            if isinstance(it, El): out += self.tokens(it, here)
            else: out += self.text(it)
            if rng.random() < p["comments"]: out.append({"k": "comment"})
        if not e.items and rng.random() < .2:
            out += rng.choice([[{"k": "comment"}], [{"k": "cdata", "v": ""}], [{"k": "comment"}, {"k": "comment"}]])
        out.append({"k": "close", "p": ep, "n": e.n})
        return out

    def text(self, t):
        """Tokens for a piece of text."""
        rng = self.rng
        if not t: return []
        if rng.random() < self.p["split"] and len(t) > 1:
            i = rng.randrange(1, len(t))
            mid = rng.choice([[{"k": "comment"}], [], [{"k": "cdata", "v": ""}]])
            return self.text(t[:i]) + mid + self.text(t[i:])
        if rng.random() < self.p["cdata"] and "]]>" not in t:
            return [{"k": "cdata", "v": t}]
        if rng.random() < self.p["badref"]:
            return [{"k": "text", "v": t, "bad": True}]
        return [{"k": "text", "v": t, "bad": False}]

    def document(self, t):
        rng = self.rng
        root = self.noise(3) if t == "any" else self.elements(self.T.ref(t), None, self.p["depth"])
        if isinstance(root, list):
            root = root[0] if root else self.noise(2)
        if rng.random() < .5: self.harmless(root)
        if rng.random() < self.p["mutate"]:
            for _ in range(rng.choice([1, 1, 2])): self.mutate(root)
        toks = self.tokens(root)
        pre, post = [], []
        if rng.random() < .1: pre.append({"k": "xmldecl"})
        if rng.random() < .1: pre.append({"k": "comment"})
        if rng.random() < .1: post.append({"k": "comment"})
        toks = pre + toks + post
        return self.damage(toks) if rng.random() < self.p["damage"] else settle(toks)

    def damage(self, toks):
        """Structural damage on tokens: truncated, doubled, dropped or foreign tokens."""
        rng = self.rng
        toks = copy.deepcopy(toks)
        i = rng.randrange(len(toks))
        op = rng.choice(["cut", "cut", "drop", "dup", "stop", "close", "open", "mismatch", "after", "swap", "xmldecl", "prefix"])
        if op == "cut": toks = toks[:i]
        elif op == "drop": toks.pop(i)
        elif op == "dup": toks.insert(i, copy.deepcopy(toks[i]))
        elif op == "stop": toks.insert(i, {"k": "stop"})
        elif op == "xmldecl": toks.insert(i + 1, {"k": "stop"})
        elif op == "close": toks.insert(i, {"k": "close", "p": "", "n": rng.choice(["a", "v", "zz"])})
        elif op == "open": toks.insert(i, {"k": "open", "p": "", "n": "zz", "items": [], "empty": False})
        elif op == "after": toks.append(rng.choice([{"k": "text", "v": "x", "bad": False}, {"k": "open", "p": "", "n": "zz", "items": [], "empty": True},
                                                    {"k": "cdata", "v": "x"}, {"k": "close", "p": "", "n": "a"}, {"k": "stop"}, {"k": "comment"}]))
        elif op == "mismatch":
            c = [t for t in toks if t["k"] == "close"]
            if c:
                t = rng.choice(c)
                t["n"] = rng.choice(["zz", near(rng, t["n"]), near(rng, t["n"])])
        elif op == "prefix":
            c = [t for t in toks if t["k"] == "close"]
            if c:
                t = rng.choice(c)
                t["p"] = rng.choice(["", "p", "q", "r", near(rng, t["p"])])
        elif op == "swap" and i + 1 < len(toks):
            toks[i], toks[i + 1] = toks[i + 1], toks[i]
        return settle(toks)


def settle(toks):
    """Make the token list say what the text it stands for says.

    Adjacent text becomes one token; whitespace around the root is nothing."""
    out, depth, seen = [], 0, False
    for t in toks:
        if t["k"] == "xmldecl" and (out or depth): t = {"k": "stop"}
        if depth == 0 and t["k"] == "text" and not t["bad"] and t["v"].strip(" \t\r\n") == "":
            continue
        if t["k"] == "open" and not t["empty"]: depth += 1
        if t["k"] == "close": depth = max(0, depth - 1)
        if out and t["k"] == "text" and out[-1]["k"] == "text":
            out[-1] = {"k": "text", "v": out[-1]["v"] + t["v"], "bad": out[-1]["bad"] or t["bad"]}
        else:
            out.append(t)
    return out


# -------------------------------------------------------------- rendering
NAMED = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}
BADREFS = ["&", "&;", "&#;", "&#x;", "&foo;", "&amp", "&#0;", "&#xD800;", "&#xFFFE;", "&#x110000;", "&#+65;", "&#x+41;", "&#-5;", "& ", "&lt", "&#65", "&nbsp;",
           "&#55296;", "&#57343;", "&#xDFFF;", "&#65534;", "&#65535;", "&#1114112;", "&#4294967361;", "&#x100000041;", "&#11;", "&#xFFFF;", "&AMP;", "&#x4G;", "&#6 5;", "&#8;", "&#x1F;"]


def esc(rng, t, p, must):
    out = []
    for i, c in enumerate(t):
        if c in must or (c == ">" and t[max(0, i - 2):i] == "]]") or c == "\r" or rng.random() < p:
            o = ord(c)
            forms = ["&#%d;" % o, "&#x%x;" % o, "&#x%X;" % o, "&#0%d;" % o if o < 9999 else "&#%d;" % o]
            if c in NAMED: forms = forms[:1] + [NAMED[c]] * 4
            out.append(rng.choice(forms))
        else:
            out.append(c)
    return "".join(out)


def render(toks, rng, enc=.1):
    """Text for a token list."""
    out = []

    def ws(must=False):
        r = rng.random()
        if must: return " " if r < .8 else rng.choice(["  ", "\n", "\t"])
        return "" if r < .85 else rng.choice([" ", "\n"])

    for t in toks:
        k = t["k"]
        if k == "open":
            s = "<" + (t["p"] + ":" if t["p"] else "") + t["n"]
            for i in t["items"]:
                s += ws(True)
                if i["k"] == "decl":
                    s += "xmlns" + (":" + i["p"] if i["p"] else "")
                    v, q = i["v"], rng.choice("\"\"'")
                else:
                    s += (i["p"] + ":" if i["p"] else "") + i["n"]
                    q = rng.choice("\"\"'")
                    v = i["raw"] if "raw" in i else esc(rng, i["v"], enc, "&<\t\n\r" + q)
                    if i["bad"] and "raw" not in i: v += rng.choice(BADREFS)
                s += ws() + "=" + ws() + q + v + q
            out.append(s + ws() + ("/>" if t["empty"] else ">"))
        elif k == "close":
            out.append("</" + (t["p"] + ":" if t["p"] else "") + t["n"] + ws() + ">")
        elif k == "text":
            if "raw" in t: out.append(t["raw"])
            else: out.append(esc(rng, t["v"], enc, "&<") + (rng.choice(BADREFS) if t["bad"] else ""))
        elif k == "cdata": out.append("<![CDATA[" + t["v"] + "]]>")
        elif k == "comment": out.append(rng.choice(["<!-- c -->", "<!---->", "<!-- <a> & b -->"]))
        elif k == "xmldecl": out.append(rng.choice(['<?xml version="1.0"?>', "<?xml version='1.0' encoding='UTF-8'?>\n"]))
        elif k == "stop": out.append(rng.choice(["<?pi data?>", "<!DOCTYPE a>", "<!x>", "<1>", "<a b>", "<a b=c/>", "</>", "<!-- -- -->"]
                                                + (["<?xml version='1.0'?>"] if out else []) + (["<a", "<", "</a", "<![CDATA[", "<!--"] if t is toks[-1] else [])))
    return "".join(out)
