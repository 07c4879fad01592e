"""Damaged documents: what any input has to be answered with."""
import codec
import values

CHARS = list("<<>>/&&;;#\"'= \n!-[]?:ax1") + ["\u00e9", "\u65e5", "\U0001d11e", "\x00", "\ufffe"]
CHUNKS = ["&aaaaaaa\u00e9;", "&\u00e9\u00e9\u00e9\u00e9;", "&#xZ;", "&#+65;", "&#x+41;", "&#99999999;", "&#x0000041;", "&amp", "&;", "<!--", "-->", "<![CDATA[", "]]>", "<a/>", "</a>", "<a>", "<?pi?>",
          "<!DOCTYPE a>", "<?xml version='1.0'?>", " xmlns=''", " xmlns:p='urn:a'", " xmlns:p=''", " p:k='v'", " k='v' k='v'", " xml:lang='de'", "<p:a xmlns:p='urn:b'/>", ":", "<:a/>", "</:a>",
          "&#55296;", "&#56320;", "&#57343;", "&#xd83d;", "&#xDE00;", "&#xdfff;", "&#1114111;", "&#1114112;", "&#x10FFFF;", "&#x110000;", "&#65533;", "&#65534;", "&#0;", "&#-1;", "&#4294967361;", "&#00065;",
          "\ufeff", "&\U0001d11e\U0001d11e;", "&aaaaaa\u65e5b;", "&lt;&gt;&quot;&apos;", "\u2028", "\t\t"]


def damage(rng, s):
    n = len(s)
    i, j = rng.randrange(n + 1), rng.randrange(n + 1)
    k = min(n, i + rng.choice([1, 1, 1, 2, 3, 8, 20]))
    op = rng.randrange(8)
    if op == 0: return s[:i] + s[k:]                       # removed
    if op == 1: return s[:i] + rng.choice(CHARS) + s[i:]   # inserted
    if op == 2: return s[:i] + rng.choice(CHUNKS) + s[i:]
    if op == 3: return s[:k] + s[i:k] + s[k:]              # duplicated
    if op == 4: return s[:i] + rng.choice(CHARS) + s[i + 1:]
    if op == 5: return s[:i]                               # cut short
    if op == 6:                                            # exchanged
        t = list(s)
        if n: t[min(i, n - 1)], t[min(j, n - 1)] = t[min(j, n - 1)], t[min(i, n - 1)]
        return "".join(t)
    return s[:j] + s[i:k] + s[j:]                          # copied elsewhere


def garbage(rng):
    return "".join(rng.choice(CHARS if rng.random() < .6 else CHUNKS) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13, 40])))


def text(raw):
    """(value, malformed, undetermined) of raw text."""
    long = any(len(p.split(";")[0].encode()) > 8 for p in raw.split("&")[1:])
    out, i = [], 0
    while True:
        j = raw.find("&", i)
        if j < 0: return "".join(out) + raw[i:], False, long
        e = raw.find(";", j)
        if e < 0: return raw, True, long
        name = raw[j + 1:e]
        out.append(raw[i:j])
        n = None
        if name in values.REFS: out.append(values.REFS[name])
        else:
            if name[:1] == "#":
                digits = name[2:] if name[1:2] in ("x", "X") else name[1:]
                base = 16 if name[1:2] in ("x", "X") else 10
                if digits and all(c in "0123456789abcdefABCDEF"[:10 if base == 10 else 22] for c in digits): n = int(digits, base)
            if n is None or n > 0x10ffff or not values.xml_char(chr(n)): return raw, True, long
            out.append(chr(n))
        i = e + 1


def convert(toks):
    """Tokens of the specification; None if what is to be read is not determined."""
    out, start, sure = [], None, True

    def val(raw):
        nonlocal sure
        v, bad, long = text(raw)
        if long and not bad: sure = False
        return v, bad

    for t in toks:
        k = t[0]
        if k == "start": start = {"k": "open", "p": t[1], "n": t[2], "items": [], "empty": False}
        elif k == "attr":
            if t[1] == "xmlns" or (t[1] == "" and t[2] == "xmlns"):
                start["items"].append({"k": "decl", "p": t[2] if t[1] else "", "v": t[3]})
            else:
                v, bad = val(t[3])
                start["items"].append({"k": "attr", "p": t[1], "n": t[2], "v": v, "bad": bad})
        elif k in ("open", "empty"):
            start["empty"] = k == "empty"
            out.append(start)
            start = None
        elif k == "close": out.append({"k": "close", "p": t[1], "n": t[2]})
        elif k == "text":
            v, bad = val(t[1])
            out.append({"k": "text", "v": v, "bad": bad})
        elif k == "cdata": out.append({"k": "cdata", "v": t[1]})
        else: out.append({"k": k})
    if start is not None: out.append({"k": "stop"})
    return out if sure else None


def special(xs, used, limit=26):
    """Whether the texts fit in the characters that a TLC run can represent."""
    new = {c for x in xs for c in x if not (" " <= c <= "~" or c in "\t\n\r")}
    if len(used | new) > limit: return False
    used |= new
    return True


def strings(toks):
    for t in toks:
        for x in [t] + t.get("items", []):
            yield from (x[k] for k in ("p", "n", "v") if k in x)
