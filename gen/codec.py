"""Character data: all short texts, sweeps over all characters, random texts."""
import tool

NAMES = ["amp", "lt", "gt", "quot", "apos"]
SPICE = ["&", ";", "#", "x", "X", "a", "m", "p", "l", "t", "g", "q", "u", "o", "s", "0", "1", "9", "A", "F", "f", " ", "\n", "\t", "\r", "\u00e9", "\u65e5",
         "\U0001d11e", "]", ">", "'", "\"", "-", "+", "_", "%", "\u0661", "\ufffd", "\ue000", "\ud7ff"]
EDGES = [0, 1, 8, 9, 10, 11, 12, 13, 14, 31, 32, 38, 60, 65, 127, 128, 255, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff,
         0x110000, 0x1ffff, 0xffffff, 9999999]


def cps(s):
    return [ord(c) for c in s]


def text(c):
    return "".join(map(chr, c))


def reference(rng):
    r = rng.random()
    if r < .35: return rng.choice(NAMES)
    n = rng.choice(EDGES) if rng.random() < .5 else rng.randint(0, 0x110000) if rng.random() < .5 else rng.randint(32, 1000)
    zeros = "0" * rng.choice([0, 0, 0, 1, 2, 5])
    if r < .65: return "#" + zeros + str(n)
    return rng.choice(["#x", "#x", "#x", "#X"]) + zeros + ("%x" % n if rng.random() < .5 else "%X" % n)


def damaged(rng, s):
    """One edit."""
    i, op = rng.randrange(len(s) + 1), rng.random()
    if op < .4: return s[:i] + rng.choice(SPICE) + s[i:]
    if op < .7: return s[:i] + s[i + 1:]
    if op < .9: return s[:i] + rng.choice(SPICE) + s[i + 1:]
    return s[:i] + s[i:i + 2][::-1] + s[i + 2:]


def raw(rng):
    """Raw text with references, some of them damaged."""
    out = ""
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        r = rng.random()
        if r < .5: out += "&" + reference(rng) + ";"
        elif r < .8: out += "".join(rng.choice(SPICE[3:]) for _ in range(rng.choice([1, 1, 2, 3, 8])))
        else: out += damaged(rng, "&" + reference(rng) + ";")
    return out.replace("<", "")


def plain(rng, bad=0):
    """A value to be written."""
    alpha = SPICE + ["<", "&", "]]>", "\"", "'", "<!--", "&amp;", "&#60;"]
    s = "".join(rng.choice(alpha) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9, 30])))
    if rng.random() < bad:
        i = rng.randrange(len(s) + 1)
        s = s[:i] + rng.choice(["\x00", "\x01", "\x08", "\x0b", "\x0c", "\x0e", "\x1f", "\ufffe", "\uffff"]) + s[i:]
    return s


def padded(rng, s):
    """A text between others, to lengths around powers of two."""
    if rng.random() < .6: s = "".join(rng.choice(["]", "]]", "]]]", ">", "]]>", "&", "<", "'", "\"", "a", "&gt;", ";"]) for _ in range(rng.choice([1, 2, 2, 3, 4])))
    n = max(0, rng.choice([4, 8, 16, 32, 64, 128]) + rng.choice([-1, 0, 1, 2, 3]) - len(s))
    i = rng.choice([0, n, rng.randint(0, n)])
    c = rng.choice(["x", "x", "]", " ", "\u00e9", "]x"])
    return (c * i)[:i] + s + (c * n)[:n - i]


def xmlish(s):
    """Whether the text can stand in a document at all."""
    import values
    return all(map(values.xml_char, s)) and "<" not in s


def decoded(ck, inputs, expect=None, cdata=False):
    """Replays raw texts. inputs: texts; expect: their outcomes by TLC, or
    None to have TLC decide the recorded answers."""
    res = ck.run([{"op": "decode", "s": s, "cdata": cdata} for s in inputs])
    recs, index = [], []
    for i, (s, r) in enumerate(zip(inputs, res)):
        if "panic" in r or "crash" in r:
            ck.violation("reading does not return", {"text": s, "result": r})
            continue
        if (cdata or "&" not in s) and not r["borrowed"]:
            ck.violation("a value without references is not borrowed from the input", {"text": s})
        for ok, out, at in r["r"]:
            if expect is None:
                recs.append({"k": "cdata" if cdata else "dec", "s": cps(s), "ok": ok, "out": out})
                index.append((i, at))
                continue
            kind, want = expect[i]
            if (ok and (kind == "fail" or out != want)) or (not ok and kind == "ok"):
                ck.violation("a text is not read as the specification says", {"text": s, "where": at, "got": text(out) if ok else "an error",
                                                                           "expected": "an error" if kind == "fail" else text(want)})
    if recs:
        out, _ = tool.tlc("CodecCheck", recs, work=ck.work) if recs else ([], "")
        for m in out:
            if m[0] == "MISMATCH":
                i, at = index[m[1] - 1]
                ck.violation("a text is not read as the specification says", {"text": inputs[i], "where": at, "got": recs[m[1] - 1], "machine": m[2]})
    ck.traces += len(inputs)
    for s in inputs[:200:99]: ck.sample({"raw text": s})


def enumerated(ck, alphabet, length, start=""):
    """All texts over an alphabet, by TLC."""
    out, _ = tool.tlc("CodecGen", work=ck.work, constants={"alphabet": cps(alphabet), "max": length, "start": cps(start)})
    inputs, expect = [], []
    for m in out:
        if m[0] != "D": continue
        inputs.append(text(m[1]))
        expect.append((m[2], m[3]))
    return inputs, expect


def encoded(ck, inputs):
    """Written texts, decided by TLC."""
    res = ck.run([{"op": "encode", "s": s} for s in inputs])
    recs, index = [], []
    for i, (s, r) in enumerate(zip(inputs, res)):
        if "panic" in r or "crash" in r:
            ck.violation("writing does not return", {"value": s, "result": r})
            continue
        for where in ("text", "attr"):
            for ok, out, at in r[where]:
                recs.append({"k": "enc", "s": cps(s), "where": where, "ok": ok, "out": out})
                index.append((i, at))
    out, _ = tool.tlc("CodecCheck", recs, work=ck.work) if recs else ([], "")
    for m in out:
        if m[0] == "MISMATCH":
            i, at = index[m[1] - 1]
            x = recs[m[1] - 1]
            ck.violation("a value is not written so that it reads back", {"value": inputs[i], "where": at, "written": text(x["out"]) if x["ok"] else "refused"})
    ck.traces += len(inputs)
    for s in inputs[:200:99]: ck.sample({"value": s})


def ranges(last, n):
    step = last // n + 1
    return [(a, min(a + step - 1, last)) for a in range(0, last + 1, step)]


def sweep(ck, op, last, variants):
    """All characters, one by one."""
    reqs, recs, index = [], [], []
    for v in variants:
        reqs += [{"op": op, "from": a, "to": b, **v} for a, b in ranges(last, 400)]
    for q, r in zip(reqs, ck.run(reqs, 600)):
        if "panic" in r or "crash" in r:
            ck.violation("does not return", {"request": q, "result": r})
            continue
        where = "attr" if q.get("attr") else "text"
        recs.append({"k": op, "runs": r["runs"], "where": where})
        index.append(q)
        for c, ok, out in r.get("others", []):
            recs.append({"k": "enc", "s": [c], "where": where, "ok": ok, "out": out})
            index.append({**q, "char": "U+%04X" % c})
        n = sum(b - a + 1 for a, b, _ in r["runs"])
        ck.traces += n
    out, _ = tool.tlc("CodecCheck", recs, work=ck.work) if recs else ([], "")
    for m in out:
        if m[0] == "MISMATCH":
            ck.violation("a character is treated wrongly", {"sweep": index[m[1] - 1], "recorded": recs[m[1] - 1] if len(recs[m[1] - 1].get("runs", [])) < 50 else "",
                                                            "wrong": m[2]})
