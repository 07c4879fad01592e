"""Running the real code and TLC: building the harness, executing requests,
checking recorded cases against the specification, reporting."""
import ast
import fcntl
import json
import math
import os
import re
import shutil
import struct
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from decimal import ROUND_DOWN, ROUND_UP, Context, Decimal
from fractions import Fraction

import docs
import rust
import types_

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
BIN = os.path.join(HARNESS, "target", "debug", "harness")
JAVA = ["java", "-Xmx10g", "-Xss64m", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-XX:+UseParallelGC", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
CORES = os.cpu_count() or 4
LIMITS = {"a": 64, "l": 32, "d": 32}


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ harness
class Broken(Exception):
    """The code under test does not build with the generated types."""


def build(T, others=""):
    """Build the harness with the types of T; returns types that rustc refused."""
    gen = rust.Gen(T)
    ids = list(T.t)
    head = ("use std::borrow::Cow;\nuse instant_xml::{AnyElement, FromXml, ToXml};\nuse serde_json::{json, Value};\n"
            "use crate::node::{node, Node};\nuse crate::ops::{read_as, write_as};\n")
    head += "".join('pub const %s: &str = "%s";\n' % (c, u) for u, c in rust.CONST.items())
    text = head + gen.module(ids) + "\n" + gen.dispatch(ids) + others
    path = os.path.join(HARNESS, "src", "generated.rs")
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(path) or open(path).read() != text:
            open(path, "w").write(text)
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=HARNESS, capture_output=True, text=True)
        if p.returncode:
            raise Broken(p.stderr)
        # A private copy: another check may rebuild it with other types.
        mine = os.path.join(BUILD, "harness.%d" % os.getpid())
        shutil.copy2(BIN, mine)
        return mine
    finally:
        lock.close()


def _shard(binary, work, i, reqs, timeout):
    out, start = [], 0
    while start < len(reqs):
        a, b = os.path.join(work, "req%d" % i), os.path.join(work, "res%d" % i)
        with open(a, "w") as f:
            for r in reqs[start:]:
                f.write(json.dumps(r) + "\n")
        open(b, "w").close()
        try:
            p = subprocess.run([binary, a, b], capture_output=True, text=True, timeout=timeout, errors="replace")
            why = "exit %d: %s" % (p.returncode, p.stderr[-300:])
            rc = p.returncode
        except subprocess.TimeoutExpired:
            why, rc = "no answer within %d s" % timeout, -1
        lines = open(b).read().split("\n")[:-1]
        got = [json.loads(x) for x in lines]
        out += got
        start += len(got)
        if start < len(reqs):
            if rc == 0:
                raise ToolError("harness: %d of %d results; %s" % (len(got), len(reqs), why))
            out.append({"ok": False, "crash": why})
            start += 1
            if sum("crash" in r for r in out) > 20:
                out += [{"ok": False, "crash": "skipped after many crashes"}] * (len(reqs) - start)
                break
    return out


def execute(binary, reqs, work, timeout=120):
    """Results of the requests, in order."""
    os.makedirs(work, exist_ok=True)
    n = max(1, min(CORES, len(reqs) // 50 + 1))
    parts = [reqs[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda x: _shard(binary, work, x[0], x[1], timeout), enumerate(parts)))
    out = [None] * len(reqs)
    for i, part in enumerate(res):
        out[i::n] = part
    for r in out:
        if "panic" in r and "harness:" in r["panic"]:
            raise ToolError(r["panic"])
    return out


# ------------------------------------------------------------------ TLC
class Coder:
    """TLC handles ASCII strings only in all places: other characters are
    represented by control characters that the data does not use."""
    FREE = [c for c in range(1, 32) if c not in (9, 10, 13)] + [127]

    def __init__(self):
        self.to, self.back = {}, {}

    def char(self, c):
        if c not in self.to:
            if len(self.to) >= len(self.FREE):
                raise ToolError("too many different characters")
            s = chr(self.FREE[len(self.to)])
            self.to[c], self.back[s] = s, c
        return self.to[c]

    SPECIAL = re.compile("[^\x20-\x7e\t\n\r]")

    def enc(self, v):
        if isinstance(v, str):
            return self.SPECIAL.sub(lambda m: self.char(m.group()), v) if self.SPECIAL.search(v) else v
        if isinstance(v, list):
            return [self.enc(x) for x in v]
        if isinstance(v, dict):
            return {self.enc(k): self.enc(x) for k, x in v.items()}
        return v

    def dec(self, v):
        if isinstance(v, str):
            return "".join(self.back.get(c, c) for c in v)
        if isinstance(v, list):
            return [self.dec(x) for x in v]
        if isinstance(v, dict):
            return {self.dec(k): self.dec(x) for k, x in v.items()}
        return v


WHITE = [" ", "\t", "\n", "\r", "\x0b", "\x0c", "\x85", "\xa0", "\u1680", *map(chr, range(0x2000, 0x200b)), "\u2028", "\u2029", "\u202f", "\u205f", "\u3000"]


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def nearest(t):
    """The single precision number nearest to a decimal one."""
    try: x = f32(float(t))
    except OverflowError: x = math.copysign(math.inf, float(t))
    if math.isnan(float(t)) or math.isinf(float(t)) and "n" in t.lower(): return float(t)
    if len(t.lower().partition("e")[2]) > 4: return x    # far too large or small, whatever the digits
    exact = Fraction(t)

    def bits(y): return struct.unpack("<I", struct.pack("<f", y))[0]
    def far(y): return abs(exact - (Fraction(y) if not math.isinf(y) else Fraction(2) ** 128 * (1 if y > 0 else -1)))
    out = [x]
    for d in (-1, 1):
        n = bits(abs(x)) + d
        if 0 <= n <= 0x7f800000: out.append(math.copysign(struct.unpack("<f", struct.pack("<I", n))[0], x))
    return min(out, key=lambda y: (far(y), bits(y) & 1))


def rust_float(x, single):
    if math.isnan(x): return "NaN"
    if math.isinf(x): return "inf" if x > 0 else "-inf"
    # The shortest text for this number and none other, of these the nearest, and at last the larger
    back = nearest if single else float
    exact = Decimal(x)
    for p in range(1, 18):
        around = [Context(prec=p, rounding=r).create_decimal(exact) for r in (ROUND_DOWN, ROUND_UP)]
        around = [d for d in around if back(str(d)) == x]
        if around: break
    r = min(around, key=lambda d: (Context(prec=2000).abs(Context(prec=2000).subtract(d, exact)), -abs(d)))
    s = format(r, "f")
    if "." in s: s = s.rstrip("0").rstrip(".")
    return s


FLOAT = re.compile(r"[+-]?(inf|infinity|nan|([0-9]+\.?[0-9]*|\.[0-9]+)(e[+-]?[0-9]+)?)\Z", re.I | re.A)


# What chrono may take for a date or a point in time though it is none of
# the forms that certainly are: its reading is lenient.
YEAR = r"(\d{4}|\+[1-9]\d{4}|-(?!0000)\d{4})"
LAX = [re.compile(x.replace("#", r"\s*[+-]?\s*[0-9]+\s*") + r"\s*\Z") for x in
       ("#-#-#", r"#-#-#[Tt_\s]#:#:#([.,][0-9]*)?", r"#-#-#[Tt_\s]#:#:#([.,][0-9]*)?\s*([Zz]|[uU][tT][cC]|[+\u2212-]\s*[0-9]+\s*:?\s*[0-9]*)")]
STRICT = [re.compile(x.replace("#", YEAR) + r"\Z", re.A) for x in
          (r"[ \t\r\n]*#-\d\d-\d\d", r"#-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,9})?", r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,9})?(Z|[+-]\d\d:\d\d)")]
# A blank instead of the T: only what RFC 3339 describes.
BLANK = re.compile(r"\d{4}-\d\d-\d\d[ _t]\d\d:\d\d:\d\d(\.\d{1,9})?\Z", re.A)


def unsure(t):
    return any(lax.match(t) and not strict.match(t) for lax, strict in zip(LAX, STRICT)) and not BLANK.match(t)


def opaque(texts):
    """What the given texts denote as floating-point numbers."""
    table = {s: {} for s in ("f32", "f64")}
    for t in texts:
        w = t.strip("".join(WHITE))
        if FLOAT.match(w):
            table["f64"][t] = rust_float(float(w), False)
            table["f32"][t] = rust_float(nearest(w), True)
    return table


def runs(toks):
    """The texts of a document: attribute values and text between tags."""
    out, cur = [], ""
    for t in toks:
        if t["k"] in ("text", "cdata"): cur += t["v"]
        elif t["k"] != "comment":
            out.append(cur)
            cur = ""
        if t["k"] == "open":
            out += [i["v"] for i in t["items"]]
    return out + [cur]


class Tlc:
    """Statistics of all TLC runs of a check."""
    states = transitions = 0
    runs = []


def printed(out):
    """The tuples that PrintT wrote. TLC breaks long ones into lines."""
    lines = iter(out.splitlines())
    for line in lines:
        if not re.match(r'<< ?"', line): continue
        while not line.endswith(">>"):    # strings have no line breaks
            line += " " + next(lines).strip()
        yield list(ast.literal_eval("(" + line[2:-2] + ",)"))


def tlc(module, cases=(), types=None, work=None, texts=(), env=None, constants=None, workers=None, timeout=3000, config=None, args=()):
    """Run a specification; returns (records it printed, output). Records are
    <<tag, ...>> tuples with strings decoded from JSON where they are JSON."""
    work = work or os.path.join(BUILD, "tlc")
    meta = os.path.join(work, "meta-%s-%d" % (module, os.getpid()))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    coder = Coder()
    table = opaque(texts)
    consts = {"blank": None, "opaque": table, **(constants or {})}
    with open(os.path.join(meta, "types.json"), "w") as f:
        json.dump(coder.enc(types if types is not None else {"_": 0}), f)
    with open(os.path.join(meta, "cases.json"), "w") as f:
        if not cases: f.write("0\n")
        for c in cases:
            f.write(json.dumps(coder.enc(c)) + "\n")
    consts = coder.enc(consts)
    consts["blank"] = [coder.to.get(c, c) for c in WHITE if c in coder.to or c in " \t\n\r"]
    for s, tab in table.items():
        if not tab: consts["opaque"][s] = {"_": "_"}
    with open(os.path.join(meta, "constants.json"), "w") as f:
        json.dump(consts, f)
    e = dict(os.environ, TYPES=os.path.join(meta, "types.json"), CASES=os.path.join(meta, "cases.json"),
             CONSTANTS=os.path.join(meta, "constants.json"), **(env or {}))
    cmd = JAVA + ["-workers", str(workers or CORES), "-noGenerateSpecTE", "-deadlock", "-metadir", meta] + list(args) + \
        (["-config", config] if config else []) + [module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s: no answer within %d s" % (module, timeout))
    out = p.stdout
    if p.returncode != 0 or "No error has been found" not in out:
        tail = "\n".join(l for l in out.splitlines() if not l.startswith(("<<", "Parsing", "Semantic", "Linting", "Computed")))
        raise ToolError("TLC on %s (exit %d, kept in %s):\n%s" % (module, p.returncode, meta, coder.dec(tail[:200000])[-4000:]))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    st = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", "")))
    Tlc.transitions += st[0]
    Tlc.states += st[1]
    Tlc.runs.append("%s: %d distinct states, %.1f s" % (module, st[1], time.time() - t0))
    recs = []
    for t in printed(out):
        for i, x in enumerate(t):
            if isinstance(x, str) and x[:1] in ("{", "["):
                t[i] = coder.dec(json.loads(x))
            elif isinstance(x, str):
                t[i] = coder.dec(x)
        recs.append(t)
    shutil.rmtree(meta, ignore_errors=True)
    return recs, out


def plain(v):
    """TLC writes empty records as empty sequences; compare without that."""
    return v
