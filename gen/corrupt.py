"""Do the checks notice? `run.py corrupt C02` runs a check on answers of the
real code of which each has been changed in one place, and lists those that
the specification accepts all the same (they have to mean the same)."""
import copy
import json
import random

import tool

rng = random.Random(tool.SEED)
MODULES = {}


def of(module):
    def deco(f): MODULES[module] = f
    return deco


def string(s, others=()):
    r = rng.random()
    if r < .4 and others: return rng.choice(others)
    if r < .7 or not s: return s + rng.choice("x 0")
    i = rng.randrange(len(s))
    return s[:i] + s[i + 1:]


def tokens(toks):
    """One token, attribute or declaration dropped, doubled, moved or changed."""
    t = copy.deepcopy(toks)
    for _ in range(20):
        at = [t] + [x["items"] for x in t if x["k"] == "open" and x["items"]]
        l = t if rng.random() < .5 else rng.choice(at)
        i, op = rng.randrange(len(l)), rng.random()
        x = l[i]
        if op < .15: return t[:0] + (l.pop(i) and t), "without %r" % x
        if op < .25: l.insert(i, copy.deepcopy(x)); return t, "twice %r" % x
        if op < .35 and i + 1 < len(l):
            if l[i] == l[i + 1] or "decl" in (l[i]["k"], l[i + 1]["k"]): continue    # order does not matter
            l[i], l[i + 1] = l[i + 1], l[i]
            return t, "moved %r %r" % (x, l[i])
        keys = [k for k in x if k != "k" and isinstance(x[k], str)]
        if not keys: continue
        k = rng.choice(keys)
        old = x[k]
        x[k] = string(old, [y[k] for y in l if isinstance(y.get(k), str) and y[k] != old])
        if x[k] != old: return t, "%s %s %r for %r" % (x["k"], k, x[k], old)
    return None, None


def value(v):
    """A tree of nodes with k, s and c."""
    v = copy.deepcopy(v)
    nodes = []

    def walk(x):
        if isinstance(x, dict) and "c" in x:
            nodes.append(x)
            for y in x["c"]: walk(y)
        elif isinstance(x, dict):
            for y in x.values(): walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    walk(v)
    if not nodes: return None, None
    for _ in range(20):
        n, op = rng.choice(nodes), rng.random()
        if op < .5 and n["s"] or n["k"] in ("s", "e", "f"):
            old, n["s"] = n["s"], string(n["s"])
            return v, "%s %r for %r" % (n["k"], n["s"], old)
        if op < .7 and n["c"] and n["k"] in "ovf": return v, "without %r" % n["c"].pop()
        if op < .8 and n["c"] and n["k"] == "v": n["c"].append(n["c"][0]); return v, "an item twice"
        if len(n["c"]) > 1 and n["c"][0] != n["c"][-1]:
            n["c"][0], n["c"][-1] = n["c"][-1], n["c"][0]
            return v, "exchanged %r" % n["c"]
    return None, None


@of("WriteCheck")
def _(c):
    if not c["ok"] or rng.random() < .05: return {**c, "ok": not c["ok"]}, "refused" if c["ok"] else "accepted"
    t, what = tokens(c["toks"])
    return t and {**c, "toks": t}, what


@of("CallCheck")
def _(c):
    if c["rep"] and rng.random() < .3:
        c = copy.deepcopy(c)
        r = rng.choice(c["rep"])
        k = rng.choice(["ok", "wrote", "def", "pre"] if not r["ok"] else ["ok", "def", "pre"])
        if k == "def": r[k] = string(r[k])
        elif k == "pre":
            if not r[k]: return None, None
            x = rng.choice(r[k])
            x[1] = ["zz"] if not x[1] else []
        else: r[k] = not r[k]
        return c, "%s of %r" % (k, r)
    if not c["toks"]: return None, None
    t, what = tokens(c["toks"])
    return t and {**c, "toks": t}, what


@of("ReadCheck")
def _(c):
    if not c["ok"]: return {**c, "ok": True, "val": {"k": "r", "s": "", "c": []}}, "accepted"
    if rng.random() < .2: return {**c, "ok": False, "val": 0}, "refused"
    v, what = value(c["val"])
    return v and {**c, "val": v}, what


@of("CodecCheck")
def _(c):
    c = copy.deepcopy(c)
    if "runs" in c:
        r = rng.choice(c["runs"])
        r[2] = rng.choice([x for x in ({"refused", "right"} if c["k"] == "refs" else {"raw", "none", "refused"}) if x != r[2]])
        return c, "%r" % r
    if rng.random() < .1 or not c["ok"]: c["ok"] = not c["ok"]; return c, "ok %r" % c["ok"]
    o, op = c["out"], rng.random()
    if not o or op < .4: o.insert(rng.randint(0, len(o)), rng.choice([60, 38, 59, 34, 120, 32]))
    elif op < .7: o.pop(rng.randrange(len(o)))
    else: o[rng.randrange(len(o))] ^= 1
    return c, "output %r" % o


@of("CursorCheck")
def _(c):
    c = copy.deepcopy(c)
    if not c["rep"]: return None, None
    x, op = rng.choice(c["rep"]), rng.random()
    old = copy.deepcopy(x)
    if op < .3 and x["ns"]:
        n = rng.choice(x["ns"])
        n[1] = [] if n[1] else ["zz"]
    elif op < .5 and x["parent"]: x["parent"][-1] = string(x["parent"][-1]) if isinstance(x["parent"][-1], str) else x["parent"][-1]
    elif len(x["res"]) > 1 and isinstance(x["res"][1], str): x["res"][1] = string(x["res"][1])
    else: x["res"] = ["none"] if x["res"] != ["none"] else ["err"]
    return x != old and c, "%r was %r" % (x, old)


@of("Sink")
def _(c):
    c = copy.deepcopy(c)
    op = rng.random()
    if op < .2: c["ok"] = not c["ok"]
    elif op < .4 and not c["ok"]: c["kind"] += "x"
    elif c["log"]:
        i = rng.randrange(len(c["log"]))
        if op < .7: c["log"].pop(i)
        else: c["log"].insert(i, c["log"][i])
    return c, "log, ok or kind"


def install():
    run = tool.tlc

    def tlc(module, cases=(), *args, **kw):
        if module not in MODULES: return run(module, cases, *args, **kw)
        bad, whats = [], []
        for c in cases:
            d, what = MODULES[module](c)
            if d: bad.append(d); whats.append(what)
        out, text = run(module, bad, *args, **kw)
        seen = {m[1] for m in out if m[0] == "MISMATCH"}
        left = [i for i in range(len(bad)) if i + 1 not in seen]
        print("%s: %d changed answers, %d of them accepted" % (module, len(bad), len(left)))
        for i in rng.sample(left, min(8, len(left))):
            print("   ", whats[i][:400], "\n       in", json.dumps(bad[i])[:600])
        return [], text
    tool.tlc = tlc
