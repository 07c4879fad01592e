"""The context of a check: what it covers, what it finds."""
import json
import os
import random
import re
import shutil
import time

import docs
import tool
import types_
from tool import BUILD, LIMITS, ROOT, SEED, TIER, log


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.work = os.path.join(BUILD, "%s.%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.rng = random.Random("%s/%d" % (pid, SEED))
        self.quick = TIER == "quick"
        self.traces, self.samples, self.bad, self.notes = 0, [], 0, {}
        self.bin = None
        self.distinct = set()
        self.known, self.seen_known = {}, set()
        path = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                if line.startswith("known: property=%s " % pid):
                    rest = line.split(" ", 2)[2].strip()
                    key, text = rest.split(" ", 1)
                    self.known[key] = text

    def n(self, quick, thorough=None):
        """A number of cases for this tier."""
        return quick if self.quick else (thorough if thorough is not None else quick * 20)

    # ------------------------------------------------------------- types
    def types(self, nrandom=0, tag="R", salt=0):
        T = types_.corpus()
        if nrandom:
            types_.random_types(T, random.Random("types/%d/%d" % (SEED, salt)), nrandom, tag)
        return T

    def build(self, T, others=""):
        self.T = T
        try:
            self.bin = tool.build(T, others)
        except tool.Broken as e:
            # Does the crate itself build? Then types it has to accept are refused.
            import subprocess
            p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "-p", "instant-xml"], cwd=tool.HARNESS, capture_output=True, text=True)
            if p.returncode or not re.search(r"^error(?!: could not|: abort).*\n +--> src/generated\.rs", str(e), re.M):
                raise tool.ToolError("the crate does not build:\n" + (p.stderr if p.returncode else str(e))[-3000:])
            self.violation("types with documented attributes do not compile", {"rustc": str(e)[-6000:]})
            self.finish()

    def run(self, reqs, timeout=120):
        return tool.execute(self.bin, reqs, self.work, timeout)

    # ------------------------------------------------------------ results
    def violation(self, what, data, key=None):
        if key is not None and key in self.known:
            if key in self.seen_known: return
            self.seen_known.add(key)
            log("KNOWN-FINDING: property=%s %s %s" % (self.pid, key, self.known[key]))
            return
        self.bad += 1
        if self.bad > 5:
            return
        d = os.path.join(BUILD, "violations")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, self.bad))
        json.dump({"property": self.pid, "what": what, "seed": SEED, **data}, open(path, "w"), indent=1, default=str)
        log("%s: %s" % (self.pid, what))
        for k, v in data.items():
            s = v if isinstance(v, str) else json.dumps(v, default=str, ensure_ascii=True)
            log("    %s: %s" % (k, s[:2000]))
        log("VIOLATION property=%s replay=%s" % (self.pid, path))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def finish(self, assumptions=(), **coverage):
        cov = {"states": tool.Tlc.states, "transitions": tool.Tlc.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["(none)"],
               "tlc_runs": tool.Tlc.runs, **self.notes, **coverage}
        if self.level != "model_checking":
            cov.setdefault("evaluations", self.traces)
            cov.setdefault("distinct_nontrivial", len(self.distinct))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump({"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
                   "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": self.bad},
                  open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.bin:
            os.unlink(self.bin)
        log("%s: %d traces of the real code against the specification, %d TLC states, %d violations, %.1f s" % (
            self.pid, self.traces, tool.Tlc.states, self.bad, time.time() - self.t0))
        raise SystemExit(1 if self.bad else 0)


# ---------------------------------------------------------------- reading
def make_docs(ck, roots, n, profile, limits=None):
    """Random documents as cases."""
    rng = ck.rng
    G = docs.Gen(ck.T, rng, profile)
    out = []
    for _ in range(n):
        t = rng.choice(roots)
        toks = G.document(t)
        c = {"t": t, "toks": toks, "xml": docs.render(toks, rng, G.p["enc"] * rng.random())}
        if limits: c["lim"] = limits(rng)
        out.append(c)
    return out


def check_reads(ck, cases, what="reading differs from the specification", key=None):
    """Cases {t, toks, xml, lim?}: real outcome against the reader machine."""
    texts = set()
    has_opaque = {t: t != "any" and any(x["k"] == "sc" and x["s"] in docs.APART for x in ck.T.nodes(t)) for t in {c["t"] for c in cases}}
    for c in cases:
        if has_opaque[c["t"]]:
            r = tool.runs(c["toks"])
            texts.update(r)
            if any(map(tool.unsure, r)): c["skip"] = True
    cases = [c for c in cases if not c.get("skip")]
    reqs = [{"op": "read", "t": c["t"], "xml": c["xml"], **({"lim": c["lim"]} if "lim" in c else {})} for c in cases]
    res = ck.run(reqs)
    recs = []
    for c, r in zip(cases, res):
        for w in ("panic", "crash"):
            if w in r:
                ck.violation("reading does not return: " + w, {"type": c["t"], "xml": c["xml"], "result": r})
        recs.append({"ty": ck.T.ref(c["t"]), "lim": c.get("lim", LIMITS), "toks": c["toks"], "ok": r["ok"], "val": r.get("val", 0)})
    out, _ = ([], "") if not recs else tool.tlc("ReadCheck", recs, ck.T.spec(), ck.work, texts)
    for m in out:
        if m[0] != "MISMATCH": continue
        c, r = cases[m[1] - 1], res[m[1] - 1]
        if "panic" in r or "crash" in r: continue
        ck.violation(what, {"type": c["t"], "xml": c["xml"], "limits": c.get("lim"), "got": r, "expected": m[2], "tokens": c["toks"]}, key)
    ck.traces += len(cases)
    ok = sum(r["ok"] for r in res)
    ck.notes["accepted"] = ck.notes.get("accepted", 0) + ok
    ck.notes["refused"] = ck.notes.get("refused", 0) + len(res) - ok
    for c, r in list(zip(cases, res))[:400:199]:
        ck.sample({"type": c["t"], "xml": c["xml"][:400], "accepted": r["ok"]})
    return res


# ---------------------------------------------------------------- writing
def make_values(ck, roots, n, **profile):
    import values
    G = values.Values(ck.T, ck.rng, **profile)
    return [{"t": t, "val": G.value(ck.T.ref(t))} for t in (ck.rng.choice(roots) for _ in range(n))]


def check_writes(ck, cases, aspects, readback=False, key=None):
    """Values {t, val}: real output against the specification. aspects: the
    ones this check decides. readback: also read the output with the code."""
    import values
    reqs = [{"op": "write", "t": c["t"], "val": c["val"], "rt": readback} for c in cases]
    res = ck.run(reqs)
    recs, index, forbidden, txt = [], [], set(), set()
    for i, (c, r) in enumerate(zip(cases, res)):
        what = {"type": c["t"], "value": c["val"], "result": r}
        if "panic" in r or "crash" in r:
            ck.violation("writing does not return", what)
            continue
        if r["ok"] and not r["back"]:
            raise tool.ToolError("harness: value not taken as given: %r" % what)
        toks = []
        if r["ok"]:
            try:
                toks = values.lex(r["out"])
                if "wf" in aspects: expat(r["out"])
            except values.Malformed as e:
                ck.violation("output is not well-formed: %s" % e, what, key)
                continue
            for t in tool.runs(toks): txt.add(t)
        for t in values.texts(c["val"]):
            txt.add(t)
            if not all(map(values.xml_char, t)): forbidden.add(t)
        recs.append({"ty": ck.T.ref(c["t"]), "val": c["val"], "ok": r["ok"], "toks": toks, "rt": "back" in aspects and not ck.T.writeonly(c["t"])})
        index.append(i)
        if readback and r["ok"]:
            if r["read"] != {"ok": True, "val": c["val"]} and not ck.T.writeonly(c["t"]):
                ck.violation("reading back gives another value", what, key)
    out, _ = ([], "") if not recs else tool.tlc("WriteCheck", recs, ck.T.spec(), ck.work, txt, constants={"forbidden": sorted(forbidden) or ["\x01none"]})
    for m in out:
        if m[0] != "MISMATCH": continue
        hit = set(m[2]["aspects"]) & set(aspects)
        if hit:
            i = index[m[1] - 1]
            ck.violation("output differs from the specification: %s" % ", ".join(sorted(hit)),
                         {"type": cases[i]["t"], "value": cases[i]["val"], "result": res[i], "at token": m[2]["pos"], "intended": m[2]["events"]}, key)
        else:
            ck.notes["other_aspects"] = ck.notes.get("other_aspects", 0) + 1
    ck.traces += len(recs)
    ok = sum(r["ok"] for r in res)
    ck.notes["written"] = ck.notes.get("written", 0) + ok
    ck.notes["refused"] = ck.notes.get("refused", 0) + len(res) - ok
    for c, r in list(zip(cases, res))[:400:199]:
        ck.sample({"type": c["t"], "output": r.get("out", r.get("err", ""))[:400]})
    return res


def expat(xml):
    """A second opinion on well-formedness, namespaces included."""
    import values
    import xml.parsers.expat as ex
    p = ex.ParserCreate(encoding="UTF-8", namespace_separator=" ")
    try:
        p.Parse(xml.encode("utf-8"), True)
    except ex.ExpatError as e:
        raise values.Malformed("expat: %s" % e)
