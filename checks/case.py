"""C16, C17: case mappings and case conversion of texts (spec/Case*.tla)."""
import json

import norm
import seg
import ucd
import utf

SETS = "CaseRow <- CaseRowOf\nGc <- GcOf\nWb <- WbOf\nWordLengths <- WordLensOf\n"
CONST = "CONSTANTS " + SETS


def data(c):
    rows = {}

    def row(cp):
        return rows.setdefault(cp, {"c": cp, "u": -1, "l": -1, "t": -1, "su": [], "sl": [], "st": [], "fc": [], "fs": [], "ff": []})
    for cp, p in ucd.unicode_data().items():
        for i, k in ((12, "u"), (13, "l"), (14, "t")):
            if p[i]:
                row(cp)[k] = int(p[i], 16)
    for p in ucd._lines("SpecialCasing.txt"):
        p = [x for x in p]
        if len(p) >= 5 and p[4]:
            continue        # conditional
        r = row(int(p[0], 16))
        r["sl"], r["st"], r["su"] = ucd.cps(p[1]), ucd.cps(p[2]), ucd.cps(p[3])
    for p in ucd._lines("CaseFolding.txt"):
        if p[1] in "CSF":
            row(int(p[0], 16))["f" + p[1].lower()] = ucd.cps(p[2])
    maps = [rows[k] for k in sorted(rows)]
    one = lambda r, d: [(lo, hi, v[0]) for lo, hi, v in ucd.cells([ucd.Prop(r, d)])]
    d = {"maps": maps, "index": one([(m["c"], m["c"], i + 1) for i, m in enumerate(maps)], 0), "gc": one(ucd.gc_short(), "Cn"),
         "derived": {k: ucd.core(v) for k, v in (("Cased", "Cased"), ("CI", "Case_Ignorable"), ("CWU", "Changes_When_Uppercased"),
                                                 ("CWL", "Changes_When_Lowercased"), ("CWCF", "Changes_When_Casefolded"))}}
    f = c.path("case.json")
    json.dump(d, open(f, "w"))
    seg_txt, env, _ = seg.prepare(c, "Word")
    return d, dict(env, CASE=f), seg_txt


def start(c):
    c.build(["case"])
    d, env, seg_txt = data(c)
    nd, nenv = norm.data(c)
    c.table("mapping tables; the specification against the derived properties", "CaseGen",
            dict(env, **nenv, OUT=c.path("cgen.json")), cfg=CONST + norm.SETS)
    t = json.load(open(c.path("cgen.json")))
    out = [len(t["maps"])]
    for m in t["maps"]:
        out += m
    out.append(len(t["cased"]))
    for r in t["cased"]:
        out += r[:2]
    p = c.path("case.txt")
    open(p, "w").write("\n".join(map(str, out)))
    return [p, seg_txt, utf.table(c)], env


ALPHA = [0x61, 0x42, 0xDF, 0x130, 0x131, 0x149, 0x1C5, 0x1F88, 0xFB03, 0x3A3, 0x345, 0x24D0, 0x27, 0x20, 0x33, 0x301, 0x10D0, 0x2B0]
CFG = "INIT Init\nNEXT Next\n" + CONST + "INVARIANT Conform\n"


def model(c, inv, alpha, n, env):
    c.model("case conversion of all texts over %d code points up to length %d, and of every mapped code point: %s" % (len(alpha), n, inv),
            "CaseModel", "INIT Init\nNEXT Next\n%sAlphabet = {%s}\nMaxLen = %d\nINVARIANTS %s\n" % (CONST, ",".join(map(str, alpha)), n, inv), env)


def c16(c):
    tabs, env = start(c)
    model(c, "Points", ALPHA[:1], 1, env)
    f = c.path("p.ndjson")
    c.run("case", ["points"] + tabs + [f])
    c.validate("mappings and predicates of all code points", "CaseTrace", CFG, f, env)


def c17(c):
    tabs, env = start(c)
    model(c, "Machine Idempotent SameFold Total", ALPHA, c.pick(3, 4), env)
    c.run("case", ["replay"] + tabs + [c.seed, c.pick(150000, 4000000)])
    f = c.path("t.ndjson")
    c.run("case", ["record"] + tabs + [c.seed, c.pick(5000, 50000), f])
    c.sample(open(f).readline()[:300])
    c.validate("recorded conversions and comparisons", "CaseTrace", CFG, f, env)


CHECKS = {"C16": ("model_checking", c16), "C17": ("model_checking", c17)}
