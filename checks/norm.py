"""C13-C15, C24: normalization (spec/Norm*.tla)."""
import bz2, json, os

import ucd

SETS = "Ccc <- CccOf\nDm <- DmOf\nCanon <- CanonOf\nPrimary <- PrimaryOf\nSecond <- SecondOf\n"
CONST = "CONSTANTS " + SETS


def data(c):
    ud = ucd.unicode_data()
    maps, dm, ccc = [], [], []
    for cp in sorted(ud):
        p = ud[cp]
        if p[3] != "0":
            ccc.append((cp, cp, int(p[3])))
        if p[5]:
            t, _, rest = p[5].rpartition("> ") if p[5].startswith("<") else ("canonical", "", p[5])
            maps.append({"c": cp, "t": t.strip("<> "), "m": ucd.cps(rest)})
            dm.append((cp, cp, len(maps)))
    rows = lambda r: [(lo, hi, v[0]) for lo, hi, v in ucd.cells([ucd.Prop(r, 0)])]
    raw = {"excl": []}
    for f in ("NFC", "NFD", "NFKC", "NFKD"):
        raw[f + "_no"], raw[f + "_maybe"] = [], []
    for p in ucd._lines("DerivedNormalizationProps.txt"):
        r = list(ucd._rng(p[0]))
        if p[1] == "Full_Composition_Exclusion":
            raw["excl"].append(r)
        elif p[1].endswith("_QC") and p[2] in "NM":
            raw[p[1][:-3] + ("_no" if p[2] == "N" else "_maybe")].append(r)
    d = {"ccc": rows(ccc), "dm": rows(dm), "maps": maps, "raw": raw,
         "excl": [x for p in ucd._lines("CompositionExclusions.txt") for x in range(ucd._rng(p[0])[0], ucd._rng(p[0])[1] + 1)]}
    f = c.path("norm.json")
    json.dump(d, open(f, "w"))
    return d, {"NORM": f}


def official():
    """Rows of NormalizationTest.txt (used as inputs, and to test the specification itself)."""
    out = []
    for line in bz2.open(os.path.join(ucd.DIR, "NormalizationTest.txt.bz2"), "rt", encoding="utf-8"):
        line = line.split("#")[0].strip()
        if line and not line.startswith("@"):
            out.append([ucd.cps(x) for x in line.split(";")[:5]])
    return out


def prepare(c):
    d, env = data(c)
    tests = official()
    c.rng.shuffle(tests)
    json.dump(tests[:c.pick(1500, len(tests))], open(c.path("ntest.json"), "w"))
    c.table("normalization tables, derived properties, official tests of the specification", "NormGen",
            dict(env, NTEST=c.path("ntest.json"), OUT=c.path("ngen.json")), cfg=CONST)
    t = json.load(open(c.path("ngen.json")))
    out = [len(d["ccc"])]
    for r in d["ccc"]:
        out += r
    out.append(len(d["maps"]))
    for m, a, b in zip(d["maps"], t["canon"], t["compat"]):
        out += [m["c"], len(a)] + a + [len(b)] + b
    out.append(len(t["pairs"]))
    for p in t["pairs"]:
        out += p
    out.append(len(t["maybe"]))
    out += t["maybe"]
    p = c.path("norm.txt")
    open(p, "w").write("\n".join(map(str, out)))
    return p, env, d


ALPHA = [0x61, 0x327, 0x323, 0x301, 0x308, 0xE7, 0x344, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x958, 0xF71, 0xF72, 0xF73, 0x212B,
         0xFF9E, 0x30AB, 0xB47, 0xB3E, 0x1611E, 0x16121, 0x3071]
INV = {"C13": "Confluent Equivalent Idempotent Related Tight", "C14": "QuickSound Normalised", "C15": "Streaming SafeCut"}


def model(c, inv, alpha, n, env):
    c.model("rewriting of all texts over %d code points up to length %d: %s" % (len(alpha), n, inv), "NormModel",
            "INIT Init\nNEXT Next\n%sAlphabet = {%s}\nMaxLen = %d\nINVARIANTS %s\n" % (CONST, ",".join(map(str, alpha)), n, inv), env)
CFG = "INIT Init\nNEXT Next\n" + CONST + "INVARIANT Conform\n"


def start(c):
    import utf
    c.build(["norm"])
    p, env, d = prepare(c)
    return [p, utf.table(c)], env, d


def record(c, tabs, env, n, tests):
    t = official()
    c.rng.shuffle(t)
    out = []
    for row in t[:tests]:
        for s in (row[0], c.rng.choice(row)):
            out += [len(s)] + s
    open(c.path("inputs.txt"), "w").write("\n".join(map(str, out)))
    f = c.path("n.ndjson")
    c.run("norm", ["record"] + tabs + [c.seed, n, c.path("inputs.txt"), f])
    c.sample(open(f).readline()[:400])
    c.validate("recorded normalizations, checks and streams", "NormTrace", CFG, f, env)


def points(c, tabs, env):
    f = c.path("p.ndjson")
    c.run("norm", ["points"] + tabs + [f])
    c.validate("normalization properties of all code points", "NormTrace", CFG, f, env)


def c13(c):
    tabs, env, d = start(c)
    model(c, INV["C13"], c.pick(ALPHA[::2], ALPHA), 3, env)
    points(c, tabs, env)
    c.run("norm", ["marks"] + tabs)
    c.run("norm", ["replay"] + tabs + [c.seed, c.pick(100000, 3000000)])
    record(c, tabs, env, c.pick(2500, 25000), c.pick(1500, 20000))


def c14(c):
    tabs, env, d = start(c)
    model(c, INV["C14"], ALPHA, 3, env)
    points(c, tabs, env)
    c.run("norm", ["replay"] + tabs + [c.seed + 1, c.pick(100000, 3000000)])
    record(c, tabs, env, c.pick(2500, 25000), c.pick(1500, 20000))


def c15(c):
    tabs, env, d = start(c)
    model(c, INV["C15"], ALPHA, 3, env)
    c.run("norm", ["replay"] + tabs + [c.seed + 2, c.pick(200000, 4000000)])
    record(c, tabs, env, c.pick(4000, 30000), c.pick(1500, 20000))


def c24(c):
    tabs, env, d = start(c)
    c.model("decomposition and composition of all syllables and jamo", "HangulModel",
            "INIT Init\nNEXT Next\n" + CONST + "INVARIANTS Inverse Onto Others\n", env)
    f = c.path("h.ndjson")
    c.run("norm", ["hangul"] + tabs + [f, c.seed, c.pick(4000, 40000)])
    c.validate("Hangul functions, all code points and recorded strings", "NormTrace", CFG, f, env)


CHECKS = {"C13": ("model_checking", c13), "C14": ("model_checking", c14), "C15": ("model_checking", c15), "C24": ("model_checking", c24)}
