"""C05-C07: grapheme clusters and words (spec/Grapheme*.tla, spec/Word*.tla)."""
import json

import ucd
import utf


def grapheme_cells():
    cs = ucd.cells([ucd.Prop(ucd.gcb(), "Other"), ucd.Prop(ucd.emoji("Extended_Pictographic"), False),
                    ucd.Prop(ucd.incb(), "None")])
    cl, rows = ucd.classes(cs)
    return [{"g": a, "ep": b, "cj": d} for a, b, d in cl], rows


def word_cells():
    cs = ucd.cells([ucd.Prop(ucd.wb(), "Other"), ucd.Prop(ucd.emoji("Extended_Pictographic"), False)])
    cl, rows = ucd.classes(cs)
    return [{"w": a, "ep": b} for a, b in cl], rows


def prepare(c, module):
    cl, rows = grapheme_cells() if module == "Grapheme" else word_cells()
    other = rows[0][2]    # beyond the code space the tables answer as for U+0000
    cf, rf, j = c.path("classes.json"), c.path("rows.json"), c.path("machine.json")
    json.dump(cl, open(cf, "w"))
    json.dump(rows, open(rf, "w"))
    env = {"CLASSES": cf, "ROWS": rf, "OUT": j}
    c.table("machine of " + module, module + "Gen", env)
    t = json.load(open(j))
    out = [1 if module == "Word" else 0, len(cl), other, len(rows)]
    for r in rows:
        out += r
    out += t["begin"]
    if module == "Word":
        out += t["look"]
    out.append(len(t["paths"]))
    for p in t["paths"]:
        out += [len(p)] + p
    for s in t["trans"]:
        for x in s:
            out += x
    p = c.path("seg.txt")
    with open(p, "w") as f:
        f.write("\n".join(map(str, out)))
    c.sample("%d classes, %d machine states" % (len(cl), len(t["paths"])))
    return p, env, cl


def cfg(n, used=()):
    return "INIT Init\nNEXT Next\nCONSTANTS MaxLen = %d\nUsed = {%s}\nINVARIANTS %%s\n" % (n, ",".join(map(str, used)))


def c05(c):
    c.build(["seg"])
    p, env, cl = prepare(c, "Grapheme")
    c.model("machines = UAX #29 rules, all class strings", "GraphemeModel", cfg(c.pick(4, 5)) % "Rules Tile", env)
    # the classes with memory, deeper
    mem = [i + 1 for i, x in enumerate(cl) if x["g"] in ("Extend", "ZWJ", "Regional_Indicator") or x["ep"] or x["cj"] == "Consonant"]
    c.model("classes with memory, longer strings", "GraphemeModel", cfg(c.pick(6, 8), mem) % "Rules", env)
    c.run("seg", ["exhaust", p, c.seed, c.pick(2, 3), c.pick(0, 1)])
    c.run("seg", ["random", p, c.seed, c.pick(150000, 4000000)])
    tr = c.path("g.ndjson")
    c.run("seg", ["record", p, c.seed, c.pick(4000, 40000), tr])
    c.sample(open(tr).readline()[:200])
    c.validate("recorded segmentations", "GraphemeTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", tr, env)


def c06(c):
    c.build(["seg"])
    p, env, cl = prepare(c, "Grapheme")
    u = utf.table(c)
    c.model("machines = UAX #29 rules, all class strings", "GraphemeModel", cfg(3) % "Rules Tile", env)
    utf.model(c, utf.ALPHA, 3)
    c.run("seg", ["utf8", p, u, c.pick(5, 6), c.seed, c.pick(150000, 4000000)])
    tr = c.path("g8.ndjson")
    c.run("seg", ["record8", p, u, c.seed, c.pick(4000, 40000), tr])
    c.sample(open(tr).readline()[:300])
    c.validate("recorded UTF-8 iterations", "GraphemeTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", tr, env)


def c07(c):
    c.build(["seg"])
    p, env, cl = prepare(c, "Word")
    c.model("machines = UAX #29 rules, all class strings", "WordModel", cfg(c.pick(4, 5)) % "Rules", env)
    mem = [i + 1 for i, x in enumerate(cl) if x["w"] in ("Hebrew_Letter", "Single_Quote", "Extend", "Double_Quote", "Numeric",
                                                        "Regional_Indicator") and not x["ep"]]
    c.model("classes with memory, longer strings", "WordModel", cfg(c.pick(6, 8), mem) % "Rules", env)
    c.run("seg", ["exhaust", p, c.seed, c.pick(2, 3), c.pick(0, 1)], san=c.thorough)
    c.run("seg", ["random", p, c.seed, c.pick(150000, 4000000)])
    tr = c.path("w.ndjson")
    c.run("seg", ["record", p, c.seed, c.pick(4000, 40000), tr])
    c.sample(open(tr).readline()[:200])
    c.validate("recorded segmentations", "WordTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", tr, env)


CHECKS = {"C05": ("model_checking", c05), "C06": ("model_checking", c06), "C07": ("model_checking", c07)}
