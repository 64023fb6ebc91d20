"""C09: width of grapheme clusters (spec/Width*.tla)."""
import json

import seg
import ucd
import utf


def cells():
    P = ucd.Prop
    a = ucd.aliases()
    named = [
        ("gc", P(ucd.gc(), "")), ("ea", P(ucd.eaw(), "")), ("gcb", P(ucd.gcb(), "")),
        ("hst", P([(x, y, a["hst"][v]) for x, y, v in ucd.enumerated("HangulSyllableType.txt")], "")),
        ("insc", P(ucd.enumerated("IndicSyllabicCategory.txt"), "")),
        ("ep", P(ucd.emoji("Emoji_Presentation"), False)), ("emod", P(ucd.emoji("Emoji_Modifier"), False)),
        ("xp", P(ucd.emoji("Extended_Pictographic"), False)), ("vb", P(ucd.singles(ucd.variation_bases()), False)),
        ("sp", P([(c, c, c) for c in (0xAD, 0x200D, 0xFE0E, 0xFE0F)], 0)),
    ]
    cs = ucd.cells([p for _, p in named])
    cl, rows = ucd.classes(cs)
    return [dict(zip([k for k, _ in named], v)) for v in cl], rows


def prepare(c):
    """Table of the measure for the harness, and the environment for the specifications."""
    raw, rows = cells()
    rf, wc, wr, j = c.path("w-raw.json"), c.path("w-classes.json"), c.path("w-rows.json"), c.path("w-machine.json")
    json.dump(raw, open(rf, "w"))
    c.table("cluster width machine", "WidthGen", {"CLASSES": rf, "OUT": j})
    t = json.load(open(j))
    merged = []
    for lo, hi, k in rows:
        k = t["of"][k]
        if merged and merged[-1][2] == k and merged[-1][1] + 1 == lo:
            merged[-1][1] = hi
        else:
            merged.append([lo, hi, k])
    json.dump(t["classes"], open(wc, "w"))
    json.dump(merged, open(wr, "w"))
    out = [len(t["classes"]), merged[0][2], len(merged)]
    for r in merged:
        out += r
    out += [x["w"] for x in t["classes"]]
    out.append(len(t["states"]))
    for s in t["states"]:
        out += [s["cur"], len(s["path"])] + s["path"]
        for n, d in zip(s["next"], s["add"]):
            out += [n, d]
    p = c.path("width.txt")
    with open(p, "w") as f:
        f.write("\n".join(map(str, out)))
    c.sample("%d width classes, %d control states" % (len(t["classes"]), len(t["states"])))
    return p, {"WCLASSES": wc, "WROWS": wr}


def c09(c):
    c.build(["width"])
    w, env = prepare(c)
    g, genv, _ = seg.prepare(c, "Grapheme")
    u = utf.table(c)
    inv = "TypeOK Fold Single NotNegative SumOfPlain Transparent Vs16 Vs16Base Vs15Base Flags Joined Absorbed Conjunct SpacingMark Bounded"
    c.model("laws of the measure, all class strings", "WidthModel",
            "INIT Init\nNEXT Next\nCONSTANT MaxLen = %d\nINVARIANTS %s\n" % (c.pick(4, 5), inv), env)
    c.run("width", ["exhaust", w, g, u, c.pick(2, 3)], san=c.thorough)
    c.run("width", ["random", w, g, u, c.seed, c.pick(200000, 4000000)])
    tr = c.path("w.ndjson")
    c.run("width", ["record", w, g, u, c.seed, c.pick(6000, 60000), tr])
    c.sample(open(tr).readline()[:300])
    c.validate("recorded measurements", "WidthTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", tr, dict(genv, **env))


CHECKS = {"C09": ("model_checking", c09)}
