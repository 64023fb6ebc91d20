"""C08, C21, C22: per-code-point data (spec/Ucd*.tla)."""
import json

import mkenums
import ucd

SPECIAL = [0xAD, 0x20E3, 0x20E0, 0x200D, 0xFE0E, 0xFE0F, 0x1F3F4, 0x23, 0x2A, *range(0x30, 0x3A), *range(0xE0030, 0xE003A),
           *range(0xE0061, 0xE007B), 0xE007F]


def cells():
    a = ucd.aliases()
    P = ucd.Prop
    core = sorted(ucd.binaries("DerivedCoreProperties.txt").items())
    udata = ucd.unicode_data()
    named = [
        ("gc", P(ucd.gc(), "")), ("ea", P(ucd.eaw(), "")), ("gcb", P(ucd.gcb(), "")), ("wb", P(ucd.wb(), "")),
        ("incb", P(ucd.incb(), "")), ("sc", P(ucd.script(), "")), ("age", P(ucd.age(), "")),
        ("hst", P([(x, y, a["hst"][v]) for x, y, v in ucd.enumerated("HangulSyllableType.txt")], "")),
        ("insc", P(ucd.enumerated("IndicSyllabicCategory.txt"), "")),
        ("block", P([(x, y, mkenums.ident(v)) for x, y, v in ucd.enumerated("Blocks.txt")], "")),
        ("scx", P(ucd.script_ext(), ())),
        ("em", P(ucd.emoji("Emoji"), False)), ("ep", P(ucd.emoji("Emoji_Presentation"), False)),
        ("ec", P(ucd.emoji("Emoji_Component"), False)), ("emod", P(ucd.emoji("Emoji_Modifier"), False)),
        ("emb", P(ucd.emoji("Emoji_Modifier_Base"), False)), ("xp", P(ucd.emoji("Extended_Pictographic"), False)),
        ("ge", P(ucd.core("Grapheme_Extend"), False)),
        ("vb", P(ucd.singles(ucd.variation_bases()), False)),
        ("mir", P(ucd.merge((c, c) for c, f in udata.items() if f[9] == "Y"), False)),
        ("glyph", P([(x, y, int(v, 16)) for x, y, v in ucd.enumerated("BidiMirroring.txt")], -1)),
        ("plane", P([(p << 16, (p << 16) + 0xFFFF, p) for p in range(17)], 17)),
        ("sp", P([(c, c, c) for c in SPECIAL], 0)),
    ]
    cs = ucd.cells([p for _, p in named] + [P(r, False) for _, r in core])
    cl, rows = ucd.classes(cs)
    n = len(named)
    out = []
    for v in cl:
        d = {k: (list(x) if isinstance(x, tuple) else x) for (k, _), x in zip(named, v)}
        d["core"] = [name for (name, _), x in zip(core, v[n:]) if x]
        out.append(d)
    return out, rows


def prepare(c):
    cl, rows = cells()
    cf, rf = c.path("ucd-classes.json"), c.path("ucd-rows.json")
    json.dump(cl, open(cf, "w"))
    json.dump(rows, open(rf, "w"))
    env = {"CLASSES": cf, "ROWS": rf}
    c.sample("%d cells, %d distinct classes" % (len(rows), len(cl)))
    c.model("classes consistent, cells cover the code space", "UcdModel", "INIT Init\nNEXT Next\nINVARIANT Inv\n", env)
    return env


def whole(c, mode, *extra):
    c.build(["ucd"])
    env = prepare(c)
    tr = c.path(mode + ".ndjson")
    c.run("ucd", [mode, tr, *extra])
    c.sample(open(tr).readline()[:600])
    c.validate("recorded %s function of all code points" % mode, "UcdTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", tr, env)


def c08(c):
    whole(c, "width", *c.pick([], ["all"]))


def c21(c):
    whole(c, "record")


def c22(c):
    whole(c, "query")


CHECKS = {"C08": ("model_checking", c08), "C21": ("model_checking", c21), "C22": ("model_checking", c22)}
