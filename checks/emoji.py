"""C18: emoji presentation runs (spec/Emoji*.tla)."""
import json

import ucd
import ucdcheck


def cells():
    """Only what Ucd!Category looks at."""
    P = ucd.Prop
    named = [("gcb", P(ucd.gcb(), "")), ("em", P(ucd.emoji("Emoji"), False)), ("ep", P(ucd.emoji("Emoji_Presentation"), False)),
             ("emod", P(ucd.emoji("Emoji_Modifier"), False)), ("emb", P(ucd.emoji("Emoji_Modifier_Base"), False)),
             ("sp", P([(c, c, c) for c in ucdcheck.SPECIAL], 0))]
    cl, rows = ucd.classes(ucd.cells([p for _, p in named]))
    return [dict(zip([k for k, _ in named], v)) for v in cl], rows


def prepare(c):
    cl, rows = cells()
    cf, rf, j = c.path("ecl.json"), c.path("erows.json"), c.path("emoji.json")
    json.dump(cl, open(cf, "w"))
    json.dump(rows, open(rf, "w"))
    c.table("scanner automaton and categories", "EmojiGen", {"CLASSES": cf, "OUT": j})
    t = json.load(open(j))
    out = [len(t["cats"]), len(t["next"]), t["dead"]]
    for a, n in zip(t["accepts"], t["next"]):
        out += [a] + n
    out.append(len(rows))
    for lo, hi, k in rows:
        out += [lo, hi, t["of"][k]]
    p = c.path("emoji.txt")
    open(p, "w").write("\n".join(map(str, out)))
    return p, {"CLASSES": cf, "ROWS": rf}


def model(c, n, used):
    c.model("online scanner = grammar with longest match, %d categories, texts up to %d" % (len(used), n), "EmojiModel",
            "INIT Start\nNEXT Next\nCONSTANTS MaxLen = %d\nUsed = {%s}\nINVARIANTS Agrees Tiles Progress\n"
            % (n, ",".join('"%s"' % u for u in used)), {})


ALL = ["Invalid", "Emoji", "EmojiTextPresentation", "EmojiEmojiPresentation", "EmojiModifierBase", "EmojiModifier", "EmojiVSBase",
       "RegionalIndicator", "KeyCapBase", "CombiningEnclosingKeyCap", "CombiningEnclosingCircleBackslash", "ZWJ", "VS15", "VS16",
       "TagBase", "TagSequence", "TagTerm"]


def c18(c):
    c.build(["emoji"])
    p, env = prepare(c)
    model(c, c.pick(4, 5), ALL)
    model(c, c.pick(7, 9), ["EmojiTextPresentation", "EmojiModifierBase", "EmojiModifier", "ZWJ", "VS16"])
    model(c, c.pick(7, 9), ["KeyCapBase", "TagBase", "TagSequence", "TagTerm", "VS15" if c.seed % 2 else "ZWJ"])
    c.run("emoji", ["exhaust", p, c.pick(5, 6)])
    c.run("emoji", ["points", p])
    c.run("emoji", ["random", p, c.seed, c.pick(300000, 8000000)])
    f = c.path("e.ndjson")
    c.run("emoji", ["record", p, c.seed, c.pick(8000, 80000), f])
    c.sample(open(f).readline()[:300])
    c.validate("recorded emoji runs", "EmojiTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", f, env)


CHECKS = {"C18": ("model_checking", c18)}
