"""C30: the library built from other Unicode data files (spec/Ucd*, Names*, Case*, Norm*, Grapheme*, Word*, Width*, Emoji*, Script*)."""
import os

import altucd
import build
import case
import emoji
import mkenums
import names
import norm
import script
import seg
import ucd
import ucdcheck
import utf
import width

CFG = "INIT Init\nNEXT Next\nINVARIANT Conform\n"
DEFAULT = "/usr/share/unicode"
READERS = [f for f in vars(ucd).values() if hasattr(f, "cache_clear")]


def library(c, seed):
    """The library must build from the other data wherever it builds from the usual data."""
    for last in (False, True):
        try:
            return build.ensure((), ("simd",))
        except build.BuildError as e:
            if not last:
                continue
            other = (build.B, build.TREE, build.UCD, build.ENUMS)
            build.redirect("", DEFAULT, None)
            build.ensure((), ("simd",))
            build.B, build.TREE, build.UCD, build.ENUMS = other
            c.violate({"what": "the library cannot be built from data files from which it should be", "data": "tools/altucd.py %s DEST %s" % (DEFAULT, seed),
                       "error": str(e)})


def one(c, seed, n):
    name = "alt%d" % n
    build.redirect(name, os.path.join(build.VERIF, ".build", name + "-ucd"), os.path.join(build.VERIF, ".build", name + "-enums.inc"))
    os.makedirs(build.B, exist_ok=True)
    ucd.DIR = DEFAULT
    rw = altucd.write(ucd.DIR, build.UCD, seed)
    c.sample("data files of seed %s: %d new characters, among them %s" % (seed, len(rw.new), ", ".join("U+%04X like U+%04X" % x for x in list(rw.new.items())[:5])))
    ucd.DIR = build.UCD
    for f in READERS:
        f.cache_clear()
    mkenums.write(build.ENUMS)
    c.san = False
    library(c, seed)
    c.build(["ucd", "case", "norm", "seg", "width", "emoji", "script"])
    for mode in ("record", "query", "width"):
        ucdcheck.whole(c, mode)
    names.recorded(c)
    tabs, env = case.start(c)
    f = c.path("case.ndjson")
    c.run("case", ["points"] + tabs + [f])
    c.validate("mappings and predicates of all code points", "CaseTrace", case.CFG, f, env)
    c.run("case", ["replay"] + tabs + [seed, c.pick(30000, 300000)])
    tabs, env, _ = norm.start(c)
    norm.points(c, tabs, env)
    c.run("norm", ["marks"] + tabs)
    c.run("norm", ["replay"] + tabs + [seed, c.pick(30000, 300000)])
    norm.record(c, tabs, env, c.pick(500, 5000), c.pick(200, 3000))
    g, genv, _ = seg.prepare(c, "Grapheme")
    c.run("seg", ["exhaust", g, seed, 2, 0])
    c.run("seg", ["random", g, seed, c.pick(30000, 300000)])
    w, wenv, _ = seg.prepare(c, "Word")
    c.run("seg", ["exhaust", w, seed, 2, 0])
    c.run("seg", ["random", w, seed, c.pick(30000, 300000)])
    g, genv, _ = seg.prepare(c, "Grapheme")
    wt, wenv = width.prepare(c)
    c.run("width", ["random", wt, g, utf.table(c), seed, c.pick(30000, 300000)])
    p, _ = emoji.prepare(c)
    c.run("emoji", ["points", p])
    c.run("emoji", ["random", p, seed, c.pick(50000, 500000)])
    p, _ = script.prepare(c)
    c.run("script", ["points", p])
    c.run("script", ["random", p, seed, c.pick(50000, 500000)])


def c30(c):
    for i in range(c.pick(1, 4)):
        one(c, c.seed + 1000 * i, i)


CHECKS = {"C30": ("model_checking", c30)}
