"""C28, C29: segmenters, iterators and incremental states are values, also in concurrent threads (spec/Cursor*.tla)."""
import seg


def models(c):
    for how in ("range", "position"):
        c.model("histories of objects, equality by " + how, "CursorModel",
                "INIT Init\nNEXT Next\nCONSTANTS Slots = {1, 2, 3}\nMaxSize = %d\nHow = \"%s\"\nINVARIANTS Independent Equivalence Congruence Settles\n"
                % (c.pick(3, 6), how))


def validate(c, what, tr):
    c.validate(what, "CursorTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", tr)


def c28(c):
    c.build(["cursor"])
    p, env, _ = seg.prepare(c, "Grapheme")
    models(c)
    tr = c.path("cursor.ndjson")
    n = c.pick(500, 4000)
    c.run("cursor", ["record", p, c.seed, n, tr])
    for i, line in enumerate(open(tr)):
        if i % n == 3:
            c.sample(line[:300])
    validate(c, "recorded histories", tr)


def c29(c):
    c.build(["cursor"], ("simd", "tsan"))
    p, env, _ = seg.prepare(c, "Grapheme")
    models(c)
    tr = c.path("threads.ndjson")
    for variant, n, k, times in (("tsan", c.pick(6, 60), 6, c.pick(3, 8)), ("simd", c.pick(50, 500), 8, c.pick(3, 8))):
        with open(tr, "w") as o:
            for i in range(times):
                f = c.path("thread")
                c.run("cursor", ["threads", p, c.seed + i, n, f, k], variant, {"TSAN_OPTIONS": "halt_on_error=1"} if variant == "tsan" else {}, san=False)
                for j in range(k):
                    o.write(open("%s.%d" % (f, j)).read())
        validate(c, "histories recorded by %d threads at a time (%s)" % (k, variant), tr)


CHECKS = {"C28": ("model_checking", c28), "C29": ("model_checking", c29)}
