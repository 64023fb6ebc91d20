"""C20: combined runs (spec/Refine*.tla, RunsTrace.tla with Script.tla and Emoji.tla)."""
import emoji
import script


def model(c, n, size):
    c.model("merging machine = common refinement, %d components, texts up to %d" % (n, size), "RefineModel",
            "INIT Init\nNEXT Next\nCONSTANTS N = %d\nMaxSize = %d\nINVARIANTS Correct Tiles InStep\n" % (n, size), {})


def c20(c):
    c.build(["runs"])
    s, senv = script.prepare(c)
    e, eenv = emoji.prepare(c)
    env = {"SCLASSES": senv["CLASSES"], "SROWS": senv["ROWS"], "ECLASSES": eenv["CLASSES"], "EROWS": eenv["ROWS"]}
    model(c, 1, 6)
    model(c, 2, c.pick(6, 7))
    model(c, 3, c.pick(4, 5))
    c.run("runs", ["random", s, e, c.seed, c.pick(300000, 6000000)], san=["random", s, e, c.seed, c.pick(60000, 1500000)])
    f = c.path("r.ndjson")
    c.run("runs", ["record", s, e, c.seed, c.pick(8000, 60000), f])
    c.sample(open(f).readline()[:300])
    c.validate("recorded combined runs", "RunsTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", f, env)


CHECKS = {"C20": ("model_checking", c20)}
