"""C26: multistage tables (spec/Multistage*.tla)."""


def c26(c):
    c.build(["multistage"])
    c.model("generator machine, all sources over three values", "MultistageModel",
            "INIT Init\nNEXT Next\nINVARIANT Right\nCONSTANTS MaxLen = %d\nVals = {0, 1, 2}\nSizes = {1, 2, 3, 4}\n" % c.pick(8, 9))
    c.run("multistage", ["replay", c.seed, c.pick(3000, 60000)])
    tr = c.path("ms.ndjson")
    c.run("multistage", ["record", c.seed, c.pick(100, 1500), tr])
    c.sample(open(tr).readline()[:300])
    c.validate("recorded generator runs", "MultistageTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", tr)


CHECKS = {"C26": ("model_checking", c26)}
