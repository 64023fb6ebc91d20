"""C31: bounded arrays and output parameters (spec/Bounded*.tla)."""


def c31(c):
    c.build(["bounded"])
    c.model("all histories of two arrays", "BoundedModel",
            "INIT Init\nNEXT Next\nINVARIANTS Own Within\nCONSTANTS Caps = {0, 1, 2}\nMaxOps = %d\nValues = {1, 2}\n" % c.pick(4, 5))
    f = c.path("b.ndjson")
    c.run("bounded", ["record", c.seed, c.pick(150, 2000), f])
    c.sample(open(f).readline()[:300])
    c.validate("recorded histories of arrays and output parameters", "BoundedTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", f)


CHECKS = {"C31": ("model_checking", c31)}
