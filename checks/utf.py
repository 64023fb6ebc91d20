"""C01-C03: UTF encoding forms and decoders (spec/Utf*.tla)."""
import json

ALPHA = [0, 65, 127, 128, 143, 159, 160, 191, 192, 195, 223, 224, 237, 239, 240, 244, 247, 248, 255]


def table(c):
    j = c.path("utf.json")
    c.table("decoder and encoder tables", "UtfGen", {"OUT": j})
    t = json.load(open(j))
    out = []
    for k in ("stream", "conv", "iter"):
        out.append(len(t[k]))
        for row in t[k]:
            for cell in row:
                out += cell
    for k in ("rows8", "rows16"):
        out.append(len(t[k]))
        for r in t[k]:
            out += [r["lo"], r["hi"], len(r["units"])]
            for u in r["units"]:
                out += [u["div"], u["mod"], u["add"]]
    out.append(len(t["classes16"]))
    for a in t["classes16"]:
        out += a
    out.append(len(t["dec16"]))
    for r in t["dec16"]:
        for a in r:
            out += a
    p = c.path("utf.txt")
    with open(p, "w") as f:
        f.write("\n".join(map(str, out)))
    return p


def model(c, alpha, n):
    cfg = "SPECIFICATION Spec\nCONSTANTS Alphabet = {%s}\nMaxLen = %d\nINVARIANTS TypeOK Declarative InvalidStart " \
          "Resync LeadForgets Agree\n" % (",".join(map(str, alpha)), n)
    c.model("decoder machine = declarative decoder, all strings over %d bytes up to length %d" % (len(alpha), n), "UtfModel", cfg)


def traces(c, n, variant="simd", env=None):
    p = c.path("utf.ndjson")
    t = c.path("t.txt")
    c.run("utf", ["record", t, c.seed, n, p], variant, env)
    c.sample(open(p).readline()[:300])
    c.validate("recorded conversions", "UtfTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", p)


def prepare(c, variants=("simd",)):
    c.build(["utf"], variants)
    import shutil
    shutil.copy(table(c), c.path("t.txt"))
    return c.path("t.txt")


def c01(c):
    t = prepare(c, ("simd", "none"))
    c.model("round trip of all scalar values", "UtfScalars", "INIT Init\nNEXT Next\nINVARIANTS RoundTrip Surrogates\n")
    model(c, [65, 128, 191, 194, 195, 224, 226, 240, 244], c.pick(5, 6))
    c.run("utf", ["scalars", t])
    for v in ("simd", "none"):
        c.run("utf", ["texts", t, c.seed, c.pick(60000, 1000000)], v)
    traces(c, c.pick(3000, 30000))


def c02(c):
    t = prepare(c)
    model(c, ALPHA, c.pick(4, 5))
    c.run("utf", ["stream", t, c.pick(0, 1)])
    traces(c, c.pick(3000, 40000))


def c03(c):
    t = prepare(c, ("simd", "none"))
    model(c, ALPHA, 3 if not c.thorough else 4)
    c.run("utf", ["conv", t, c.pick(0, 1)])
    for v, w in (("simd", ""), ("simd", "128"), ("none", "")):
        c.run("utf", ["buffers", t, c.pick(3, 4), c.seed, c.pick(60000, 1000000)], v, {"VERIF_SIMD": w} if w else None)
    traces(c, c.pick(6000, 60000))


CHECKS = {"C01": ("model_checking", c01), "C02": ("model_checking", c02), "C03": ("model_checking", c03)}
