"""C23: the C interface (spec/Capi*.tla)."""
import build
import seg
import utf
import width


def c23(c):
    try:
        c.build(["capi"])
    except build.BuildError as e:
        if "capi_client.c:" in str(e) or "capi.h:" in str(e):
            c.violate({"what": "a C program cannot use the C interface", "output": str(e)[-3000:]})
        raise
    w, wenv = width.prepare(c)
    g, genv, _ = seg.prepare(c, "Grapheme")
    u = utf.table(c)
    c.model("converters in any interleaving, conversions of all short texts into all destinations", "CapiModel",
            "INIT Init\nNEXT Next\nCONSTANTS Handles = {1, 2}\nBytes = {65, 128, 195, 226, 240}\nMaxFed = %d\n"
            "Alphabet = {0, 127, 128, 233, 2047, 2048, 8364, 65535, 65536, 128512, 1114111}\nMaxSrc = 3\n"
            "INVARIANTS Independent Exact\n" % c.pick(4, 5))
    c.run("capi", ["exhaust", w, g, u, c.pick(7, 1)], san=["exhaust", w, g, u, c.pick(61, 7)])
    c.run("capi", ["random", w, g, u, c.seed, c.pick(60000, 1500000)])
    tr = c.path("capi.ndjson")
    c.run("capi", ["record", w, g, u, c.seed, c.pick(12000, 120000), tr])
    for line in open(tr).readlines()[-6:]:
        c.sample(line[:200])
    c.validate("recorded calls", "CapiTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", tr, dict(genv, **wenv))


CHECKS = {"C23": ("model_checking", c23)}
