"""C19: script runs (spec/Script*.tla)."""
import json

import ucd


def prepare(c):
    cl, rows = ucd.classes(ucd.cells([ucd.Prop(ucd.script(), "Unknown"), ucd.Prop(ucd.script_ext(), ())]))
    raw = [{"sc": s, "scx": list(x)} for s, x in cl]
    cf, rf, j = c.path("scl.json"), c.path("scrows.json"), c.path("script.json")
    json.dump(raw, open(cf, "w"))
    json.dump(rows, open(rf, "w"))
    c.table("script lists of all classes", "ScriptGen", {"CLASSES": cf, "OUT": j})
    lists = json.load(open(j))["lists"]
    names = sorted({s for l in lists for s in l} | {"Common", "Inherited", "Unknown"})
    out = [len(names)] + names + [len(lists)]
    for l in lists:
        out += [len(l)] + [names.index(s) for s in l]
    out.append(len(rows))
    for r in rows:
        out += list(r)
    p = c.path("script.txt")
    open(p, "w").write("\n".join(map(str, out)))
    return p, {"CLASSES": cf, "ROWS": rf}


def model(c, names, n, k):
    c.model("run machine = longest compatible runs; lists of up to %d of %d scripts, texts up to %d" % (k, len(names), n), "ScriptModel",
            "INIT Init\nNEXT Next\nCONSTANTS Names = {%s}\nMaxLen = %d\nMaxList = %d\nINVARIANTS Machine Maximal Tiles Permits Exact\n"
            % (",".join('"%s"' % x for x in names), n, k), {})


def c19(c):
    c.build(["script"])
    p, env = prepare(c)
    model(c, "ABC", c.pick(4, 5), 3)
    model(c, "ABCD", 3, c.pick(3, 4))
    c.run("script", ["points", p])
    c.run("script", ["random", p, c.seed, c.pick(300000, 8000000)])
    f = c.path("s.ndjson")
    c.run("script", ["record", p, c.seed, c.pick(10000, 100000), f])
    c.sample(open(f).readline()[:300])
    c.validate("recorded script runs", "ScriptTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", f, env)


CHECKS = {"C19": ("model_checking", c19)}
