"""C04, C10-C12: text scanning (spec/Scan*.tla) and vector widths."""
import json

import seg
import ucd
import utf
import width

PIECES = [[97], [48], [27], [133], [0xC3, 0xA9], [0xCC, 0x81], [0xE0, 0xA4, 0x83], [0xE4, 0xB8, 0x80], [0xEF, 0xB8, 0x8F],
          [0xEF, 0xB8, 0x8E], [0xE2, 0x98, 0xBA], [0xE2, 0x8C, 0x9A], [0xFF], [0xE2], [0xF0, 0x9F], [0xA0], [0x90],
          [0xF0, 0x9F, 0x87, 0xA6], [0xE1, 0x84, 0x80], [0xE0, 0xA4, 0x95], [0xE0, 0xA5, 0x8D], [0xE2, 0x80, 0x8D]]


def classes(c):
    gcl, grows = seg.grapheme_cells()
    raw, wrows = width.cells()
    json.dump(raw, open(c.path("w-raw.json"), "w"))
    c.table("cluster width classes", "WidthGen", {"CLASSES": c.path("w-raw.json"), "OUT": c.path("w-m.json")})
    t = json.load(open(c.path("w-m.json")))
    cs = ucd.cells([ucd.Prop(grows, 0), ucd.Prop([(lo, hi, t["of"][k]) for lo, hi, k in wrows], 0)])
    cl, rows = ucd.classes(cs)
    json.dump([dict(gcl[g], **t["classes"][w]) for g, w in cl], open(c.path("s-classes.json"), "w"))
    json.dump(rows, open(c.path("s-rows.json"), "w"))
    c.sample("%d combined classes" % len(cl))
    return {"SCLASSES": c.path("s-classes.json"), "SROWS": c.path("s-rows.json")}


def model(c, inv, pieces, n, limits):
    env = classes(c)
    p = c.path("pieces.json")
    json.dump(pieces, open(p, "w"))
    c.model("laws of the scanner, all texts of up to %d pieces (%d), all cuts and limits" % (n, len(pieces)), "ScanModel",
            "INIT Init\nNEXT Next\nCONSTANTS Cls <- ScanCls\nMaxPieces = %d\nLimits = {%s}\nINVARIANTS %s\n" %
            (n, ",".join(map(str, limits)), inv), dict(env, PIECES=p))
    return env


INV = {"C10": "Limit Range Stop StopsAtControl", "C11": "TotalWidth Cut Resume PutBack CutResume", "C12": "Events"}
SMALL = [0, 2, 3, 4, 5, 6, 7, 8, 12, 13, 15, 16, 21]
CFG = "INIT Init\nNEXT Next\nCONSTANT Cls <- ScanCls\nINVARIANT Conform\n"


def prepare(c, variants=("simd",)):
    c.build(["scan"], variants)
    w, _ = width.prepare(c)
    g, _, _ = seg.prepare(c, "Grapheme")
    u = utf.table(c)
    p = c.path("pieces.txt")
    extra = [[0xF0, 0x9F, 0x91, 0xA9], [0xF0, 0x9F, 0x8F, 0xBD], [0xD8, 0x80], [0x23], [0x7F], [0xEF, 0xBF, 0xBD], [0xC2, 0x80],
             [0xF4, 0x90, 0x80, 0x80], [0xED, 0xA0, 0x80], [0xE2, 0x9D, 0xA4], [0xC3], [0xF8], [0x30, 0xEF, 0xB8, 0x8F], [0], [0xEF, 0xBE, 0x9E]]
    out = [len(PIECES + extra)]
    for x in PIECES + extra:
        out += [len(x)] + x
    open(p, "w").write("\n".join(map(str, out)))
    q = c.path("pieces-model.txt")
    out = [len(PIECES)]
    for x in PIECES:
        out += [len(x)] + x
    open(q, "w").write("\n".join(map(str, out)))
    return [w, g, u], p, q


def both(c, pid):
    tabs, p, q = prepare(c)
    env = model(c, INV[pid], PIECES, 3, [0, 1, 2, 3, 4, 1000])
    if c.thorough:
        model(c, INV[pid], [PIECES[i] for i in SMALL], 4, [0, 1, 2, 3, 1000])
    c.run("scan", ["laws"] + tabs + [p, c.seed, c.pick(500000, 8000000)])
    t = c.path("s.ndjson")
    c.run("scan", ["texts"] + tabs + [q, c.pick(2, 3) if pid != "C11" else 2, 1 if pid == "C11" else 0, t])
    c.validate("all texts of few pieces, all limits" + (", all cuts" if pid == "C11" else ""), "ScanTrace", CFG, t, env)
    c.run("scan", ["histories"] + tabs + [p, c.seed, c.pick(6000, 60000), t])
    c.sample(open(t).readline()[:300])
    c.validate("random histories", "ScanTrace", CFG, t, env)


def c04(c):
    tabs, p, q = prepare(c, ("simd", "none", "std"))
    env = classes(c)
    c.model("blocks of any width change nothing, all texts, limits, widths", "VectorModel",
            "INIT Init\nNEXT Next\nCONSTANTS Alphabet = {31, 65, 127, 128, 195, 240}\nMaxLen = %d\nWidths = {1, 2, 3, 4}\n"
            "INVARIANTS Scanned ScanDone InBounds Converted\n" % c.pick(5, 6))
    seen = {}
    t = c.path("s.ndjson")
    for variant, w in (("simd", 128), ("simd", 256), ("simd", 512), ("none", 0), ("std", 128), ("std", 256), ("std", 512)):
        e = {"VERIF_SIMD": str(w)}
        name = "%s %d" % (variant, w)
        out = c.run("scan", ["vector"] + tabs + [p, c.seed, c.pick(20000, 200000), c.pick(140, 200), c.pick(21, 7)], variant, e)
        seen.setdefault([x for x in out.split() if x.isdigit()][0], []).append(name)
        c.run("scan", ["histories"] + tabs + [p, c.seed + w, c.pick(1200, 12000), t], variant, e)
        c.validate("random histories, " + name, "ScanTrace", CFG, t, env)
    if len(seen) != 1:
        c.violate({"what": "variants disagree on the same inputs", "digests": seen})


CHECKS = {"C04": ("model_checking", c04)}
CHECKS.update({k: ("model_checking", (lambda k: lambda c: both(c, k))(k)) for k in INV})
