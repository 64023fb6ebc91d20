"""C27: unicode-query (spec/Tools*.tla)."""
import json, os, pty, subprocess, tty
from concurrent.futures import ThreadPoolExecutor

import build
import emoji
import names
import script
import seg
import ucd
import ucdcheck

LABELS = ["Name", "Unicode Version", "Codepoint", "UTF-8", "Display", "Plane", "Block", "Script", "General Category",
          "East Asian Width", "Character width", "Emoji Segmentation Category", "Emoji Presentation", "Grapheme Cluster Break"]
USAGE = b'unicode-query [properties] U+XXXX [...]\n              gc [-e] [--] "Text string"\n' \
        b'              runs [-e] [--] "Text string"\n'


def words(u, s, n):
    """Everything the tool may have to print, as bytes."""
    w = {"help", "gc", "runs", "properties", "Failed to parse codepoint ", "emoji", "text", "Emoji", "Text", "Unassigned",
         "Common", "Inherited", "Unknown", "Unspecified", "Other", "Narrow", "Invalid"}
    w |= {l.ljust(28) for l in LABELS}
    w |= {a["text"] for a in n["ages"]}
    w |= set(emoji.ALL)
    w |= {"Basic_Multilingual_Plane", "Supplementary_Multilingual_Plane", "Supplementary_Ideographic_Plane", "Tertiary_Ideographic_Plane",
          "Supplementary_Special_purpose_Plane", "Supplementary_Private_Use_Area_Plane"}
    for c in u:
        w |= {c[k] for k in ("gc", "ea", "gcb", "sc", "block") if c[k]}
    for c in s:
        w |= {c["sc"], *c["scx"]}
    return {x: list(x.encode()) for x in w}


def call(tool, t):
    """One run of the tool; `tty`: standard output is a terminal (in raw mode)."""
    argv = [tool.encode()] + [bytes(a) for a in t["args"]]
    if t["tty"]:
        master, slave = pty.openpty()
        tty.setraw(slave)
        p = subprocess.Popen(argv, stdout=slave, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        os.close(slave)
        out = b""
        while True:
            try:
                d = os.read(master, 65536)
            except OSError:
                break
            if not d:
                break
            out += d
        os.close(master)
        err = p.stderr.read()
        p.stderr.close()
        status = p.wait(30)
    else:
        p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60)
        out, err, status = p.stdout, p.stderr, p.returncode
    return dict(t, out=list(out), err=list(err), status=status)


class Texts:
    def __init__(self, c, rows):
        self.r = c.rng
        self.classes = {}
        for lo, hi, k in rows:
            for p in {lo, hi, (lo + hi) // 2}:
                if p and not 0xD800 <= p <= 0xDFFF:
                    self.classes.setdefault(k, []).append(p)
        self.keys = sorted(self.classes)

    def point(self):
        return self.r.choice(self.classes[self.r.choice(self.keys)])

    # code points which interact in the segmentations
    HOT = [0x41, 0x301, 0x200D, 0xFE0F, 0xFE0E, 0x1F468, 0x1F469, 0x1F3FB, 0x1F1E9, 0x1F1EA, 0x23, 0x31, 0x20E3, 0x20E0, 0x915, 0x94D,
           0x937, 0x93F, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0xD, 0xA, 0x20, 0x9, 0x7F, 0x1B, 0x22, 0x5C, 0xA9, 0x2764, 0x3042, 0x30AB, 0x4E00,
           0x3001, 0x30FC, 0x5D0, 0x640, 0x660, 0x964, 0x1F3F4, 0xE0067, 0xE0062, 0xE007F, 0x600, 0xAD, 0x391, 0x416, 0x261D, 0x1F600]

    def text(self, n):
        r = self.r
        few = [r.choice(self.HOT) for _ in range(3)] + [self.point()]
        cps = [r.choice(few) if r.random() < .6 else r.choice(self.HOT) if r.random() < .7 else self.point() for _ in range(r.randrange(n + 1))]
        return cps

    def bytes(self, n, malformed=0.2):
        r = self.r
        b = bytearray("".join(map(chr, self.text(n))).encode())
        if r.random() < malformed:
            for _ in range(r.randrange(1, 4)):
                i = r.randrange(len(b) + 1)
                k = r.random()
                if k < .4 and b:
                    del b[min(i, len(b) - 1)]
                elif k < .7:
                    b.insert(i, r.choice([0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xFF]))
                elif b:
                    b = b[:i]
        return [x for x in b if x]


def c27(c):
    c.build([], ("simd", "san"), tools=True)
    tool, san = os.path.join(build.B, "lib-simd", "src", "tools", "unicode-query"), os.path.join(build.B, "unicode-query-san")
    s, senv = script.prepare(c)
    _, genv, _ = seg.prepare(c, "Grapheme")
    raw, rows = ucdcheck.cells()
    n = names.data()
    f = {k: c.path(k + ".json") for k in ("ucl", "urows", "names", "words", "usage")}
    json.dump(raw, open(f["ucl"], "w"))
    json.dump(rows, open(f["urows"], "w"))
    json.dump(n, open(f["names"], "w"))
    json.dump(words(raw, json.load(open(senv["CLASSES"])), n), open(f["words"], "w"))
    json.dump(list(USAGE), open(f["usage"], "w"))
    env = {"SCLASSES": senv["CLASSES"], "SROWS": senv["ROWS"], "GCLASSES": genv["CLASSES"], "GROWS": genv["ROWS"],
           "UCLASSES": f["ucl"], "UROWS": f["urows"], "NAMES": f["names"], "WORDS": f["words"], "USAGE": f["usage"]}
    c.model("argument lists and escapes", "ToolsModel",
            "INIT Init\nNEXT Next\nCONSTANTS MaxArgs = %d\nMaxText = %d\nINVARIANTS Parse Printable OneLine Verbatim Homomorphic\n"
            % (c.pick(5, 6), c.pick(4, 5)))

    r = c.rng
    tx = Texts(c, rows)
    known = {p for a, b, _ in names.KNOWN for p in range(a, b + 1)}
    text_of = {x["lo"] + i: nm for x in n["runs"] for i, nm in enumerate(x["names"])}

    def name(cp):
        j = n["jamo"]
        if 0xAC00 <= cp <= 0xD7A3:
            k = cp - 0xAC00
            return "HANGUL SYLLABLE " + j["l"][k // 588] + j["v"][k % 588 // 28] + j["t"][k % 28]
        for x in n["ranges"]:
            if x["lo"] <= cp <= x["hi"]:
                return "%s%X" % (x["prefix"], cp)
        return text_of.get(cp, "")

    def props(args, cps):
        return {"args": args, "tty": 0,
                "names": [{"cp": p, "name": name(p), "bytes": list(name(p).encode())} for p in sorted(set(cps))]}

    jobs = []
    B = lambda x: list(x.encode())
    for a in ([], ["help"], ["help", "x"], ["gc"], ["runs"], ["properties"], ["gc", "-x", "a"], ["runs", "-", "a"], ["gc", "--", "-e"], ["runs", "-e", "-e", "ab\tc"],
              ["gc", "a", "-e"], ["gc", "-e", "--", "-x"], ["runs", "--", "-x", "--"], ["gc", ""], ["runs", "", "a"], ["runs", "a b", "\u00e9\u03b1"],
              ["gc", "a\u0301b\t\n\x7f\"\\"], ["gc", "-e", "a\u0301b\t\n\x7f\"\\"]):
        jobs.append({"args": [B(x) for x in a], "tty": 0, "names": []})
    for a in (["U+"], ["properties", "properties"], ["U+110000000"], ["U+UA41"], ["U+U41"], ["U+U+"], ["U+FFFFFFFFFFFFFFFFFF"], ["U+xyz", "U+41"], ["", "U+0"], ["U+41G"], ["U+-1"], ["U+0x41"],
              ["U+000000000041"], ["u+41"], ["properties", "gc"], ["properties", "U+41", "-e"]):
        jobs.append(props([B(x) for x in a], range(128)))
    # every class of code points by number, some by themselves
    todo = [r.choice(v) if not c.thorough else p for v in (tx.classes[k] for k in tx.keys) for p in (v if c.thorough else v[:1]) if p not in known]
    todo = sorted(set(p for p in todo if p not in known) | {0, 0xE000, 0x10FFFF, 0x378, 0x1F600, 0x200D, 0x22})
    for i in range(0, len(todo), 6):
        cps = todo[i:i + 6]
        jobs.append(props([B(("U+%X" if r.random() < .7 else "U+%04x") % p) for p in cps], cps))
    for _ in range(c.pick(300, 4000)):
        cps = [p for p in tx.text(5) if p not in known]
        b = bytearray("".join(map(chr, cps)).encode())
        if r.random() < .3:    # pieces that never complete a character
            b += r.choice([b"\xc3", b"\xe2\x82", b"\x80\xbf", b"\xf0\x9f\x98"])
        if bytes(b[:2]) == b"U+" or bytes(b) in (b"gc", b"runs", b"help", b"properties"):
            continue
        jobs.append(props([B("properties")] * (r.random() < .5 or not b) + [list(b)], cps))
    for i in range(c.pick(2500, 25000)):
        mode = r.choice(["gc", "runs"])
        opts = [B("-e")] * r.choice([0, 0, 0, 1, 1, 2]) + [B("--")] * r.choice([0, 1])
        texts = [tx.bytes(12 if i % 20 else 60) for _ in range(r.choice([1, 1, 2, 3]))]
        jobs.append({"args": [B(mode)] + opts + texts, "tty": 1 if i % 10 == 0 else 0, "names": []})
    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(lambda t: call(tool, t), jobs))
        # the same with the sanitizers
        os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
        some = [i for i in range(len(jobs)) if c.thorough or i % 3 == 0 or i < 40]
        for i, t in zip(some, ex.map(lambda i: call(san, jobs[i]), some)):
            if t != done[i]:
                c.violate({"what": "unicode-query behaves differently under the sanitizers", "args": [bytes(a).decode("latin-1") for a in t["args"]],
                           "got": repr(t)[-3000:], "without": repr(done[i])[-3000:]})
    tr = c.path("tools.ndjson")
    with open(tr, "w") as o:
        for t in done:
            o.write(json.dumps(t) + "\n")
    c.cases += len(done)
    for t in done[20:60:10]:
        c.sample("%r -> %r" % ([bytes(a).decode("latin-1") for a in t["args"]], bytes(t["out"])[:150].decode("latin-1")))
    c.validate("recorded runs of unicode-query", "ToolsTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", tr, env)


CHECKS = {"C27": ("model_checking", c27)}
