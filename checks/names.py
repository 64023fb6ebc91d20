"""C25: names, texts of enumerators, versions (spec/Names*.tla)."""
import json, re

import common
import ucd

# rule NR2: ranges UnicodeData.txt gives by First/Last, and the prefixes of their names
PREFIX = {"CJK Ideograph": "CJK UNIFIED IDEOGRAPH-", "Tangut Ideograph": "TANGUT IDEOGRAPH-"}
# ranges DerivedName.txt describes by a pattern; the recorded finding is about exactly these
KNOWN = [(0x3400, 0x4DBF, "CJK UNIFIED"), (0x4E00, 0x9FFF, "CJK UNIFIED"), (0xF900, 0xFA6D, "CJK COMPATIBILITY"),
         (0xFA70, 0xFAD9, "CJK COMPATIBILITY"), (0x17000, 0x187F7, "TANGUT"), (0x18B00, 0x18CD5, "KHITAN"),
         (0x18D00, 0x18D08, "TANGUT"), (0x1B170, 0x1B2FB, "NUSHU"), (0x20000, 0x2A6DF, "CJK UNIFIED"),
         (0x2A700, 0x2B739, "CJK UNIFIED"), (0x2B740, 0x2B81D, "CJK UNIFIED"), (0x2B820, 0x2CEA1, "CJK UNIFIED"),
         (0x2CEB0, 0x2EBE0, "CJK UNIFIED"), (0x2EBF0, 0x2EE5D, "CJK UNIFIED"), (0x2F800, 0x2FA1D, "CJK COMPATIBILITY"),
         (0x30000, 0x3134A, "CJK UNIFIED"), (0x31350, 0x323AF, "CJK UNIFIED")]
TEXT = {"CJK UNIFIED": "CJK UNIFIED IDEOGRAPH-*", "CJK COMPATIBILITY": "CJK COMPATIBILITY IDEOGRAPH-*",
        "TANGUT": "TANGUT IDEOGRAPH-*", "KHITAN": "KHITAN SMALL SCRIPT CHARACTER-*", "NUSHU": "NUSHU CHARACTER-*"}


def data():
    runs, ranges, first = [], [], {}
    for cp, f in sorted(ucd.unicode_data().items()):
        n = f[1]
        m = re.match(r"<(.*), (First|Last)>$", n)
        if m:
            if m.group(2) == "First":
                first[m.group(1)] = cp
            else:
                for k, p in PREFIX.items():
                    if m.group(1).startswith(k):
                        ranges.append({"lo": first[m.group(1)], "hi": cp, "prefix": p})
        elif not n.startswith("<"):
            if runs and runs[-1]["lo"] + len(runs[-1]["names"]) == cp:
                runs[-1]["names"].append(n)
            else:
                runs.append({"lo": cp, "names": [n]})
    jamo = {int(p[0], 16): p[1] for p in ucd._lines("Jamo.txt")}
    j = {"l": [jamo[0x1100 + i] for i in range(19)], "v": [jamo[0x1161 + i] for i in range(21)],
         "t": [""] + [jamo[0x11A8 + i] for i in range(27)]}
    ages = []
    for k, v in ucd.aliases()["age"].items():
        if v != "Unassigned":
            a, b = k.split(".")
            ages.append({"major": int(a), "minor": int(b), "text": k, "ident": v})
    keys = {k for k, _ in common.known_findings("C25")}
    known = [{"lo": a, "hi": b, "text": TEXT[t]} for a, b, t in KNOWN if "name-pattern" in keys]
    if ucd.DIR != "/usr/share/unicode" and known:
        known = [{"lo": a, "hi": b, "text": v} for a, b, v in ucd.enumerated("extracted/DerivedName.txt") if "*" in v]
    return {"runs": runs, "ranges": ranges, "jamo": j, "ages": ages, "known": known}


def c25(c):
    c.build(["ucd"])
    recorded(c)


def recorded(c):
    nf = c.path("names.json")
    json.dump(data(), open(nf, "w"))
    env = {"NAMES": nf}
    c.table("names unique, rules do not overlap", "NamesModel", env)
    for mode in ("names", "enums", "ages"):
        tr = c.path(mode + ".ndjson")
        c.run("ucd", [mode, tr])
        c.sample(open(tr).readline()[:300])
        c.validate("recorded " + mode, "NamesTrace", "INIT Init\nNEXT Next\nINVARIANT Conform\n", tr, env)


CHECKS = {"C25": ("model_checking", c25)}
