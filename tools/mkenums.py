#!/usr/bin/env python3
"""Writes harness/enums.inc: the enumerations and their members, derived from the UCD files (not from the library)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ucd

SKIP = {"Script", "General_Category", "EastAsianWidth", "Age", "Block"}


def ident(s):
    return s.replace(" ", "_").replace("-", "_")


def enums():
    """{enum name: members}"""
    out = {}
    out["Plane"] = ["Basic_Multilingual_Plane", "Supplementary_Ideographic_Plane", "Supplementary_Multilingual_Plane",
                    "Supplementary_Private_Use_Area_Plane", "Supplementary_Special_purpose_Plane",
                    "Tertiary_Ideographic_Plane", "Unassigned"]
    out["Age"] = ["Unassigned"] + [v for v in ucd.aliases()["age"].values() if v != "Unassigned"]
    long = None
    pva = {}
    for line in open(os.path.join(ucd.DIR, "PropertyValueAliases.txt"), encoding="utf-8"):
        m = re.match(r"# (\w+) \(\w+\)$", line.strip())
        if m:
            long = m.group(1)
        elif line.strip() and not line.startswith("#"):
            p = [x.strip() for x in line.split("#")[0].split(";")]
            if len(p) >= 3:
                # canonical combining class lines carry a number in front
                pva.setdefault(long, []).append(p[2].split()[0])
    for name, vals in sorted(pva.items()):
        if set(vals) == {"Yes", "No"} or name in SKIP:
            continue
        out[name] = (["Undefined"] if name == "Grapheme_Cluster_Break" else []) + sorted(set(vals))
    out["Core_Property"] = sorted(ucd.binaries("DerivedCoreProperties.txt"))
    out["General_Category"] = ["Unspecified"] + sorted({v for _, _, v in ucd.gc()} | {"Unassigned"})
    out["Script"] = ["Invalid", "Unknown", "Common"] + sorted({v for _, _, v in ucd.script()} - {"Common", "Unknown"})
    out["Block"] = ["Unspecified"] + sorted(ident(v) for _, _, v in ucd.enumerated("Blocks.txt"))
    out["EastAsianWidth"] = ["Ambiguous", "FullWidth", "HalfWidth", "Neutral", "Narrow", "Wide", "Unspecified"]
    out["PresentationStyle"] = ["Text", "Emoji"]
    out["EmojiSegmentationCategory"] = [
        "Invalid", "Emoji", "EmojiTextPresentation", "EmojiEmojiPresentation", "EmojiModifierBase", "EmojiModifier",
        "EmojiVSBase", "RegionalIndicator", "KeyCapBase", "CombiningEnclosingKeyCap", "CombiningEnclosingCircleBackslash",
        "ZWJ", "VS15", "VS16", "TagBase", "TagSequence", "TagTerm"]
    return out


def write(path):
    with open(path, "w") as f:
        f.write("// written by tools/mkenums.py\n")
        for e, ms in enums().items():
            for m in ms:
                f.write("E(%s, %s)\n" % (e, ident(m)))
        f.write("#ifdef G\n")
        for m in enums()["General_Category"][1:]:
            f.write("G(%s, %s)\n" % (m.lower(), m))
        f.write("#endif\n")
        f.write("#ifdef C\n")
        for m in enums()["Core_Property"]:
            f.write("C(%s)\n" % m)
        f.write("#endif\n")


if __name__ == "__main__":
    write(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "enums.inc"))
