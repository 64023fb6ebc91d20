#!/usr/bin/env python3
"""altucd.py SRC DEST SEED: writes a directory of Unicode data files as another version of Unicode could have them.

Every kind of change between two versions of Unicode occurs: new characters (in holes of existing blocks and planes, and in a
new block) with every combination of properties some existing character has, among them new case pairs, special casings,
compositions, exclusions, decompositions, marks, emoji, jamo, brackets; characters whose width, script, extensions, age,
break properties, names change; a new script, age, block and core property; ranges cut into parts.
The new characters are copies of existing ones in every file, and mappings within a group of characters copied together lead
to the copies, so that the files stay consistent with each other.
"""
import os, random, re, shutil, sys

RANGES = ["extracted/DerivedGeneralCategory.txt", "extracted/DerivedName.txt", "DerivedAge.txt", "Scripts.txt", "ScriptExtensions.txt",
          "EastAsianWidth.txt", "auxiliary/GraphemeBreakProperty.txt", "auxiliary/WordBreakProperty.txt", "DerivedCoreProperties.txt",
          "IndicSyllabicCategory.txt", "HangulSyllableType.txt", "emoji/emoji-data.txt", "DerivedNormalizationProps.txt",
          "CompositionExclusions.txt", "SpecialCasing.txt", "CaseFolding.txt", "BidiMirroring.txt", "emoji/emoji-variation-sequences.txt"]
MAPPING = {"DerivedNormalizationProps.txt", "SpecialCasing.txt", "CaseFolding.txt", "BidiMirroring.txt"}
SPLIT = {"extracted/DerivedGeneralCategory.txt", "DerivedAge.txt", "Scripts.txt", "ScriptExtensions.txt", "EastAsianWidth.txt",
         "auxiliary/GraphemeBreakProperty.txt", "auxiliary/WordBreakProperty.txt", "DerivedCoreProperties.txt",
         "IndicSyllabicCategory.txt", "emoji/emoji-data.txt", "DerivedNormalizationProps.txt", "HangulSyllableType.txt"}
LINE = re.compile(r"^([0-9A-F]{4,6})(?:\.\.([0-9A-F]{4,6}))?(.*)$")

# groups of characters copied together
FIXED = [
    [0x41, 0x61], [0x1C4, 0x1C5, 0x1C6], [0xDF, 0x1E9E], [0x149], [0x49, 0x69, 0x130, 0x131], [0xFB03],
    [0x1F88, 0x1F80, 0x1F08, 0x1F00, 0x391, 0x3B1, 0x345], [0x45, 0x65, 0xC9, 0xE9], [0x6F, 0x4F, 0xF3, 0xD3, 0x301],
    [0x212B], [0x2126], [0xF900], [0xFB01], [0x2460], [0xFF21, 0xFF41], [0x958], [0xF73], [0x344], [0x1D15E], [0x2ADC], [0xFDFA],
    [0x1E9B, 0x17F], [0x10D0, 0x1C90], [0x13A0, 0xAB70], [0x24B6, 0x24D0], [0x10400, 0x10428], [0x1E900, 0x1E922],
    [0x3A3, 0x3C3, 0x3C2], [0x28, 0x29], [0x226A, 0x226B], [0x2208, 0x220B],
    [0x1F600], [0x231A], [0x263A], [0x1F44D], [0x1F1E6], [0x1F466], [0x2764], [0x1F004], [0x1F320],
    [0x316], [0x93F], [0x94D], [0x915], [0x600], [0x110BD], [0xE33], [0x20DD], [0x334], [0x5B0], [0x64B], [0x1171F], [0x1039], [0x111C2],
    [0x1100], [0x1160], [0xD7B0], [0xD7CB], [0x115F], [0x5D0], [0x30A2], [0x660], [0xB7], [0x2044], [0x203F], [0x2003],
    [0xAD], [0x61C], [0x2028], [0x85], [0x180E], [0x180B], [0xE0100], [0x3164], [0xFF9E],
    [0xBC], [0xFE32], [0xFE50], [0x2080], [0xA0], [0xFE8D], [0xFE8E], [0xFEDF], [0xFEE0], [0x2E9F], [0x317],
    [0x951], [0x3001], [0x1CF7], [0x102E0], [0x2F00], [0x3300], [0x20A9], [0xFFE0], [0x3000], [0x1D400], [0x1E030],
]


def cps(text):
    return [int(x, 16) for x in text.split()]


class Source:
    """The files that are read, as they are."""

    def __init__(self, d):
        self.d = d
        self.ud = {}
        self.spans = []
        first = 0
        for line in open(os.path.join(d, "UnicodeData.txt"), encoding="utf-8"):
            f = line.rstrip("\n").split(";")
            self.ud[int(f[0], 16)] = f
            if f[1].endswith(", First>"):
                first = int(f[0], 16)
            elif f[1].endswith(", Last>"):
                self.spans.append((first, int(f[0], 16)))

    def free(self, lo, hi):
        taken = self.ud
        return [c for c in range(lo, hi) if c not in taken and not any(a <= c <= b for a, b in self.spans)
                and not 0xD800 <= c < 0xE000 and not 0xFDD0 <= c < 0xFDF0 and c & 0xFFFE != 0xFFFE]


def plan(src, rng):
    """([{template: new}], {file: {existing: template}})"""
    low = src.free(0x370, 0x10000)
    pools = [low, low, low, src.free(0x10000, 0x12000), src.free(0x1E000, 0x20000), src.free(0x2FA20, 0x2FB00),
             src.free(0x323B0, 0x32600), src.free(0x40000, 0x40400), src.free(0xE0080, 0xE0100), src.free(0xE1000, 0xE1020),
             src.free(0xEFF00, 0xF0000)]
    used = set()

    def fresh():
        while True:
            c = rng.choice(rng.choice(pools))
            if c not in used:
                used.add(c)
                return c

    groups = [{t: fresh() for t in g} for g in FIXED]
    inspan = lambda c: any(a <= c <= b for a, b in src.spans)
    plain = [c for c, f in src.ud.items() if not inspan(c) and not f[5] and not f[12] and not f[13] and not f[14] and f[3] == "0"
             and 0xA0 < c < 0xE0000 and not 0x1100 <= c < 0x1200 and c not in (0x200D, 0x200C, 0x20E3, 0x20E0, 0x1F3F4)
             and not 0xFE00 <= c < 0xFE10]
    # characters that take part in no mapping of another one
    part = {x for f in src.ud.values() if f[5] for x in cps(re.sub("<.*>", "", f[5]))}
    plain = [c for c in plain if c not in part]
    for t in rng.sample(plain, 30):
        groups.append({t: fresh()})
    # long stretches of equal characters
    for t in rng.sample(plain, 3):
        start = rng.choice(src.free(0x50000, 0x50400))
        for i in range(rng.choice((1, 40, 300))):
            if start + i not in used:
                used.add(start + i)
                groups.append({t: start + i})
    # changed characters: one file each
    recoat = {}
    letters = [c for c in plain if src.ud[c][2] in ("Lo", "So", "Sm", "Po")]
    for f, n in (("EastAsianWidth.txt", 30), ("DerivedAge.txt", 30), ("auxiliary/WordBreakProperty.txt", 20),
                 ("IndicSyllabicCategory.txt", 15)):
        recoat[f] = {rng.choice(letters): rng.choice(plain) for _ in range(n)}
    pairs = {rng.choice(letters): rng.choice(plain) for _ in range(25)}
    recoat["Scripts.txt"] = pairs
    recoat["ScriptExtensions.txt"] = pairs
    sym = [c for c in letters if src.ud[c][2] in ("So", "Sm", "Po")]
    recoat["gc"] = {rng.choice(sym): rng.choice(sym) for _ in range(20)}
    recoat["name"] = {c: "ALTERED NAME %X" % c for c in rng.sample(plain, 20)}
    return groups, recoat


class Rewriter:
    def __init__(self, src, groups, recoat, rng):
        self.src, self.rng, self.recoat = src, rng, recoat
        self.copies = {}      # template -> [(new, group)]
        self.new = {}         # new -> template
        for g in groups:
            for t, n in g.items():
                self.copies.setdefault(t, []).append((n, g))
                self.new[n] = t

    def name(self, new, text):
        pattern = re.match(r"(.*-)[0-9A-F]{4,6}$", text)
        return "%s%04X" % (pattern.group(1), new) if pattern and text.startswith("CJK") else "%s ALT-%X" % (text, new)

    def mapped(self, text, g):
        return re.sub(r"\b[0-9A-F]{4,6}\b", lambda m: "%04X" % g.get(int(m.group(0), 16), int(m.group(0), 16)), text)

    def block(self, name, lines):
        """One run of data lines."""
        recoat = dict(self.recoat.get(name, {}))
        if name == "extracted/DerivedGeneralCategory.txt":
            recoat.update(self.recoat["gc"])
        renamed = self.recoat["name"] if name == "extracted/DerivedName.txt" else {}
        gone = set(self.new) | set(recoat) | set(renamed)
        back = {}
        for x, t in recoat.items():
            back.setdefault(t, []).append(x)
        items = []
        for line in lines:
            m = LINE.match(line)
            lo, hi, rest = int(m.group(1), 16), int(m.group(2) or m.group(1), 16), m.group(3)
            cut = [lo - 1] + [c for c in self.gone_sorted(name, gone) if lo <= c <= hi] + [hi + 1]
            for a, b in zip(cut, cut[1:]):
                if a + 1 <= b - 1:
                    items += self.parts(name, a + 1, b - 1, rest)
            for t in self.interesting(name, back, lo, hi):
                for n, g in self.copies.get(t, ()):
                    r = rest
                    if name in MAPPING:
                        body, h, com = rest.partition("#")
                        r = self.mapped(body, g) + h + com
                    if name == "extracted/DerivedName.txt":
                        r = rest if "*" in rest else self.name(n, rest)
                    items.append((n, n, r))
                for n in back.get(t, ()):
                    items.append((n, n, rest))
            for c in renamed:
                if lo <= c <= hi:
                    items.append((c, c, " ; " + renamed[c]))
        keys = [int(LINE.match(l).group(1), 16) for l in lines]
        if keys == sorted(keys):
            items.sort(key=lambda i: i[0])
        return ["%04X%s" % (a, r) if a == b else "%04X..%04X%s" % (a, b, r) for a, b, r in items]

    def gone_sorted(self, name, gone):
        if getattr(self, "_gk", None) != name:
            self._gk, self._gs = name, sorted(gone)
        return self._gs

    def interesting(self, name, back, lo, hi):
        if getattr(self, "_ik", None) != name:
            self._ik, self._is = name, sorted(set(self.copies) | set(back))
        import bisect
        return self._is[bisect.bisect_left(self._is, lo):bisect.bisect_right(self._is, hi)]

    def parts(self, name, lo, hi, rest):
        if name in SPLIT and hi - lo > 1 and self.rng.random() < 0.1:
            cut = self.rng.randint(lo, hi - 1)
            return [(lo, cut, rest), (cut + 1, hi, rest)]
        return [(lo, hi, rest)]

    def file(self, name):
        out, run = [], []
        for line in open(os.path.join(self.src.d, name), encoding="utf-8"):
            line = line.rstrip("\n")
            if LINE.match(line):
                run.append(line)
                continue
            if run and (line or name.startswith("emoji/")):
                out += self.block(name, run)
                run = []
            elif run:      # blank lines within a run
                continue
            out.append(line)
        if run:
            out += self.block(name, run)
        return out

    def unicode_data(self):
        ud = dict(self.src.ud)
        for n, t in self.new.items():
            f = list(self.src.ud[t])
            g = next(g for m, g in self.copies[t] if m == n)
            f[0] = "%04X" % n
            f[1] = f[1] if f[1].startswith("<") else self.name(n, f[1])
            for i in (5, 12, 13, 14):
                tag = re.match(r"<\w+> ", f[i])
                tag = tag.group(0) if tag else ""
                f[i] = tag + self.mapped(f[i][len(tag):], g)
            if t == 0xFDFA:          # longer than any so far
                f[5] += " 0020 0041 0300 0316 0042 FF21"
            if t in (0x316, 0x317):  # another combining class
                f[3] = str(self.rng.choice((2, 5, 41, 137, 199, 215, 225, 241, 254)))
            ud[n] = f
        for x, t in self.recoat["gc"].items():
            ud[x] = list(ud[x])
            ud[x][2] = self.src.ud[t][2]
        for x, s in self.recoat["name"].items():
            ud[x] = list(ud[x])
            ud[x][1] = s
        return [";".join(ud[c]) for c in sorted(ud)]


def extras(rw, texts, rng):
    """A new script, block, age, and core property for some of the new characters."""
    news = sorted(rw.new)

    def take(name, cs, line, header):
        """Moves the code points into a section of their own in a file with one value per code point."""
        out = []
        for l in texts[name]:
            m = LINE.match(l)
            if m and int(m.group(1), 16) in cs and not m.group(2):
                continue
            out.append(l)
        at = len(out)
        while at and not LINE.match(out[at - 1]):
            at -= 1
        texts[name] = out[:at] + ["", "# ================================================", ""] + header + \
            ["%04X          ; %s # ALT" % (c, line) for c in sorted(cs)] + ["", "# Total code points: %d" % len(cs), ""] + out[at:]

    plainscript = {n for n, t in rw.new.items() if rw.src.ud[t][2] == "Lo"}
    new_script = {n for n in plainscript if rng.random() < 0.4} or plainscript
    take("Scripts.txt", new_script, "Mediant_Letters", [])
    take("DerivedAge.txt", {n for n in news if rng.random() < 0.5}, "16.0", [])
    pva = texts["PropertyValueAliases.txt"]
    out = []
    for l in pva:
        if re.match(r"sc ; Zanb\b", l):
            out.append("sc ; Medi                             ; Mediant_Letters")
        if re.match(r"age; NA\b", l):
            out.append("age; 16.0                             ; V16_0")
        if re.match(r"blk; Zanabazar_Square\b", l):
            out.append("blk; Median_Block                     ; Median_Block")
        if re.match(r"WB ; CR\b", l):     # declared, not (yet) used
            out.append("WB ; BL                               ; Bound_Letter")
        if re.match(r"GCB; CR\b", l):
            out.append("GCB; BE                               ; Bound_Extend")
        if re.match(r"InCB; Extend\b", l):
            out.append("InCB; Bound                           ; Bound")
        if re.match(r"InSC; Virama\b", l):
            out.append("InSC; Upper_Virama                    ; Upper_Virama")
        out.append(l)
    texts["PropertyValueAliases.txt"] = out
    blocks = texts["Blocks.txt"]
    at = next(i for i, l in enumerate(blocks) if l.startswith("E0000.."))
    texts["Blocks.txt"] = blocks[:at] + ["40000..402FF; Median Block", "50000..507FF; Second-Median Block A"] + blocks[at:]
    core = texts["DerivedCoreProperties.txt"]
    at = len(core) - 1
    while not LINE.match(core[at]):
        at -= 1
    some = sorted(rng.sample(sorted(rw.src.ud), 40))
    texts["DerivedCoreProperties.txt"] = core[:at + 1] + ["", "# Total code points: 1", "", "# ===", "", "# Derived Property: Median_Start", ""] + \
        ["%04X          ; Median_Start # ALT" % c for c in some] + ["", "# Total code points: %d" % len(some)] + core[at + 1:]


def layout(texts, rng, seed):
    """What means nothing: ends of lines, blanks around fields, comments, and lines about what no code point is."""
    crlf = set(texts) if str(seed)[-1:] in "13579" else set(rng.sample(sorted(texts), len(texts) // 3))
    for n, lines in texts.items():
        if n in ("UnicodeData.txt", "extracted/DerivedName.txt", "PropertyValueAliases.txt", "Blocks.txt"):
            continue
        out = []
        for l in lines:
            m = LINE.match(l)
            if m and rng.random() < 0.01:
                out.append("# a remark; with ; 0041..0042 ; fields")
            if m and n in SPLIT and n != "DerivedNormalizationProps.txt" and rng.random() < 0.003:
                a = 0x110000 + rng.choice((0, 0, 1, 0xFFFF))
                out.append("%04X..%04X" % (a, a + rng.choice((0, 1, 0xFE, 0xFFFF))) + m.group(3))
            if m and n in SPLIT and ";" in m.group(3) and rng.random() < 0.05:
                a, _, b = l.partition(";")
                l = a.rstrip() + "\t;\t" + b.strip()
            out.append(l)
        texts[n] = out
    return crlf


def write(srcdir, dest, seed):
    rng = random.Random("altucd-%s" % seed)
    src = Source(srcdir)
    groups, recoat = plan(src, rng)
    rw = Rewriter(src, groups, recoat, rng)
    texts = {n: rw.file(n) for n in RANGES}
    texts["UnicodeData.txt"] = rw.unicode_data()
    for n in ("PropertyValueAliases.txt", "Blocks.txt"):
        texts[n] = open(os.path.join(srcdir, n), encoding="utf-8").read().split("\n")
    extras(rw, texts, rng)
    crlf = layout(texts, rng, seed)
    shutil.rmtree(dest, ignore_errors=True)
    for root, dirs, files in os.walk(srcdir):
        rel = os.path.relpath(root, srcdir)
        os.makedirs(os.path.join(dest, rel), exist_ok=True)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r in texts:
                with open(os.path.join(dest, r), "w", encoding="utf-8", newline="\r\n" if r in crlf else "\n") as o:
                    o.write("\n".join(texts[r]) + "\n")
            else:
                os.symlink(os.path.join(root, f), os.path.join(dest, r))
    return rw


if __name__ == "__main__":
    r = write(sys.argv[1], sys.argv[2], sys.argv[3])
    print(len(r.new), "new characters")
