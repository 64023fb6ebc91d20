"""Independent reader of the Unicode Character Database files: raw range data for the specifications."""
import os, re, functools

DIR = os.environ.get("VERIF_UCD", "/usr/share/unicode")
MAX = 0x10FFFF


def _lines(name):
    with open(os.path.join(DIR, name), encoding="utf-8") as f:
        for line in f:
            line = line.split("#", 1)[0].strip()
            if line and not line.startswith("@"):
                yield [p.strip() for p in line.split(";")]


def _rng(s):
    a, _, b = s.partition("..")
    return int(a, 16), int(b or a, 16)


@functools.lru_cache(None)
def enumerated(name, field=1):
    """[(lo, hi, value)] sorted, for files with one value per code point."""
    out = []
    for p in _lines(name):
        if len(p) > field:
            lo, hi = _rng(p[0])
            if hi <= MAX:
                out.append((lo, hi, p[field]))
    out.sort()
    return out


@functools.lru_cache(None)
def binaries(name):
    """{property: [(lo, hi)]} for files that list several binary properties."""
    out = {}
    for p in _lines(name):
        if len(p) == 2 and _rng(p[0])[1] <= MAX:
            out.setdefault(p[1], []).append(_rng(p[0]))
    for v in out.values():
        v.sort()
    return out


@functools.lru_cache(None)
def incb():
    out = []
    for p in _lines("DerivedCoreProperties.txt"):
        if len(p) == 3 and p[1] == "InCB":
            lo, hi = _rng(p[0])
            if hi <= MAX:
                out.append((lo, hi, p[2]))
    out.sort()
    return out


@functools.lru_cache(None)
def aliases():
    """{property short name: {short value: long value}}"""
    out = {}
    for p in _lines("PropertyValueAliases.txt"):
        if len(p) >= 3:
            out.setdefault(p[0], {})[p[1]] = p[2]
    return out


def gcb():
    return enumerated("auxiliary/GraphemeBreakProperty.txt")


def wb():
    return enumerated("auxiliary/WordBreakProperty.txt")


def gc():
    a = aliases()["gc"]
    return [(lo, hi, a[v]) for lo, hi, v in enumerated("extracted/DerivedGeneralCategory.txt")]


def gc_short():
    return enumerated("extracted/DerivedGeneralCategory.txt")


def eaw():
    a = aliases()["ea"]
    return [(lo, hi, a[v]) for lo, hi, v in enumerated("EastAsianWidth.txt")]


def script():
    return enumerated("Scripts.txt")


def script_ext():
    a = aliases()["sc"]
    return [(lo, hi, tuple(a[x] for x in v.split())) for lo, hi, v in enumerated("ScriptExtensions.txt")]


def age():
    a = aliases()["age"]
    return [(lo, hi, a[v]) for lo, hi, v in enumerated("DerivedAge.txt")]


def emoji(prop):
    return binaries("emoji/emoji-data.txt")[prop]


def core(prop):
    return binaries("DerivedCoreProperties.txt")[prop]


@functools.lru_cache(None)
def unicode_data():
    """{cp: fields}; First/Last pairs are not expanded (they carry no mapping, no ccc, no mirroring)."""
    out = {}
    with open(os.path.join(DIR, "UnicodeData.txt"), encoding="utf-8") as f:
        for line in f:
            p = line.rstrip("\n").split(";")
            out[int(p[0], 16)] = p
    return out


def cps(s):
    return [int(x, 16) for x in s.split()]


@functools.lru_cache(None)
def variation_bases():
    return sorted({int(p[0].split()[0], 16) for p in _lines("emoji/emoji-variation-sequences.txt")})


def singles(cplist):
    return [(c, c) for c in cplist]


def merge(ranges):
    """Sorted union of (lo, hi) ranges."""
    out = []
    for lo, hi in sorted(ranges):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return out


class Prop:
    """A property as a step function: default plus (lo, hi, value) ranges (later ranges win)."""

    def __init__(self, ranges, default):
        self.default = default
        self.ranges = [(r[0], r[1], r[2] if len(r) > 2 else True) for r in ranges]

    def edges(self):
        for lo, hi, _ in self.ranges:
            yield lo
            yield hi + 1


def cells(props, limit=MAX):
    """Partition of 0..limit into maximal cells on which every property is constant: [(lo, hi, (values...))]."""
    edges = {0, limit + 1}
    for p in props:
        edges.update(p.edges())
    edges = sorted(e for e in edges if e <= limit + 1)
    index = {e: i for i, e in enumerate(edges)}
    cols = []
    for p in props:
        col = [p.default] * (len(edges) - 1)
        for lo, hi, v in p.ranges:
            for i in range(index[lo], index[hi + 1]):
                col[i] = v
        cols.append(col)
    out = []
    for i in range(len(edges) - 1):
        v = tuple(c[i] for c in cols)
        if out and out[-1][2] == v:
            out[-1] = (out[-1][0], edges[i + 1] - 1, v)
        else:
            out.append((edges[i], edges[i + 1] - 1, v))
    return out


def classes(cs):
    """Distinct values of the cells, in order of appearance, and the cells with class numbers."""
    seen = {}
    rows = []
    for lo, hi, v in cs:
        rows.append((lo, hi, seen.setdefault(v, len(seen))))
    return list(seen), rows
