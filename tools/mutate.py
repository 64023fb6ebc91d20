#!/usr/bin/env python3
"""Development tool: random small mutants of the sources; which survive the tests, and which of those the checks catch.

mutate.py LANE COUNT SEED [FILE...]  works in /tmp/mut/<LANE>/{repo,verif}; results in /tmp/mut/log-<LANE>.jsonl.
No check uses this."""
import json, os, random, re, subprocess, sys, shutil, time

L = "src/libunicode/"
MAP = {
    L + "grapheme_segmenter.cpp": ["C05"], L + "grapheme_segmenter.h": ["C05", "C28"], L + "word_segmenter.cpp": ["C07"], L + "word_segmenter.h": ["C07", "C28"],
    L + "utf8.cpp": ["C02", "C01"], L + "utf8.h": ["C03", "C01", "C02"], L + "convert.h": ["C01", "C03"], L + "convert.cpp": ["C03", "C01"],
    L + "convert_simd_impl.h": ["C03", "C01", "C04"], L + "scan.cpp": ["C10", "C11", "C12", "C04"], L + "scan.h": ["C10", "C11", "C12"],
    L + "scan_simd_impl.h": ["C12", "C10", "C11", "C04"], L + "width.cpp": ["C09", "C08"], L + "width.h": ["C09", "C08"],
    L + "normalization.cpp": ["C13", "C14", "C15", "C24"], L + "case_mapping.cpp": ["C16", "C17"], L + "emoji_segmenter.cpp": ["C18"],
    L + "emoji_segmenter.h": ["C18", "C25", "C28"], L + "emoji_presentation_scanner.c": ["C18"], L + "script_segmenter.cpp": ["C19"], L + "script_segmenter.h": ["C19", "C28"],
    L + "run_segmenter.h": ["C20", "C28"], L + "utf8_grapheme_segmenter.h": ["C06", "C28"], L + "capi.cpp": ["C23"], L + "capi.h": ["C23"],
    L + "codepoint_properties.cpp": ["C21", "C25"], L + "codepoint_properties.h": ["C21", "C25", "C22"],
    L + "multistage_table_generator.h": ["C26"], L + "multistage_table_view.h": ["C26", "C21"], "src/tools/unicode-query.cpp": ["C27"],
    L + "intrinsics.h": ["C12", "C10", "C03", "C04"], L + "ucd_private.h": ["C22"],
}
TG = L + "tablegen/"
GEN = {"width_generator": ["C08"], "case_norm": ["C16", "C14", "C13", "C17"], "multistage": ["C21", "C26", "C08"], "names": ["C25"], "ucd_api": ["C22", "C21"]}

OPS = [
    (r"(?<![<>=!\-+&|])<(?![<=])(?=\s)", ["<="]), (r"(?<=\s)>(?![>=])(?=\s)", [">="]), (r"<=(?!>)", ["<"]), (r">=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&(?=\s|$)", ["||"]), (r"\|\|", ["&&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"\+\+", ["--"]), (r"(?<=\s)\+=(?=\s)", ["-=", "="]), (r"(?<=\s)\|=(?=\s)", ["=", "&="]),
    (r"(?<=\s)&(?=\s)", ["|"]), (r"(?<=\s)\|(?=\s)", ["&"]), (r"<<(?=\s*\d)", [">>"]), (r">>(?=\s*\d)", ["<<"]), (r"(?<=[(\s])!(?=[a-zA-Z_(])", [""]),
    (r"\b0x[0-9A-Fa-f']+\b", ["+1", "-1"]), (r"\b\d+\b(?![.'])", ["+1", "-1"]), (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]),
    (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"\breturn true;", ["return false;"]), (r"\belse if \(", ["if ("]),
]


def sh(cmd, cwd=None, timeout=1500, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})))
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def code_lines(text):
    """Numbers of lines that are code (no comments, no preprocessor, no includes)."""
    out, block = [], False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if block:
            block = "*/" not in s
            continue
        if s.startswith("/*"):
            block = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "namespace", "using ", "template", "static_assert", "assert(", "}")):
            continue
        out.append(i)
    return out


def mutants(path, text, rng, n):
    lines = text.split("\n")
    allm = []
    for i in code_lines(text):
        l = lines[i]
        cut = l.find("//")
        body = l if cut < 0 else l[:cut]
        for pat, reps in OPS:
            for m in re.finditer(pat, body):
                if body[:m.start()].count('"') % 2:
                    continue
                for r in reps:
                    if r in ("+1", "-1") and pat.startswith(r"\b"):
                        v = m.group(0)
                        if not v.startswith("0x") and len(v) > 1 and v.startswith("0"):
                            continue
                        num = int(v.replace("'", ""), 0) + (1 if r == "+1" else -1)
                        if num < 0:
                            continue
                        r2 = hex(num) if v.startswith("0x") else str(num)
                    else:
                        r2 = r
                    allm.append((i, l[:m.start()] + r2 + l[m.end():]))
        s = body.strip()
        if s.endswith(";") and not re.match(r"(return|auto|const|static|int|bool|size_t|using|struct|char|constexpr|uint|std::|break|continue|[A-Za-z_:<>]+ (const )?\w+( =|;|\{))", s) and s.count("(") == s.count(")"):
            allm.append((i, re.match(r"\s*", l).group(0) + ";"))
        if s.startswith("if (") and s.endswith(")"):
            allm.append((i, l.replace("if (", "if (false && (", 1) + ")"))
    rng.shuffle(allm)
    return allm[:n]


def checks_for(f):
    if f in MAP:
        return MAP[f]
    for k, v in GEN.items():
        if k in f:
            return v
    return ["C21", "C22", "C08", "C16", "C14", "C25", "C26"]


def main():
    lane, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    d = "/tmp/mut/" + lane
    repo, ver = d + "/repo", d + "/verif"
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(repo):
        sh("git clone -q /repo %s" % repo)
    sh("git fetch -q origin && git reset -q --hard origin/HEAD && git checkout -q -- . ", repo)
    sh("git -C %s pull -q" % repo)
    sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/build.sh; sed 's#/repo#%s#g' /opt/vp/run_cases.py > %s/cases.py" % (repo, d, repo, d))
    rc, log = sh("bash %s/build.sh" % d)
    if rc:
        print(log[-2000:])
        return
    os.makedirs(ver, exist_ok=True)
    for x in ("tools", "checks", "spec", "harness"):
        shutil.rmtree(ver + "/" + x, ignore_errors=True)
        shutil.copytree("/verif/" + x, ver + "/" + x)
    shutil.copy("/verif/known_findings.txt", ver)
    base = set(x if isinstance(x, str) else x["id"] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"])
    files = sys.argv[4:] or sorted(MAP)
    rng = random.Random(seed)
    todo = []
    per = max(1, count // len(files))
    for f in files:
        text = open(os.path.join(repo, f)).read()
        for i, new in mutants(f, text, random.Random("%s-%d" % (f, seed)), per):
            todo.append((f, i, new))
    rng.shuffle(todo)
    out = open("/tmp/mut/log-%s.jsonl" % lane, "a")
    stats = {}
    for f, i, new in todo:
        p = os.path.join(repo, f)
        orig = open(p).read()
        lines = orig.split("\n")
        old = lines[i]
        lines[i] = new
        t0 = time.time()
        open(p, "w").write("\n".join(lines))
        rec = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        try:
            if "tablegen" in f or "multistage_table_generator" in f:
                rc, log = sh("bash %s/build.sh" % d, timeout=400)
            else:
                rc, log = sh("ninja -C %s/_build -j8 unicode_test" % repo, timeout=400)
                if rc == 0 and "tools/" in f:
                    rc, log = sh("ninja -C %s/_build -j8 unicode-query" % repo, timeout=400)
            if rc:
                rec["status"] = "nobuild"
            else:
                rc, log = sh("timeout 100 python3 %s/cases.py %s/_build/src/libunicode/unicode_test 2>/dev/null" % (d, repo))
                if base - set(l[5:] for l in log.splitlines() if l.startswith("PASS ")):
                    rec["status"] = "tests"
                else:
                    rec["status"] = "MISSED"
                    for c in checks_for(f):
                        rc, log = sh("python3 tools/check.py " + c, ver, env={"VERIF_REPO": repo, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, timeout=900)
                        if rc == 1 and "VIOLATION" in log:
                            rec["status"] = "caught"
                            rec["by"] = c
                            break
                        if rc not in (0, 1):
                            rec.setdefault("odd", []).append((c, rc, log[-300:]))
        finally:
            open(p, "w").write(orig)
        rec["t"] = round(time.time() - t0)
        stats[rec["status"]] = stats.get(rec["status"], 0) + 1
        out.write(json.dumps(rec) + "\n")
        out.flush()
        if rec["status"] == "MISSED":
            print(json.dumps(rec), flush=True)
        for x in os.listdir("/tmp"):
            if x.startswith("tlc-"):
                q = os.path.join("/tmp", x)
                try:
                    if time.time() - os.path.getmtime(q) > 1800:
                        shutil.rmtree(q, ignore_errors=True)
                except OSError:
                    pass
    print(stats)


if __name__ == "__main__":
    main()
