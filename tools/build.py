#!/usr/bin/env python3
"""Builds the library and the conformance harnesses from /repo's *current* working tree.

The tree is mirrored (by content) into /verif/.build/tree, so /repo itself is never written to, and is
configured there with the repository's own CMake files (static library, tests off).  Whenever anything that
takes part in table generation or in the build description changed, the mirror is configured from scratch, so
the generated tables always come from the current generator.
"""
import os, sys, shutil, subprocess, hashlib, fcntl, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(VERIF, ".build")
TREE = os.path.join(B, "tree")
GEN = {"ucd.cpp", "ucd.h", "ucd_enums.h", "ucd_fmt.h", "ucd_ostream.h", "case_normalization_data.h",
       "codepoint_properties_data.h", "codepoint_properties_data.cpp", "codepoint_properties_names.cpp"}
SKIP_TOP = {".git", "_build", "build", "out", "_deps", "_ucd", ".cache", "target", "sandbox", ".vscode", ".github"}
UCD = "/usr/share/unicode"
ENUMS = None        # another list of enumerators for the harnesses
ENV = dict(os.environ, CCACHE_DISABLE="1", LC_ALL="C.UTF-8")


class BuildError(Exception):
    pass


def repo_files():
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in SKIP_TOP]
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if os.path.dirname(r) == "src/libunicode" and f in GEN:
                continue
            yield r


def sync():
    """Mirror by content; returns the set of changed relative paths."""
    changed = set()
    want = set()
    for r in repo_files():
        s, d = os.path.join(REPO, r), os.path.join(TREE, r)
        if not os.path.isfile(s):
            continue
        want.add(r)
        with open(s, "rb") as f:
            data = f.read()
        try:
            with open(d, "rb") as f:
                same = f.read() == data
        except OSError:
            same = False
        if not same:
            os.makedirs(os.path.dirname(d), exist_ok=True)
            with open(d, "wb") as f:
                f.write(data)
            changed.add(r)
    for root, dirs, files in os.walk(TREE):
        for f in files:
            r = os.path.normpath(os.path.relpath(os.path.join(root, f), TREE))
            if r in want or (os.path.dirname(r) == "src/libunicode" and f in GEN):
                continue
            os.unlink(os.path.join(TREE, r))
            changed.add(r)
    return changed


def redirect(name, ucd_dir, enums):
    """Everything below is built from other Unicode data, in a directory of its own."""
    global B, TREE, UCD, ENUMS
    B = os.path.normpath(os.path.join(VERIF, ".build", name))
    TREE = os.path.join(B, "tree")
    UCD, ENUMS = ucd_dir, enums


def ucd_changed():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(UCD)):
        for f in sorted(files):
            if not os.path.islink(os.path.join(root, f)):
                h.update(f.encode() + open(os.path.join(root, f), "rb").read())
    p = os.path.join(B, "ucd-hash")
    if os.path.exists(p) and open(p).read() == h.hexdigest():
        return False
    open(p, "w").write(h.hexdigest())
    return True


def needs_fresh(changed):
    for r in changed:
        base = os.path.basename(r)
        if base == "CMakeLists.txt" or r.startswith("cmake/") or base.endswith(".cmake") or base.endswith(".in"):
            return True
        if "tablegen" in r or base.startswith("multistage_table"):
            return True
    return False


def run(cmd, cwd=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-6000:]))
    return p.stdout.decode("utf-8", "replace")


def lib_build(name, targets, extra=()):
    out = os.path.join(B, "lib-" + name)
    if not os.path.exists(os.path.join(out, "build.ninja")):
        shutil.rmtree(out, ignore_errors=True)
        # hide generated files while configuring so that the generator is always part of the build
        src = os.path.join(TREE, "src/libunicode")
        stash = os.path.join(B, "stash")
        shutil.rmtree(stash, ignore_errors=True)
        os.makedirs(stash)
        for g in GEN if name == "simd" else ():
            if os.path.exists(os.path.join(src, g)):
                os.rename(os.path.join(src, g), os.path.join(stash, g))
        try:
            run(["cmake", "-S", TREE, "-B", out, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=g++",
                 "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_FLAGS_RELEASE=-O2", "-DCMAKE_CXX_FLAGS=-Wno-error -w",
                 "-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                 "-DLIBUNICODE_BUILD_STATIC=ON", "-DLIBUNICODE_TESTING=OFF", "-DLIBUNICODE_BENCHMARK=OFF",
                 "-DLIBUNICODE_TOOLS=ON", "-DLIBUNICODE_EXAMPLES=OFF",
                 "-DLIBUNICODE_UCD_DIR=" + UCD, "-DLIBUNICODE_UCD_VERSION=15.1.0", "-Wno-dev", *extra])
        except BuildError:
            shutil.rmtree(out, ignore_errors=True)
            raise
        finally:
            for g in GEN:
                if os.path.exists(os.path.join(stash, g)):
                    os.rename(os.path.join(stash, g), os.path.join(src, g))
    run(["ninja", "-C", out, "-j8", *targets])
    return out


# Memory errors and the undefined behaviour that has an effect (not: alignment, null arguments of memcpy(…, 0), …).
SAN = ("-fsanitize=address,bounds,shift,signed-integer-overflow,integer-divide-by-zero,null,return,unreachable,bool "
       "-fno-sanitize-recover=all")
TSAN = "-fsanitize=thread"
WRAP = "-Wl,--wrap=_ZN7unicode6detail13max_simd_sizeEv"


def static_libs(out):
    libs = sorted(glob.glob(os.path.join(out, "src/libunicode/*.a")))
    libs.sort(key=lambda p: ("ucd" in os.path.basename(p), p))
    return libs


def harness(name, variant="simd"):
    """Compiles harness/<name>.cpp against the given library variant; returns the binary path."""
    out = os.path.join(B, "lib-" + variant)
    src = os.path.join(VERIF, "harness", name + ".cpp")
    obj = os.path.join(B, "h-%s-%s" % (name, variant))
    csrc = src[:-4] + "_client.c"
    deps = [src, *([csrc] if os.path.exists(csrc) else [])] + glob.glob(os.path.join(VERIF, "harness", "*.h")) + static_libs(out) + \
        glob.glob(os.path.join(TREE, "src/libunicode/*.h"))
    if os.path.exists(obj):
        t = os.path.getmtime(obj)
        if all(os.path.getmtime(d) < t for d in deps):
            return obj
    libs = static_libs(out)
    objs = []
    if os.path.exists(csrc):
        objs = [obj + ".o"]
        run(["gcc", "-std=c99", "-O2", "-w", "-I", os.path.join(TREE, "src"), "-I", os.path.join(VERIF, "harness"), "-c", csrc, "-o", objs[0]])
    opt = {"san": ["-O1", "-g1", *SAN.split()], "tsan": ["-O1", "-g1", TSAN]}.get(variant, ["-O2"])
    opt += ["-DVERIF_ENUMS=\"%s\"" % ENUMS] if ENUMS else []
    opt += ["-DVERIF_DETECTOR"] if name == "scan" and variant != "none" and os.uname().machine == "x86_64" else []
    run(["g++", "-std=c++20", *opt, "-w", "-I", os.path.join(TREE, "src"), "-I", os.path.join(VERIF, "harness"), src,
         *objs, "-o", obj, WRAP, "-Wl,--start-group", *libs, "-Wl,--end-group", "-lpthread"])
    return obj


def query_san():
    """unicode-query with the sanitizers (the repository's own build links it statically, which they do not allow)."""
    src, obj = os.path.join(TREE, "src/tools/unicode-query.cpp"), os.path.join(B, "unicode-query-san")
    libs = static_libs(os.path.join(B, "lib-san"))
    if os.path.exists(obj) and all(os.path.getmtime(d) < os.path.getmtime(obj) for d in [src, *libs, *glob.glob(os.path.join(TREE, "src/libunicode/*.h"))]):
        return obj
    run(["g++", "-std=c++20", "-O1", "-g1", *SAN.split(), "-w", "-I", os.path.join(TREE, "src"), src, "-o", obj,
         "-Wl,--start-group", *libs, "-Wl,--end-group", "-lpthread"])
    return obj


def ensure(harnesses=(), variants=("simd",), tools=False):
    """Sync + build. Returns {(name, variant): path}."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        changed = sync()
        marker = os.path.join(B, "incomplete")
        fresh = ENUMS and ucd_changed()
        if fresh or needs_fresh(changed) or os.path.exists(marker):
            for d in glob.glob(os.path.join(B, "h-*")) if fresh else ():
                os.unlink(d)
            for d in glob.glob(os.path.join(B, "lib-*")):
                shutil.rmtree(d, ignore_errors=True)
            for g in GEN:
                try:
                    os.unlink(os.path.join(TREE, "src/libunicode", g))
                except OSError:
                    pass
        open(marker, "w").close()
        for v in variants:
            extra = {"simd": [], "none": ["-DLIBUNICODE_SIMD_IMPLEMENTATION=none"],
                     "std": ["-DLIBUNICODE_SIMD_IMPLEMENTATION=std"],
                     "san": ["-DCMAKE_CXX_FLAGS=-Wno-error -w " + SAN, "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -g1"],
                     "tsan": ["-DCMAKE_CXX_FLAGS=-Wno-error -w " + TSAN, "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -g1"]}[v]
            lib_build(v, ["unicode"] if not (tools and v == "simd") else ["all"], extra)
        os.unlink(marker)
        if tools and "san" in variants:
            query_san()
        from concurrent.futures import ThreadPoolExecutor
        todo = [(h, v) for h in harnesses for v in variants]
        with ThreadPoolExecutor(8) as ex:
            return dict(zip(todo, ex.map(lambda t: harness(*t), todo)))


if __name__ == "__main__":
    allh = [os.path.basename(p)[:-4] for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp")))]
    try:
        print(ensure(allh, variants=("simd", "none", "san"), tools=True))
        ensure(["cursor"], ("tsan",))
    except BuildError as e:
        print(e)
        sys.exit(2)
