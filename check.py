#!/usr/bin/env python3
"""check.py ID...  - decides one property (or several) for the tree in /repo.

Builds the library from the working tree in several configurations, links the
property's harness (props/<id>.cc) against each, runs the fixed examples, the
seeded random campaigns and the coverage-guided campaigns, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.

  VERIF_SEED   seed of every random choice (default 1)
  VERIF_TIER   quick | thorough
  VP_REPO      tree to check (default /repo; used for trying planted bugs)
  VP_SCALE     multiplies the number of cases (default 1)
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
SCALE = float(os.environ.get("VP_SCALE", "1"))
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
JOBS = 8

sys.path.insert(0, VERIF)
from budgets import BUDGETS, DEFAULT_BUDGET  # noqa: E402

# Same definitions as the Makefile in the repository
BASE = ["-g", "-fPIC", "-fno-omit-frame-pointer", "-w", "-pthread",
        "-DGLIB_VERSION_MAX_ALLOWED=GLIB_VERSION_2_32",
        "-DGLIB_VERSION_MIN_REQUIRED=GLIB_VERSION_MAX_ALLOWED"]

CONFIGS = {
    # Debug build of the library, gcc; local variables start with junk
    "dbg": dict(cc="gcc", cxx="g++",
                lib=["-O1", "-DDEBUG", "-fsanitize=address", "-ftrivial-auto-var-init=pattern"],
                harness=["-O1", "-fsanitize=address"], ld=["-fsanitize=address"]),
    # Release build of the library, clang, instrumented for coverage
    "rel": dict(cc="clang", cxx="clang++",
                lib=["-O2", "-fsanitize=address,fuzzer-no-link"],
                harness=["-O1", "-fsanitize=address", "-DVP_FUZZER"],
                ld=["-fsanitize=address"], fuzzer=True),
    # Debug build, instrumented for coverage
    "fdbg": dict(cc="clang", cxx="clang++",
                 lib=["-O1", "-DDEBUG", "-fsanitize=address,fuzzer-no-link",
                      "-ftrivial-auto-var-init=pattern"],
                 harness=["-O1", "-fsanitize=address", "-DVP_FUZZER"],
                 ld=["-fsanitize=address"], fuzzer=True),
    # Release build for data race detection
    "tsan": dict(cc="clang", cxx="clang++", lib=["-O1", "-fsanitize=thread"],
                 harness=["-O1", "-fsanitize=thread", "-DVP_TSAN"],
                 ld=["-fsanitize=thread"]),
    # Plain release build, no instrumentation (as shipped)
    "plain": dict(cc="gcc", cxx="g++", lib=["-O2"], harness=["-O2"], ld=[]),
    "plaindbg": dict(cc="gcc", cxx="g++", lib=["-DDEBUG"], harness=["-O2"], ld=[]),
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")))
    return p.stdout.decode(errors="replace")


_pkg = {}


def pkg(what, *mods):
    key = (what,) + mods
    if key not in _pkg:
        _pkg[key] = run(["pkg-config", what] + list(mods)).split()
    return _pkg[key]


def glib_cflags():
    return pkg("--cflags", "glib-2.0", "gobject-2.0")


def glib_libs():
    return pkg("--libs", "glib-2.0", "gobject-2.0")


def digest(paths, extra):
    h = hashlib.sha256()
    h.update(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))


def lib_headers():
    out = []
    for d in ("src", "include"):
        out += glob.glob(os.path.join(REPO, d, "**", "*.h"), recursive=True)
    return sorted(out)


def build_lib(cfg):
    c = CONFIGS[cfg]
    flags = c["lib"] + BASE + ["-I" + REPO, "-I" + os.path.join(REPO, "include")] + glib_cflags()
    srcs = lib_sources()
    if not srcs:
        raise BuildError("no sources in %s/src" % REPO)
    key = digest(srcs + lib_headers(), (cfg, flags, c["cc"]))
    d = os.path.join(BUILD, "lib", "%s-%s" % (cfg, key))
    lib = os.path.join(d, "libglibutil.a")
    if os.path.exists(lib):
        return lib
    for old in glob.glob(os.path.join(BUILD, "lib", cfg + "-*")):
        # Not the ones which may be in use
        if time.time() - os.path.getmtime(old) > 7200:
            shutil.rmtree(old, ignore_errors=True)
    os.makedirs(os.path.join(BUILD, "lib"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=os.path.join(BUILD, "lib"))
    try:
        objs = []

        def compile_one(i, s):
            o = os.path.join(tmp, "%02d-%s.o" % (i, os.path.basename(s)[:-2]))
            run([c["cc"]] + flags + ["-c", s, "-o", o])
            return o

        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(compile_one, i, s) for i, s in enumerate(srcs)]
            objs = [f.result() for f in futs]
        run(["ar", "rcs", os.path.join(tmp, "libglibutil.a")] + objs)
        for o in objs:
            os.unlink(o)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return lib


def build_so(cfg):
    """Shared library with the symbols exported by the version script"""
    lib = build_lib(cfg)
    so = os.path.join(os.path.dirname(lib), "libglibutil.so")
    ver = os.path.join(REPO, "libglibutil.ver")
    with open(ver, "rb") as f:
        so = so[:-3] + "-" + hashlib.sha256(f.read()).hexdigest()[:8] + ".so"
    if not os.path.exists(so):
        tmp = "%s.%d" % (so, os.getpid())
        run([CONFIGS[cfg]["cc"], "-fPIC", "-shared", "-Wl,--version-script=" + ver,
             "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive"] + glib_libs() + ["-o", tmp])
        os.rename(tmp, so)
    return so


def needs_env(meta):
    """What the harnesses compiling and running programs need to know"""
    if "libs" not in meta.get("NEEDS", []):
        return {}
    return {
        "VP_INCLUDE": os.path.join(REPO, "include"),
        "VP_GLIB_CFLAGS": " ".join(glib_cflags()),
        "VP_GLIB_LIBS": " ".join(glib_libs()),
        "VP_LIB_REL": build_lib("plain"),
        "VP_LIB_DBG": build_lib("plaindbg"),
        "VP_SO_REL": build_so("plain"),
        "VP_SO_DBG": build_so("plaindbg"),
    }


def prop_file(pid):
    return os.path.join(VERIF, "props", pid.lower() + ".cc")


def prop_meta(pid):
    """Settings in the first lines of the property file: // VP-XXX: value"""
    meta = {}
    with open(prop_file(pid)) as f:
        for line in f:
            m = re.match(r"//\s*VP-([A-Z]+):\s*(.*)", line)
            if m:
                meta.setdefault(m.group(1), []).extend(m.group(2).split())
    return meta


_fuzzrt = {}


def fuzz_runtime():
    if "x" not in _fuzzrt:
        r = run(["clang", "-print-runtime-dir"]).strip()
        found = glob.glob(os.path.join(r, "libclang_rt.fuzzer_no_main*.a"))
        x86 = [f for f in found if "x86_64" in f] or found
        if not x86:
            r = run(["clang", "-print-file-name=libclang_rt.fuzzer_no_main-x86_64.a"]).strip()
            x86 = [r]
        _fuzzrt["x"] = x86[0]
    return _fuzzrt["x"]


def build_harness(pid, cfg, meta):
    c = CONFIGS[cfg]
    lib = build_lib(cfg)
    files = [prop_file(pid), os.path.join(VERIF, "engine", "vp_main.cc")]
    files += [os.path.join(VERIF, "props", x) for x in meta.get("EXTRA", [])]
    hdrs = glob.glob(os.path.join(VERIF, "engine", "*.h")) + \
        glob.glob(os.path.join(VERIF, "props", "*.h"))
    cxx = c["harness"] + BASE + ["-std=c++17", "-I" + os.path.join(VERIF, "engine"),
                                 "-I" + os.path.join(REPO, "include")] + glib_cflags()
    # The harness uses the public API only, without deprecation limits
    cxx = [f for f in cxx if not f.startswith("-DGLIB_VERSION_")]
    ld = c["ld"] + meta.get("LDFLAGS", [])
    tail = [lib] + glib_libs() + ["-lpthread", "-lm", "-ldl"]
    if c.get("fuzzer"):
        tail = [fuzz_runtime()] + tail + ["-lstdc++"]
    if "EXTRA" in meta:
        hdrs += glob.glob(os.path.join(VERIF, "props", "*.cc")) # May be included
    key = digest(set(files + hdrs + lib_headers()), (cfg, cxx, ld, tail))
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (pid, cfg, key))
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, "bin", "%s-%s-*" % (pid, cfg))):
        if time.time() - os.path.getmtime(old) > 7200:
            os.unlink(old)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=os.path.join(BUILD, "bin"))
    try:
        def comp(f):
            o = os.path.join(tmp, os.path.basename(f) + ".o")
            run([c["cxx"]] + cxx + ["-c", f, "-o", o])
            return o
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(comp, files))
        out = os.path.join(tmp, "exe")
        run([c["cxx"]] + ld + ["-pthread"] + objs + tail + ["-o", out])
        os.rename(out, exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def known_findings():
    """-> (set of (property, key), list of lines)"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known:\s*property=(\S+)\s+key=(\S+)\s+(.*)", line)
                if m:
                    out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def scaled(n):
    return max(1, int(n * SCALE))


def check(pid):
    t0 = time.time()
    meta = prop_meta(pid)
    configs = meta.get("CONFIGS", ["dbg", "rel", "plaindbg"])
    budget = dict(DEFAULT_BUDGET)
    budget.update(BUDGETS.get(pid, {}))
    level = meta.get("LEVEL", ["exploration"])[0]
    mult = 1 if TIER == "quick" else budget["thorough"]
    cap = 120.0 if TIER == "quick" else 420.0
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="work-%s-" % pid, dir=BUILD)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("GUTIL_", "G_DEBUG", "G_SLICE", "G_MESSAGES", "MALLOC_", "ASAN_", "TSAN_")):
            del env[k]
    env["VP_SCRATCH"] = work
    env["LC_ALL"] = "C"
    env.update(sanitizer_env(meta))
    violations = []
    known_lines = []
    runs = []
    cov_labels = {}
    samples = []
    hashes = set()
    evaluations = nontrivial = flaky = 0
    rule = ""
    try:
        with concurrent.futures.ThreadPoolExecutor(len(configs)) as ex:
            exes = dict(zip(configs, ex.map(lambda c: build_harness(pid, c, meta), configs)))
        env.update(needs_env(meta))
        info = json.loads(run([exes[configs[0]], "--info"], env=env))
        rule = info["rule"]
        known = known_findings()
        seen_known = set()
        fixed_bad = set()
        if info["nfixed"]:
            for cfg in configs:
                p = subprocess.run([exes[cfg], "--fixed", "--config", cfg, "--replays", replays],
                                   stdout=subprocess.PIPE, env=env)
                for line in p.stdout.decode(errors="replace").splitlines():
                    f = line.split("\t")
                    evaluations += 1
                    if f[0] != "FIXED-FAIL":
                        continue
                    if (pid, f[1]) in known:
                        if f[1] not in seen_known:
                            seen_known.add(f[1])
                            known_lines.append("%s %s" % (f[1], known[(pid, f[1])]))
                        if os.path.exists(f[2]):
                            os.unlink(f[2])
                    elif f[1] not in fixed_bad:
                        fixed_bad.add(f[1])
                        violations.append((f[2], "%s: %s" % (f[1], f[3])))
        plan = []
        for cfg in configs:
            n = budget.get(cfg, 0)
            if n and not violations:
                plan.append((cfg, "random", n))
        if budget["fuzz"] and not info["no_fuzz"]:
            plan += [(c, "fuzz", budget["fuzz"]) for c in configs if CONFIGS[c].get("fuzzer")]
        if info["ngiant"]:
            # Not slowed down by the instrumentation
            cfg = "plain"
            if cfg not in exes:
                exes[cfg] = build_harness(pid, cfg, meta)
            n = int(meta.get("GIANT", ["8"])[0])
            plan.append((cfg, "giant", n if TIER == "quick" else n * 6))
        for i, (cfg, mode, n) in enumerate(plan):
            if violations:
                break
            out = os.path.join(work, "%s-%s.json" % (cfg, mode))
            first = 0 if cfg == "dbg" else 1 << 40
            giant = mode == "giant"
            cmd = [exes[cfg], "--seed", str(SEED), "--cases", str(n if giant else scaled(n * mult)),
                   "--first", str(first), "--cap", str(cap), "--out", out,
                   "--replays", replays, "--config", cfg,
                   "--shards", "2" if giant else meta.get("SHARDS", [str(JOBS)])[0]]
            if giant:
                cmd.append("--giant")
            if mode == "fuzz":
                cmd.append("--fuzz")
            p = subprocess.run(cmd, env=env)
            if p.returncode not in (0, 1):
                raise BuildError("%s: runner failed with status %d" % (pid, p.returncode))
            with open(out) as f:
                r = json.load(f)
            with open(out + ".hashes", "rb") as f:
                data = f.read()
            hashes.update(data[k:k + 8] for k in range(0, len(data), 8))
            evaluations += r["cases"]
            nontrivial += r["nontrivial"]
            flaky += r["flaky"]
            for k, v in r["labels"].items():
                cov_labels[k] = cov_labels.get(k, 0) + v
            runs.append({"config": cfg, "generation": mode, "cases": r["cases"],
                         "nontrivial": r["nontrivial"], "distinct_nontrivial": r["distinct"],
                         "choice_bytes": r["bytes"], "seconds": r["wall"]})
            samples += r["samples"][:2]
            for v in r["violations"]:
                violations.append((v["replay"], v["what"]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = round(time.time() - t0, 2)
    ev = {
        "property": pid,
        "tier": TIER,
        "seed": SEED,
        "level": level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": rule,
            "samples": samples[:6],
            "nontrivial_total": nontrivial,
            "campaigns": runs,
            "case_classes": dict(sorted(cov_labels.items())),
            "unreproducible_ignored": flaky,
            "known_findings": known_lines,
        },
        "assumptions": [" ".join(meta["ASSUMES"])] if "ASSUMES" in meta else [],
        "wall_s": wall,
        "violations": len(violations),
    }
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for k in known_lines:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for path, what in violations:
        print("  " + what.strip().replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s: %s, %d cases, %d distinct non-trivial, %.1f s" % (
        pid, "VIOLATED" if violations else "held", evaluations, len(hashes), wall))
    sys.stdout.flush()
    return 1 if violations else 0


def sanitizer_env(meta):
    return {"ASAN_OPTIONS": "detect_leaks=0:exitcode=88:quarantine_size_mb=16:"
                            "hard_rss_limit_mb=3000:allocator_may_return_null=0:"
                            "detect_stack_use_after_return=1:handle_segv=1:"
                            "max_malloc_fill_size=4096:"
                            "malloc_context_size=8",
            "TSAN_OPTIONS": ":".join(["exitcode=88:halt_on_error=1:report_signal_unsafe=0"] +
                                     meta.get("TSAN", []))}


def replay(path):
    with open(path) as f:
        head = dict(line.strip().split(": ", 1) for line in f.read().splitlines()[:5] if ": " in line)
    pid, cfg = head["property"], head["config"]
    meta = prop_meta(pid)
    exe = build_harness(pid, cfg, meta)
    return subprocess.run([exe, "--replay", path], env=dict(os.environ, LC_ALL="C", **sanitizer_env(meta), **needs_env(meta))).returncode


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        sys.exit(replay(args[1]))
    if args and args[0] == "--setup":
        # Warm up: verifies that the tools are there
        try:
            for cfg in ("dbg", "rel", "fdbg", "tsan", "plain", "plaindbg"):
                build_lib(cfg)
        except BuildError as e:
            print(e, file=sys.stderr)
            sys.exit(2)
        sys.exit(0)
    if not args:
        args = sorted(os.path.basename(p)[:-3].upper()
                      for p in glob.glob(os.path.join(VERIF, "props", "c[0-9]*.cc")))
    rc = 0
    for pid in args:
        try:
            rc = max(rc, check(pid))
        except BuildError as e:
            print("%s: %s" % (pid, e), file=sys.stderr)
            sys.exit(2)
    sys.exit(rc)


if __name__ == "__main__":
    main()
