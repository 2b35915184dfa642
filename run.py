#!/usr/bin/env python3
"""Builds one check's harness from /repo's current working tree and runs it.

  run.py <ID> quick|thorough            run the check (exit 0: held; 1: VIOLATION; anything else: an error of the check)
  run.py <ID> replay <file>             replay a recorded failure
  run.py <ID> build                     only build
  run.py --setup                        build the engine (and check the compilers)
"""
import hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))

ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-fno-common"]
MODES = {
    "plain": ("g++", ["-O1"], []),
    "fast": ("g++", ["-O0"], []),
    "asan": ("clang++", ["-O1", "-g1"] + ASAN, ["-fsanitize=address"]),
    "tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "fuzz": ("clang++", ["-O1", "-g1", "-fsanitize=fuzzer-no-link,address", "-DPBT_LIBFUZZER"], ["-fsanitize=fuzzer,address"]),
}
COMMON = ["-std=c++17", "-w", "-DCURRENT_CI", "-I" + os.path.join(VERIF, "lib"), "-I" + REPO, '-DREPO_ROOT="%s"' % REPO]


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "2G"
    e["CCACHE_NOHASHDIR"] = "1"
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=4096"
    e["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1:detect_deadlocks=0:suppressions=" + os.path.join(VERIF, "lib", "tsan.supp")
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1"
    return e


def compile_one(cmd):
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, " ".join(cmd), r.stdout


def build(cid, mode=None):
    c = CHECKS[cid]
    mode = mode or c.get("mode", "asan")
    cxx, cflags, ldflags = MODES[mode]
    out = os.path.join(BUILD, cid if cid.endswith("-" + mode) else cid + "-" + mode)
    os.makedirs(out, exist_ok=True)
    launcher = ["ccache"] if shutil.which("ccache") else []
    srcs = [os.path.join(VERIF, "checks", s) for s in c["sources"]]
    jobs = []
    objs = []
    extra = list(c.get("cflags", []))
    if "pch" in c:  # For the harnesses which generate programs: they compile them on top of this header.
        pch = os.path.join(out, c["pch"] + ".pch")
        extra.append('-DPCH="%s"' % pch)
        support = pch + ".o"  # And link with this.
        extra.append('-DSUPPORT="%s"' % support)
        jobs.append(["clang++"] + COMMON + ["-O0", "-c", os.path.join(VERIF, "checks", c["pch"][:-2] + ".cc"), "-o", support])
        jobs.append(["clang++"] + COMMON + ["-O0", "-fpch-instantiate-templates", "-Xclang", "-fno-pch-timestamp", "-x", "c++-header", os.path.join(VERIF, "checks", c["pch"]), "-o", pch])
    if "tools" in c:  # Programs of the repository, run by the harness as they are.
        extra.append('-DTOOLS="%s"' % out)
        for t in c["tools"]:
            jobs.append([cxx] + COMMON + cflags + [os.path.join(REPO, t), "-o", os.path.join(out, os.path.basename(t)[:-3])] + ldflags + ["-pthread", "-ldl"])
    if "addon" in c:  # A module for node, built of the sources of the repository.
        addon = os.path.join(out, "addon.node")
        extra.append('-DADDON="%s"' % addon)
        extra.append('-DRUNNER="%s"' % os.path.join(VERIF, "checks", c["runner"]))
        jobs.append(["clang++", "-std=c++17", "-w", "-O1", "-fPIC", "-shared", "-DNAPI_DISABLE_CPP_EXCEPTIONS", "-DNODE_GYP_MODULE_NAME=addon",
                     "-I/usr/include/node", "-I/opt/veriftools/node/node_modules/node-addon-api", "-I" + os.path.join(REPO, "integrations", "nodejs"),
                     os.path.join(VERIF, "checks", c["addon"]), "-o", addon])
    for s in srcs + [os.path.join(VERIF, "lib", "pbt.cc")]:
        o = os.path.join(out, os.path.basename(s) + ".o")
        objs.append(o)
        fl = list(cflags)
        if s.endswith("lib/pbt.cc"):
            fl = ["-O1", "-g0"] + (["-DPBT_LIBFUZZER"] if mode == "fuzz" else [])
            jobs.append(launcher + [cxx] + COMMON + fl + ["-c", s, "-o", o])
        else:
            jobs.append(launcher + [cxx] + COMMON + fl + extra + ["-c", s, "-o", o])
    with ThreadPoolExecutor(8) as ex:
        for rc, cmd, text in ex.map(compile_one, jobs):
            if rc:
                errors = [l for l in text.splitlines() if "error:" in l or "/checks/" in l]
                sys.stderr.write("BUILD FAILED: %s\n%s\n" % (cmd, "\n".join(errors[:40])[:6000]))
                return None
    binary = os.path.join(out, cid)
    rc, cmd, text = compile_one([cxx] + objs + ldflags + ["-o", binary, "-pthread", "-ldl"] + c.get("ldflags", []))
    if rc:
        sys.stderr.write("LINK FAILED: %s\n%s\n" % (cmd, text[:8000]))
        return None
    return binary


def run(binary, args, timeout=None):
    p = subprocess.Popen([binary] + args, env=env(), cwd=BUILD)
    try:
        return p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return 4


def fuzz(cid, c, seconds):
    """Coverage-guided search over the same properties: the fuzzer's bytes are the choices."""
    props = c.get("fuzz", [])
    if not props:
        return 0
    fz = build(cid, "fuzz")
    if not fz:
        return 2
    plain = build(cid)
    each = max(20, seconds // len(props))
    rc = 0
    for prop in props:
        work = os.path.join(BUILD, "fuzz-" + cid + "-" + prop)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(os.path.join(work, "corpus"))
        e = env()
        e["PBT_FUZZ_PROP"] = prop
        seed = os.environ.get("VERIF_SEED", "1")
        log = open(os.path.join(work, "log"), "w")
        p = subprocess.Popen([fz, "corpus", "-fork=8", "-seed=" + seed, "-max_total_time=%d" % each, "-max_len=2048", "-timeout=25",
                              "-rss_limit_mb=3000", "-ignore_timeouts=1", "-ignore_ooms=1", "-artifact_prefix=" + work + "/", "-print_final_stats=1", "-use_value_profile=1"],
                             cwd=work, env=e, stdout=log, stderr=log)
        try:
            p.wait(timeout=each + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        n = len(os.listdir(os.path.join(work, "corpus")))
        crashes = [os.path.join(work, f) for f in os.listdir(work) if f.startswith("crash-")]
        print("fuzz %s: %d s, corpus %d, %d crashes" % (prop, each, n, len(crashes)), flush=True)
        for f in sorted(crashes)[:3]:
            r = run(plain, ["--verif", VERIF, "--prop", prop, "--replay-bytes", f])
            if r == 1:
                rc = 1
        ev = os.path.join(VERIF, "evidence", cid + ".json")
        try:
            j = json.load(open(ev))
            j["coverage"].setdefault("coverage_guided", {})[prop] = {"seconds": each, "corpus": n, "crashes": len(crashes)}
            if rc:
                j["violations"] = max(1, j.get("violations", 0))
            json.dump(j, open(ev, "w"), indent=1)
        except (OSError, ValueError, KeyError):
            pass
        shutil.rmtree(work, ignore_errors=True)
        if rc:
            break
    return rc


def evidence(cid):
    try:
        return json.load(open(os.path.join(VERIF, "evidence", cid + ".json")))
    except (OSError, ValueError):
        return None


def merge(cid, first):
    """The evidence of another part of the same check, together with that of the parts before."""
    j = evidence(cid)
    if not first or not j:
        return
    a, b = first["coverage"], j["coverage"]
    for k, v in b.items():
        if isinstance(v, bool):
            continue
        if isinstance(v, int):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, dict):
            for key, value in v.items():
                while key in a.setdefault(k, {}):
                    key += "'"
                a[k][key] = value
        elif isinstance(v, list):
            a[k] = a.get(k, []) + [x for x in v if x not in a.get(k, [])]
        elif k == "rule" and v not in a[k]:
            a[k] += " " + v
    for k, v in j.items():
        if k in ("violations", "wall_s"):
            first[k] = first.get(k, 0) + v
    json.dump(first, open(os.path.join(VERIF, "evidence", cid + ".json"), "w"), indent=1)


def parts(cid):
    return [cid] + CHECKS[cid].get("also", [])


def main():
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1] == "--setup":
        r = subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL).returncode | subprocess.run(["clang++", "--version"], stdout=subprocess.DEVNULL).returncode
        return 1 if r else 0
    cid, what = sys.argv[1], sys.argv[2]
    t0 = time.time()
    if what == "fuzz":
        return fuzz(cid, CHECKS[cid], int(sys.argv[3]))
    with ThreadPoolExecutor(8) as ex:
        binaries = list(ex.map(build, parts(cid)))
    if not all(binaries):
        return 2
    if what == "build":
        return 0
    if what == "replay":
        rc = 2
        for b in binaries:
            rc = run(b, ["--verif", VERIF, "--replay", os.path.abspath(sys.argv[3])] + sys.argv[4:])
            if rc == 1:
                break
        return rc
    print("built in %.1f s" % (time.time() - t0), flush=True)
    tier = what
    rc, ev = 0, None
    for part, binary in zip(parts(cid), binaries):
        c = CHECKS[part]
        secs = c.get("quick_s", 15) if tier == "quick" else c.get("thorough_s", 300)
        args = ["--verif", VERIF, "--tier", tier, "--time", str(secs), "--workers", str(c.get("workers", 8))] + sys.argv[3:]
        rc = run(binary, args, timeout=800 if tier == "quick" else 7200)
        merge(cid, ev)
        ev = evidence(cid)
        if rc:
            return rc
    if tier == "thorough":
        rc = fuzz(cid, CHECKS[cid], CHECKS[cid].get("fuzz_s", 240))
    return rc


sys.exit(main())
