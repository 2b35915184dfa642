#!/usr/bin/env python3
"""tools/mutate.py OUT.jsonl JOBS N PROP...: mutation testing of the checks, in scratch copies under /tmp.

For each property, N random mutants of the files it is anchored in are tried: the check has to report each (but for the
equivalent ones and the ones in the code which is not a part of the property). The survivors are for reading."""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, JOBS, N, IDS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
SEED = os.environ.get("MUTATE_SEED", "1")
ONLY = os.environ.get("MUTATE_FILES", "").split()
g = {}
exec(open(VERIF + "/tools/props.py").read(), g)
PROPS = {x["id"]: x for x in g["P"]}

OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b(?!\.)", " + 0"), (r" - 1\b(?!\.)", " - 0"), (r" \+ ", " - "), (r" - ", " + "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif \((?!.*constexpr)(.*)\) \{$", r"if (!(\1)) {"),
    (r"\bif \((?!.*constexpr)(.*)\) \{$", r"if ((\1) && false) {"),
    (r"\bwhile \((.*)\) \{$", r"while ((\1) && false) {"),
    (r"^(\s+)(?!return|using|typedef|const|auto|static|typename|template|public|throw|delete|break|continue|case|default|friend|constexpr|struct|class|enum|inline|std::lock|std::unique|namespace)([\w:.>\-\*\[\]()]+(\(.*\)| [+\-|]?= .*));$", r"\1;"),
    (r"\bstd::max\(", "std::min("), (r"\bstd::min\(", "std::max("), ("lower_bound", "upper_bound"), ("upper_bound", "lower_bound"),
    (r"(?<=[ (,=])0(?=[;,) ])", "1"), (r"(?<=[ (,=])1(?=[;,) ])", "2"), (r"\+\+(\w+_?)\b", r"\1"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"),
    (r"^(\s+)throw .*;$", r"\1;"), (r"std::lock_guard<std::mutex> \w+\(.*\);", ";"), (r"std::unique_lock", "std::unique_lock"),
    (r"return (\w[^;]*);$", r"return decltype(\1)();"),
]


def mutants(prop, rnd):
    files = [f for f in (ONLY or PROPS[prop]["files"])]
    expanded = []
    for f in files:
        p = "/repo/" + f
        if os.path.isdir(p):
            expanded += [f + "/" + x for x in sorted(os.listdir(p)) if x.endswith(".h")]
        elif os.path.isfile(p):
            expanded.append(f)
    all = []
    for f in expanded:
        lines = open("/repo/" + f).read().split("\n")
        for i, l in enumerate(lines):
            t = l.strip()
            if not t or t.startswith(("//", "#", "*", "/*", "template", "using", "static_assert", "typename", "friend", "typedef")) or "operator" in t:
                continue
            code = l.split("  // ")[0]
            if code.endswith("\\"):
                pass
            for a, b in OPS:
                for m in re.finditer(a, code):
                    n = code[:m.start()] + m.expand(b) if False else code[:m.start()] + re.sub(a, b, code[m.start():], 1)
                    if n != code and code.count('"') == n.count('"'):
                        all.append((f, i, l, n))
    rnd.shuffle(all)
    seen, out = set(), []
    for m in all:
        if (m[0], m[1]) not in seen:
            seen.add((m[0], m[1]))
            out.append(m)
    return out


def trial(job):
    slot, prop, (f, i, old, new) = job
    w = tempfile.mkdtemp(prefix="mut%s-" % prop, dir="/tmp/mut")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s --one-top-level=repo" % w, shell=True, check=True)
        lines = open(w + "/repo/" + f).read().split("\n")
        if lines[i] != old:
            return None
        lines[i] = new
        open(w + "/repo/" + f, "w").write("\n".join(lines))
        subprocess.run("git -C %s archive HEAD | tar x -C %s --one-top-level=verif" % (VERIF, w), shell=True, check=True)
        e = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_BUILD=w + "/b", VERIF_SEED=SEED, VERIF_TIER="quick")
        p = subprocess.Popen(["python3", w + "/verif/run.py", prop, "quick", "--workers", "3"], env=e, cwd=w + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        try:
            out, _ = p.communicate(timeout=600)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            out, rc = "", "timeout"
        tag = [l for l in out.splitlines() if "VIOLATION" in l or "what" in l.lower()]
        if rc == 2 and "BUILD FAILED" in out:
            rc = "build"
        r = dict(prop=prop, file=f, line=i + 1, old=old.strip(), new=new.strip(), rc=rc, tag=(tag or [""])[0][:200], tail=out[-600:] if rc not in (0, 1, "build") else "")
        with open(OUT, "a") as o:
            o.write(json.dumps(r) + "\n")
        return rc
    finally:
        shutil.rmtree(w, ignore_errors=True)


os.makedirs("/tmp/mut", exist_ok=True)
for prop in IDS:
    rnd = random.Random(SEED + prop)
    todo = mutants(prop, rnd)
    count, pos = 0, 0
    with ThreadPoolExecutor(JOBS) as ex:
        while count < N and pos < len(todo):
            batch = todo[pos:pos + min(JOBS * 2, N - count)]
            pos += len(batch)
            for rc in ex.map(trial, [(0, prop, m) for m in batch]):
                if rc not in (None, "build"):
                    count += 1
