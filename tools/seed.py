"""Development helper for planted bugs (never used by a check).

  seed.py make SPEC.py      write seeded/<id>/ for every BUG in SPEC.py
  seed.py verify [IDs..]    in scratch copies: patch applies, builds, stable tests pass, demo 0 -> nonzero,
                            the property's quick check reports a VIOLATION (and optionally others)
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        d = os.path.join(V, "seeded", b["id"])
        tmp = tempfile.mkdtemp(prefix="seedmk_")
        try:
            sh("git -C %s archive HEAD kmcpy scripts | tar x -C %s" % (R, tmp))
            sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm b", cwd=tmp)
            for f, old, new in b["edits"]:
                p = os.path.join(tmp, f)
                s = open(p).read()
                if s.count(old) != 1:
                    raise SystemExit("%s: %d matches in %s for %r" % (b["id"], s.count(old), f, old[:80]))
                open(p, "w").write(s.replace(old, new))
            _, diff = sh("git diff", cwd=tmp)
        finally:
            shutil.rmtree(tmp)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\n# cwd: /repo after the build\nD="$(cd "$(dirname "$0")" && pwd)"\nR="$PWD"\nW="$(mktemp -d)"\ntrap \'rm -rf "$W"\' EXIT\n'
            'cd "$W" || exit 2\nexport PYTHONPATH="$R" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1\n'
            '/opt/venv/bin/python -W ignore "$D/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])


def verify(i, others=(), tests=True):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="sw_%s_" % i)
    r, v = w + "/r", w + "/v"
    out = [i, prop]
    try:
        sh("cp -a %s %s" % (R, r))
        sh("mkdir %s && cp -a %s/mc %s/run.sh %s/known_findings.json %s/properties.jsonl %s/" % (v, V, V, V, V, v))
        rc, o = sh("bash %s/demo.sh" % d, cwd=r)
        out.append("demo0=%d" % rc)
        if rc:
            out.append(o[-300:])
        rc, o = sh("git apply %s/patch.diff" % d, cwd=r)
        if rc:
            return out + ["NOAPPLY", o]
        rc, o = sh("bash %s/demo.sh" % d, cwd=r)
        out.append("demo1=%d" % rc)
        if tests:
            s = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + r)
            open(w + "/test.sh", "w").write(s)
            sh("bash %s/test.sh %s/out.json" % (w, w), env={"PYTHONPATH": r})
            po = set(json.load(open(w + "/out.json"))["passed"])
            pb = json.load(open("/opt/vp/BASELINE.json"))
            pb = set(pb.get("passed") or pb.get("stable"))
            out.append("tests_missing=%s" % sorted(pb - po)[:3])
        for p in [prop] + list(others):
            rc, o = sh("bash %s/run.sh %s quick" % (v, p), env={"VERIF_REPO": r, "VERIF_TIER": "quick", "VERIF_SEED": "1"})
            caught = rc == 1 and ("VIOLATION property=%s " % p) in o
            out.append("%s:%s" % (p, "CAUGHT" if caught else "miss(rc=%d)" % rc))
            if not caught and rc:
                out.append(o[-500:])
    finally:
        shutil.rmtree(w)
    return out


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        a = sys.argv[2:]
        tests = "--notests" not in a
        others = [x[2:] for x in a if re.match(r"\+ *C", x[0:2])]
        ids = [x for x in a if not x.startswith(("-", "+"))] or sorted(os.listdir(V + "/seeded"))
        with ThreadPoolExecutor(4) as ex:
            for res in ex.map(lambda i: verify(i, others, tests), ids):
                print(" ".join(res), flush=True)
