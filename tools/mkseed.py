"""mkseed.py SPEC.py : SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS.
Builds seeded/<ID>/ and confirms it: patch applies, tests pass, demo ok without and failing with the patch."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: property holds on the tree in the current directory
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
export NUMBA_CACHE_DIR="$t" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
/opt/venv/bin/python "$d/demo.py"
rc=$?
rm -rf "$t"
exit $rc
'''


def one(spec, tests=True):
    ns = {}
    exec(open(spec).read(), ns)
    sid = ns["ID"]
    tmp = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp")
    try:
        w = os.path.join(tmp, "repo")
        subprocess.check_call(["cp", "-a", "/repo", w])
        subprocess.check_call(["git", "-C", w, "checkout", "-q", "--", "."])
        for f, old, new in ns["EDITS"]:
            p = os.path.join(w, "neutralocean", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
        out = os.path.join(VERIF, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(ns["DEMO"].strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        ok = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        bad = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=w, capture_output=True, text=True)
        print(sid, "demo clean rc", ok.returncode, "patched rc", bad.returncode, (ok.stderr[-300:] if ok.returncode else ""), (bad.stdout + bad.stderr)[-150:].replace("\n", " | "))
        tr = None
        if tests:
            env = dict(os.environ, NUMBA_CACHE_DIR=tmp, PYTHONPATH=w)
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "neutralocean"], cwd=w, env=env, capture_output=True, text=True)
            tr = t.returncode
            print(sid, "tests:", t.stdout.strip().splitlines()[-1])
        env = dict(os.environ, NV_REPO=w)
        c = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), ns["PROPERTY"], "quick"], env=env, capture_output=True, text=True)
        print(sid, "check rc", c.returncode, "| " + " | ".join(c.stdout.strip().splitlines()[-3:])[:400], c.stderr[-300:])
        good = ok.returncode == 0 and bad.returncode != 0 and not tr
        print(sid, "VALID" if good else "INVALID", "CAUGHT" if c.returncode == 1 else "MISSED")
    finally:
        shutil.rmtree(tmp)


for s in sys.argv[1:]:
    if s != "--no-tests":
        one(s, "--no-tests" not in sys.argv)
