"""plant.py SPEC.py... : turn each spec (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)
into /verif/seeded/<ID>/ after checking it in a scratch copy of /repo."""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "--no-tests" not in sys.argv


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(spec):
    s = runpy.run_path(spec)
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        sh(["cp", "-a", "/repo/.", d + "/repo"], check=True)
        repo = d + "/repo"
        out = d + "/out"
        os.makedirs(out)
        for f in ("fixture.py",):
            shutil.copy(os.path.join(VERIF, "tools", f), out)
        open(out + "/demo.py", "w").write("from fixture import *\n" + s["DEMO"].lstrip("\n"))
        open(out + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        r = sh(["bash", out + "/demo.sh"], cwd=repo)
        if r.returncode:
            return "demo fails on unchanged tree:\n" + r.stdout[-1500:] + r.stderr[-1500:]
        for f, old, new in s["EDITS"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        r = sh(["bash", out + "/demo.sh"], cwd=repo)
        if r.returncode == 0:
            return "demo passes with the change"
        why = (r.stdout[-200:] + r.stderr[-200:])
        patch = sh(["git", "diff"], cwd=repo).stdout
        # changes lines of the original repository?
        orig = set()
        for f, _o, _n in s["EDITS"]:
            orig |= set(sh(["git", "show", "5f0b858:" + f], cwd=repo).stdout.splitlines())
        removed = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
        bad = [l for l in removed if l.strip() and l not in orig]
        if bad or not removed:
            why += "\n   NOTE not original lines: %r" % bad
        if TESTS:
            # the same tests, from the copy
            t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + repo)
            open(d + "/test.sh", "w").write(t)
            env = dict(os.environ, PYTHONPATH=repo)
            sh(["bash", d + "/test.sh", d + "/res.json"], env=env)
            base = json.load(open("/opt/vp/BASELINE.json"))
            res = json.load(open(d + "/res.json"))
            stable = base.get("stable") or base.get("passed") or base.get("tests")
            passed = set(res.get("passed") or [k for k, v in res.get("tests", {}).items() if v == "passed"])
            missing = [x for x in stable if x not in {p.replace(repo, "/repo") for p in passed}]
            if missing:
                return "breaks tests: %s" % missing[:5]
        dst = os.path.join(VERIF, "tools" if bad or not removed else "seeded", s["ID"])
        if bad or not removed:  # would not count
            dst = os.path.join(VERIF, "tools", "unofficial", s["ID"])
        shutil.rmtree(os.path.join(VERIF, "seeded", s["ID"]), ignore_errors=True)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        open(dst + "/patch.diff", "w").write(patch)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(dst + "/meta.json", "w"), indent=1)
        return "ok  (%s)" % why.strip()
    finally:
        shutil.rmtree(d, ignore_errors=True)


for spec in [a for a in sys.argv[1:] if not a.startswith("--")]:
    print(os.path.basename(spec), "->", one(spec), flush=True)
