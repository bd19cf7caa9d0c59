"""trybugs.py [-a] [-j N] [-s SEED] [ID...]: run the checks on each planted bug: the check of its property (-a: all
checks), in a mount namespace of its own with copies of /repo (patched) and /verif; neither is touched"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
def opt(n, d):
    if n in args:
        i = args.index(n); v = args[i + 1]; del args[i:i + 2]; return v
    return d
N, SEED, PROPS = int(opt("-j", "1")), opt("-s", "1"), opt("-p", "")
allc = "-a" in args
ids = [a for a in args if not a.startswith("-")]
have = sorted(os.listdir(V + "/seeded")) + sorted(os.listdir(V + "/tools/unofficial"))
ids = [h for i in ids for h in have if h == i or h.split("-")[0] == i] if ids else have
man = json.load(open(V + "/MANIFEST.json"))
checks = sorted(c.get("property") or c["id"] for c in man["checks"])


def one(i):
    d = os.path.join(V, "seeded", i)
    if not os.path.exists(d):
        d = os.path.join(V, "tools", "unofficial", i)
    p = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="try-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True)
        subprocess.run(["cp", "-a", V, t + "/verif"], check=True)
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=t + "/repo", capture_output=True, text=True)
        if r.returncode:
            return [(i, "PATCH DOES NOT APPLY")]
        out = []
        for c in checks if allc else PROPS.split(",") if PROPS else [p]:
            r = subprocess.run(["unshare", "-Urm", "bash", "-c",
                                "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec timeout 3000 python3 check.py run %s" % (t, t, c)],
                               capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=SEED, VERIF_TIER="quick"))
            line = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violation" in l]
            print(i, c, "exit", r.returncode, (line[:2] or r.stdout[-300:] + r.stderr[-300:]) if r.returncode else "MISSED" if c == p else "", flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)


with ThreadPoolExecutor(N) as ex:
    for f in [ex.submit(one, i) for i in ids]:
        r = f.result()
        for x in r or ():
            print(*x, flush=True)
