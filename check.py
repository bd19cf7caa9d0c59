#!/opt/venv/bin/python
"""
check.py run ID            decide one property (VERIF_SEED, VERIF_TIER)
check.py replay FILE [-v]  re-execute a recorded violation exactly
check.py selftest [IDs]    prove that executions are deterministic
check.py setup             build the seam
"""
import hashlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if sys.executable != PY and os.path.exists(PY) and not os.environ.get("PUNX_SIM_REEXEC"):
    os.environ["PUNX_SIM_REEXEC"] = "1"
    os.execv(PY, [PY, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from sim import plan  # noqa: E402
from sim.worker import spawn  # noqa: E402

EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.json")


# ------------------------------------------------------------------ building
def build_shim():
    src = os.path.join(HERE, "sim", "shim.c")
    with open(src, "rb") as f:
        tag = hashlib.sha1(f.read()).hexdigest()[:10]
    name = "shim-%s.so" % tag
    for d in (os.path.join(HERE, "build"), os.path.join(tempfile.gettempdir(), "punx-sim-build-%d" % os.getuid())):
        out = os.path.join(d, name)
        if os.path.exists(out):
            return out
        try:
            os.makedirs(d, exist_ok=True)
            tmp = out + ".%d" % os.getpid()
            r = subprocess.run(["gcc", "-O1", "-g", "-w", "-fPIC", "-shared", "-U_FORTIFY_SOURCE",
                                "-D_FORTIFY_SOURCE=0", "-o", tmp, src, "-ldl", "-lpthread"],
                               capture_output=True, text=True)
            if r.returncode:
                raise SystemExit("cannot build the seam:\n" + r.stderr)
            os.rename(tmp, out)
            return out
        except OSError:
            continue
    raise SystemExit("nowhere to build the seam")


# ------------------------------------------------------------------ worker pool
class W:
    def __init__(self, root, hashseed):
        self.root = root
        self.p, self.cmd, self.out = spawn(root, hashseed)
        self.buf = b""
        self.job = None
        self.since = None

    def send(self, job):
        self.job = job
        self.since = time.monotonic()
        self.cmd.write(json.dumps(job) + "\n")
        self.cmd.flush()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def close(self):
        try:
            self.cmd.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            pass
        self.kill()


class Pool:
    def __init__(self, n, hashseed=0):
        os.environ["PUNX_SIM_SHIM"] = build_shim()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 1 << 30 else "/tmp"
        self.top = tempfile.mkdtemp(prefix="punx-sim-", dir=base)
        if base == "/tmp":
            self.top_pad = ""
        self.hashseed = hashseed
        self.n = n
        self.k = 0
        self.ws = [self.new() for _ in range(n)]

    def new(self):
        self.k += 1
        return W(os.path.join(self.top, "w%05d" % self.k), self.hashseed)

    def map(self, jobs, deadline=None, joblimit=600):
        """yields (job, results) as they complete.  jobs: an iterator."""
        jobs = iter(jobs)
        pending = {}
        more = True
        idle = []
        for i, w in enumerate(self.ws):
            if w.job is None and getattr(w, "ready", False):
                idle.append(w)
        while True:
            while idle and more:
                if deadline and time.monotonic() > deadline:
                    more = False
                    break
                try:
                    j = next(jobs)
                except StopIteration:
                    more = False
                    break
                w = idle.pop()
                w.send(j)
                pending[w] = j
            if not pending and not more:
                return
            wait = [w for w in self.ws if w in pending or not getattr(w, "ready", False)]
            rd, _, _ = select.select([w.out for w in wait], [], [], 2.0)
            for w in wait:
                if w.out in rd:
                    b = os.read(w.out.fileno(), 1 << 20)
                    if not b:
                        j = pending.pop(w, None)
                        w.kill()
                        self.ws.remove(w)
                        nw = None
                        if self.k < self.n + 40:
                            nw = self.new()
                            self.ws.append(nw)
                        elif not self.ws:
                            raise SystemExit(2)
                        if j is not None:
                            yield j, [{"harness": "worker died", "scenario": None}]
                        continue
                    w.buf += b
                    if w.buf.endswith(b"\n"):
                        msg = json.loads(w.buf)
                        w.buf = b""
                        if msg.get("ready"):
                            w.ready = True
                            self.code = msg.get("code")
                            idle.append(w)
                            continue
                        j = pending.pop(w)
                        w.job = None
                        idle.append(w)
                        yield j, msg["results"]
                elif w in pending and time.monotonic() - w.since > joblimit:
                    j = pending.pop(w)
                    w.kill()
                    self.ws.remove(w)
                    self.ws.append(self.new())
                    yield j, [{"harness": "job exceeded its wall-clock limit", "scenario": None}]

    def one(self, module, sc, log=False):
        for j, r in self.map([dict(id=0, mode="exec", module=module, scenario=sc, log=log)]):
            return r[0]

    def many(self, module, scs):
        out = [None] * len(scs)
        for j, r in self.map([dict(id=i, mode="exec", module=module, scenario=s) for i, s in enumerate(scs)]):
            out[j["id"]] = r[0]
        return out

    def close(self):
        for w in self.ws:
            try:
                w.cmd.close()
            except OSError:
                pass
        for w in self.ws:
            w.close()
        shutil.rmtree(self.top, ignore_errors=True)


# ------------------------------------------------------------------ verdicts
def verdict(r):
    """the violation of one execution, if any (None: held)"""
    if r.get("harness"):
        return None
    if r.get("violation"):
        return r["violation"]
    if r.get("died"):
        return {"cls": "died", "msg": "the process died of signal %d" % r["died"]}
    if r.get("stuck"):
        return {"cls": "stuck", "msg": "the process made no progress for two minutes"}
    return None


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def match_known(prop, v):
    import re

    for k in load_known():
        if k.get("status") == "known" and k["property"] == prop and k["cls"] == v["cls"] \
                and re.search(k["match"], v["msg"], re.S):
            return k
    return None


def minimise(pool, module, prop, sc, v, budget=75):
    """smaller scenarios that fail the same way; a batch of candidates at a time"""
    import importlib

    mod = importlib.import_module("sim.props." + module)
    end = time.monotonic() + budget
    tried = 0

    def fails(r):
        x = verdict(r)
        return x is not None and x["cls"] == v["cls"] and match_known(prop, x) is None

    def best(cands):
        """the first (most drastic) candidate that still fails"""
        nonlocal tried
        cands = list(cands)
        for i in range(0, len(cands), 16):
            if time.monotonic() > end:
                return None
            part = cands[i:i + 16]
            tried += len(part)
            rs = pool.many(module, part)
            for c, r in zip(part, rs):
                if fails(r):
                    return c
        return None

    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for key in ("faults", "preempt"):
            while True:
                fl = sc.get(key, [])
                if not fl:
                    break
                c = []
                if len(fl) > 2:
                    c += [dict(sc, **{key: fl[len(fl) // 2:]}), dict(sc, **{key: fl[:len(fl) // 2]})]
                c += [dict(sc, **{key: fl[:i] + fl[i + 1:]}) for i in range(min(len(fl), 48))]
                b = best(c)
                if b is None:
                    break
                sc, progress = b, True
        if hasattr(mod, "shrink"):
            b = best(mod.shrink(sc))
            if b is not None:
                sc, progress = b, True
    return sc, tried


# ------------------------------------------------------------------ run
def run(prop):
    spec = plan.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.monotonic()
    njobs = int(os.environ.get("PUNX_SIM_JOBS") or spec[tier])
    ceiling = dict(quick=420, thorough=5400)[tier]
    n = int(os.environ.get("PUNX_SIM_WORKERS") or min(8, os.cpu_count() or 1))
    print("property %s: VERIF_SEED=%d tier=%s jobs=%d workers=%d" % (prop, seed, tier, njobs, n), flush=True)
    pool = Pool(n)
    module = spec["module"]
    st = dict(evals=0, jobs=0, harness=[], sim=0.0, faults={}, states=set(), digests=set(), nops=0,
              yields=0, switches=0, nontrivial=set(), stuck=0, died=0, retried=0, counters={}, statuses={})
    found = []
    known_hit = {}
    samples = []
    redo = []
    interesting = 0

    def jobs():
        for i in range(njobs):
            if sum(1 for _ in found) >= 6:
                return
            js = int.from_bytes(hashlib.sha256(b"%s/%d/%d" % (prop.encode(), seed, i)).digest()[:6], "big")
            yield dict(id=i, mode="job", module=module, prop=prop, seed=js, tier=tier)

    try:
        for j, rs in pool.map(jobs(), deadline=t0 + ceiling):
            st["jobs"] += 1
            for r in rs:
                st["evals"] += 1
                if r.get("retried"):
                    st["retried"] += 1
                if r.get("harness"):
                    st["harness"].append((j["seed"], r["harness"]))
                    continue
                if r.get("stuck"):
                    st["stuck"] += 1
                if r.get("died"):
                    st["died"] += 1
                st["sim"] += r.get("simsec", 0)
                st["nops"] += r.get("nops", 0)
                st["yields"] += r.get("yields", 0)
                st["switches"] += r.get("switches", 0)
                for k, c in r.get("faults", {}).items():
                    st["faults"][k] = st["faults"].get(k, 0) + c
                for k, c in (r.get("counters") or {}).items():
                    st["counters"][k] = st["counters"].get(k, 0) + c
                if r.get("digest"):
                    st["digests"].add(r["digest"])
                    if r.get("nontrivial"):
                        st["nontrivial"].add(r["digest"])
                if r.get("state"):
                    st["states"].add(r["state"])
                v = verdict(r)
                if v is not None:
                    k = match_known(prop, v)
                    if k is not None:
                        known_hit.setdefault(k["id"], [k, 0, v["msg"]])[1] += 1
                    else:
                        found.append((r["scenario"], v, r))
                elif r.get("digest"):
                    interesting += 1
                    if len(samples) < 3 and r.get("nontrivial"):
                        samples.append(dict(scenario=brief(r["scenario"]), faults_fired=r.get("fired", [])[:4],
                                            status=r.get("status"), digest=r["digest"]))
                    if interesting % max(1, spec.get("redo", 40)) == 1 and len(redo) < 24:
                        redo.append((r["scenario"], r["digest"]))
        t1 = time.monotonic()
        # the same scenarios again, on whichever worker is free
        nd = 0
        if not found:
            for (sc, d), r in zip(redo, pool.many(module, [x[0] for x in redo])):
                if r.get("digest") != d:
                    nd += 1
                    st["harness"].append((0, "not deterministic: %s != %s for %s" % (r.get("digest"), d, json.dumps(sc)[:600])))
        report = []
        unconfirmed = 0
        seen = set()
        for sc, v, r in found:
            if v["cls"] in seen or len(report) >= 3:
                continue
            again = pool.one(module, sc)
            v2 = verdict(again)
            if v2 is None or v2["cls"] != v["cls"] or (r.get("digest") and again.get("digest") != r.get("digest")):
                unconfirmed += 1
                st["harness"].append((0, "violation not reproduced: %r then %r: %s" % (v, v2 or again.get("harness"), json.dumps(sc)[:600])))
                continue
            seen.add(v["cls"])
            msc, tried = minimise(pool, module, prop, sc, v)
            final = pool.one(module, msc, log=True)
            fv = verdict(final)
            if fv is None:
                msc, final, fv = sc, again, v2
            os.makedirs(EVID, exist_ok=True)
            path = os.path.join(EVID, "replay-%s-%s.json" % (prop, v["cls"]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, module=module, verif_seed=seed, cls=fv["cls"], message=fv["msg"],
                               digest=final.get("digest"), scenario=msc, original_scenario=sc,
                               minimisation_runs=tried, schedule=final.get("fired"),
                               trace=final.get("log", [])[-400:], code=pool.code), f, indent=1)
            report.append((fv, path))
        for kid, (k, c, msg) in sorted(known_hit.items()):
            print("KNOWN-FINDING: property=%s %s (%s; seen in %d runs)" % (prop, k["what"], kid, c))
        for v, path in report:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s" % (v["cls"], v["msg"]))
        wall = time.monotonic() - t0
        write_evidence(prop, spec, tier, seed, st, samples, report, known_hit, wall, t1 - t0, njobs, len(redo), nd, n)
        for s, h in st["harness"][:5]:
            print("harness error (job seed %s): %s" % (s, h), file=sys.stderr)
        print("%s: %d runs (%d jobs of %d), %d distinct histories, %d states, %d faults fired, %.0f simulated s, %.1f s; "
              "%d violations, %d harness errors" % (prop, st["evals"], st["jobs"], njobs, len(st["digests"]), len(st["states"]),
                                sum(st["faults"].values()), st["sim"], wall, len(report), len(st["harness"])))
        if report:
            return 1
        if st["harness"]:
            return 2
        if st["jobs"] < max(1, njobs // 4):
            print("too little was explored within the time limit", file=sys.stderr)
            return 2
        return 0
    finally:
        pool.close()


def brief(sc):
    s = json.dumps(sc)
    if len(s) < 3000:
        return sc
    s = dict(sc)
    for k in ("server", "source", "user"):
        if k in s:
            s[k] = "... %d entries" % len(s[k])
    if len(json.dumps(s)) > 6000:
        return json.dumps(s)[:6000]
    return s


def write_evidence(prop, spec, tier, seed, st, samples, report, known_hit, wall, search, njobs, redo, nd, n):
    os.makedirs(EVID, exist_ok=True)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=st["evals"], distinct_nontrivial=len(st["nontrivial"]), rule=spec["rule"],
            samples=samples or [dict(note="no non-trivial run completed")],
            seeds=st["jobs"], runs_per_hour=int(st["evals"] / max(search, .01) * 3600),
            seeds_per_hour=int(st["jobs"] / max(search, .01) * 3600),
            simulated_seconds=round(st["sim"], 3),
            seam_calls=st["nops"], scheduling_points=st["yields"], context_switches=st["switches"],
            faults_fired=dict(sorted(st["faults"].items())), faults_fired_total=sum(st["faults"].values()),
            distinct_histories=len(st["digests"]),
            distinct_histories_measure="SHA-256 over the ordered seam calls (process, operation, path) and context switches of a run",
            distinct_end_states=len(st["states"]),
            end_state_measure="hash of the observable end state: exit statuses, file tree or report, adopted model",
            probes=st["counters"],
            real_components=spec["real"], stub_components=spec["stub"],
            determinism=dict(reexecuted=redo, diverged=nd),
            workers=n, jobs_planned=njobs, harness_errors=len(st["harness"]),
            retried_after_wall_timeout=st["retried"],
            known_findings={k: v[1] for k, v in known_hit.items()},
        ),
        assumptions=spec["assumptions"], wall_s=round(wall, 2), violations=len(report))
    tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(tmp, os.path.join(EVID, prop + ".json"))


def replay(path, verbose=False):
    with open(path) as f:
        d = json.load(f)
    pool = Pool(1)
    try:
        r = pool.one(d["module"], d["scenario"], log=verbose)
        v = verdict(r)
        if verbose:
            for e in r.get("log", []):
                print(*e)
            print(json.dumps({k: x for k, x in r.items() if k not in ("log", "scenario")}, indent=1))
        if r.get("harness"):
            print("harness error: " + r["harness"])
            return 2
        if v is None:
            print("the property holds on this scenario")
            return 0
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        print("  [%s] %s" % (v["cls"], v["msg"]))
        print("  history %s (recorded %s): %s" % (r.get("digest"), d.get("digest"),
              "identical" if r.get("digest") == d.get("digest") else "DIFFERENT"))
        return 1
    finally:
        pool.close()


def selftest(props, njobs=6):
    """same seeds, different worker counts, different hash seeds, twice"""
    props = props or sorted(plan.PROPS)
    bad = 0
    tables = []
    for n, hs in ((8, 0), (3, 0), (8, 4242)):
        pool = Pool(n, hs)
        tab = {}
        try:
            js = []
            for p in props:
                for i in range(njobs):
                    s = int.from_bytes(hashlib.sha256(b"self/%s/%d" % (p.encode(), i)).digest()[:6], "big")
                    js.append(dict(id=len(js), mode="job", module=plan.PROPS[p]["module"], prop=p, seed=s, tier="quick", log=True))
            for j, rs in pool.map(js):
                for k, r in enumerate(rs):
                    tab[j["prop"], j["seed"], k] = (r.get("digest"), r.get("state"), json.dumps(r.get("violation")),
                                                    r.get("harness"), hashlib.sha1(json.dumps(r.get("log")).encode()).hexdigest())
        finally:
            pool.close()
        tables.append(tab)
    keys = set().union(*tables)
    for k in sorted(keys):
        v = [t.get(k) for t in tables]
        if any(x != v[0] for x in v) or (v[0] and v[0][3]):
            bad += 1
            if bad < 10:
                print("DIVERGED", k, *v, sep="\n   ")
    print("selftest: %d executions, each run under 3 configurations, %d diverged" % (len(keys), bad))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        print(build_shim())
        return 0
    if a[:1] == ["run"]:
        return run(a[1])
    if a[:1] == ["replay"]:
        return replay(a[1], "-v" in a)
    if a[:1] == ["selftest"]:
        return selftest(a[1:])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
