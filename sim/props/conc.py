"""
Several punx processes at once, under one scheduler (C09: installers; C10:
readers next to installers).  The processes run the real code; the scheduler
switches between them at any file-system call or piece of a download.
"""
import errno
import os
import random
import re

from .. import filesets as fs
from ..common import SMALL, listing, mutating, result, state_hash, table_rows, vers, viol
from ..core import snapshot
from . import cache


def load_all(op):
    """everything a process knows of a set; looked at once or repeatedly"""
    from punx import nxdl_manager
    from .valid import dump_manager

    return [dump_manager(nxdl_manager.NXDL_Manager(op["name"])) for _ in range(op.get("times", 1))]


def misfit(got, v):
    """how what was loaded differs from version v; None if it does not"""
    from .valid import set_facts

    if got["sha"] != fs.sha_of(v) or got["date"] != v["date"]:
        return "sha %s, date %s" % (got["sha"], got["date"])
    ref, pats = set_facts(v)
    for n in sorted(set(ref) | set(got["classes"])):
        if ref.get(n) != got["classes"].get(n):
            return "the version's sha, but another %s" % n
    pats = dict(pats, validNXClassName=pats["validNXClassName"] + pats.get("validItemName", []))     # (a restriction of the other)
    for n in ("validItemName", "validNXClassName"):
        if n in pats and set(pats[n]) != set(got["schema"]["patterns"].get(n, [])):
            return "the version's sha, but another rule %s: %s" % (n, got["schema"]["patterns"].get(n))
    return None


class Conc(cache.Run):
    def __init__(self, sc, root):
        self.by_proc = {}
        super().__init__(sc, root)

    def serve(self, ref):
        """a branch that moves: each request may meet the next version"""
        vs = self.sc["server"].get(ref)
        if vs is None:
            return None
        if isinstance(vs, dict):
            vs = [vs]
        k = sum(1 for x in self.served if x[1] == ref)
        v = vs[min(k, len(vs) - 1)]
        pid = self.w.cur.idx
        self.served.append((pid, ref, v["salt"]))
        self.by_proc.setdefault(pid, {})[ref] = v
        return fs.archive(v, ref)

    def versions(self, name):
        """every version of the set that was ever there to be had"""
        r = [self.before[name]] if name in self.before else []
        for d in self.by_proc.values():
            if name in d:
                r.append(d[name])
        return r

    def go(self):
        sc, w = self.sc, self.w
        self.before = dict(self.model)
        cache.small_h5(os.path.join(w.data, "t.h5"))
        procs = []
        for i, op in enumerate(sc["procs"]):
            if op["op"] == "install":
                p = w.new_proc(argv=["install"] + (["-u"] if op.get("update") else []) + op["names"], pid=i)
            elif op["op"] == "configuration":
                p = w.new_proc(argv=["configuration"], pid=i)
            elif op["op"] == "validate":
                p = w.new_proc(argv=["validate", os.path.join(w.data, "t.h5"), "-f", op["name"]], pid=i)
            elif op["op"] == "load":
                p = w.new_proc(target=(lambda op: lambda proc: load_all(op))(op), pid=i)
            elif op["op"] == "list":
                p = w.new_proc(target=listing, pid=i)
            p.op = op
            procs.append(p)
        self.procs = procs
        w.run_procs(procs)
        self.judge(procs)
        return self

    # ------------------------------------------------------------ judging
    def judge(self, procs):
        inst = [p for p in procs if p.op["op"] == "install"]
        faulted = {f.get("proc", 0) for f in self.w.fired_faults}
        touched = {}
        for p in inst:
            for n in p.op["names"]:
                touched.setdefault(n, []).append(p)
        story = "; ".join("P%d `%s`: %s" % (i, " ".join(p.argv) if len(p.argv) > 1 else "%s %s" % (p.op["op"], p.op.get("name", "")), cache.describe_status(p))
                          for i, p in enumerate(procs))
        self.notes["status"] = [p.status for p in procs]
        for p in procs:
            if p.status == "hang":
                return self.fail("hang", "a process never ends: %s (%s)" % (p.exc, story))
        # --- the installers
        allowed = {n: [v] for n, v in self.before.items()}
        absent_ok = []
        for n, ps in touched.items():
            changers = [p for p in ps if n in self.by_proc.get(p.idx, {})]
            if not changers:
                continue
            won = [p for p in changers if p.status == 0]
            maybe = [p for p in changers if p.status != 0 and p.idx in faulted]
            killed = [p for p in changers if p.status == -9]
            if won and (len(changers) <= 2 or not faulted):
                allowed[n] = [self.by_proc[p.idx][n] for p in won + maybe]
            elif not faulted and len(inst) == len([p for p in inst if len(p.op["names"]) == 1]):
                return self.fail("nobody-succeeded", "without any fault, nobody managed to install %r: %s" % (n, story))
            else:
                allowed[n] = self.versions(n)
                if n not in self.before and faulted:
                    allowed[n] = [None] + allowed[n]
            if killed:
                absent_ok.append(n)
                if n not in self.before:
                    allowed[n] = [None] + allowed[n]
        where = "after concurrent processes (%s)" % story
        if self.check_state(allowed, where, absent_ok):
            return
        for p in inst:
            if p.status == 0 or p.idx in faulted:
                continue
            rivals = [q for q in inst if q is not p and set(q.op["names"]) & set(p.op["names"])]
            if not rivals:
                return self.fail("unrelated-failure", "P%d failed although nobody else touched its sets: %s %s (%s)" % (
                    p.pos, p.exc_type, p.exc, story))
            if not p.op.get("update") and all(n in self.before for n in p.op["names"]) \
                    and not any(q.op.get("update") for q in rivals):
                return self.fail("unrelated-failure", "P%d had nothing to do, but failed: %s (%s)" % (p.pos, p.exc, story))
        # --- whoever printed a table
        for p in procs:
            if p.status == 0 and p.idx not in faulted and p.op["op"] in ("install", "configuration"):
                if self.judge_table(p, touched, story):
                    return
        # --- the readers
        for p in procs:
            if p.op["op"] != "install" and p.idx not in faulted:
                if self.judge_reader(p, touched, story):
                    return
        # --- an undisturbed process afterwards finds everything in order
        for n in sorted(touched):
            if self.sc.get("recover") and self.sc["server"].get(n) is not None:
                self.w.faults = []
                served = len(self.served)
                p = self.w.run(argv=["install", "-u", n])
                if p.status != 0:
                    return self.fail("no-recovery", "after (%s), an undisturbed `punx install -u %s` fails: %s %s" % (
                        story, n, p.exc_type, p.exc))
                v = self.by_proc[p.idx][n]
                allowed = {m: [x] for m, x in self.model.items()}
                allowed[n] = [v]
                if self.check_state(allowed, "after recovery from (%s)" % story):
                    return

    def row_ok(self, n, row):
        """row = [cache, date, sha7, path] matches one version of set n"""
        cand = [("user", v, os.path.join(self.w.user_cache, n)) for v in self.versions(n)]
        if n in self.source:
            cand.append(("source", self.source[n], os.path.join(self.w.source_cache, n)))
        return any(row == [c, v["date"], fs.sha_of(v)[:7], path] for c, v, path in cand)

    def judge_table(self, p, touched, story):
        rows = table_rows(p.out)
        where = "P%d `%s` (%s)" % (p.pos, " ".join(p.argv), story)
        if rows is None:
            return self.fail("report-wrong", "%s printed no table" % where)
        seen = {}
        for r in rows:
            if r[0] in seen:
                return self.fail("table-wrong", "%s: %r appears twice" % (where, r[0]))
            seen[r[0]] = r[1:]
        known = set(self.source) | set(self.before) | set(touched)
        for n, row in seen.items():
            if n not in known:
                return self.fail("phantom", "%s lists %r, which nobody installed" % (where, n))
            if not self.row_ok(n, row):
                return self.fail("table-wrong", "%s: row of %r is %r, which is no version of it" % (where, n, row))
        for n in set(self.source) | (set(self.before) - set(touched)):
            if n not in seen:
                return self.fail("table-wrong", "%s does not list %r" % (where, n))
        for n in set(self.before) - set(touched):
            if seen[n][0] != "user":
                return self.fail("table-wrong", "%s lists %r as %r" % (where, n, seen[n]))
        m = re.search(r"default .*file set: +(\S+)", p.out)
        if not m or m.group(1) not in known:
            return self.fail("default-wrong", "%s: default file set is %r" % (where, m and m.group(1)))
        still = set(self.source) | (set(self.before) - set(touched))
        allv = dict(self.source)
        allv.update(self.before)
        newest = max(allv[n]["date"] for n in still)
        got = m.group(1)
        dates = [v["date"] for v in self.versions(got)]
        if got in self.source:
            dates.append(self.source[got]["date"])
        if max(dates) < newest:
            return self.fail("default-wrong", "%s: default file set is %r, dated %s, although one dated %s was there all the time" % (
                where, got, max(dates), newest))

    def judge_reader(self, p, touched, story):
        where = "P%d %s %s (%s)" % (p.pos, p.op["op"], p.op.get("name", ""), story)
        if p.op["op"] in ("configuration", "list"):
            if p.status != 0:
                return self.fail("reader-failed", "%s: %s %s\n%s" % (where, p.exc_type, p.exc, p.tb[-900:]))
            if p.op["op"] == "list":
                for n, got in p.value["sets"].items():
                    cand = self.versions(n) + ([self.source[n]] if n in self.source else [])
                    if not any(got["sha"] == fs.sha_of(v) and got["last_modified"] == v["date"] for v in cand):
                        return self.fail("phantom", "%s lists %r as %r" % (where, n, got))
                for n in set(self.source) | (set(self.before) - set(touched)):
                    if n not in p.value["sets"]:
                        return self.fail("set-not-listed", "%s does not list %r" % (where, n))
            return
        n = p.op["name"]
        if p.status != 0:
            if n in touched:
                return       # was being replaced: a visible failure is in order
            return self.fail("reader-failed", "%s: nobody touched %r: %s %s\n%s" % (where, n, p.exc_type, p.exc, p.tb[-900:]))
        cand = self.versions(n) if (n in self.before or n in touched) else []
        if n in self.source:
            cand = cand + [self.source[n]]
        if p.op["op"] == "load":
            if n in touched:
                # a set that is absent at this moment: the newest one is used
                for m in set(self.source) | set(self.before) | set(touched):
                    cand = cand + self.versions(m) + ([self.source[m]] if m in self.source else [])
            for i, got in enumerate(p.value):
                why = [misfit(got, v) for v in cand]
                if None not in why:
                    why = sorted(why, key=lambda x: "but another" not in x)[:3]
                    return self.fail("mixture", "%s: what it loaded (time %d) is no one version of %r: %s" % (where, i + 1, n, why))
        else:
            m = re.search(r"NeXus definitions: (\S+), dated (.+?), sha=(\S+)", p.out)
            if not m or m.group(1) != n:
                return self.fail("mixture", "%s: report names definitions %r" % (where, m and m.groups()))
            fit = [v for v in cand if fs.sha_of(v) == m.group(3) and v["date"] == m.group(2)]
            if not fit:
                return self.fail("mixture", "%s: report names %r, which is no version of %r" % (where, m.groups(), n))
            marks = {int(x) for x in re.findall(r"mark_(\d+)", p.out)}
            if marks != {fit[0]["salt"]}:
                return self.fail("mixture", "%s: report claims version %s (salt %d), but speaks of fields of %s" % (
                    where, m.group(3)[:7], fit[0]["salt"], sorted(marks)))
        # what was there all the time must not be passed over for something older
        return


def execute(sc, root, log=False):
    r = Conc(sc, root)
    r.go()
    state = state_hash(sorted((n, v["salt"]) for n, v in r.model.items()), r.notes.get("status"),
                       r.violation and r.violation["cls"])
    extra = {}
    if sc.get("sched"):
        extra["scenario"] = dict(sc, sched=None, preempt=[[y, b] for y, a, b in r.w.switches])
    return result(r.w, r.violation, state=state, nontrivial=len(r.w.switches) > len(sc["procs"]) - 1 or bool(r.w.fired_faults),
                  log=log, status=r.notes.get("status"), total=r.w.yields,
                  **extra)


# ------------------------------------------------------------------ generators
def job(prop, seed, ctx):
    return gen(prop, seed, ctx)


def scenario(prop, seed, rng):
    names = rng.sample(cache.NAMES, rng.randrange(0, 3))
    mk = lambda: vers(rng, **SMALL)
    mkbig = lambda: vers(rng, base=["NXentry", "NXroot", "NXdata"], apps=[], contrib=[], extras=rng.randrange(1, 3))
    if prop == "C10":
        mk = lambda: dict(mkbig(), itempat=rng.choice([0, 1, 2]), pattern=rng.choice([0, 1, 2]))
    sc = dict(prop=prop, engine="conc", seed=seed, clock=rng.randrange(1500000000, 1900000000),
              dirseed=rng.randrange(1, 1 << 60), content_length=rng.random() < 0.5,
              source=[dict(s, v=dict(s["v"], base=["NXentry", "NXroot", "NXdata"])) for s in cache.SRC_SMALL[:1]],
              user=[dict(name=n, v=mk()) for n in names],
              server={n: [mk() for _ in range(4)] for n in cache.NAMES}, faults=[], preempt=[], ops=[])
    procs = []
    pool = names + [n for n in cache.NAMES if n not in names][:2]
    if prop == "C09":
        k = rng.choice([2, 2, 2, 3, 3, 4])
        style = rng.random()
        hot = rng.choice(pool)
        for i in range(k):
            if style < 0.6:
                ns = [hot]
            elif style < 0.8:
                ns = [rng.choice(pool)]
            else:
                ns = rng.sample(pool, rng.choice([1, 2]))
            up = rng.random() < (0.85 if any(n in names for n in ns) else 0.5)
            procs.append(dict(op="install", names=ns, update=up))
        sc["recover"] = rng.random() < 0.5
    else:
        k = rng.choice([1, 1, 1, 2])
        hot = rng.choice(names or pool)
        for i in range(k):
            procs.append(dict(op="install", names=[hot if rng.random() < 0.8 else rng.choice(pool)], update=True))
        have = names + [s["name"] for s in sc["source"]]
        for i in range(rng.choice([1, 1, 2])):
            x = rng.random()
            if x < 0.25:
                procs.insert(rng.randrange(len(procs) + 1), dict(op="configuration"))
            elif x < 0.4:
                procs.insert(rng.randrange(len(procs) + 1), dict(op="list"))
            else:
                n = hot if hot in have and rng.random() < 0.75 else rng.choice(have)
                procs.insert(rng.randrange(len(procs) + 1),
                             dict(op="validate", name=n) if rng.random() < 0.35 else dict(op="load", name=n, times=rng.choice([1, 1, 2, 3])))
    sc["procs"] = procs
    return sc


def gen(prop, seed, ctx):
    rng = random.Random(seed)
    sc = scenario(prop, seed, rng)
    base = ctx.execute(sc, log=True)
    yield base
    if base.get("violation") or base.get("harness"):
        return
    total = max(2, base["total"])
    k = len(sc["procs"])
    # yield numbers, per process, of its own calls when run alone
    own = {}
    for e in base["log"]:
        if e[0] < k:
            own.setdefault(e[0], []).append(e)
    hot = [(i, e) for i in own for e in own[i] if e[2] in ("rename", "mkdir", "rmdir") or e[3].endswith(fs.INFO)]
    n = 10 if ctx.tier == "quick" else 30
    for _ in range(n):
        pre = []
        x = rng.random()
        if x < 0.35 or not hot:
            for _k in range(rng.randrange(1, 7)):
                pre.append([rng.randrange(1, total + 1), rng.randrange(k)])
        else:
            # at (or just after) a decisive call of one process, let others run for a while
            y = 0
            for _k in range(rng.randrange(1, 4)):
                i, e = rng.choice(hot)
                y0 = e[5] + rng.choice([0, 0, 1, 1, 2, rng.randrange(-3, 6)])
                if y0 <= y:
                    y0 = y + 1 + rng.randrange(0, 30)
                pre.append([max(1, y0), rng.choice([j for j in range(k) if j != i] or [0])])
                if rng.random() < 0.7:
                    run = rng.choice([rng.randrange(1, 12), rng.randrange(1, max(2, total // k)), rng.randrange(1, max(2, total // k))])
                    # ... often exactly until another decisive call of the other
                    j = pre[-1][1]
                    hj = [f for f in hot if f[0] == j]
                    if hj and rng.random() < 0.6:
                        f = rng.choice(hj)[1]
                        first = own[j][0][5]
                        run = max(1, f[5] - first + 1 + rng.choice([0, 0, 1]))
                    y = pre[-1][0] + run
                    pre.append([y, i])
                else:
                    y = pre[-1][0]
        pre.sort()
        s = dict(sc, preempt=pre)
        if rng.random() < 0.5:
            s = dict(sc, sched=dict(seed=rng.randrange(1 << 40), hot=rng.choice([0.1, 0.3, 0.5, 0.8]),
                                    cold=rng.choice([0, 0, 0.005, 0.03])))
        if rng.random() < (0.35 if prop == "C09" else 0.2):
            i = rng.choice([j for j in range(k) if sc["procs"][j]["op"] == "install"])
            lg = own.get(i, [])
            if lg:
                muts = [e for e in lg if mutating(e)] or lg
                e = rng.choice(muts if rng.random() < 0.8 else lg)
                kind = rng.choice(["crash", "crash", "err", "kbd"])
                f = dict(proc=i, n=e[1], kind=kind)
                if kind == "err":
                    f["errno"] = rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES])
                s["faults"] = [f]
        yield ctx.execute(s)


def shrink(sc):
    ps = sc["procs"]
    for i in range(len(ps)):
        if len(ps) > 2:
            keep = [j for j in range(len(ps)) if j != i]
            m = {j: a for a, j in enumerate(keep)}
            yield dict(sc, procs=[ps[j] for j in keep],
                       preempt=[[y, m[q]] for y, q in sc["preempt"] if q in m],
                       faults=[dict(f, proc=m[f["proc"]]) for f in sc["faults"] if f["proc"] in m])
    for i in range(len(sc.get("user", []))):
        yield dict(sc, user=sc["user"][:i] + sc["user"][i + 1:])
    used = {n for o in ps for n in o.get("names", [])}
    if set(sc["server"]) - used:
        yield dict(sc, server={n: v for n, v in sc["server"].items() if n in used})
    if sc.get("recover"):
        yield dict(sc, recover=False)
    if sc.get("dirseed"):
        yield dict(sc, dirseed=0)
