"""
Validation, the tree view and the loading of definitions (C14-C23): the real
code reads generated HDF5 and NXDL files through the seam; what it says is
compared with other simulated executions of the same, and with the recipes
the files were made from.
"""
import errno
import hashlib
import json
import os
import random
import re
import shutil
import sys
import threading

import h5py

from .. import core
from .. import filesets as fs
from .. import h5gen
from .. import model
from ..common import rdate, state_hash, viol
from ..core import HarnessError, MUTATING, World, snapshot

RERRS = [errno.EIO, errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOMEM, errno.ESTALE]


def warm():
    import h5py

    f = h5py.File("warm.h5", "w", driver="core", backing_store=False)
    f["x"] = [1, 2]
    f["x"][()]
    f.close()


# ------------------------------------------------------------------ scenario pieces
def mini(rng, **kw):
    v = dict(salt=rng.randrange(1, 10 ** 6), bundle=rng.choice(["v2018.5", "v2018.5", "v3.3", "a4fd52d"]),
             date=rdate(rng), extras=rng.randrange(0, 2),
             base=["NXobject", "NXroot", "NXentry", "NXdata"] + rng.sample(
                 ["NXnote", "NXcollection", "NXinstrument", "NXuser", "NXsubentry"], rng.randrange(0, 3)),
             apps=rng.choice([[], [], ["NXdirecttof"]]), contrib=rng.choice([[], [], ["NXspecdata"]]),
             gen=dict({c: rng.randrange(0, 3) for c in fs.CATS}, base_classes=rng.choice([0, 1, 2, 4])))
    if rng.random() < 0.4:
        v["itempat"] = rng.choice([1, 2])
    if rng.random() < 0.6:
        v["minocc"] = rng.randrange(2)
    if rng.random() < 0.3:
        v["pattern"] = rng.choice([1, 2])
    v.update(kw)
    return v


def app_names(v):
    """what an entry may say it is defined by"""
    n = ["NXg%s%d_%d" % (c[0], v["salt"], i) for c in fs.CATS[1:] for i in range(v.get("gen", {}).get(c, 0))]
    return n + list(v.get("apps", [])) + list(v.get("contrib", []))


def class_names(v):
    return fs.classes_of(v)


# ------------------------------------------------------------------ the world
class Setup:
    def __init__(self, sc, root):
        self.sc = sc
        self.w = w = World(root, sc)
        w.begin()
        self.called = sc.get("called") or {}       # files under other names
        os.environ.update(sc.get("env") or {})
        if sc.get("umask") is not None:
            os.umask(sc["umask"])
        self.sub = sc.get("datadir", "")
        self.data = os.path.join(w.data, self.sub) if self.sub else w.data
        os.makedirs(self.data, exist_ok=True)
        for s in sc["source"]:
            fs.write_set(os.path.join(w.source_cache, s["name"]), s["v"], s["name"])
        if sc.get("user"):
            os.makedirs(w.user_cache, exist_ok=True)
        for s in sc.get("user", []):
            fs.write_set(os.path.join(w.user_cache, s["name"]), s["v"], s["name"], *([sc["written"]] if sc.get("written") else []))
        for n, text in sc.get("beside", ()):        # things in the user cache that are no file sets
            p = os.path.join(w.user_cache, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fh:
                fh.write(text)
        for f in sc.get("files", []):
            self.write_file(f)
        if (sc.get("argv") or [""])[0].startswith("de"):
            self.demo = os.path.join(w.site, "punx", "data", "writer_1_3.hdf5")
            os.makedirs(os.path.dirname(self.demo), exist_ok=True)
            shutil.copy(os.path.join(core.PUNX_SRC, "data", "writer_1_3.hdf5"), self.demo)
        os.chdir(os.path.join(w.root, sc["cwd"]) if sc.get("cwd") else self.data)
        if sc.get("locale"):
            import locale

            locale.setlocale(locale.LC_ALL, sc["locale"])
        for f in sc.get("files", []):
            self.write_alts(f)
        if sc.get("mtime"):
            for d, _, fl in os.walk(self.data):
                for n in fl:
                    os.utime(os.path.join(d, n), (sc["mtime"], sc["mtime"]))
        for n in sc.get("linked", ()):              # the file is somewhere else
            p = self.path(n)
            os.makedirs(os.path.join(self.data, "else"), exist_ok=True)
            os.rename(p, os.path.join(self.data, "else", "where"))
            os.symlink(os.path.join("else", "where"), p)
        if sc.get("mode"):
            for f in sc.get("files", []):
                os.chmod(self.path(f["n"]), sc["mode"])
        if sc.get("loglevel") is not None:          # what the application wants to know
            import logging
            import punx.main, punx.validate, punx.h5tree, punx.nxdltree  # noqa: E401, F401

            class Sink(logging.Handler):
                def emit(self, record):
                    record.getMessage()

            logging.getLogger().addHandler(Sink())
            for n in [None] + [n for n in logging.root.manager.loggerDict if n.split(".")[0] == "punx"]:
                logging.getLogger(n).setLevel(sc["loglevel"])

    def path(self, n):
        return os.path.join(self.data, self.called.get(n, n))

    def write_file(self, f):
        p = self.path(f["n"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if "raw" in f:
            with open(p, "wb") as fh:
                fh.write(f["raw"].encode("latin1"))
        elif "xml" in f:
            with open(p, "wb") as fh:
                fh.write(xml_file(f["xml"]))
        elif f.get("dir"):
            os.makedirs(p, exist_ok=True)
        else:
            h5gen.write(p, f["r"], self.sc.get("layout") or f.get("layout"), self.sc.get("seed", 0))
        cut = f.get("cut")
        if cut is not None:
            n = os.path.getsize(p)
            with open(p, "r+b") as fh:
                fh.truncate(min(n - 1, int(n * cut)) if n else 0)
        for a, b in f.get("smash", ()):
            n = os.path.getsize(p)
            with open(p, "r+b") as fh:
                fh.seek(int(n * a))
                fh.write(bytes((b * (i + 3)) & 255 for i in range(16)))

    def write_alts(self, f):
        """contents the file is going to have later (op rewrite), of the same
        size and age if wanted"""
        alts = f.get("alts")
        if not alts:
            return
        p = self.path(f["n"])
        os.link(p, p + "~0")
        every = [p + "~0"]
        for i, r in enumerate(alts):
            q = "%s~%d" % (p, i + 1)
            h5gen.write(q, r, self.sc.get("layout") or f.get("layout"), self.sc.get("seed", 0))
            every.append(q)
        if f.get("alike"):
            n, st = max(os.path.getsize(q) for q in every), os.stat(p)
            for q in every:
                os.truncate(q, n)
                os.utime(q, ns=(st.st_atime_ns, st.st_mtime_ns))

    def rewrite(self, op):
        """somebody else replaces a file; not part of what is simulated"""
        p = self.path(op["file"])
        self.w.seam.thread(0)
        try:
            shutil.copy2("%s~%d" % (p, op["k"]), p + "~~")
            os.rename(p + "~~", p)
        finally:
            self.w.seam.thread(1)

    def norm(self, text):
        """a report without the places where things happened to be"""
        text = text.replace(self.data + os.sep, "<DATA>/").replace(self.w.root, "<ROOT>")
        for a, b in self.called.items():
            text = text.replace("<DATA>/" + b, "<DATA>/" + a)
        return text


def xml_file(x):
    """bytes of an NXDL file: {"v", "cat", "name" | "gen", "spoil"}"""
    v, cat = x["v"], x["cat"]
    if "gen" in x:
        _n, b = fs.gen_class(v, cat, x["gen"])
    else:
        b = fs.nxdl(v, cat, x["name"])
    s = x.get("spoil")
    if s == "element":
        b = b.replace(b"</definition>", b"<nonsense/></definition>")
    elif s == "category":
        b = b.replace(b'category="', b'category="no', 1)
    elif s == "cut":
        b = b[:int(len(b) * x.get("at", 0.5))]
    elif s == "attribute":
        b = b.replace(b'type="group"', b'type="group" bogus="1"', 1)
    elif s == "empty":
        b = b""
    elif s == "name":
        b = re.sub(rb'<field name="[^"]*"', b'<field name="bad name"', b, count=1)
    return b


# ------------------------------------------------------------------ what punx is asked
def find_list(validator):
    return [[f.h5_address, f.test_name, str(f.status), f.comment] for f in validator.validations]


class Script:
    """a list of calls of punx's public API, in one simulated thread"""

    def __init__(self, setup, ops):
        self.setup = setup
        self.ops = ops
        self.vs = {}
        self.obs = []
        self.before = None

    def __call__(self, proc=None):
        for k, op in enumerate(self.ops):
            if self.before is not None:
                self.before(k)
            try:
                r = {"ok": self.do(op)}
            except Exception as e:
                r = {"exc": type(e).__name__, "msg": self.setup.norm(str(e))[:400]}
                import traceback

                r["tb"] = traceback.format_exc()[-1200:]
                if op["op"] in ("tree", "isnexus") and proc is not None:
                    # (the exception still refers to its frames, which may refer to objects in linked files)
                    ext = {x["n"] for x in self.setup.sc["files"] if x.get("ext")}
                    r["held"] = [x for x in held(self.setup) if x not in ext]
                e = None
            if op.get("forget"):
                self.vs.pop(op.get("v"), None)
            r["op"] = op
            if op["op"] in ("close", "tree", "isnexus", "forget") and proc is not None:
                r["held"] = r.get("held") or held(self.setup)
            self.obs.append(r)
        return self.obs

    def do(self, op):
        k = op["op"]
        f = self.setup.path(op["file"]) if "file" in op else None
        if f and op.get("rel"):
            f = op["file"]
        if k == "new":
            from punx import validate

            self.vs.pop(op["v"], None)
            self.vs[op["v"]] = validate.Data_File_Validator(op.get("ref"))
            return None
        if k == "validate":
            v = self.vs[op["v"]]
            v.validate(f)
            return self.seen(v)
        if k == "again":              # what the validator says now about its last file
            return self.seen(self.vs[op["v"]])
        if k == "report":
            return self.report(self.vs[op["v"]], op.get("statuses"))
        if k == "rewrite":
            self.setup.rewrite(op)
            return None
        if k == "close":
            self.vs[op["v"]].close()
            return None
        if k == "forget":
            import gc

            self.vs.pop(op["v"], None)
            gc.collect()
            return None
        if k == "tree":
            from punx import h5tree

            t = h5tree.Hdf5TreeView(f)
            t.array_items_shown = op.get("m", 5)
            return [self.setup.norm(x) for x in t.report(op.get("attrs", True))]
        if k == "xtree":
            from punx import nxdltree

            return [self.setup.norm(x) for x in nxdltree.NxdlTreeView(f).report(op.get("attrs", True))]
        if k == "isnexus":
            from punx import utils

            return utils.isNeXusFile(f)
        if k == "xml":
            from punx import validate

            return validate.validate_xml(f, op.get("ref"))
        if k == "load":
            from punx import nxdl_manager

            return dump_manager(nxdl_manager.NXDL_Manager(op.get("ref")))
        if k == "schema":
            from punx import cache_manager

            s = cache_manager.CacheManager().find_NXDL_file_set(op["ref"]).schema_manager
            return dump_schema(s)
        if k == "listing":
            from ..common import listing

            r = listing(None)
            for s in list(r["sets"].values()) + [r["default"]]:
                s["path"] = self.setup.norm(s["path"])
            return r
        raise HarnessError("op " + k)

    def seen(self, v):
        return dict(set=v.manager.nxdl_file_set.ref, findings=find_list(v), summary={str(k): n for k, n in v.finding_summary().items()},
                    score=list(v.finding_score()), addresses=[str(a) for a in v.addresses],
                    classpaths=sorted([str(k), [str(i.h5_address) for i in l]] for k, l in v.classpaths.items()))

    def report(self, v, statuses):
        import contextlib
        import io

        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            v.print_report(statuses=statuses)
        return self.setup.norm(b.getvalue())


def dump_manager(m):
    def needed(x):
        """must it be there, unless the definition says otherwise?"""
        return {"0": False, "1": True}.get(str(x.xml_attributes["minOccurs"].default_value), "?")

    def unneeded(a):
        return {"true": True, "false": False}.get(str(a.xml_attributes["optional"].default_value).lower(), "?")

    def struct(x):
        r = dict(attributes={k: list(a.enumerations) for k, a in x.attributes.items() if hasattr(a, "enumerations")},
                 fields={}, groups={}, links={})
        for k, f in x.fields.items():
            r["fields"][k] = dict(
                attributes={n: list(a.enumerations) for n, a in f.attributes.items()}, enum=list(f.enumerations),
                rank=f.dimensions.rank if f.dimensions else None,
                dims=[[d.index, d.value, d.ref, d.refindex, d.incr] for d in f.dimensions.dims.values()] if f.dimensions else [],
                required=needed(f), optional={n: unneeded(a) for n, a in f.attributes.items()})
        for k, g in x.groups.items():
            s = struct(g)
            s["occurs"] = {n: a for n, a in g.attributes.items() if isinstance(a, str)}
            s["required"] = needed(g)
            r["groups"][k] = s
        for k, l in x.links.items():
            r["links"][k] = l.target
        return r

    out = {}
    for n, d in m.classes.items():
        s = struct(d)
        s["category"] = d.category
        s["symbols"] = list(d.symbols)
        out[n] = s
    x = m.nxdl_file_set
    return dict(classes=out, order=list(m.classes), ref=x.ref, sha=x.sha, date=x.last_modified,
                schema=dump_schema(x.schema_manager))


def dump_schema(s):
    n = s.nxdl
    return dict(patterns={k: list(p.re_list) for k, p in n.patterns.items()}, children=sorted(n.children),
                attrs=sorted(n.attrs), units=sorted(n.units))


def held(setup):
    """data files still open: HDF5 handles and descriptors"""
    import gc

    import h5py

    gc.collect()
    r = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith(setup.data + os.sep):
            r.append(p[len(setup.data) + 1:])
    return sorted(r)


# ------------------------------------------------------------------ thread scheduler
class CoopLock:
    """what punx gets for threading.Lock while its threads are simulated"""

    def __init__(self, ts, re_entrant):
        self.ts, self.re_entrant = ts, re_entrant
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.re_entrant and self.owner == me):
            if not blocking or not self.ts.give_way():
                return False
        self.owner = me
        self.n += 1
        return True

    def release(self):
        self.n -= 1
        if self.n <= 0:
            self.owner, self.n = None, 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Threads:
    """threads of one simulated process; the scheduler may switch at every
    line of punx's code"""

    OUTSIDE = ("/h5py/", "/lxml/", "/logging/", "importlib", "threading.py")

    def __init__(self, world, sched, switches):
        self.w = world
        self.rng = random.Random(sched["seed"]) if sched else None
        self.p = sched["p"] if sched else 0
        self.burst = sched.get("burst", 0) if sched else 0
        # functions with more switches
        self.hot = {tuple(x) for x in sched.get("hot", ())} if sched else ()
        self.hotp = sched.get("hotp", 0.5) if sched else 0
        # some functions are entered by all threads together
        self.gather = sched.get("gather", 0) if sched else 0
        self.waiting = set()
        self.called = {}
        self.plan = {a: b for a, b in switches or []}
        self.made = []
        self.n = 0
        self.cur = 0
        self.quiet = 0
        self.stuck = False

    def run(self, fns):
        self.done = [False] * len(fns)
        self.pos = [-1] * len(fns)
        self.err = [None] * len(fns)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.ev = threading.Event()
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        L, R = threading.Lock, threading.RLock
        me = self

        def factory(real, rel):
            def make(*a, **k):
                f = sys._getframe(1)
                return CoopLock(me, rel) if f.f_code.co_filename.startswith(core.PUNX_SRC) else real(*a, **k)
            return make

        for t in ts:
            t.start()
        threading.Lock, threading.RLock = factory(L, False), factory(R, True)
        try:
            self.w.seam.thread(0)     # (waiting is not part of the simulation)
            self.sems[0].release()
            if not self.ev.wait(40):
                fr = sys._current_frames()
                import traceback

                raise HarnessError("simulated threads deadlocked: " + "".join(
                    "".join(traceback.format_stack(fr[t.ident])[-14:]) + "--\n" for t in ts if t.ident in fr))
        finally:
            self.w.seam.thread(1)
            threading.Lock, threading.RLock = L, R
        for e in self.err:
            if e is not None:
                raise e

    def body(self, i, fn):
        self.sems[i].acquire()
        s = self.w.seam
        s.thread(1)
        sys.settrace(self.trace)
        try:
            fn()
        except BaseException as e:
            self.err[i] = e
        finally:
            sys.settrace(None)
            s.thread(0)
        self.done[i] = True
        self.waiting.clear()
        live = [j for j in range(len(self.done)) if not self.done[j]]
        if live:
            self.cur = live[0]
            self.sems[live[0]].release()
        else:
            self.ev.set()

    def trace(self, frame, event, arg):
        c = frame.f_code
        if not c.co_filename.startswith(core.PUNX_SRC):
            return None
        k = (os.path.basename(c.co_filename), c.co_name)
        self.called.setdefault(k, set()).add(self.cur)
        self.point(frame, self.gather > 0 and k in self.hot)
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        return self.line

    def point(self, frame, enter=False):
        self.n += 1
        if self.rng is None:
            to = self.plan.get(self.n)
            if to is None:
                return
        else:
            if self.quiet > 0:
                self.quiet -= 1
                return
            live = [j for j in range(len(self.done)) if not self.done[j] and j != self.cur]
            if enter:
                out = [j for j in live if j not in self.waiting]
                self.gather -= 1
                if out and self.gather > 0:
                    self.waiting.add(self.cur)
                    live = out
                else:
                    self.waiting.clear()
                    enter = False
            c = frame.f_code
            if not enter and (self.waiting or self.rng.random() >= (
                    self.hotp if self.hot and (os.path.basename(c.co_filename), c.co_name) in self.hot else self.p)):
                return
            if not live:
                return
            to = self.rng.choice(live)
            if self.burst and not enter:
                self.quiet = self.rng.randrange(self.burst)
        if to == self.cur or to >= len(self.done) or self.done[to]:
            return
        if not self.may(frame):
            self.waiting.discard(self.cur)
            return
        self.made.append([self.n, to])
        self.switch(to)

    def may(self, frame):
        """nothing that other threads would really wait for is held"""
        from h5py._objects import phil

        if core.FINDER.importing() or phil._is_owned():
            return False
        f = frame.f_back
        while f is not None:
            fn = f.f_code.co_filename
            if any(x in fn for x in self.OUTSIDE) and fn.find("sim/props") < 0 and f.f_code.co_name not in ("run", "_bootstrap", "_bootstrap_inner"):
                return False
            f = f.f_back
        return True

    def switch(self, to):
        me = self.cur
        self.cur = to
        self.w.hash.update(b"thread %d -> %d at %d\n" % (me, to, self.n))
        # (the interpreter's own waiting must not see the simulated clock)
        self.w.seam.thread(0)
        self.sems[to].release()
        self.sems[me].acquire()
        self.w.seam.thread(1)

    def meet(self, i, k):
        """thread i waits until all others have come to their k-th call"""
        self.pos[i] = k
        while True:
            late = [j for j in range(len(self.done)) if not self.done[j] and self.pos[j] < k]
            if not late:
                return
            self.switch(late[0])

    def give_way(self):
        live = [j for j in range(len(self.done)) if not self.done[j] and j != self.cur]
        if not live:
            self.stuck = True
            raise core.SimHang("deadlock between threads")
        self.switch(live[(self.n + self.cur) % len(live)])
        return True


# ------------------------------------------------------------------ one execution
def run1(sc, root, log=False):
    """one simulated execution; returns what was observed"""
    s = Setup(sc, root)
    w = s.w
    before = (snapshot(w.data), snapshot(w.site))
    wrote = []

    def observer(w_, name, r, r2, verdict):
        if name in MUTATING or name == "open_w":
            for x in (r, r2):
                if x and not x.startswith("/home/") and not x.startswith("/tmp/") and not x.endswith(".pyc"):
                    wrote.append([name, x])

    w.observer = observer
    out = dict(obs=[])
    extra = {}
    if sc.get("argv") is not None:
        argv = [a.replace("<DATA>", s.data) for a in sc["argv"]]
        p = w.run(argv=argv, pid=0, encoding=sc.get("encoding", "utf-8"))
        out["out"] = s.norm(p.out)
        out["err"] = s.norm(p.err)[-1500:]
        if sc.get("cli") and p.status == 0:
            out["wrong"] = cli_wrong(s, sc["cli"], p.out)
    elif sc.get("threads"):
        scripts = [Script(s, ops) for ops in sc["threads"]]
        ts = Threads(w, sc.get("tsched"), sc.get("switches"))
        if sc.get("meet"):
            for i, x in enumerate(scripts):
                x.before = lambda k, i=i: ts.meet(i, k)

        def target(proc):
            import punx.validate, punx.h5tree, punx.nxdltree  # noqa
            import punx.validations.default_plot, punx.validations.item_name, punx.validations.attribute  # noqa
            import punx.validations.hdf5_group_items_in_base_class, punx.validations.base_class_items_in_hdf5_group  # noqa
            import punx.validations.application_definition, punx.validations.nx_class_attribute  # noqa

            if sc.get("shared"):
                from punx import validate

                for i, ref in enumerate(sc["shared"]):
                    m = validate.Data_File_Validator(ref)
                    for x in scripts:
                        x.vs["s%d" % i] = m
            ts.run(scripts)
            return [x.obs for x in scripts]

        p = w.run(target=target, pid=0)
        out["obs"] = p.value or []
        out["made"] = len(ts.made)
        if sc.get("tsched"):
            extra["switches"] = ts.made
            extra["called"] = sorted([m, n] for (m, n), t in ts.called.items() if len(t) > 1)
    else:
        script = Script(s, sc["ops"])
        p = w.run(target=script, pid=0)
        out["obs"] = script.obs
        out["out"] = ""
    after = (snapshot(w.data), snapshot(w.site))
    if sc.get("model"):
        out["wrong"] = against_model(s, [out["obs"]] if "threads" not in sc else out["obs"], out)
    out.update(status=p.status, exc=p.exc_type, msg=s.norm(p.exc or ""), tb=p.tb[-1500:], wrote=wrote[:20],
               changed=sorted(set(k for a, b in zip(before, after) for k in set(a) | set(b) if a.get(k) != b.get(k)))[:10])
    if w.escapes:
        out["escapes"] = w.escapes[:5]
    out.update(digest=w.digest(), nops=w.nops, yields=w.yields, simsec=w.sim_seconds(), faults=w.fault_counts,
               switches=out.get("made", 0), fired=w.fired_faults[:40], extra=extra)
    if log:
        out["log"] = w.log
        out["outw"] = {p.idx: p.out_writes}
    return out


# ------------------------------------------------------------------ reference models
def set_facts(v):
    """definitions and naming rules of a version, read without punx"""
    import xml.etree.ElementTree as ET

    xs = "{http://www.w3.org/2001/XMLSchema}"
    pats = {}
    b = fs.files(v)
    for n in ("nxdlTypes.xsd", "nxdl.xsd"):
        for e in ET.fromstring(b[n]).iter(xs + "simpleType"):
            l = [p.get("value") for p in e.iter(xs + "pattern")]
            if l and e.get("name"):
                pats[e.get("name")] = l
    return fs.reference(v), pats


def count(l):
    d = {}
    for x in l:
        k = json.dumps(x)
        d[k] = d.get(k, 0) + 1
    return d


def against_model(s, lists, out):
    """what the answers (of undisturbed and of disturbed runs) say, compared
    with the reference models; a list of differences"""
    # (files that are still open would share what HDF5 keeps of them - after a
    # read error, wrong bytes)
    for i in list(h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)):
        h5py.File(i).close()
    sc = s.sc
    vs = {x["name"]: x["v"] for x in sc["source"] + sc.get("user", [])}
    facts, verdicts, bad = {}, {}, []
    nv = nt = 0
    again = {f["n"] for f in sc["files"] if f.get("alts")}
    for obs in lists:
        last, now = {}, {}
        for o in obs:
            op = o["op"]
            if op["op"] == "rewrite":
                now[op["file"]] = "~%d" % op["k"]
            if op["op"] in ("new", "validate"):
                last.pop(op["v"], None)
            if "exc" in o or bad:
                continue
            what = "`%s`: " % who(sc, o)
            if op["op"] == "validate":
                r = o["ok"]["set"]
                if r not in facts:
                    facts[r] = set_facts(vs[r])
                k = (op["file"] + now.get(op["file"], "~0" if op["file"] in again else ""), r)
                if k not in verdicts:
                    verdicts[k] = model.Verdict(s.path(k[0]), *facts[r])
                m = last[op["v"]] = verdicts[k]
                nv += 1
                got = count([a, t, x] for a, t, x, _c in o["ok"]["findings"] if not t.startswith("NXDL field") or t.endswith("file"))
                want = count(x for x in m.found if not x[1].startswith("NXDL field") or x[1].endswith("file"))
                for x in sorted(set(got) | set(want)):
                    if got.get(x, 0) != want.get(x, 0):
                        bad.append(what + "finding %s: reported %d times, should be %d" % (x, got.get(x, 0), want.get(x, 0)))
                        break
                # (the address of something that is not there is not judged)
                got = count([t, x] for _a, t, x, _c in o["ok"]["findings"] if t.startswith("NXDL field"))
                want = count(x[1:] for x in m.found if x[1].startswith("NXDL field"))
                if got != want:
                    bad.append(what + "fields of the application definition: %s, should be %s" % (sorted(got.items())[:3], sorted(want.items())[:3]))
                sco, n = model.score([x for _a, _t, x, _c in o["ok"]["findings"]])
                if sco != o["ok"]["score"] or n != o["ok"]["summary"]:
                    bad.append(what + "score %r and summary %r are not those of the findings (%r, %r)" % (o["ok"]["score"], o["ok"]["summary"], sco, n))
                if sorted(o["ok"]["addresses"]) != m.items:
                    bad.append(what + "addresses: %s" % sorted(set(o["ok"]["addresses"]) ^ set(m.items))[:3])
            elif op["op"] == "report" and op["v"] in last:
                bad += [what + x for x in report_wrong(last[op["v"]], o["ok"], op.get("statuses"))]
            elif op["op"] == "tree" and not any("exc=" in x for x in o["ok"]):
                nt += 1
                want = [s.norm(x) for x in model.lines(s.path(op["file"] + now.get(op["file"], "~0" if op["file"] in again else "")), s.path(op["file"]), op.get("attrs", True), op.get("m", 5))]
                for a, b in zip(want + [None] * len(o["ok"]), o["ok"] + [None] * len(want)):
                    if a != b:
                        bad.append(what + "line %r, should be %r" % (b, a))
                        break
            elif op["op"] == "xtree":
                nt += 1
                bad += [what + x for x in definition_tree_wrong(s, op, o["ok"], bool(s.w.fired_faults))]
    out["verdicts"], out["trees"] = nv, nt
    return bad[:3]


def definition_tree_wrong(s, op, got, disturbed):
    """the tree of an NXDL file: its category's stylesheet of the newest set,
    applied to it"""
    import lxml.etree

    x = [f["xml"] for f in s.sc["files"] if f["n"] == op["file"]][0]
    sets = {s.norm(os.path.join(d, y["name"])): y["v"] for d, l in ((s.w.source_cache, s.sc["source"]), (s.w.user_cache, s.sc.get("user", []))) for y in l}
    b = xml_file(x)
    if len(got) < 2 or got[0] != s.norm("file: " + s.path(op["file"])):
        return ["does not begin with the name of the file: %r" % got[:1]]
    m = re.fullmatch(r"XSLT: (.*)/(\w+)/nxdlformat.xsl", got[1])
    newest = max(v["date"] for v in sets.values())
    if not m or m.group(2) != x["cat"] or m.group(1) not in sets or (sets[m.group(1)]["date"] != newest and not disturbed):
        return ["stylesheet %r; the newest set is %s, the category %s" % (got[1], [k for k, v in sets.items() if v["date"] == newest], x["cat"])]
    t = lxml.etree.XSLT(lxml.etree.fromstring(fs.files(sets[m.group(1)])[x["cat"] + "/nxdlformat.xsl"]))
    want = str(t(lxml.etree.fromstring(b).getroottree())).splitlines()
    for i, (a, c) in enumerate(zip(want + [None] * len(got), got[2:] + [None] * len(want))):
        if a != c:
            return ["line %r, should be %r" % (c, a)]
    return []


def cli_wrong(s, cli, text):
    """what a command printed, compared with the reference models"""
    for i in list(h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)):
        h5py.File(i).close()
    p = s.demo if cli.get("demo") else s.path(cli["file"])
    bad = []
    if "ref" in cli:
        vs = {x["name"]: x["v"] for x in s.sc["source"] + s.sc.get("user", [])}
        said = re.findall(r"^NeXus definitions: (.*), dated (.*), sha=(.*)$", text, re.M)
        ref = said[0][0] if said else None
        if len(said) != 1 or ref not in vs or (ref != cli["ref"] and not s.w.fired_faults) or said[0][1:] != (vs[ref]["date"], fs.sha_of(vs[ref])):
            return ["the report speaks of the definitions %r, should be %s" % (said, cli["ref"])]
        bad += report_wrong(model.Verdict(p, *set_facts(vs[ref])), text, cli["statuses"])
    if "m" in cli and "exc=" not in text:
        want = "\n".join(model.lines(p, cli.get("shown", p), cli["attrs"], cli["m"])) + "\n"
        if want not in text:
            have = text.splitlines()
            bad.append("the tree lacks %r" % ([x for x in want.splitlines() if x not in have][:2] or "something",))
    return bad[:3]


def report_wrong(m, text, statuses):
    """the printed report: every finding of the wanted kinds, once"""
    rows = [x for x in m.found if not statuses or x[2] in statuses]
    sco, n = model.score([x[2] for x in m.found])
    tail = text.split("summary statistics")[-1]
    for k, c in list(n.items()) + [("TOTAL", len(m.found))]:
        g = re.findall(r"^%s\s+(\d+)" % k, tail, re.M)
        if g != [str(c)]:
            return ["the summary counts %s findings %s, should be %d" % (g, k, c)]
    if "<finding>=%f of %d" % (sco[2], sco[1]) not in tail:
        return ["the score is not %f of %d" % (sco[2], sco[1])]
    if any("\n" in "".join(map(str, x)) or "\r" in "".join(map(str, x)) for x in m.found) or "\x85" in text or "\x0b" in text:
        return []
    head = text.split("findings\n", 1)[-1].split("summary statistics")[0]
    lines = head.split("\n")
    bar = [i for i, l in enumerate(lines) if l.startswith("=") and set(l) <= set("= ")]
    if not rows and not bar:
        return []
    if len(bar) < 3:
        return ["no table of findings"]
    cols = [x.span() for x in re.finditer("=+", lines[bar[0]])]
    got = []
    for l in lines[bar[1] + 1:bar[2]]:
        c = [l[a:b].strip() for a, b in cols[:2]] + [l[cols[2][0]:cols[2][1]].strip()]
        if c[0] and c[1]:
            got.append(c)
    strip = lambda x: None if x is None else x.strip()
    g = count([x[1], x[2]] for x in got if not x[2].startswith("NXDL field") or x[2].endswith("file"))
    w = count([x[2], x[1].strip()] for x in rows if not x[1].startswith("NXDL field") or x[1].endswith("file"))
    if g != w:
        for x in sorted(set(g) | set(w)):
            if g.get(x, 0) != w.get(x, 0):
                return ["the table shows %d rows with %s, should be %d" % (g.get(x, 0), x, w.get(x, 0))]
    return []


def execute(sc, root, log=False):
    """(called for one part of a scenario; the verdict is judge()'s)"""
    return dict(part=run1(sc, root, log=log))


# ------------------------------------------------------------------ parts and verdicts
COMMON = ("seed", "clock", "dirseed", "source", "user", "files", "cwd", "datadir", "layout", "mono", "tz",
          "mtime", "hashseed", "encoding", "locale", "tick", "meet", "called", "env", "umask", "written", "beside", "linked", "mode", "loglevel")


def part(sc, **kw):
    d = dict(prop=sc["prop"], engine="valid")
    for k in COMMON:
        if k in sc:
            d[k] = sc[k]
    d.update(kw)
    return d


def fresh(sc, op, ref=None):
    """the same question, asked in a process of its own"""
    if op.get("now"):
        sc = dict(sc, files=[dict({k: x for k, x in f.items() if k != "alts"}, r=f["alts"][op["now"] - 1]) if f["n"] == op["file"] else f
                             for f in sc["files"]])
    op = {k: x for k, x in op.items() if k not in ("forget", "now")}
    if op["op"] in ("validate", "again", "report"):
        ops = [dict(op="new", v=0, ref=ref), dict(op="validate", v=0, file=op["file"])]
        if op["op"] == "report":
            ops.append(dict(op="report", v=0, statuses=op.get("statuses")))
    else:
        ops = [op]
    return part(sc, ops=ops)


def parts(sc):
    """the executions a scenario consists of"""
    if "engine" not in sc or sc["engine"] != "valid" or "kind" not in sc:
        return None
    k = sc["kind"]
    if k == "variants":
        return [part(sc, ops=sc["ops"])] + [part(sc, ops=sc["ops"], **v) for v in sc["variants"]]
    if k == "history":
        r = [part(sc, **({"ops": sc["ops"]} if "ops" in sc else
                         dict(threads=sc["threads"], shared=sc.get("shared"), tsched=sc.get("tsched"), switches=sc.get("switches"))))]
        for _key, p in questions(sc):
            r.append(p)
        return r
    if k == "fault":
        d = {x: sc[x] for x in ("ops", "argv", "cli") if x in sc}
        return [part(sc, **d), part(sc, faults=sc.get("faults", []), **d)]
    if k == "model":
        return [part(sc, faults=sc.get("faults", []), model=True, **({"ops": sc["ops"]} if "ops" in sc else dict(
            threads=sc["threads"], tsched=sc.get("tsched"), switches=sc.get("switches"))))]
    if k == "plain":
        return [part(sc, faults=sc.get("faults", []), **{x: sc[x] for x in ("ops", "argv") if x in sc})]
    raise HarnessError("kind " + k)


ASKED = ("validate", "tree", "xtree", "isnexus", "xml", "load", "schema", "report")


def questions(sc):
    """[(key, part)] of the distinct questions in a history"""
    seen, r = set(), []
    lists = [sc["ops"]] if "ops" in sc else sc["threads"]
    for ops in lists:
        ref, last, now = {"s%d" % i: x for i, x in enumerate(sc.get("shared") or [])}, {}, {}
        for op in ops:
            if op["op"] == "rewrite":
                now[op["file"]] = op["k"]
            if op["op"] == "new":
                ref[op["v"]] = op.get("ref")
                last.pop(op["v"], None)
            if op["op"] == "validate":
                last[op["v"]] = op["file"], now.get(op["file"])
            q = question(op, ref, last, now)
            if q is None:
                continue
            key = json.dumps(q, sort_keys=True)
            if key not in seen:
                seen.add(key)
                r.append((key, fresh(sc, q[0], q[1])))
    return r


def question(op, ref, last, now):
    if op["op"] not in ASKED:
        return None
    o = {k: x for k, x in op.items() if k not in ("v", "forget")}
    at = now.get(op.get("file"))
    if op["op"] == "report":
        if op["v"] not in last:
            return None
        o["file"], at = last[op["v"]]
    if at:
        o["now"] = at
    return [o, ref.get(op.get("v"))]


def plain(o):
    """an observation without what may legitimately differ"""
    if "exc" in o:
        return {"exc": o["exc"]}
    return {"ok": o["ok"]}


def same(a, b):
    return json.dumps(plain(a), sort_keys=True, default=str) == json.dumps(plain(b), sort_keys=True, default=str)


def difference(a, b):
    """a short account of how two observations differ"""
    a, b = plain(a), plain(b)
    if "exc" in a or "exc" in b:
        f = lambda x: "raises " + x["exc"] if "exc" in x else "succeeds"
        return "one %s, the other %s" % (f(a), f(b))
    a, b = a["ok"], b["ok"]
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                x, y = a.get(k), b.get(k)
                if isinstance(x, list) and isinstance(y, list):
                    one = [i for i in x if i not in y][:2]
                    two = [i for i in y if i not in x][:2]
                    if not one and not two:
                        return "%s: same items, other order or number (%d, %d)" % (k, len(x), len(y))
                    return "%s: %r / %r" % (k, one, two)
                if isinstance(x, dict) and isinstance(y, dict):
                    for j in sorted(set(x) | set(y)):
                        if x.get(j) != y.get(j):
                            return "%s[%s]: %r / %r" % (k, j, str(x.get(j))[:200], str(y.get(j))[:200])
                return "%s: %r / %r" % (k, str(x)[:200], str(y)[:200])
    if isinstance(a, list) and isinstance(b, list):
        for x, y in zip(a, b):
            if x != y:
                return "%r / %r" % (x, y)
        return "%d / %d lines" % (len(a), len(b))
    if isinstance(a, str) and isinstance(b, str):
        for x, y in zip(a.splitlines(), b.splitlines()):
            if x != y:
                return "%r / %r" % (x, y)
        return "texts of %d / %d lines" % (len(a.splitlines()), len(b.splitlines()))
    return "%r / %r" % (str(a)[:200], str(b)[:200])


def combine(sc, rs):
    """verdict on a whole scenario from the results of its parts"""
    for r in rs:
        if "part" not in r:
            out = {k: r[k] for k in ("harness", "stuck", "died") if k in r}
            out["scenario"] = sc
            return out
    ps = [r["part"] for r in rs]
    v = None
    for p in ps:
        if p.get("escapes"):
            v = v or viol("escape", "a mutating call outside the scratch root: %r" % (p["escapes"],))
    v = v or JUDGE[sc["prop"]](sc, ps)
    h = hashlib.sha256()
    faults = {}
    for p in ps:
        h.update(p["digest"].encode())
        for k, n in p["faults"].items():
            faults[k] = faults.get(k, 0) + n
    last = ps[0] if sc["kind"] == "history" else ps[-1]
    sc2 = sc
    if ps[0].get("extra", {}).get("switches") is not None:
        sc2 = dict(sc, tsched=None, switches=ps[0]["extra"]["switches"])
    return dict(scenario=sc2, violation=v, digest=h.hexdigest()[:16], nops=sum(p["nops"] for p in ps),
                yields=sum(p["yields"] for p in ps), simsec=sum(p["simsec"] for p in ps), faults=faults,
                switches=sum(p["switches"] for p in ps),
                state=state_hash([[plain(o) if isinstance(o, dict) else o for o in p["obs"]] for p in ps],
                                 [p.get("out") for p in ps], [p["status"] for p in ps]),
                nontrivial=bool(faults) or last["switches"] > 0 or sc["kind"] in ("variants", "plain", "model") or
                len(sc.get("ops") or ()) > 2, escapes=0, fired=[f for p in ps for f in p["fired"]][:40],
                called=ps[0].get("extra", {}).get("called"), parts=len(ps), log=ps[0].get("log"), outw=ps[0].get("outw"), obs=[p["obs"] for p in ps] if sc.get("keep") else None,
                status=[p["status"] for p in ps])


def who(sc, o):
    return " ".join(str(x) for x in (o["op"].get("op"), o["op"].get("file", ""), o["op"].get("ref", "")) if x)


def judge_variants(sc, ps):
    """C14: nothing but the file and the definitions matters"""
    base = ps[0]
    for v, p in zip(sc["variants"], ps[1:]):
        what = ", ".join("%s=%s" % (k, x if not isinstance(x, (list, dict)) else json.dumps(x)[:80]) for k, x in sorted(v.items()))
        if p["status"] != base["status"]:
            return viol("other-outcome", "with %s: exit %r instead of %r: %s %s\n%s" % (what, p["status"], base["status"], p["exc"], p["msg"], p["tb"]))
        for a, b in zip(base["obs"], p["obs"]):
            if not same(a, b):
                return viol("other-verdict", "`%s` depends on %s: %s\n%s" % (who(sc, a), what, difference(a, b), a.get("tb") or b.get("tb") or ""))
    return None


def judge_history(sc, ps):
    """C15, C16: each answer is the one a fresh process gives"""
    p = ps[0]
    want = {k: r for (k, _), r in zip(questions(sc), ps[1:])}
    if p["status"] == "hang":
        return viol("hang", "never ends: %s" % p["msg"])
    if p["status"] != 0:
        return viol("failed", "exit %r: %s %s\n%s" % (p["status"], p["exc"], p["msg"], p["tb"]))
    lists = [p["obs"]] if "ops" in sc else p["obs"]
    for ti, obs in enumerate(lists):
        ref, last, now = {"s%d" % i: x for i, x in enumerate(sc.get("shared") or [])}, {}, {}
        trail, ok = [], {}
        for o in obs:
            op = o["op"]
            if op["op"] == "new":
                ref[op["v"]] = op.get("ref")
                ok.pop(op["v"], None)
                last.pop(op["v"], None)
                if "exc" in o:
                    return viol("failed", "%s%s: %s %s\n%s" % ("thread %d: " % ti if "threads" in sc else "", who(sc, o), o["exc"], o["msg"], o.get("tb")))
            if op["op"] == "rewrite":
                now[op["file"]] = op["k"]
            if op["op"] == "validate":
                last[op["v"]] = op["file"], now.get(op["file"])
                ok[op["v"]] = "ok" in o
            q = question(op, ref, last, now)
            if q is not None:
                w = want[json.dumps(q, sort_keys=True)]
                w = w["obs"][-1] if w["obs"] else {"exc": w["exc"], "msg": w["msg"]}
                if not same(w, o):
                    return viol("history-dependent", "%s`%s` after %s differs from what a fresh process says: %s\n%s" % (
                        "thread %d: " % ti if "threads" in sc else "", who(sc, o), "; ".join(trail[-6:]) or "nothing",
                        difference(w, o), o.get("tb") or w.get("tb") or ""))
            trail.append(who(sc, o))
    return None


def judge_fault(sc, ps):
    """C17, C18, C22: exactly the undisturbed result, or a visible failure"""
    base, p = ps
    if p["status"] == "hang":
        return viol("hang", "never ends: %s %s" % (p["msg"], p["fired"]))
    if p["status"] != 0:
        return None                   # (died of an interrupt, or failed visibly)
    n = 0
    for a, b in zip(base["obs"], p["obs"]):
        n += 1
        if "exc" in b:
            if "exc" not in a and not p["fired"]:
                return viol("failed", "%s failed without a fault" % who(sc, a))
            return None               # a visible failure; what follows was not promised
        if not same(a, b):
            if a["op"]["op"] in ("tree", "xtree") and tree_excused(a, b):
                continue
            if fell_back(a, b):
                return None
            if b["op"]["op"] == "isnexus" and any(f.get("kind") == "vanish" for f in sc["faults"]):
                return None           # (says there is no such file)
            return viol("silently-wrong", "`%s` reported success with a different result under %s: %s" % (
                who(sc, a), [(f.get("fired"), f.get("n")) for f in p["fired"][:3]], difference(a, b)))
    return None


def fell_back(a, b):
    """the set could not be found, another one was taken (as documented), and
    the answer says so"""
    x, y = a["ok"], b["ok"]
    return isinstance(x, dict) and any(x.get(k) and y.get(k) and x[k] != y[k] for k in ("set", "ref"))


def tree_excused(a, b):
    """an array that could not be read is shown as the error text"""
    if "ok" not in a or "ok" not in b:
        return False
    t = "\n".join(b["ok"])
    return "exc=" in t or (a["op"]["op"] == "xtree" and a["ok"][1] != b["ok"][1])


def judge_held(sc, ps):
    """C19: nothing is written, nothing stays open"""
    p = ps[-1]
    if p["changed"]:
        return viol("changed", "after %s: changed: %s" % (p["fired"][:1] or "an undisturbed run", p["changed"]))
    if p["wrote"]:
        return viol("wrote", "mutating calls: %r" % (p["wrote"][:4],))
    open_ = {}
    for o in p["obs"]:
        op = o["op"]
        if op["op"] == "validate":
            open_[op["v"]] = op["file"]
        if op["op"] in ("close", "forget"):
            open_.pop(op.get("v"), None)
        if o.get("held"):
            mine = set(open_.values())
            ext = set(f["n"] for f in sc["files"] if f.get("ext")) if open_ else set()
            left = [x for x in o["held"] if x not in mine and x not in ext]
            if left:
                return viol("left-open", "after `%s` still open: %r" % (who(sc, o), left))
        if op["op"] == "validate" and "ok" in o:
            pass
    return None


def judge_robust(sc, ps):
    """C20: every file HDF5 can read is validated and shown to the end"""
    p = ps[-1]
    if p["status"] == "hang":
        return viol("hang", "never ends: %s" % p["msg"])
    if p["status"] != 0:
        return viol("aborted", "exit %r: %s %s\n%s" % (p["status"], p["exc"], p["msg"], p["tb"]))
    rec = {f["n"]: f["r"] for f in sc["files"] if "r" in f}
    for o in p["obs"]:
        if "exc" in o:
            return viol("aborted", "`%s` raises %s: %s\n%s" % (who(sc, o), o["exc"], o["msg"], o.get("tb")))
        r = rec.get(o["op"].get("file"))
        if o["op"]["op"] == "validate":
            have = set(o["ok"]["addresses"])
            for path, n in h5gen.nodes(r):
                if n["t"] in "gdT" and path not in have:
                    return viol("not-examined", "`%s`: %s is not among the examined addresses" % (who(sc, o), path))
        if o["op"]["op"] == "tree":
            m = tree_missing(r, o["ok"])
            if m:
                return viol("not-shown", "`%s`: no line for %s" % (who(sc, o), m))
    return None


def has_target(n):
    return any(a[0] == "target" for a in n.get("a", ()))


def tree_missing(r, lines):
    """an object of the recipe that has no line in the tree"""
    text = "\n".join(lines) + "\n"

    def walk(n, ind):
        for k in n.get("c", ()):
            pre = " " * ind + k["n"]
            # (names may contain line breaks)
            if not any(("\n" + pre + x) in text for x in (":", " -->", "\n")):
                return k["n"]
            if k["t"] == "g" and not has_target(k):
                m = walk(k, ind + 2)
                if m:
                    return k["n"] + "/" + m
        return None

    return walk(r, 2)


def judge_cli(sc, ps):
    """C21: the exit status tells the truth"""
    base, p = ps
    exp = sc["expect"]
    cmd = "punx " + " ".join(sc["argv"])
    for i, q in enumerate(ps):
        if q["status"] == "hang":
            return viol("hang", "`%s` never ends: %s" % (cmd, q["msg"]))
    if exp == "fail" and base["status"] == 0:
        return viol("false-success", "`%s` exits 0 although %s:\n%s" % (cmd, sc["why"], base["out"][-400:]))
    if exp == "ok" and base["status"] != 0:
        return viol("false-failure", "`%s` exits %r: %s %s %s\n%s" % (cmd, base["status"], base["exc"], base["msg"], base["err"][-300:], base["tb"]))
    if exp == "ok" and sc.get("mark"):
        for m in sc["mark"]:
            if m not in base["out"]:
                return viol("no-report", "`%s` exits 0, but its report lacks %r:\n%s" % (cmd, m, base["out"][-600:]))
    for q in ps:
        if exp == "ok" and q["status"] == 0 and q.get("wrong"):
            return viol("wrong-report", "`%s`%s: %s" % (cmd, " under %s" % q["fired"][:2] if q["fired"] else "", "; ".join(q["wrong"])))
    if p["status"] == 0:
        if exp == "fail":
            return viol("false-success", "`%s` exits 0 under %s although %s" % (cmd, p["fired"][:2], sc["why"]))
        xslt = re.compile(r"^XSLT: .*$", re.M)
        other = re.compile(r"^NeXus definitions: ([^,]*),", re.M).findall
        if p["fired"] and other(base["out"]) and other(p["out"]) and other(base["out"]) != other(p["out"]):
            return None               # (the set could not be looked up; another was taken, and the report says so)
        if p["out"] != base["out"] and "exc=" not in p["out"] and not (
                xslt.search(base["out"]) and xslt.findall(p["out"]) and xslt.findall(p["out"]) != xslt.findall(base["out"])):
            return viol("report-lost", "`%s` exits 0 under %s, but its report is not the undisturbed one: %s" % (
                cmd, [f.get("fired") for f in p["fired"][:2]], difference({"ok": base["out"]}, {"ok": p["out"]})))
    return None


def judge_load(sc, ps):
    """C22: the definitions are exactly those in the files"""
    vs = {s["name"]: s["v"] for s in sc["source"]}
    vs.update({s["name"]: s["v"] for s in sc.get("user", [])})
    for o in ps[0]["obs"]:
        if "exc" in o:
            return viol("failed", "`%s` fails: %s %s\n%s" % (who(sc, o), o["exc"], o["msg"], o.get("tb")))
        if o["op"]["op"] != "load":
            continue
        v = vs[o["op"]["ref"]]
        ref = fs.reference(v)
        got = o["ok"]
        if got["sha"] != fs.sha_of(v) or got["ref"] != o["op"]["ref"]:
            return viol("wrong-set", "loaded %s %s for %s" % (got["ref"], got["sha"], o["op"]["ref"]))
        if set(ref) != set(got["classes"]):
            return viol("wrong-classes", "%s: classes differ: %s" % (o["op"]["ref"], sorted(set(ref) ^ set(got["classes"]))[:5]))
        for n in ref:
            if ref[n] != got["classes"][n]:
                return viol("wrong-class", "%s: %s differs: %s" % (o["op"]["ref"], n, difference({"ok": ref[n]}, {"ok": got["classes"][n]})))
        pats = set_facts(v)[1]
        pats["validNXClassName"] = pats["validNXClassName"] + pats.get("validItemName", [])      # (a restriction of it)
        for n in ("validItemName", "validNXClassName"):
            if set(pats.get(n, [])) != set(got["schema"]["patterns"].get(n, [])):
                return viol("wrong-rule", "%s: the rule %s is %s, should be %s" % (o["op"]["ref"], n, got["schema"]["patterns"].get(n), pats.get(n)))
    return judge_fault(sc, ps)


def judge_model(sc, ps):
    """C23, C24: every answer that is given is the one of the reference model"""
    p = ps[0]
    if p.get("wrong"):
        return viol("wrong-answer", "%s%s" % ("; ".join(p["wrong"]), " (under %s)" % [f.get("fired") for f in p["fired"][:3]] if p["fired"] else ""))
    if p["status"] == "hang":
        return viol("hang", "never ends: %s" % p["msg"])
    if p["status"] != 0 and not p["fired"]:
        return viol("failed", "exit %r: %s %s\n%s" % (p["status"], p["exc"], p["msg"], p["tb"]))
    bad = {f["n"] for f in sc["files"] if "cut" in f or "raw" in f}
    for obs in [p["obs"]] if "ops" in sc else p["obs"]:
        for o in obs:
            if "exc" in o and not p["fired"] and o["op"].get("file") not in bad:
                return viol("failed", "`%s` raises %s: %s\n%s" % (who(sc, o), o["exc"], o["msg"], o.get("tb")))
    return None


JUDGE = dict(C23=judge_model, C24=judge_model, C14=judge_variants, C15=judge_history, C16=judge_history, C17=judge_fault, C18=judge_fault, C19=judge_held,
             C20=judge_robust, C21=judge_cli, C22=judge_load)


# ------------------------------------------------------------------ generators
def scenario(prop, seed, rng, nfiles=1, nuser=1, **opt):
    src = [dict(name="v2018.5", v=mini(rng))]
    user = [dict(name=n, v=mini(rng)) for n in rng.sample(["main", "v3.2", "dev"], nuser)]
    sets = src + user
    oddclass = 0.2
    if opt.pop("differ", False):     # sets that judge the same names differently
        ks = rng.sample([(0, 0), (1, 1), (2, 2), (1, 2), (2, 1)], len(sets))
        mo = rng.randrange(2)
        for i, s in enumerate(sets):
            s["v"].update(itempat=ks[i][0], pattern=ks[i][1], minocc=(mo + i) % 2)
        opt.setdefault("bad", 0.35)
        oddclass = 0.5
    opt["oddclass"] = oddclass
    sc = dict(prop=prop, engine="valid", seed=seed, clock=rng.randrange(1500000000, 1900000000),
              dirseed=rng.randrange(1, 1 << 60), source=src, user=user, files=[])
    apps = [n for s in sets for n in app_names(s["v"])]
    ext = opt.pop("extfiles", 0)
    names = ["ext%d.h5" % i for i in range(ext)]
    for i in range(nfiles):
        o = dict(apps=apps, ext=names + (["gone.h5"] if ext else []))
        o.update(opt)
        sc["files"].append(dict(n=["a.h5", "b.hdf5", "c.nxs", "d.h5"][i], r=h5gen.recipe(rng, **o)))
        if rng.random() < 0.3:
            extra = [c for s in sets for c in class_names(s["v"])]
            for _p, n in h5gen.nodes(sc["files"][-1]["r"]):
                for a in n.get("a", ()):
                    if a[0] == "NX_class" and rng.random() < 0.3 and _p != "/entry":
                        a[1] = dict(k="str", v=rng.choice(extra))
        if rng.random() < 0.4:
            known, of = {}, rng.sample(sets, len(sets) if rng.random() < 0.3 else 1)
            for s in of:
                known.update(fs.reference(s["v"]))
            sc["files"][-1]["of"] = of[-1]["name"]
            h5gen.guide(rng, sc["files"][-1]["r"], known)
    for n in names:
        sc["files"].append(dict(n=n, r=h5gen.recipe(rng, depth=2, links=0, atsign=opt.get("atsign", True)), ext=True))
    return sc


def rewritten(rng, sc, ops):
    """between the calls, files get other contents"""
    import copy

    fs_ = [f for f in sc["files"] if "r" in f and not f.get("ext") and "cut" not in f]
    if not fs_ or rng.random() > 0.35:
        return sc, ops
    f = rng.choice(fs_)
    r, alts = f["r"], []
    for _ in range(rng.choice([1, 1, 2])):
        x = rng.random()
        other = [g["r"] for g in fs_ if g is not f]
        if x < 0.3 and other:
            alts.append(rng.choice(other))
            continue
        ps = list(h5gen.prune(r))
        alts.append(rng.choice(ps) if ps and x < 0.6 else copy.deepcopy(r))
        if x >= 0.8:
            h5gen.other_kind(rng, alts[-1])
        elif x >= 0.6:
            h5gen.retouch(rng, alts[-1])
    sc = dict(sc, files=[dict(g, alts=alts, alike=rng.random() < 0.5) if g is f else g for g in sc["files"]])
    ops = list(ops)
    used = [i for i, o in enumerate(ops) if o.get("file") == f["n"]]
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.choice(used) if used and rng.random() < 0.7 else rng.randrange(len(ops))
        ops.insert(i + 1, dict(op="rewrite", file=f["n"], k=rng.randrange(len(alts) + 1)))
        looks = [o for o in ops if o.get("file") == f["n"] and o["op"] != "rewrite"]
        if rng.random() < 0.8 and looks:
            o = dict(rng.choice(looks))
            if "v" not in o or any(x["op"] == "new" and x["v"] == o["v"] for x in ops[:i + 2]):
                ops.insert(i + 2, o)
    return sc, ops


def fitting(rng, sc):
    """a set, rather one that files were made for"""
    of = [f["of"] for f in sc["files"] if "of" in f]
    return rng.choice(of if of and rng.random() < 0.6 else refs(sc))


def refs(sc):
    return [s["name"] for s in sc["source"]] + [s["name"] for s in sc.get("user", [])]


def gen_c14(prop, seed, ctx, rng):
    sc = scenario(prop, seed, rng, nfiles=1, extfiles=rng.choice([0, 0, 1]))
    f = sc["files"][0]["n"]
    ref = fitting(rng, sc)
    sc["kind"] = "variants"
    sc["ops"] = [dict(op="new", v=0, ref=ref), dict(op="validate", v=0, file=f), dict(op="report", v=0),
                 dict(op="tree", file=f), dict(op="isnexus", file=f)]
    n = 6 if ctx.tier == "quick" else 12
    for i in range(n):
        k = rng.choice(["dirseed", "clock", "tz", "encoding", "datadir", "cwd", "layout", "layout", "hashseed", "others", "mtime", "shuffle", "cache",
                        "tick", "jump", "called", "env", "beside", "linked", "mode", "loglevel", "written"])
        if k == "dirseed":
            v = dict(dirseed=rng.randrange(1 << 60))
        elif k == "clock":
            v = dict(clock=rng.choice([0, 1, 86400 * 365 * 20, 2 ** 31 + 5, rng.randrange(10 ** 9, 3 * 10 ** 9)]), mono=rng.randrange(1, 10 ** 6))
        elif k == "tick":            # (of the clock, at every look)
            v = dict(tick=rng.choice([0, 10 ** 6, 10 ** 9, 10 ** 11, 10 ** 13]))
        elif k == "jump":
            v = dict(tick=rng.choice([1000, 10 ** 8]), faults=[
                dict(n=rng.randrange(1, 1200), kind="jump", by=rng.choice([-10 ** 8, 86400, 10 ** 7, 1000, -3600]), mono=rng.random() < 0.7)
                for _ in range(rng.randrange(1, 5))])
        elif k == "tz":
            v = dict(tz=rng.choice(["Asia/Tokyo", "America/New_York", "EST5EDT", "Pacific/Kiritimati"]))
        elif k == "encoding":
            v = dict(locale="C")
        elif k == "datadir":
            v = dict(datadir=rng.choice(["x", "deep/er", "with space", "Ü", "entry", "data@1"]))
        elif k == "cwd":
            v = dict(cwd=rng.choice(["", "tmp", "home"]) or "tmp")
        elif k == "layout":
            v = dict(layout=dict(libver=rng.choice(["latest", "earliest", "v110"]), chunks=rng.random() < 0.5,
                                 userblock=rng.random() < 0.2, pad=rng.random() < 0.5))
        elif k == "shuffle":
            v = dict(layout=dict(shuffle=True, chunks=rng.random() < 0.5), seed=rng.randrange(1 << 30))
        elif k == "hashseed":
            v = dict(hashseed=rng.choice([1, 2]))
        elif k == "mtime":
            v = dict(mtime=rng.choice([0, 10 ** 9, 2 * 10 ** 9]))
        elif k == "others":
            names = ["other", "zzz", "aaa", "2025"]
            v = dict(user=sc["user"] + [dict(name=rng.choice(names), v=mini(rng, date="2031-01-01 00:00:00"))])
        elif k == "called":
            v = dict(called={f: rng.choice(["b.nxs", "a.hdf5", "a", "a.h5.bak", "nxdl.xml", "a b.nx", "\xc4.h5", "NXentry.h5", "a.nxdl"])})
        elif k == "env":
            v = dict(env={n: rng.choice(["", "0", "1", "40", "x", "/nonexistent"]) for n in rng.sample(
                ["COLUMNS", "LINES", "TERM", "USER", "LOGNAME", "DEBUG", "PUNX_CACHE", "NX_DEFAULT", "PYTHONOPTIMIZE", "HOSTNAME", "PWD",
                 "NO_COLOR", "LANG", "LC_ALL", "LANGUAGE", "HTTP_PROXY", "XDG_CACHE_HOME", "NEXUS_DEFINITIONS", "NXDL_DIR", "DISPLAY"], 8)})
        elif k == "beside":
            v = dict(beside=rng.sample([("punx.ini", "[General]\ndefault=zzz\n"), ("README", "x"), ("empty/x", ""), ("%s.bak/nxdl.xsd" % ref, "<x/>"),
                                        ("nxdl.xsd", "<x/>"), ("base_classes/NXentry.nxdl.xml", "<x/>"), (".install-x/new/nxdl.xsd", "<x/>")], 3))
        elif k == "linked":
            if len(sc["files"]) > 1:
                continue
            v = dict(linked=[f])
        elif k == "mode":
            v = dict(mode=rng.choice([0o400, 0o444, 0o777]), umask=rng.choice([0, 0o77]))
        elif k == "written":
            v = dict(written=rng.choice(["2035-01-01 00:00:00", "", "1999-01-01"]))
        elif k == "loglevel":
            v = dict(loglevel=rng.choice([1, 5, 10, 20]))
        elif k == "cache":
            moved = [s for s in sc["user"] if s["name"] == ref]
            if not moved:
                continue
            v = dict(user=[s for s in sc["user"] if s["name"] != ref], source=sc["source"] + moved)
        yield ctx.execute(dict(sc, variants=[v]))


def history_ops(rng, sc, n, vs=("p", "q"), nofail=False):
    ops, live = [], []
    rs = refs(sc)
    fn = [f["n"] for f in sc["files"] if not f.get("ext")]
    for _ in range(n):
        x = rng.random()
        if not live or x < 0.1:
            v = rng.choice(vs)
            ops.append(dict(op="new", v=v, ref=fitting(rng, sc)))
            if v not in live:
                live.append(v)
        elif x < 0.65:
            ops.append(dict(op="validate", v=rng.choice(live), file=rng.choice(fn)))
        elif x < 0.72:
            ops.append(dict(op="report", v=rng.choice(live), statuses=rng.choice([None, ["OK", "ERROR"]])))
        elif x < 0.77:
            ops.append(dict(op="close", v=rng.choice(live)))
        elif x < 0.87:
            ops.append(dict(op="tree", file=rng.choice(fn), attrs=rng.random() < 0.7, m=rng.choice([5, 1, 10])))
        elif x < 0.91:
            ops.append(dict(op="isnexus", file=rng.choice(fn)))
        elif x < 0.97:
            ops.append(dict(op="load", ref=rng.choice(rs)))
        else:
            ops.append(dict(op="schema", ref=rng.choice(rs)))
    return ops


def gen_c15(prop, seed, ctx, rng):
    sc = scenario(prop, seed, rng, nfiles=rng.choice([2, 3, 3]), nuser=rng.choice([0, 1, 1, 2]), extfiles=rng.choice([0, 0, 1]), width=4,
                  differ=rng.random() < 0.5)
    bad = rng.random()
    if bad < 0.25:
        sc["files"][-1 if not sc["files"][-1].get("ext") else 1].update(cut=rng.choice([0.0, 0.3, 0.7]))
    elif bad < 0.35:
        sc["files"].append(dict(n="no.h5", raw="this is not HDF5"))
    sc["kind"] = "history"
    if rng.random() < 0.5 and len(sc["files"]) > 1:
        # the two files differ in one detail only: what sticks is easily seen
        import copy

        r = copy.deepcopy(sc["files"][0]["r"])
        ps = list(h5gen.prune(r))
        if ps:
            sc["files"][1]["r"] = rng.choice(ps)
            sc["files"][1].pop("cut", None)
    for _ in range(3 if ctx.tier == "quick" else 8):
        s2, ops = rewritten(rng, sc, history_ops(rng, sc, rng.randrange(4, 13)))
        yield ctx.execute(dict(s2, ops=ops))


def functions(cache={}):
    """{module: [name of a function of punx, ...]}"""
    if not cache:
        import ast

        for m in ("validate", "nxdl_manager", "schema_manager", "utils", "h5tree", "finding", "cache_manager", "nxdl_schema"):
            cache[m + ".py"] = os.path.join(core.PUNX_SRC, m + ".py")
        for m in ("item_name", "attribute", "default_plot", "application_definition", "nx_class_attribute",
                  "hdf5_group_items_in_base_class", "base_class_items_in_hdf5_group"):
            cache[m + ".py"] = os.path.join(core.PUNX_SRC, "validations", m + ".py")
        for m, p in list(cache.items()):
            try:
                with open(p, encoding="utf-8") as f:
                    names = sorted({x.name for x in ast.walk(ast.parse(f.read())) if isinstance(x, ast.FunctionDef)})
            except OSError:
                names = []
            cache[m] = names
    return {m: n for m, n in cache.items() if n}


PROCESS_WIDE = {"chdir", "fchdir", "environ", "putenv", "setlocale", "umask", "redirect_stdout", "redirect_stderr", "tzset", "setrecursionlimit"}
MUTATORS = {"append", "add", "update", "setdefault", "clear", "pop", "popitem", "extend", "insert", "remove", "discard", "move_to_end"}


def sharing(cache=[]):
    """[[module, function], ...] that seem to change what all threads share
    (only a hint where switches are most interesting)"""
    if cache:
        return cache[0]
    import ast

    def container(x):
        return isinstance(x, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp, ast.Call)) and not (
            isinstance(x, ast.Call) and getattr(x.func, "attr", getattr(x.func, "id", "")) in ("getLogger", "compile", "split", "namedtuple", "frozenset", "tuple"))

    def names(body):
        out = set()
        for x in body:
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and container(x.value):
                out |= {t.id for t in (x.targets if isinstance(x, ast.Assign) else [x.target]) if isinstance(t, ast.Name)}
        return out

    found = []
    for d, dirs, files in os.walk(core.PUNX_SRC):
        dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__", "cache", "data", "ignore_now"))
        for f in sorted(files):
            if not f.endswith(".py") or f in ("_version.py", "__init__.py"):
                continue
            try:
                with open(os.path.join(d, f), encoding="utf-8") as fh:
                    tree = ast.parse(fh.read())
            except (OSError, SyntaxError, ValueError):
                continue
            glob = names(tree.body)
            classes = {x.name for x in ast.walk(tree) if isinstance(x, ast.ClassDef)}
            shared = set()
            for x in ast.walk(tree):
                if isinstance(x, ast.ClassDef):
                    shared |= names(x.body)
            own = {t.attr for x in ast.walk(tree) if isinstance(x, ast.FunctionDef) and x.name.startswith("__init")
                   for y in ast.walk(x) if isinstance(y, ast.Assign) for t in y.targets if isinstance(t, ast.Attribute)}
            shared -= own

            def common(x):
                """an object that all threads have?"""
                if isinstance(x, ast.Name):
                    return x.id in glob
                return isinstance(x, ast.Attribute) and x.attr in shared

            def notable(fn):
                if any(container(x) for x in fn.args.defaults + [y for y in fn.args.kw_defaults if y is not None]):
                    return True
                for x in ast.walk(fn):
                    if isinstance(x, ast.Global):
                        return True
                    if getattr(x, "attr", getattr(x, "id", None)) in PROCESS_WIDE and isinstance(x, (ast.Attribute, ast.Name)):
                        return True
                    if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and common(x.value):
                        return True
                    if isinstance(x, ast.Attribute) and x.attr in MUTATORS and common(x.value):
                        return True
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        v = x.value
                        if isinstance(v, ast.Call) or isinstance(v, ast.Attribute) and v.attr == "__class__":
                            return True
                        if isinstance(v, ast.Name) and (v.id in classes or v.id == "cls" or v.id in glob or v.id == "sys"):
                            return True
                return False

            for x in ast.walk(tree):
                if isinstance(x, ast.FunctionDef) and notable(x):
                    found.append([f, x.name])
    cache.append(found)
    return found


def thread_schedule(rng, called=None):
    r = dict(seed=rng.randrange(1 << 40), p=rng.choice([0.0005, 0.002, 0.01, 0.1]), burst=rng.choice([0, 0, 30, 1000]))
    sh = sharing() if rng.random() < 0.25 else []
    if sh:
        r["hot"] = sh if rng.random() < 0.3 else [rng.choice(sh)]
        r.update(p=0, hotp=rng.choice([0.2, 0.4, 0.6]), burst=rng.choice([0, 0, 0, 3, 20]), gather=rng.choice([0, 5, 50]))
        return r
    if called and rng.random() < 0.8:
        # all threads come together in functions that more than one calls
        mods = sorted({m for m, _n in called})
        m = rng.choice(mods)
        own = [x for x in called if x[0] == m]
        r["hot"] = own if rng.random() < 0.3 else rng.sample(called, min(len(called), rng.choice([1, 2, 3]))) if rng.random() < 0.3 else [rng.choice(own)]
        r.update(p=rng.choice([0, 0, 0.0005]), hotp=rng.choice([0.1, 0.3, 0.6]), burst=rng.choice([0, 0, 5, 40]), gather=rng.choice([0, 5, 50, 400]))
        return r
    if rng.random() < 0.6:
        fs_ = functions()
        r["hot"] = []
        for _ in range(rng.choice([1, 1, 2])):
            m = rng.choice(sorted(fs_))
            r["hot"] += [[m, n] for n in (fs_[m] if rng.random() < 0.4 else [rng.choice(fs_[m])])]
        r.update(p=rng.choice([0, 0.0005, 0.002]), hotp=rng.choice([0.05, 0.2, 0.5]), burst=rng.choice([0, 0, 10, 100]))
    return r


def gen_c16(prop, seed, ctx, rng):
    sc = scenario(prop, seed, rng, nfiles=rng.choice([1, 2, 2]), nuser=1, width=4, depth=2, differ=rng.random() < 0.7)
    for s in sc["source"] + sc["user"]:
        s["v"]["base"] = s["v"]["base"][:5]
        s["v"]["gen"] = {c: min(1, k) for c, k in s["v"]["gen"].items()}
    sc["kind"] = "history"
    rs = refs(sc)
    k = rng.choice([2, 2, 3])
    called = None
    if rng.random() < 0.6 and not any(f.get("ext") for f in sc["files"]):
        # (files in different directories)
        sc["called"] = {f["n"]: "dir%d/%s" % (i, f["n"]) for i, f in enumerate(sc["files"])}
    for _ in range(3 if ctx.tier == "quick" else 7):
        threads = []
        alike = rng.random()
        for i in range(k):
            x = rng.random() if rng.random() < 0.4 else alike
            f = rng.choice(sc["files"])["n"]
            if sc.get("called") and rng.random() < 0.7:
                f = sc["files"][i % len(sc["files"])]["n"]
            ref = fitting(rng, sc)
            if x < 0.55:
                ops = [dict(op="new", v=i, ref=ref), dict(op="validate", v=i, file=f)]
                if rng.random() < 0.4:
                    ops.append(dict(op="validate", v=i, file=rng.choice(sc["files"])["n"]))
                ops.append(dict(op="close", v=i))
            elif x < 0.75:
                ops = [dict(op="load", ref=ref)]
            elif x < 0.85:
                ops = [dict(op="schema", ref=ref), dict(op="schema", ref=rng.choice(rs))]
            else:
                ops = [dict(op="tree", file=f), dict(op="isnexus", file=f)]
            threads.append(ops)
        r = ctx.execute(dict(sc, threads=threads, meet=rng.random() < 0.6, tsched=thread_schedule(rng, called)))
        called = r.get("called") or called
        yield r
        if r.get("violation"):
            return


def fault_at(rng, log, ops=("open", "read", "stat", "access", "listdir", "close"), match=None):
    c = [e for e in log if e[2] in ops and (match is None or match(e))]
    if not c:
        return None
    return rng.choice(c)


def read_fault(rng, log, match=None):
    e = fault_at(rng, log, match=match)
    if e is None:
        return None
    x = rng.random()
    if e[2] == "read" and rng.random() < 0.4:
        # a bad place in the file, from the start or from some moment on
        lo = e[7] + rng.randrange(max(1, e[6]))
        return dict(n=rng.choice([0, e[1]]), kind="region", match=e[3], lo=lo, hi=lo + rng.choice([1, 64, 512, 4096]), errno=errno.EIO)
    if x < 0.55:
        return dict(n=e[1], kind="err", errno=rng.choice(RERRS))
    if x < 0.75:
        return dict(n=e[1], kind="persist", errno=rng.choice(RERRS), ops=rng.choice([["read"], ["open"], ["open", "read"], ["stat", "access"], ["listdir"]]),
                    match=rng.choice([os.path.basename(e[3]), ""]))
    if x < 0.87:
        return dict(n=e[1], kind="short", frac=rng.choice([0.01, 0.3, 0.5, 0.99]))
    if x < 0.94:
        return dict(n=e[1], kind="kbd")
    return dict(n=e[1], kind="vanish")


def gen_fault(prop, seed, ctx, rng):
    sc = scenario(prop, seed, rng, nfiles=1, nuser=rng.choice([0, 1]))
    f = sc["files"][0]["n"]
    if rng.random() < 0.4:
        sc["files"][0]["layout"] = dict(libver="latest", chunks=True)
    ref = fitting(rng, sc)
    sc["kind"] = "fault"
    if prop == "C17":
        sc["ops"] = [dict(op="new", v=0, ref=ref), dict(op="validate", v=0, file=f)]
        if rng.random() < 0.3:
            sc["ops"].append(dict(op="isnexus", file=f))
    elif prop == "C18":
        sc["ops"] = [dict(op="tree", file=f, attrs=rng.random() < 0.8, m=rng.choice([5, 3, 100]))]
        if rng.random() < 0.3:
            x = dict(v=sc["source"][0]["v"], cat="base_classes", name=rng.choice(["NXentry", "NXdata"]))
            sc["files"].append(dict(n="k.nxdl.xml", xml=x))
            sc["ops"].append(dict(op="xtree", file="k.nxdl.xml"))
    else:
        sc["ops"] = [dict(op="load", ref=ref)]
    base = ctx.execute(dict(sc, faults=[]), log=True)
    yield base
    if base.get("violation") or base.get("harness") or not base.get("log"):
        return
    lg = base["log"]
    isdata = lambda e: "/data/" in e[3]
    for _ in range(12 if ctx.tier == "quick" else 40):
        m = isdata if prop in ("C17", "C18") and rng.random() < 0.8 else None
        if prop == "C22":
            m = lambda e: e[3].endswith((".xml", ".xsd")) or e[2] == "listdir" or ref in e[3]
        ft = read_fault(rng, lg, m)
        if ft is None:
            continue
        if ft["kind"] == "err" and prop == "C22" and rng.random() < 0.1:
            ft = dict(n=ft["n"], kind="eof")
        if ft["kind"] == "vanish" and not (prop == "C22" or rng.random() < 0.3):
            continue
        fl = [ft]
        if rng.random() < 0.2:
            y = read_fault(rng, lg, m)
            if y and y["kind"] != "vanish":
                fl.append(y)
        yield ctx.execute(dict(sc, faults=fl))


def gen_c19(prop, seed, ctx, rng):
    sc = scenario(prop, seed, rng, nfiles=rng.choice([1, 2]), nuser=rng.choice([0, 1]), extfiles=rng.choice([0, 0, 1]), width=4)
    fn = [f["n"] for f in sc["files"] if not f.get("ext")]
    if rng.random() < 0.2:
        sc["files"].append(dict(n="no.h5", raw=rng.choice(["not HDF5", "", "\x89HDF\r\n\x1a\n" + "\x00" * 40])))
        fn.append("no.h5")
    sc["kind"] = "plain"
    ops = []
    for _ in range(rng.randrange(1, 4)):
        v = rng.choice("pq")
        x = rng.random()
        if x < 0.7:
            ops += [dict(op="new", v=v, ref=fitting(rng, sc)), dict(op="validate", v=v, file=rng.choice(fn))]
            if rng.random() < 0.4:
                ops.append(dict(op="validate", v=v, file=rng.choice(fn)))
            if rng.random() < 0.3:
                ops.append(dict(op="report", v=v))
            ops.append(dict(op=rng.choice(["close", "close", "close", "forget"]), v=v))
        elif x < 0.9:
            ops.append(dict(op="tree", file=rng.choice(fn), attrs=rng.random() < 0.5))
        else:
            ops.append(dict(op="isnexus", file=rng.choice(fn)))
    sc["ops"] = ops
    base = ctx.execute(dict(sc, faults=[]), log=True)
    yield base
    if base.get("violation") or base.get("harness") or not base.get("log"):
        return
    for _ in range(6 if ctx.tier == "quick" else 25):
        ft = read_fault(rng, base["log"], (lambda e: "/data/" in e[3]) if rng.random() < 0.85 else None)
        if ft is None or ft["kind"] == "vanish":
            continue
        if rng.random() < 0.15:
            ft = dict(n=ft["n"], kind="crash")
        yield ctx.execute(dict(sc, faults=[ft]))


def gen_c20(prop, seed, ctx, rng):
    for i in range(6 if ctx.tier == "quick" else 20):
        r2 = random.Random(seed * 1000 + i)
        sc = scenario(prop, seed, r2, nfiles=1, nuser=0, extfiles=r2.choice([0, 1, 2]), odd=r2.choice([0.1, 0.4, 0.7]),
                      bad=r2.choice([0.05, 0.2, 0.4]), links=r2.choice([0.05, 0.2, 0.4]), width=r2.choice([4, 6]))
        f = sc["files"][0]["n"]
        if r2.random() < 0.5:
            sc["files"][0]["layout"] = dict(libver=r2.choice(["latest", "earliest"]), chunks=r2.random() < 0.5, userblock=r2.random() < 0.1)
        for x in sc["files"][1:]:
            y = r2.random()
            if y < 0.2:
                x["cut"] = r2.choice([0.0, 0.5, 0.9])
            elif y < 0.3:
                x.pop("r")
                x["raw"] = "not HDF5 at all"
            elif y < 0.4:
                x.pop("r")
                x["dir"] = True
        sc["kind"] = "plain"
        sc["ops"] = [dict(op="new", v=0, ref="v2018.5"), dict(op="validate", v=0, file=f), dict(op="report", v=0), dict(op="close", v=0),
                     dict(op="tree", file=f), dict(op="tree", file=f, attrs=False, m=r2.choice([1, 2, 3, 10])), dict(op="isnexus", file=f)]
        if len(sc["files"]) > 1 and r2.random() < 0.5:
            ex = sc["files"][1]["n"]
            sc["faults"] = [dict(n=1, kind="persist", errno=r2.choice([errno.EIO, errno.EACCES, errno.ENOENT]), ops=r2.choice([["open"], ["read"], ["open", "read"]]), match=ex)]
        yield ctx.execute(sc)


def gen_c21(prop, seed, ctx, rng):
    sc = scenario(prop, seed, rng, nfiles=1, nuser=rng.choice([0, 1]), atsign=False)
    f = sc["files"][0]["n"]
    cmd = rng.choice(["validate", "validate", "validate", "tree", "tree", "nxdl", "nxdl", "xtree", "demo"])
    cli = None
    loc = rng.choice(["", "<DATA>/"])
    ref = fitting(rng, sc)
    exp, why, mark, argv = "ok", "", [], []
    x = rng.random()
    if cmd == "demo":
        argv = [rng.choice(["de", "demo", "demonstrate"])]
        if "main" not in refs(sc):
            exp, why = "fail", "the set it is going to use is not installed"
        cli = dict(demo=True, ref="main", statuses=None, attrs=True, m=5)
        mark = ["punx validate ", "punx tree "]
    elif cmd in ("validate", "tree"):
        name = f
        if x < 0.08:
            name, exp, why = "missing.h5", "fail", "the file does not exist"
        elif x < 0.16:
            sc["files"][0]["cut"] = rng.choice([0.0, 0.2, 0.5, 0.9, 0.999])
            exp, why = "fail", "the file is truncated"
        elif x < 0.22:
            sc["files"].append(dict(n="t.h5", raw=rng.choice(["no HDF5 here", "", "\x89HDF\r\n\x1a\n"])))
            name, exp, why = "t.h5", "fail", "the file is not HDF5"
        elif x < 0.26:
            sc["files"].append(dict(n="dir.h5", dir=True))
            name, exp, why = "dir.h5", "fail", "it is a directory"
        argv = [rng.choice(["validate", "val", "va"] if cmd == "validate" else ["tree", "tr"]), loc + name]
        if cmd == "validate":
            y = rng.random()
            if y < 0.6:
                argv += [rng.choice(["-f", "--file_set_name"]), ref]
                cli = dict(file=name, ref=ref, statuses=None)
            elif y >= 0.7:
                cli = dict(file=name, ref=max((s["v"]["date"], s["name"]) for s in sc["source"] + sc["user"])[1], statuses=None)
            else:
                argv += ["-f", "nosuch"]
                exp, why = "fail", "there is no such file set"
            z = rng.random()
            if z < 0.3:
                argv += ["--report", rng.choice(["ERROR", "error,warn", "OK,NOTE", "TODO", "Ok", "OPTIONAL", "OK,OPTIONAL,ERROR", "NOTE,note"])]
                if cli:
                    cli["statuses"] = argv[-1].upper().split(",")
            elif z < 0.36:
                argv += ["--report", rng.choice(["BAD", "OK,BAD", "OK ,ERROR", ""])]
                exp, why = "fail", "there is no such kind of finding"
            mark = ["data file: ", "summary statistics", "<finding>=", "NeXus definitions version:"]
        else:
            cli = dict(file=name, attrs=True, m=5)
            if rng.random() < 0.4:
                argv += ["-a"]
                cli["attrs"] = False
            if rng.random() < 0.4:
                cli["m"] = rng.choice([1, 3, 10])
                argv += [rng.choice(["-m", "--max_array_items"]), str(cli["m"])]
            mark = [name]
    else:
        sets = sc["source"] + sc["user"]
        s = [s for s in sets if s["name"] == ref][0]
        v = s["v"]
        if v.get("gen", {}).get("base_classes") and rng.random() < 0.5:
            xm = dict(v=v, cat="base_classes", gen=0)
        else:
            xm = dict(v=v, cat="base_classes", name=rng.choice(["NXentry", "NXdata", "NXroot"]))
        name = "some.nxdl.xml"
        if x < 0.5:
            xm["spoil"] = rng.choice(["element", "cut", "attribute", "empty", "name"] if cmd == "nxdl" else ["cut", "empty", "category"])
            xm["at"] = rng.choice([0.3, 0.6, 0.9])
            if xm["spoil"] == "name" and b'<field name="' not in xml_file(dict(xm, spoil=None)):
                xm["spoil"] = "element"
            exp, why = "fail", "the file is spoilt (%s)" % xm["spoil"]
        elif x < 0.56:
            name, exp, why = "gone.nxdl.xml", "fail", "the file does not exist"
        sc["files"].append(dict(n="some.nxdl.xml", xml=xm))
        argv = ["validate", loc + name, "-f", ref] if cmd == "nxdl" else ["tree", loc + name]
        mark = ["validates"] if cmd == "nxdl" else ["file: "]
    sc.update(kind="fault", argv=argv, expect=exp, why=why, mark=mark)
    if cli and exp == "ok":
        sc["cli"] = cli
    base = ctx.execute(dict(sc, faults=[]), log=True)
    yield base
    if base.get("violation") or base.get("harness") or not base.get("log"):
        return
    nout = max([1] + list((base.get("outw") or {}).values()))
    for _ in range(6 if ctx.tier == "quick" else 25):
        if rng.random() < 0.4:
            ft = dict(where="out", n=rng.randrange(1, nout + 1), errno=rng.choice([errno.EPIPE, errno.ENOSPC, errno.EIO]), kind="out",
                      persist=rng.random() < 0.5)
        else:
            ft = read_fault(rng, base["log"])
            if ft is None or ft["kind"] == "vanish":
                continue
        yield ctx.execute(dict(sc, faults=[ft]))


def gen_model(prop, seed, ctx, rng):
    """C23: findings, C24: trees"""
    sc = scenario(prop, seed, rng, nfiles=rng.choice([1, 2, 3]), nuser=rng.choice([0, 1, 1]), extfiles=rng.choice([0, 0, 1]),
                  width=rng.choice([4, 6]), differ=rng.random() < 0.3, odd=rng.choice([0.02, 0.15, 0.4]), atsign=False)
    sc["kind"] = "model"
    fn = [f["n"] for f in sc["files"] if not f.get("ext") and "xml" not in f]
    if rng.random() < 0.3:
        sc["layout"] = dict(libver=rng.choice(["latest", "earliest"]), chunks=rng.random() < 0.5, shuffle=rng.random() < 0.5, track=rng.random() < 0.4)
    if rng.random() < 0.3:
        sc["tick"] = rng.choice([0, 10 ** 9, 10 ** 12])
    rs = refs(sc)
    xml = []
    for i in range(2 if prop == "C24" else 0):
        s = rng.choice(sc["source"] + sc["user"])
        c = [(c, g) for c, k in s["v"].get("gen", {}).items() for g in range(k)]
        x = dict(zip(("cat", "gen"), rng.choice(c))) if c and rng.random() < 0.8 else dict(cat="base_classes", name=rng.choice(["NXentry", "NXdata", "NXroot"]))
        xml.append("d%d.nxdl.xml" % i)
        sc["files"].append(dict(n=xml[-1], xml=dict(x, v=s["v"])))

    def script(v, n, alone=True):
        ops = []
        if prop == "C24":
            for _ in range(n):
                if rng.random() < 0.15:
                    ops.append(dict(op="xtree", file=rng.choice(xml)))
                    continue
                ops.append(dict(op="tree", file=rng.choice(fn), attrs=rng.random() < 0.8, m=rng.choice([5, 5, 1, 2, 3, 4, 10, 100])))
                if rng.random() < 0.2:
                    ops += [dict(op="new", v=v, ref=fitting(rng, sc)), dict(op="validate", v=v, file=rng.choice(fn))]
            return ops
        ops.append(dict(op="new", v=v, ref=fitting(rng, sc)))
        for _ in range(n):
            ops.append(dict(op="validate", v=v, file=rng.choice(fn)))
            if alone and rng.random() < 0.4:     # (standard output is common to all threads)
                ops.append(dict(op="report", v=v, statuses=rng.choice([None, None, ["OK"], ["ERROR", "WARN"], ["NOTE", "TODO", "OPTIONAL"]])))
            if rng.random() < 0.15:
                ops.append(dict(op="close", v=v))
            if rng.random() < 0.15:
                ops.append(dict(op="new", v=v, ref=fitting(rng, sc)))
        return ops

    sc["ops"] = script("p", rng.randrange(1, 4))
    base = ctx.execute(dict(sc, faults=[]), log=True)
    yield base
    if base.get("violation") or base.get("harness") or not base.get("log"):
        return
    for _ in range(3 if ctx.tier == "quick" else 10):
        x = rng.random()
        if x < 0.45:
            s2, ops = rewritten(rng, sc, script("p", rng.randrange(1, 5)))
            yield ctx.execute(dict(s2, ops=ops))
        elif x < 0.75 and not any(f.get("ext") for f in sc["files"]):   # (what is in files that cannot be read is not there)
            ft = read_fault(rng, base["log"], (lambda e: "/data/" in e[3]) if rng.random() < 0.7 else None)
            if ft is not None and ft["kind"] != "vanish":
                yield ctx.execute(dict(sc, faults=[ft]))
        else:
            s2 = {k: x for k, x in sc.items() if k != "ops"}
            yield ctx.execute(dict(s2, threads=[script(i, 1, i == 0) for i in range(rng.choice([2, 3]))],
                                   meet=rng.random() < 0.6, tsched=thread_schedule(rng)))


GEN = dict(C23=gen_model, C24=gen_model, C14=gen_c14, C15=gen_c15, C16=gen_c16, C17=gen_fault, C18=gen_fault, C19=gen_c19, C20=gen_c20, C21=gen_c21, C22=gen_fault)


def job(prop, seed, ctx):
    return GEN[prop](prop, seed, ctx, random.Random(seed))


# ------------------------------------------------------------------ shrinking
def shrink(sc):
    if sc.get("switches"):
        s = sc["switches"]
        if len(s) > 3:
            for k in (2, 4, 8):
                n = max(1, len(s) // k)
                for i in range(0, len(s), n):
                    yield dict(sc, switches=s[:i] + s[i + n:])
        for i in range(len(s) if len(s) < 12 else 0):
            yield dict(sc, switches=s[:i] + s[i + 1:])
    for key in ("ops",):
        ops = sc.get(key)
        if ops and sc["kind"] in ("history", "plain", "variants", "model"):
            for i in range(len(ops) - 1, -1, -1):
                rest = ops[:i] + ops[i + 1:]
                live = set()
                ok = True
                for o in rest:
                    if o["op"] == "new":
                        live.add(o["v"])
                    elif "v" in o and o["v"] not in live:
                        ok = False
                if ok and rest:
                    yield dict(sc, ops=rest)
    if sc.get("threads"):
        for i, t in enumerate(sc["threads"]):
            if len(sc["threads"]) > 2:
                yield dict(sc, threads=sc["threads"][:i] + sc["threads"][i + 1:])
    used = json.dumps([sc.get("ops"), sc.get("threads"), sc.get("argv"), sc.get("variants")])
    for i, s in enumerate(sc.get("user", [])):
        if '"%s"' % s["name"] not in used:
            yield dict(sc, user=sc["user"][:i] + sc["user"][i + 1:])
    if len(sc.get("faults", ())) > 1:
        for i in range(len(sc["faults"])):
            yield dict(sc, faults=sc["faults"][:i] + sc["faults"][i + 1:])
    for i, f in enumerate(sc["files"]):
        if f["n"] not in used:
            yield dict(sc, files=sc["files"][:i] + sc["files"][i + 1:])
        if "r" in f:
            ps = list(h5gen.prune(f["r"]))
            for r in ps[:60]:
                yield dict(sc, files=sc["files"][:i] + [dict(f, r=r)] + sc["files"][i + 1:])
    for k in ("source", "user"):
        for i, s in enumerate(sc.get(k, [])):
            v = s["v"]
            for c, n in v.get("gen", {}).items():
                if n:
                    w = dict(v, gen=dict(v["gen"], **{c: n - 1}))
                    yield dict(sc, **{k: sc[k][:i] + [dict(s, v=w)] + sc[k][i + 1:]})
            if v.get("extras"):
                yield dict(sc, **{k: sc[k][:i] + [dict(s, v=dict(v, extras=0))] + sc[k][i + 1:]})
    if sc.get("dirseed"):
        yield dict(sc, dirseed=0)
