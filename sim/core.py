"""
Deterministic simulator core: one Python process in which simulated punx
processes run the real code, and every file-system call, clock read, sleep,
random read, network exchange and console write goes through a seam that the
simulator controls (sim/shim.c below libc, urllib3's connection pool, stdout).

One World = one execution.  Everything that happens in it is a function of the
scenario (a JSON document: operations, explicit faults, explicit preemptions).
"""

import builtins
import ctypes
import errno as _errno
import hashlib
import io
import json
import logging
import os
import random
import shutil
import signal
import stat
import sys
import threading
import traceback

REPO = "/repo"
PUNX_SRC = os.path.join(REPO, "punx")

OPS = [
    "?", "open", "read", "write", "close", "stat", "access", "mkdir", "rename",
    "unlink", "rmdir", "listdir", "link", "symlink", "truncate", "chmod",
    "utime", "sync", "ESCAPE", "sleep", "readlink",
]
OPN = {n: i for i, n in enumerate(OPS)}
MUTATING = {"write", "mkdir", "rename", "unlink", "rmdir", "link", "symlink",
            "truncate", "chmod", "utime", "open_w"}
V_SHORT, V_EOF, V_TORN, V_CRASH = -1, -2, -3, -9
H5_EXT = (".h5", ".hdf5", ".nxs", ".nx5", ".hdf")


class SimCrash(BaseException):
    """the simulated process was killed"""


class SimHang(BaseException):
    """the simulated process would wait forever / exceeded its step budget"""


class HarnessError(Exception):
    """the simulator itself failed: never a verdict about the code"""


# --------------------------------------------------------------------------- seam
class Seam:
    CB = ctypes.CFUNCTYPE(
        ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p,
        ctypes.c_long, ctypes.c_long,
        ctypes.POINTER(ctypes.c_long), ctypes.POINTER(ctypes.c_long),
    )

    def __init__(self, path):
        lib = ctypes.PyDLL(path)     # keep the GIL: these calls are trivial
        self.lib = lib
        for n, t in dict(
            sim_on=ctypes.c_int, sim_real_ns=ctypes.c_longlong,
            sim_mono_ns=ctypes.c_longlong, sim_tick_ns=ctypes.c_longlong,
            sim_rand=ctypes.c_uint64, sim_dirseed=ctypes.c_uint64,
            sim_clock_reads=ctypes.c_long, sim_rand_reads=ctypes.c_long,
            sim_dir_perms=ctypes.c_long, sim_after_death=ctypes.c_long,
            sim_exc=ctypes.c_void_p, sim_exc_thread=ctypes.c_ulong,
            sim_interrupt=ctypes.c_int,
        ).items():
            setattr(self, n[4:], t.in_dll(lib, n))

    def install(self, root, fn):
        self._cb = self.CB(fn)
        self.lib.sim_set_cb(self._cb)
        self.lib.sim_set_root(root.encode())

    def thread(self, v):
        self.lib.sim_thread_on(int(v))

    def set_dead(self, v):
        self.lib.sim_set_dead(int(v))


_SEAM = None


def seam():
    global _SEAM
    if _SEAM is None:
        p = os.environ["PUNX_SIM_SHIM"]
        if p not in os.environ.get("LD_PRELOAD", ""):
            raise HarnessError("shim not preloaded")
        _SEAM = Seam(p)
    return _SEAM


# --------------------------------------------------------------------------- punx loader
class PunxCode:
    """compiled once per worker from /repo's working tree"""

    def __init__(self, src=PUNX_SRC):
        self.code = {}
        self.pkg = set()
        self.digest = hashlib.sha256()
        for d, dirs, files in os.walk(src):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__", "cache", "data"))
            rel = os.path.relpath(d, src)
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                parts = ["punx"] + ([] if rel == "." else rel.split(os.sep))
                if f != "__init__.py":
                    parts.append(f[:-3])
                name = ".".join(parts)
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    text = fh.read()
                self.digest.update(name.encode() + b"\0" + text)
                try:
                    self.code[name] = compile(text, p, "exec", dont_inherit=True)
                except SyntaxError:
                    continue
                if f == "__init__.py":
                    self.pkg.add(name)


class _Finder:
    """serves punx.* from the compiled code; the package appears installed
    below the simulation root, so that its bundled cache is simulated too"""

    def __init__(self, code):
        self.code = code
        self.site = None
        self.local = threading.local()

    def find_spec(self, name, path=None, target=None):
        if name != "punx" and not name.startswith("punx."):
            return None
        if name not in self.code.code:
            return None
        import importlib.machinery as m

        spec = m.ModuleSpec(name, self, is_package=name in self.code.pkg)
        rel = name.split(".")
        fn = os.path.join(self.site, *rel)
        spec.origin = os.path.join(fn, "__init__.py") if name in self.code.pkg else fn + ".py"
        spec.has_location = True
        spec.cached = None
        if name in self.code.pkg:
            spec.submodule_search_locations = [fn]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        self.local.busy = getattr(self.local, "busy", 0) + 1
        try:
            exec(self.code.code[module.__name__], module.__dict__)
        finally:
            self.local.busy -= 1

    def importing(self):
        return getattr(self.local, "busy", 0) > 0


FINDER = None


def install_finder():
    global FINDER
    FINDER = _Finder(PunxCode())
    for f in list(sys.meta_path):
        if isinstance(f, _Finder):
            sys.meta_path.remove(f)
    sys.meta_path.insert(0, FINDER)
    for k in [k for k in sys.modules if k == "punx" or k.startswith("punx.")]:
        del sys.modules[k]
    return FINDER


def punx_modules():
    return {k: v for k, v in sys.modules.items() if k == "punx" or k.startswith("punx.")}


# --------------------------------------------------------------------------- console
class SimRaw(io.RawIOBase):
    def __init__(self, proc):
        self.proc = proc
        self.data = bytearray()
        self.fd = None

    def fileno(self):
        """what os.dup2() may redirect"""
        if self.fd is None:
            self.fd = os.memfd_create("stdout")
            self.ino = os.fstat(self.fd).st_ino
        return self.fd

    def redirected(self):
        try:
            return self.fd is not None and os.fstat(self.fd).st_ino != self.ino
        except OSError:
            return False

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        p = self.proc
        if p.dead:
            return len(b)
        if self.redirected():
            return os.write(self.fd, b)
        p.out_writes += 1
        for f in p.faults_out:
            if p.out_writes == f["n"] or (f.get("persist", True) and p.out_writes > f["n"]):
                p.world.fired("out:" + _errno.errorcode.get(f["errno"], "?"), f)
                raise OSError(f["errno"], os.strerror(f["errno"]))
        self.data += b
        return len(b)


# --------------------------------------------------------------------------- process
class Proc:
    def __init__(self, world, idx, target, argv=None, encoding="utf-8", isolate=True):
        self.world = world
        self.idx = idx
        self.target = target
        self.argv = ["punx"] + list(argv or [])
        self.encoding = encoding
        self.isolate = isolate
        self.modules = {}
        self.n = 0                # file-system calls so far
        self.out_writes = 0
        self.net_n = 0
        self.dead = False
        self.hung = False
        self.done = False
        self.status = None
        self.exc = None
        self.exc_type = None
        self.tb = ""
        self.value = None
        self.sem = threading.Semaphore(0)
        self.faults = {}
        self.persist = []
        self.faults_out = []
        self.faults_net = {}
        for f in world.faults:
            if f.get("proc", 0) != idx:
                continue
            if "net" in f:
                self.faults_net[f["net"]] = f
            elif f.get("where") == "out":
                self.faults_out.append(f)
            elif f["kind"] in ("persist", "region"):
                self.persist.append(f)
            else:
                self.faults.setdefault(f["n"], []).append(f)
        self.raw = SimRaw(self)
        # what CPython builds for a console that is not a terminal
        self.stdout = io.TextIOWrapper(
            io.BufferedWriter(self.raw, 8192), encoding=encoding, errors="strict")
        self.stderr = io.StringIO()

    @property
    def out(self):
        return bytes(self.raw.data).decode(self.encoding, "replace")

    @property
    def err(self):
        return self.stderr.getvalue()

    @property
    def failed_visibly(self):
        return self.status not in (0, -9, "hang")

    def enter(self):
        """make this process's view current"""
        for k in list(punx_modules()):
            del sys.modules[k]
        sys.modules.update(self.modules)
        sys.argv = self.argv
        sys.stdout = self.stdout
        sys.stderr = self.stderr

    def leave(self):
        self.modules = punx_modules()

    def body(self):
        s = self.world.seam
        s.set_dead(0)
        s.thread(1)
        try:
            self.value = self.target(self)
            self.status = 0
        except SystemExit as e:
            if e.code is None:
                self.status = 0
            elif isinstance(e.code, int):
                self.status = e.code & 0xFF
            else:
                self.stderr.write(str(e.code))
                self.status = 1
        except SimCrash:
            self.status = -9
        except SimHang as e:
            self.status = "hang"
            self.exc = str(e)
            self.tb = traceback.format_exc()
        except KeyboardInterrupt:
            self.status = 130
            self.exc_type = "KeyboardInterrupt"
        except BaseException as e:
            if self.dead:
                self.status = -9
            else:
                self.status = 1
                self.exc_type = type(e).__name__
                self.exc = "?"
                try:                  # (a late interrupt must not escape)
                    self.exc = str(e)[:2000]
                    self.tb = traceback.format_exc()[-4000:]
                except BaseException:
                    pass
        if self.hung:
            self.status = "hang"
            self.exc = self.exc or "step budget exceeded"
        # a late asynchronous SimCrash must not escape
        try:
            if self.hung:
                pass
            elif self.dead:
                self.status = -9
            else:
                try:
                    self.stdout.flush()
                except BaseException:
                    if self.dead:
                        self.status = -9
                    else:
                        self.status = 120
                        self.stderr.write("Exception ignored in: <stdout>")
        except SimCrash:
            self.status = -9
        finally:
            s.thread(0)
            s.set_dead(0)


# --------------------------------------------------------------------------- world
class World:
    def __init__(self, root, scenario, *, maxops=200000):
        self.root = root
        self.sc = scenario
        self.seam = seam()
        self.rng = random.Random(scenario.get("seed", 0) * 7919 + 17)
        self.faults = [dict(f) for f in scenario.get("faults", [])]
        self.preempt = [tuple(x) for x in scenario.get("preempt", [])]
        self.preempt_map = {int(a): int(b) for a, b in self.preempt}
        self.maxops = maxops
        self.sched = scenario.get("sched")
        self.sched_rng = random.Random((self.sched or {}).get("seed", 0))
        self.procs = []
        self.cur = None
        self.log = []                 # (proc, n, op, relpath)
        self.logmax = 60000
        self.nops = 0
        self.yields = 0
        self.switches = []
        self.fired_faults = []
        self.fault_counts = {}
        self.hash = hashlib.sha256()
        self.escapes = []
        self.harness_errors = []
        self.open_fds = {}
        self.kbd_again = False
        self.cb_depth = 0
        self.multi = False
        self.done_ev = None
        self.observer = None          # called (world, opname, path, path2) after decision
        self.net = None
        self.clock_jumps = {}
        self.nproc = 0
        self.server = {}
        self.net_log = []

        self.site = os.path.join(root, "site")
        self.config = os.path.join(root, "home", ".config")
        self.user_cache = os.path.join(self.config, "punx")
        self.source_cache = os.path.join(self.site, "punx", "cache")
        self.data = os.path.join(root, "data")
        FINDER.site = self.site

    # ---- set up / tear down -------------------------------------------------
    def begin(self):
        wipe(self.root)
        for d in (self.site, self.config, self.source_cache, self.data,
                  os.path.join(self.root, "tmp")):
            os.makedirs(d)
        sc = self.sc
        env = dict(HOME=os.path.join(self.root, "home"), XDG_CONFIG_HOME=self.config,
                   TMPDIR=os.path.join(self.root, "tmp"), TZ=sc.get("tz", "UTC"))
        os.environ.update(env)
        import time
        import tempfile

        time.tzset()
        tempfile.tempdir = None
        tempfile._name_sequence = None
        random.seed(sc.get("seed", 0))
        os.chdir(self.data)
        from PyQt5 import QtCore

        QtCore.QSettings.setPath(
            QtCore.QSettings.IniFormat, QtCore.QSettings.UserScope, self.config)
        s = self.seam
        s.real_ns.value = int(sc.get("clock", 1700000000) * 10**9)
        s.mono_ns.value = int(sc.get("mono", 5000) * 10**9)
        s.tick_ns.value = int(sc.get("tick", 1000))
        s.rand.value = (sc.get("seed", 0) * 0x9E3779B97F4A7C15 + 1) & (2**64 - 1)
        s.dirseed.value = sc.get("dirseed", 0)
        for c in (s.clock_reads, s.rand_reads, s.dir_perms, s.after_death):
            c.value = 0
        s.install(self.root, self._callback)
        s.exc.value = id(SimCrash)
        self.real_stdout, self.real_stderr = sys.stdout, sys.stderr
        signal.signal(signal.SIGINT, self._sigint)
        self.t0 = (s.real_ns.value, s.mono_ns.value)
        from . import net

        self.net = net.Network(self)
        self.net.install()

    def _sigint(self, num, frame):
        while frame is not None:      # never inside the simulator itself
            if frame.f_code is World._callback.__code__:
                self.kbd_again = True
                return
            frame = frame.f_back
        if self.cb_depth:
            self.kbd_again = True
        elif self.cur is not None and not self.cur.done:
            raise KeyboardInterrupt

    # ---- faults -------------------------------------------------------------
    def fired(self, label, f):
        f = dict(f)
        f["fired"] = label
        self.fired_faults.append(f)
        self.fault_counts[label] = self.fault_counts.get(label, 0) + 1

    def rel(self, p):
        return p[len(self.root):] if p.startswith(self.root) else p

    def _callback(self, op, path, path2, a, b, out, out2):
        self.cb_depth += 1
        try:
            return self._decide(op, path, path2, a, b, out, out2)
        except BaseException as e:  # never let one escape into C
            self.harness_errors.append("%s: %s" % (type(e).__name__, traceback.format_exc()[-1500:]))
            return 0
        finally:
            self.cb_depth -= 1
            if self.kbd_again:
                self.kbd_again = False
                self.seam.interrupt.value = 1

    def _decide(self, op, path, path2, a, b, out, out2):
        name = OPS[op]
        path = os.fsdecode(path)
        path2 = os.fsdecode(path2)
        p = self.cur
        if name == "sleep":
            self.slept = getattr(self, "slept", 0) + a
            return 0
        if name == "ESCAPE":
            self.escapes.append((p.idx if p else -1, OPS[a], path, path2))
            return 0
        if p is None:
            return 0
        if name == "open" and (a & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
            name = "open_w"
        if self.multi and not self._noyield(path):
            self._yield(name, path)
        p.n += 1
        self.nops += 1
        n = p.n
        r = self.rel(path)
        if len(self.log) < self.logmax:
            self.log.append((p.idx, n, name, r, self.rel(path2) if path2 else "", self.yields,
                             *((a, b) if name in ("read", "write") else (0, 0))))
        self.hash.update(("%d %d %s %s %s\n" % (p.idx, n, name, r, path2 and self.rel(path2))).encode("utf8", "replace"))
        if self.nops > self.maxops:
            p.dead = p.hung = True
            self.seam.exc.value = id(SimHang)
            self.seam.exc_thread.value = threading.get_ident()
            return V_CRASH
        j = self.clock_jumps.get(n)
        if j:
            self.seam.real_ns.value += int(j * 10**9)
        verdict = 0
        for f in p.faults.get(n, ()):
            v = self._apply(p, f, name, path, a, out, out2)
            if v:
                verdict = v
        if not verdict:
            for f in p.persist:
                if f["kind"] == "region":     # a bad place on the disk
                    if name == "read" and n >= f.get("n", 0) and f["match"] in r and b < f["hi"] and b + a > f["lo"]:
                        self.fired("bad-region", f)
                        verdict = f["errno"]
                        break
                    continue
                if n >= f["n"] and name in f["ops"] and f.get("match", "") in r \
                        and n < f.get("until", 1 << 60):
                    self.fired("persist:%s:%s" % (_errno.errorcode[f["errno"]], name), f)
                    verdict = f["errno"]
                    break
        if self.observer is not None:
            self.observer(self, name, r, self.rel(path2) if path2 else "", verdict)
        return verdict

    def _apply(self, p, f, name, path, size, out, out2):
        k = f["kind"]
        if f.get("op") and f["op"] != name:
            pass                       # the execution drifted; still apply
        if k == "err":
            if name == "close":
                return 0               # close failures lose nothing here
            self.fired("%s:%s" % (_errno.errorcode[f["errno"]], name), f)
            return f["errno"]
        if k == "crash":
            p.dead = True
            self.seam.exc_thread.value = threading.get_ident()
            if name == "write" and f.get("frac") is not None:
                out[0] = int(size * f["frac"])
                self.fired("crash:torn-write", f)
            else:
                out[0] = 0
                self.fired("crash:" + name, f)
            return V_CRASH
        if k == "kbd":
            self.fired("interrupt:" + name, f)
            self.seam.interrupt.value = 1
            return 0
        if k == "torn":
            if name != "write":
                self.fired("%s:%s" % (_errno.errorcode[f["errno"]], name), f)
                return f["errno"] if name != "close" else 0
            out[0] = int(size * f.get("frac", 0.5))
            out2[0] = f["errno"]
            self.fired("torn-write", f)
            return V_TORN
        if k == "short":
            if name not in ("read", "write") or size < 2:
                return 0
            out[0] = max(1, int(size * f.get("frac", 0.5)))
            self.fired("short-" + name, f)
            return V_SHORT
        if k == "eof":
            if name != "read":
                return 0
            self.fired("early-eof", f)
            return V_EOF
        if k == "vanish":
            if os.path.lexists(path) and not f.get("keep"):
                try:
                    if os.path.isdir(path):
                        shutil.rmtree(path)
                    else:
                        os.unlink(path)
                except OSError:
                    return 0
                self.fired("vanish:" + name, f)
            return 0
        if k == "jump":
            self.seam.real_ns.value += int(f["by"] * 10**9)
            if f.get("mono"):
                self.seam.mono_ns.value += int(max(0, f["by"]) * 10**9)
            self.fired("clock-jump", f)
            return 0
        raise HarnessError("fault kind " + k)

    # ---- scheduling -----------------------------------------------------------
    def _noyield(self, path):
        return path.endswith(H5_EXT) or path.endswith(".ini") or FINDER.importing() \
            or path.endswith(".lock")

    def _live(self):
        return [q for q in self.procs if not q.done]

    def _yield(self, name="", path=""):
        """a point where the simulated scheduler may run another process"""
        p = self.cur
        self.yields += 1
        to = self.preempt_map.get(self.yields)
        if self.sched is not None:
            to = self._choose(p, name, path)
        if to is None or to >= len(self.procs) or to == p.pos or self.procs[to].done:
            return
        self._switch(p, self.procs[to])

    def _choose(self, p, name, path):
        """adaptive search: switch often where it matters.  The choices made
        are recorded as explicit preemptions, which is what gets replayed."""
        hot = name in ("rename", "rmdir") or path.endswith("__github_info__.json") \
            or (name in ("stat", "access") and os.path.dirname(path) == self.user_cache) \
            or (name in ("stat", "access") and os.path.basename(path) == "previous")
        x = self.sched_rng.random()
        if x < (self.sched["hot"] if hot else self.sched["cold"]):
            others = [q.pos for q in self._live() if q is not p]
            if others:
                return self.sched_rng.choice(others)
        return None

    def _switch(self, p, q):
        self.switches.append((self.yields, p.pos, q.pos))
        self.hash.update(b"switch %d %d\n" % (p.idx, q.idx))
        p.leave()
        self.cur = q
        q.enter()
        q.sem.release()
        depth, self.cb_depth = self.cb_depth, 0
        p.sem.acquire()
        self.cb_depth = depth
        # resumed: the resumer has already made us current

    def _thread(self, p):
        p.sem.acquire()
        try:
            p.body()
        except BaseException:
            if not p.dead:
                self.harness_errors.append(traceback.format_exc()[-1500:])
        for _ in range(4):            # a death still on its way must not hit the scheduler
            try:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(
                    ctypes.c_ulong(threading.get_ident()), None)
                for _ in range(50):
                    pass
                break
            except (SimCrash, SimHang):
                p.status = -9 if not p.hung else "hang"
        self._finish(p)

    def _finish(self, p):
        p.done = True
        p.leave()
        if p.dead:                    # it may have died inside an import
            import _frozen_importlib as fi

            fi._module_locks.clear()
            fi._blocking_on.clear()
            import _imp

            while _imp.lock_held():
                try:
                    _imp.release_lock()
                except RuntimeError:
                    break
        live = self._live()
        if live:
            q = live[0]
            self.hash.update(b"end %d -> %d\n" % (p.idx, q.idx))
            self.cur = q
            q.enter()
            q.sem.release()
        else:
            self.cur = None
            self.done_ev.set()

    # ---- running --------------------------------------------------------------
    def new_proc(self, target=None, argv=None, pid=None, **kw):
        """pid: how the scenario's faults address this process; processes of
        the harness's own (observers) get numbers no scenario uses"""
        if pid is None:
            pid = 100000 + self.nproc
        self.nproc += 1
        if target is None:
            target = run_main
        return Proc(self, pid, target, argv, **kw)

    def run(self, target=None, argv=None, **kw):
        """one simulated process, alone"""
        p = self.new_proc(target, argv, **kw)
        self.run_procs([p])
        return p

    def run_procs(self, procs):
        logging.root.handlers[:] = []
        self.procs = list(procs)
        for i, p in enumerate(self.procs):
            p.pos = i
        self.multi = len(procs) > 1
        self.seam.on.value = 1
        try:
            if not self.multi:
                p = procs[0]
                self.cur = p
                saved = (sys.argv, sys.stdout, sys.stderr)
                p.enter()
                try:
                    try:
                        p.body()
                    except SimCrash:
                        p.status = -9
                finally:
                    p.done = True
                    p.leave()
                    sys.argv, sys.stdout, sys.stderr = saved
                self.cur = None
            else:
                self.done_ev = threading.Event()
                saved = (sys.argv, sys.stdout, sys.stderr)
                ts = [threading.Thread(target=self._thread, args=(p,), daemon=True) for p in self.procs]
                for t in ts:
                    t.start()
                self.cur = self.procs[0]
                self.cur.enter()
                self.cur.sem.release()
                if not self.done_ev.wait(20):
                    fr = sys._current_frames()
                    raise HarnessError("simulated processes deadlocked: cur=%r %r %s" % (
                        self.cur and self.cur.idx, [(q.idx, q.done) for q in self.procs],
                        "".join("".join(traceback.format_stack(fr[t.ident])[-7:]) + "--\n"
                                for t in ts if t.ident in fr)))
                sys.argv, sys.stdout, sys.stderr = saved
        finally:
            self.seam.on.value = 0
            self.cur = None
            for k in list(punx_modules()):
                del sys.modules[k]
        if self.harness_errors:
            raise HarnessError("\n".join(self.harness_errors[:3]))

    def sim_seconds(self):
        return (self.seam.mono_ns.value - self.t0[1]) / 1e9

    def digest(self):
        h = self.hash.copy()
        return h.hexdigest()[:16]


def run_main(proc):
    from punx import main

    main.main()


def wipe(path):
    if os.path.lexists(path):
        for d, dirs, files in os.walk(path):
            try:
                os.chmod(d, 0o700)
            except OSError:
                pass
        shutil.rmtree(path)
    os.makedirs(path)


def snapshot(top, skip=()):
    """{relative path: ("d",) or ("f", sha, size) or ("l", target)} of a tree"""
    r = {}
    for d, dirs, files in os.walk(top):
        dirs.sort()
        rel = os.path.relpath(d, top)
        r[rel] = ("d",)
        for f in files:
            p = os.path.join(d, f)
            k = os.path.normpath(os.path.join(rel, f))
            if os.path.islink(p):
                r[k] = ("l", os.readlink(p))
            else:
                with open(p, "rb") as fh:
                    b = fh.read()
                r[k] = ("f", hashlib.sha1(b).hexdigest(), len(b))
    return r
