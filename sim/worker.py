"""
A worker: the zygote process that runs below the shim.  It preloads the
libraries, compiles punx from the working tree once, and forks one child per
simulated execution, so that no execution can see another's state.

  worker.py CMD_FD OUT_FD ROOT

reads jobs as JSON lines from CMD_FD and answers on OUT_FD.
"""
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


def preload():
    import argparse, collections, copy, datetime, difflib, email, html, http.client, inspect  # noqa
    import io, json, logging, re, shutil, tempfile, zipfile, bz2, lzma, zlib, locale, gettext  # noqa
    import concurrent.futures, threading, queue, subprocess, uuid, textwrap, glob, fnmatch  # noqa
    import fcntl, contextlib, pathlib, functools, hashlib, stat, platform, getpass, socket  # noqa
    import numpy, h5py, lxml.etree, requests, urllib3, urllib3.util, pyRestTable  # noqa
    import h5py._hl.files, encodings.idna, encodings.latin_1, encodings.ascii, encodings.utf_8  # noqa
    import encodings.cp1252, encodings.utf_16, encodings.cp437, stringprep, requests.adapters  # noqa
    from PyQt5 import QtCore  # noqa
    try:
        import hdf5plugin  # noqa
    except ImportError:
        pass
    try:
        import setuptools_scm  # noqa
    except ImportError:
        pass
    import importlib.metadata  # noqa
    # libraries read files of their own on first use: do that now
    h5py.version.info
    requests.utils.should_bypass_proxies("http://example.org", None)


def spawn(root, hashseed, env=None, cpu=None):
    """start a worker below the shim; returns (popen, cmd file, out file)"""
    cr, cw = os.pipe()
    rr, rw = os.pipe()
    e = dict(env or os.environ)
    e.update(LD_PRELOAD=e["PUNX_SIM_SHIM"], PYTHONHASHSEED=str(hashseed),
             PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             QT_QPA_PLATFORM="offscreen", SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0",
             LC_ALL="C.UTF-8", LANG="C.UTF-8", PYTHONUTF8="0", HDF5_USE_FILE_LOCKING="BEST_EFFORT")
    for k in list(e):
        if k.lower().endswith("_proxy") or k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP",
                                                   "REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "NETRC",
                                                   "HDF5_PLUGIN_PATH", "PYTHONWARNINGS", "COLUMNS"):
            del e[k]
    p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "worker.py"), str(cr), str(rw), root],
                         env=e, pass_fds=(cr, rw), stdin=subprocess.DEVNULL,
                         stdout=None if e.get("PUNX_SIM_DEBUG") else subprocess.DEVNULL,
                         start_new_session=True)
    os.close(cr)
    os.close(rw)
    return p, os.fdopen(cw, "w"), os.fdopen(rr, "rb", buffering=0)


class Helper:
    """another zygote, with another string-hash seed"""

    def __init__(self, root, hashseed):
        self.p, self.w, r = spawn(root, hashseed)
        self.r = os.fdopen(os.dup(r.fileno()), "r")
        r.close()
        if not json.loads(self.r.readline()).get("ready"):
            raise RuntimeError("helper worker did not start")

    def execute(self, module, sc, log):
        self.w.write(json.dumps(dict(id=0, mode="exec", module=module, scenario=sc, log=log)) + "\n")
        self.w.flush()
        return json.loads(self.r.readline())["results"][0]


class Ctx:
    def __init__(self, root, mod, tier, helpers, modname):
        self.root, self.mod, self.tier, self.helpers, self.modname = root, mod, tier, helpers, modname
        self.memo = {}

    def execute(self, sc, log=False, timeout=None):
        sc = json.loads(json.dumps(sc))
        ps = self.mod.parts(sc) if hasattr(self.mod, "parts") else None
        if ps is not None:            # several executions that are compared
            rs = []
            for p in ps:
                key = json.dumps([p, log], sort_keys=True)
                r = self.memo.get(key)
                if r is None:
                    r = self.execute(p, log, timeout)
                    self.memo[key] = r
                    while len(self.memo) > 24:
                        self.memo.pop(next(iter(self.memo)))
                rs.append(r)
            return self.mod.combine(sc, rs)
        hs = sc.get("hashseed", 0)
        if hs and str(hs) != os.environ.get("PYTHONHASHSEED"):
            if hs not in self.helpers:
                self.helpers[hs] = Helper(self.root, hs)
            return self.helpers[hs].execute(self.modname, sc, log)
        r = self.execute1(sc, log, timeout or 60)
        if r.get("stuck"):
            r2 = self.execute1(sc, log, 120)
            r2["retried"] = True
            return r2
        return r

    def execute1(self, sc, log, timeout):
        """run one scenario in a forked child; returns its result dict"""
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 1
            try:
                null = os.open("/dev/null", os.O_RDWR)
                os.dup2(null, 0)
                if not os.environ.get("PUNX_SIM_DEBUG"):
                    os.dup2(null, 1)
                    os.dup2(null, 2)
                try:
                    res = self.mod.execute(sc, self.root, log)
                except BaseException as e:
                    res = {"harness": "%s: %s" % (type(e).__name__, traceback.format_exc()[-3000:])}
                data = json.dumps(res, default=str).encode()
                off = 0
                while off < len(data):
                    off += os.write(w, data[off:off + 65536])
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        buf = bytearray()
        end = time.monotonic() + timeout
        ok = True
        while True:
            left = end - time.monotonic()
            if left <= 0:
                ok = False
                break
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                ok = False
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
        os.close(r)
        if not ok:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, st = os.waitpid(pid, 0)
        if not ok:
            return {"stuck": True, "scenario": sc}
        if os.WIFSIGNALED(st):
            return {"died": os.WTERMSIG(st), "scenario": sc}
        try:
            res = json.loads(bytes(buf))
        except ValueError:
            return {"harness": "child produced no result (status %r)" % st, "scenario": sc}
        res.setdefault("scenario", sc)
        return res


def main():
    cmd_fd, out_fd = int(sys.argv[1]), int(sys.argv[2])
    root = sys.argv[3]
    sys.path.insert(0, os.path.dirname(HERE))
    preload()
    from sim import core

    core.seam()
    core.install_finder()
    os.makedirs(root, exist_ok=True)
    inp = os.fdopen(cmd_fd, "r")
    out = os.fdopen(out_fd, "w")
    os.set_inheritable(cmd_fd, False)
    os.set_inheritable(out_fd, False)

    def send(o):
        out.write(json.dumps(o, default=str) + "\n")
        out.flush()

    send({"ready": True, "code": core.FINDER.code.digest.hexdigest()[:16]})
    mods = {}
    helpers = {}
    for line in inp:
        job = json.loads(line)
        name = job["module"]
        if name not in mods:
            mods[name] = importlib.import_module("sim.props." + name)
            if hasattr(mods[name], "warm"):
                mods[name].warm()
        ctx = Ctx(root, mods[name], job.get("tier", "quick"), helpers, name)
        keep = job.get("log", False)
        try:
            if job["mode"] == "exec":
                rec = [ctx.execute(job["scenario"], keep)]
            else:
                rec = []
                for r in mods[name].job(job["prop"], job["seed"], ctx):
                    rec.append(r)
                if not keep:        # (the generator may use them to the end)
                    for r in rec:
                        for k in ("log", "netlog", "outw"):
                            r.pop(k, None)
            send({"id": job["id"], "results": rec})
        except BaseException:
            send({"id": job["id"], "results": [{"harness": traceback.format_exc()[-3000:], "scenario": None}]})
    for h in helpers.values():
        h.w.close()
        h.p.wait()
    core.wipe(root)


if __name__ == "__main__":
    main()
