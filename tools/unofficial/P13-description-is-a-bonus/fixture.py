"""demo helper: run punx (from the current directory) with a scratch home and a stand-in for GitHub"""
import io
import os
import shutil
import sys
import tempfile
import warnings
import zipfile

warnings.simplefilter("ignore")
os.environ["QT_QPA_PLATFORM"] = "offscreen"
REPO = os.getcwd()
SCRATCH = tempfile.mkdtemp(prefix="demo-")
os.environ["HOME"] = SCRATCH
os.environ["XDG_CONFIG_HOME"] = os.path.join(SCRATCH, "config")
os.environ["TMPDIR"] = SCRATCH
tempfile.tempdir = SCRATCH
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
import atexit
import contextlib

atexit.register(shutil.rmtree, SCRATCH, True)
USER = os.path.join(SCRATCH, "config", "punx")
BUNDLED = os.path.join(REPO, "punx", "cache", "v2018.5")
SERVED = {}
CALLS = []


def archive(top="definitions-x", sha="0123456789abcdef0123456789abcdef01234567", date=(2020, 1, 2, 3, 4, 6), extra=None, mark=b""):
    b = io.BytesIO()
    files = {}
    for n in ("nxdl.xsd", "nxdlTypes.xsd", "base_classes/NXobject.nxdl.xml", "base_classes/NXentry.nxdl.xml",
              "base_classes/NXroot.nxdl.xml", "applications/NXdirecttof.nxdl.xml", "contributed_definitions/NXspecdata.nxdl.xml"):
        with open(os.path.join(BUNDLED, n), "rb") as f:
            files[n] = f.read() + b"\n<!-- " + mark + b" -->\n"
    files.update(extra or {})
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        z.writestr(zipfile.ZipInfo(top + "/", date), b"")
        for n, c in files.items():
            z.writestr(zipfile.ZipInfo(top + "/" + n, date), c)
        z.comment = sha.encode()
    return b.getvalue()


class Answer:
    status_code = 200
    ok = True

    def __init__(self, content):
        self.content = content

    def raise_for_status(self):
        pass


def get(url, **kw):
    """stand-in for requests.get"""
    CALLS.append(url)
    name = url.rsplit("/", 1)[-1]
    name = name[:-len(".zip")] if name.endswith(".zip") else name
    a = SERVED[name]
    if isinstance(a, list):
        a = a.pop(0) if len(a) > 1 else a[0]
    if isinstance(a, BaseException):
        raise a
    return Answer(a)


import requests

requests.get = get


def punx(*argv):
    """run the command line in a 'new process'; returns (exit status, stdout)"""
    from punx import main, cache_manager, singletons

    for k in list(sys.modules):
        if k == "punx" or k.startswith("punx."):
            del sys.modules[k]
    from punx import main

    out = io.StringIO()
    sys.argv = ["punx"] + list(argv)
    try:
        with contextlib.redirect_stdout(out):
            main.main()
        rc = 0
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException as e:
        rc = "%s: %s" % (type(e).__name__, e)
    return rc, out.getvalue()


def tree(d):
    r = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), "rb") as fh:
                r[os.path.relpath(os.path.join(p, f), d)] = fh.read()
    return r


def check(cond, msg):
    if not cond:
        print("WRONG:", msg)
        sys.exit(1)
