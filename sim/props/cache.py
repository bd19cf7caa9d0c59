"""
The installer, the caches, and everything that must survive a crash, a fault,
or another process.  One engine, many properties (C01-C13).
"""
import errno
import json
import os
import random
import re
import shutil

from .. import filesets as fs
from ..common import (ERRS, SMALL, listing, loadable, mutating, rdate, result,
                      state_hash, table_rows, vers, viol)
from ..core import World, HarnessError, snapshot

INFO = fs.INFO
NAMES = ["main", "v3.2", "v2020.1", "v2022.07", "9eab281", "Schema-3.4", "v1.0", "dev"]
SRC = [
    dict(name="v2018.5", v=dict(salt=11, bundle="v2018.5", date="2018-05-15 16:34:18", extras=0)),
    dict(name="v3.3", v=dict(salt=12, bundle="v3.3", date="2017-07-12 10:41:12", extras=0)),
]
SRC_SMALL = [
    dict(name="v2018.5", v=dict(SMALL, salt=11, bundle="v2018.5", date="2018-05-15 16:34:18", extras=0)),
    dict(name="v3.3", v=dict(SMALL, salt=12, bundle="v3.3", date="2017-07-12 10:41:12", extras=0)),
]


# ------------------------------------------------------------------ engine
class Run:
    def __init__(self, sc, root):
        self.sc = sc
        self.w = World(root, sc)
        if sc.get("config"):
            self.w.config = os.path.join(root, sc["config"])
            self.w.user_cache = os.path.join(self.w.config, "punx")
        self.w.begin()
        self.model = {}          # user sets that must be there: name -> version
        self.source = {}
        self.server = {}
        self.violation = None
        self.notes = {}
        self.links = {}          # user sets that are links to others
        self.odd = set()         # user-cache entries outside the model's knowledge
        self.w.serve_archive = self.serve
        self.setup()

    def serve(self, ref):
        v = self.server.get(ref)
        if v is None:
            return None
        self.served.append((self.w.cur.idx, ref, v["salt"]))
        if "raw" in v:
            return v["raw"].encode("latin1")
        if "special" in v:
            return special_archive(v, ref)
        return fs.archive(v, ref)

    def setup(self):
        self.served = []
        for s in self.sc.get("source", SRC):
            fs.write_set(os.path.join(self.w.source_cache, s["name"]), s["v"], s["name"])
            self.source[s["name"]] = s["v"]
        os.makedirs(self.w.user_cache, exist_ok=True) if self.sc.get("user") else None
        for s in self.sc.get("user", []):
            fs.write_set(os.path.join(self.w.user_cache, s["name"]), s["v"], s["name"])
            self.model[s["name"]] = s["v"]
        for ref, v in self.sc.get("server", {}).items():
            self.server[ref] = v
        self.src_snap = snapshot(self.w.source_cache)

    def fail(self, cls, msg):
        if self.violation is None:
            self.violation = viol(cls, msg)
        return self.violation

    # ---- looking at the result
    def disk(self):
        r = {}
        if os.path.isdir(self.w.user_cache):
            for n in sorted(os.listdir(self.w.user_cache)):
                p = os.path.join(self.w.user_cache, n)
                if os.path.isdir(p) and os.path.lexists(os.path.join(p, INFO)):
                    r[n] = p
        return r

    def which(self, name, candidates):
        """the candidate version the set on disk is exactly, or a description"""
        p = os.path.join(self.w.user_cache, name)
        why = []
        for v in candidates:
            if v is None:
                continue
            d = fs.diff_set(p, v, name)
            if d is None:
                return v, None
            why.append(d)
        return None, " | ".join(why) or "nothing of that name should exist"

    def ask_listing(self):
        p = self.w.run(listing)
        return p

    def check_state(self, allowed, where, absent_ok=()):
        """allowed: name -> list of versions (None = may be absent).
        Compares what is on disk, and what a fresh punx process lists, with
        the model, and adopts the observed choice as the new model."""
        new = {}
        disk = self.disk()
        lp = self.ask_listing()
        if lp.status != 0:
            return self.fail("unusable-after", "%s: punx cannot even list its file sets afterwards: %s %s" % (where, lp.exc_type, lp.exc))
        sets = lp.value["sets"]
        for name, cand in allowed.items():
            p = os.path.join(self.w.user_cache, name)
            if name in disk:
                v, why = self.which(name, cand)
                if v is None:
                    return self.fail("set-not-exact", "%s: installed set %r is listed but is not one complete version: %s" % (where, name, why))
                new[name] = v
                got = sets.get(name)
                if got is None:
                    return self.fail("set-not-listed", "%s: set %r is complete on disk but not listed" % (where, name))
                if got["sha"] != fs.sha_of(v) or got["last_modified"] != v["date"] or got["ref"] != name \
                        or os.path.realpath(got["path"]) != os.path.realpath(p):
                    return self.fail("listing-wrong", "%s: listing of %r is %r" % (where, name, got))
            else:
                if None not in cand and name not in absent_ok:
                    return self.fail("set-lost", "%s: set %r is gone" % (where, name))
                if name in sets and name not in self.source:
                    return self.fail("phantom", "%s: %r is listed but not on disk" % (where, name))
        for name in set(disk) - set(allowed) - self.odd:
            return self.fail("phantom", "%s: a set named %r appeared that nobody asked for" % (where, name))
        for name in set(sets) - set(allowed) - set(self.source) - self.odd:
            return self.fail("phantom", "%s: punx lists %r, which nobody installed" % (where, name))
        for name, v in self.source.items():
            if name in new or name in self.odd:
                continue
            got = sets.get(name)
            if got is None or got["sha"] != fs.sha_of(v):
                return self.fail("bundled-lost", "%s: bundled set %r listed as %r" % (where, name, got))
        if snapshot(self.w.source_cache) != self.src_snap:
            return self.fail("bundled-modified", "%s: bundled definitions were modified" % where)
        if self.w.escapes:
            return self.fail("escape", "%s: write outside the sandbox root attempted: %r" % (where, self.w.escapes[:3]))
        self.model = new
        self.links = {n: t for n, t in self.links.items() if os.path.islink(os.path.join(self.w.user_cache, n))}
        self.last_listing = lp.value
        return None

    # ---- operations
    def install_allowed(self, op, st):
        """states a (possibly failed) installation may leave, by name"""
        allowed = {n: [v] for n, v in self.model.items()}
        links = [x for x in self.links.items() if x[0] not in op["names"]]
        for n in op["names"]:
            have = n in self.model
            if have and not op.get("update"):
                continue
            v = self.server.get(n)
            good = v if v is not None and "raw" not in v and "special" not in v else None
            if n in op.get("bad", ()):
                good = None
            if st == 0:
                allowed[n] = [good]
            else:
                allowed[n] = ([self.model[n]] if have else [None]) + ([good] if good else [])
        for n, target in links:
            allowed[n] = [v and dict(v, ref=v.get("ref", target)) for v in allowed[target]]
        return allowed

    def op_install(self, op):
        argv = ["install"] + (["-u"] if op.get("update") else []) + op["names"]
        before = dict(self.model)
        p = self.w.run(argv=argv, pid=op["id"], encoding=op.get("enc", "utf-8"))
        self.notes.setdefault("status", []).append(p.status)
        where = "after `punx %s` (%s)" % (" ".join(argv), describe_status(p))
        if p.status == "hang":
            return self.fail("hang", "`punx %s` never ends: %s" % (" ".join(argv), p.exc))
        if p.status == 0 and op.get("expect") == "fail":
            return self.fail("failure-not-reported", "%s: exit status 0 although the download was unusable\n%s" % (where, p.out[-600:]))
        if p.status != 0 and op.get("expect") == "ok":
            return self.fail("install-failed", "%s: nothing prevented the installation: %s %s" % (where, p.exc_type, p.exc))
        allowed = self.install_allowed(op, p.status)
        if p.status == 0:
            for n in op["names"]:
                if allowed.get(n) == [None]:
                    return self.fail("failure-not-reported", "%s: exit status 0, but %r cannot have been installed\n%s" % (where, n, p.out[-600:]))
        absent_ok = ()
        if p.status == -9 and op.get("update"):
            absent_ok = [n for n in op["names"] if n in before]
        if self.check_state(allowed, where, absent_ok):
            return
        if p.status == -9:
            gone = [n for n in absent_ok if n not in self.model]
            if gone:
                self.notes["absent"] = gone
        if p.status == 0 and op.get("report", True) and not self.disturbed(p):
            self.check_report(p, where)
        return p

    def disturbed(self, p):
        """did a storage fault hit this process?  (what it could not read, it
        need not list)"""
        return any(f.get("proc", 0) == p.idx and f["kind"] in ("err", "persist", "torn", "eof", "vanish")
                   for f in self.w.fired_faults)

    def check_report(self, p, where):
        rows = table_rows(p.out)
        if rows is None:
            return self.fail("report-wrong", "%s: no table of file sets in the output\n%s" % (where, p.out[-500:]))
        names = sorted(r[0] for r in rows)
        want = sorted(set(self.source) | set(self.model))
        if names != want:
            return self.fail("report-wrong", "%s: the table lists %s, installed are %s" % (where, names, want))
        m = re.search(r"default .*file set: +(\S+)", p.out)
        d = self.expected_default()
        if not m or (len(d) == 1 and m.group(1) not in d):
            return self.fail("default-wrong", "%s: reports default file set %r, the newest installed is %r" % (where, m and m.group(1), d))

    def expected_default(self):
        allsets = dict(self.source)
        allsets.update(self.model)
        top = max(v["date"] for v in allsets.values())
        return sorted(n for n, v in allsets.items() if v["date"] == top)

    def op_config(self, op):
        p = self.w.run(argv=["configuration"], pid=op["id"])
        where = "`punx configuration` (%s)" % describe_status(p)
        if p.status != 0:
            if op.get("may_fail"):
                return
            return self.fail("config-failed", "%s: %s %s" % (where, p.exc_type, p.exc))
        self.check_table(p, where)
        self.check_report(p, where)

    def check_table(self, p, where):
        rows = table_rows(p.out)
        if rows is None:
            return self.fail("report-wrong", "%s printed no table" % where)
        want = {}
        for n, v in self.source.items():
            want[n] = ["source", v["date"], fs.sha_of(v)[:7], os.path.join(self.w.source_cache, n)]
        for n, v in self.model.items():
            want[n] = ["user", v["date"], fs.sha_of(v)[:7], os.path.join(self.w.user_cache, n)]
        seen = {}
        for r in rows:
            if r[0] in seen:
                return self.fail("table-wrong", "%s: %r appears twice" % (where, r[0]))
            seen[r[0]] = r[1:]
        for n in want:
            if n not in seen:
                return self.fail("table-wrong", "%s: no row for %r" % (where, n))
            if seen[n] != want[n]:
                return self.fail("table-wrong", "%s: row for %r is %r, expected %r" % (where, n, seen[n], want[n]))
        for n in seen:
            if n not in want:
                return self.fail("table-wrong", "%s: row for %r, which is not installed" % (where, n))
        dates = [r[2] for r in rows]
        if dates != sorted(dates):
            return self.fail("table-wrong", "%s: rows are not in order of date: %s" % (where, dates))

    def op_move(self, op):
        if op.get("v") is None:
            self.server.pop(op["ref"], None)
        else:
            self.server[op["ref"]] = op["v"]

    def op_clock(self, op):
        self.w.seam.real_ns.value += int(op["by"] * 10**9)

    def op_dirorder(self, op):
        self.w.seam.dirseed.value = op["seed"]

    def op_remove(self, op):
        """the user deletes a set"""
        zap(os.path.join(self.w.user_cache, op["name"]))
        self.model.pop(op["name"], None)
        self.links.pop(op["name"], None)
        for n in [n for n, t in self.links.items() if t == op["name"]]:
            self.op_remove(dict(name=n))

    def op_rename(self, op):
        """the user gives a set another name"""
        a, b = op["name"], op["to"]
        if a in self.links or a in self.links.values() or a not in self.model or b in self.model:
            return
        os.rename(os.path.join(self.w.user_cache, a), os.path.join(self.w.user_cache, b))
        self.model[b] = dict(self.model[a], ref=self.model.pop(a).get("ref", a))

    def op_copy(self, op):
        """... copies a set (a bundled one, perhaps)"""
        a, b = op["name"], op["to"]
        v = self.model.get(a) or self.source.get(a)
        if v is None or b in self.model:
            return
        os.makedirs(self.w.user_cache, exist_ok=True)
        shutil.copytree(self.path_of(a), os.path.join(self.w.user_cache, b), symlinks=False)
        self.model[b] = dict(v, ref=v.get("ref", a))

    def op_link(self, op):
        """... or links to one"""
        a, b = op["name"], op["to"]
        if a not in self.model or a in self.links or b in self.model:
            return
        os.symlink(a, os.path.join(self.w.user_cache, b))
        self.model[b] = dict(self.model[a], ref=self.model[a].get("ref", a))
        self.links[b] = a

    def op_damage(self, op):
        name = op["name"]
        d = os.path.join(self.w.user_cache, name)
        if not os.path.isdir(d):
            zap(d)
        os.makedirs(d, exist_ok=True)
        if op["how"] == "odd-name":
            damage(d, "odd-ref", 0, name)
        if op["how"] in PART_DAMAGE:
            zap(d)
            fs.write_set(d, dict(salt=5, bundle="v2018.5", date="2031-01-01 00:00:00", extras=0), name)
        if op["how"] == "odd-name":
            # a copy of the set under a name that is not UTF-8
            name = [name + "\udce4", "\udcff", "m\udcefin"][op.get("arg", 0) % 3]
            zap(os.path.join(self.w.user_cache, name))
            os.rename(d, os.path.join(self.w.user_cache, name))
            self.model.pop(op["name"], None)
            self.odd.add(name)
            return
        damage(d, op["how"], op.get("arg", 0), name)
        self.model.pop(name, None)
        self.odd.add(name)

    def op_use(self, op):
        """does the named set work? load it and compare the classes it offers"""
        name = op["name"]
        v = self.model.get(name) or self.source.get(name)
        if v is None or not loadable(v):
            return
        p = self.w.run(lambda proc: use_set(name), pid=op["id"])
        where = "loading definitions %r (%s)" % (name, describe_status(p))
        if p.status != 0:
            return self.fail("set-unusable", "%s: %s %s" % (where, p.exc_type, p.exc))
        got, path, sha = p.value
        if got != fs.classes_of(v):
            return self.fail("set-unusable", "%s: classes %s differ from the archive's %s" % (
                where, sorted(set(got) ^ set(fs.classes_of(v)))[:5], name))
        if sha != fs.sha_of(v):
            return self.fail("set-unusable", "%s: sha %s" % (where, sha))

    def op_validate(self, op):
        f = os.path.join(self.w.data, "t.h5")
        if not os.path.exists(f):
            small_h5(f)
        argv = ["validate", f] + (["-f", op["name"]] if op.get("name") else [])
        p = self.w.run(argv=argv, pid=op["id"])
        where = "`punx %s` (%s)" % (" ".join(argv).replace(self.w.root, ""), describe_status(p))
        if p.status != 0:
            if op.get("may_fail"):
                return
            return self.fail("validate-failed", "%s: %s %s %s" % (where, p.exc_type, p.exc, p.err[-300:]))
        name = op.get("name")
        want = [name] if name else self.expected_default()
        m = re.search(r"NeXus definitions: (\S+), dated (.+?), sha=(\S+)", p.out)
        if not m or m.group(1) not in want:
            return self.fail("default-wrong", "%s used definitions %r, expected %r" % (where, m and m.group(1), want))
        v = self.model.get(m.group(1)) or self.source.get(m.group(1))
        if v and (m.group(3) != fs.sha_of(v) or m.group(2) != v["date"]):
            return self.fail("default-wrong", "%s reports %r for %r" % (where, m.groups(), want))

    def go(self):
        for op in self.sc["ops"]:
            getattr(self, "op_" + op["op"])(op)
            if self.violation:
                break
        return self


def describe_status(p):
    s = p.status
    if s == -9:
        return "killed"
    if s == 0:
        return "exit 0"
    if s == "hang":
        return "hangs"
    return "exit %s%s" % (s, ", %s: %s" % (p.exc_type, (p.exc or "")[:160]) if p.exc_type else "")


def use_set(name):
    from punx import nxdl_manager

    m = nxdl_manager.NXDL_Manager(name)
    return sorted(m.classes), m.nxdl_file_set.path, m.nxdl_file_set.sha


def small_h5(path):
    import h5py

    with h5py.File(path, "w") as f:
        f.attrs["default"] = "entry"
        e = f.create_group("entry")
        e.attrs["NX_class"] = "NXentry"
        e.attrs["default"] = "data"
        e["title"] = "t"
        d = e.create_group("data")
        d.attrs["NX_class"] = "NXdata"
        d.attrs["signal"] = "y"
        d["y"] = [1, 2, 3]


def special_archive(v, ref):
    """archives that are not a set of definitions, or try to get out"""
    import io
    import zipfile

    kind = v["special"]
    top = fs.top_of(ref)
    buf = io.BytesIO()
    good = fs.files(v) if "bundle" in v else {}
    with zipfile.ZipFile(buf, "w") as z:
        if kind == "no-nxdl":
            for n in ("README.md", "src/main.c", "docs/index.rst"):
                z.writestr("%s/%s" % (top, n), b"x\n")
        elif kind == "nothing":
            z.writestr("%s/" % top, b"")
        elif kind == "one-file":
            z.writestr("%s/" % top, b"")
            z.writestr("%s/nxdl.xsd" % top, b"<x/>\n")
        elif kind == "other-project":
            for n in ("pom.xml/readme", "src/app.xml", "res/values/strings.xml"):
                z.writestr("%s/%s" % (top, n), b"<x/>\n")
        elif kind == "evil":
            if v.get("first"):
                for n in v["paths"]:
                    z.writestr(zipfile.ZipInfo(n), b"<evil/>\n")
            for n, b in good.items():
                z.writestr("%s/%s" % (top, n), b)
            if not v.get("first"):
                for n in v["paths"]:
                    zi = zipfile.ZipInfo(n)
                    if v.get("symlink"):
                        zi.external_attr = 0o120777 << 16
                        z.writestr(zi, b"../../../site")
                    else:
                        z.writestr(zi, b"<evil/>\n")
        z.comment = b"1234567890abcdef1234567890abcdef12345678"
    return buf.getvalue()


def zap(p):
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    elif os.path.lexists(p):
        os.unlink(p)


def damage(d, how, arg, name):
    p = os.path.join(d, INFO)
    info = json.dumps(fs.info(dict(salt=5, date="2031-01-01 00:00:00"), name), indent=2)

    def put(b):
        zap(p)
        with open(p, "wb") as f:
            f.write(b)

    if how == "empty":
        put(b"")
    elif how == "truncated":
        put(info.encode()[: max(1, arg % len(info))])
    elif how == "garbage":
        r = random.Random(arg)
        put(bytes(r.randrange(256) for _ in range(200)))
    elif how == "zeros":
        put(b"\0" * 300)
    elif how == "not-utf8":
        put(info.replace("main", "m\xe4in").encode("latin1") + b"\xff\xfe\x80")
    elif how == "list":
        put(b"[1, 2]")
    elif how == "null":
        put(b"null")
    elif how == "number":
        put(b"42")
    elif how == "string":
        put(b'"hello"')
    elif how == "no-date":
        j = json.loads(info)
        del j["last_modified"]
        put(json.dumps(j).encode())
    elif how == "null-date":
        j = json.loads(info)
        j["last_modified"] = None
        put(json.dumps(j).encode())
    elif how == "number-date":
        j = json.loads(info)
        j["last_modified"] = 20200101
        put(json.dumps(j).encode())
    elif how in ("odd-date", "odd-sha", "odd-ref"):
        j = json.loads(info)
        j[{"odd-date": "last_modified", "odd-sha": "sha", "odd-ref": "ref"}[how]] = ODD_TEXTS[arg % len(ODD_TEXTS)]
        put(json.dumps(j).encode())
    elif how == "no-sha":
        j = json.loads(info)
        del j["sha"]
        put(json.dumps(j).encode())
    elif how == "null-sha":
        j = json.loads(info)
        j["sha"] = None
        put(json.dumps(j).encode())
    elif how == "no-ref":
        j = json.loads(info)
        del j["ref"]
        put(json.dumps(j).encode())
    elif how == "empty-object":
        put(b"{}")
    elif how == "directory":
        zap(p)
        os.makedirs(p)
    elif how == "dangling":
        zap(p)
        os.symlink("/nonexistent/info.json", p)
    elif how == "loop":
        zap(p)
        os.symlink(INFO, p)
    elif how == "no-info":
        zap(p)
    elif how == "no-schema":
        zap(os.path.join(d, "nxdl.xsd"))
    elif how == "cut-schema":
        with open(os.path.join(d, "nxdlTypes.xsd"), "r+b") as f:
            f.truncate(arg)
    elif how == "empty-schema":
        with open(os.path.join(d, "nxdl.xsd"), "wb"):
            pass
    elif how == "bad-nxdl":
        with open(os.path.join(d, "base_classes", "NXentry.nxdl.xml"), "r+b") as f:
            f.seek(200)
            f.write(b"<oops")
    elif how == "no-category":
        zap(os.path.join(d, ["base_classes", "applications", "contributed_definitions"][arg % 3]))
    elif how == "file-for-set":
        zap(d)
        with open(d, "wb") as f:
            f.write(info.encode())
    elif how == "link-for-set":
        zap(d)
        os.symlink("/nonexistent/set" if arg % 2 else os.path.basename(d), d)
    elif how == "deep":
        put(b"[" * 100000)
    else:
        raise HarnessError("damage " + how)


ODD_TEXTS = ["someday", "0", "2020-13-45 99:99:99", "2020-01-02T03:04:05.678Z", "2021-02-03", "9999-12-31 23:59:60", "-", "x" * 3000,
             "%s {} %d", "\ud800", "a\u0301\u20ac", "../..", "NaN", "2020-01-02 03:04:05+14:00"]
DAMAGE = ["empty", "truncated", "garbage", "zeros", "not-utf8", "list", "null", "number",
          "string", "no-date", "null-date", "number-date", "no-sha", "null-sha", "no-ref", "odd-date", "odd-sha", "odd-ref", "odd-name",
          "empty-object", "directory", "dangling", "loop", "no-info", "deep",
          "file-for-set", "link-for-set"]
PART_DAMAGE = ["no-schema", "cut-schema", "empty-schema", "bad-nxdl", "no-category"]


def execute(sc, root, log=False):
    if "pair" in sc:
        gone = []
        r0 = None
        for k, f in enumerate(sc["pair"]):
            s = dict(sc, faults=[f])
            del s["pair"]
            r = execute(s, root, log)
            if r.get("violation"):
                return r
            r0 = r0 or r
            if r.get("absent"):
                gone.append((r["absent"], r["muts"]))
        if len(gone) == 2 and gone[0][1] != gone[1][1]:
            r0["violation"] = viol("lost-in-replacement",
                "while `punx install -u` replaces %s, the old set is already gone and the new one not yet there "
                "over a span of changes to the disk (after change %s and after change %s), not just between two renames"
                % (gone[0][0], gone[0][1], gone[1][1]))
        return r0
    eng = sc.get("engine", "seq")
    if eng != "seq":
        from . import conc

        return conc.execute(sc, root, log)
    r = Run(sc, root)
    count = [0]

    def obs(w, name, a, b, verdict):
        if not verdict and w.cur.idx < 100000 and name in (
                "write", "mkdir", "rename", "unlink", "rmdir", "open_w", "truncate"):
            count[0] += 1
    r.w.observer = obs
    extra = {}
    pre = PRE.get(sc.get("prop"))
    if pre:
        pre(r)
    r.go()
    post = POST.get(sc.get("prop"))
    if post and not r.violation:
        post(r)
    state = state_hash(sorted((n, v["salt"]) for n, v in r.model.items()), r.notes.get("status"),
                       sorted(snapshot(r.w.user_cache)) if os.path.isdir(r.w.user_cache) else None,
                       r.violation and r.violation["cls"])
    return result(r.w, r.violation, state=state, nontrivial=bool(r.w.fired_faults) or bool(sc.get("nontrivial")),
                  log=log, absent=r.notes.get("absent"), muts=count[0], status=r.notes.get("status"))


PRE, POST = {}, {}


# ------------------------------------------------------------------ C06: no-op
def _c06_pre(r):
    r.c06 = snapshot(r.w.user_cache)


def _c06_post(r):
    if r.sc.get("all_present"):
        after = snapshot(r.w.user_cache)
        if after != r.c06:
            d = sorted(k for k in set(after) | set(r.c06) if after.get(k) != r.c06.get(k))
            return r.fail("not-a-noop", "installing sets that are already there changed the user cache: %s" % d[:6])
        asked = [x for x in r.w.net_log]
        if asked:
            return r.fail("not-a-noop", "installing sets that are already there contacted the server: %r" % (asked[:2],))


PRE["C06"], POST["C06"] = _c06_pre, _c06_post


# ------------------------------------------------------------------ C08: retry
def _c08_post(r):
    sc = r.sc
    n = len(r.w.net_log)
    if r.w.sim_seconds() > sc.get("bound", 3600):
        return r.fail("unbounded-wait", "one installation took %.0f simulated seconds" % r.w.sim_seconds())
    if sc.get("max_requests") and n > sc["max_requests"]:
        return r.fail("too-many-requests", "%d requests for one file set" % n)


POST["C08"] = _c08_post


# ------------------------------------------------------------------ C13: confinement
def _c13_pre(r):
    r.c13 = outside(r)


def outside(r):
    s = {}
    for d in ("site", "data", "home", "victim"):
        p = os.path.join(r.w.root, d)
        if os.path.isdir(p):
            for k, v in snapshot(p).items():
                s[d + "/" + k] = v
    uc = os.path.relpath(r.w.user_cache, r.w.root)
    s = {k: v for k, v in s.items() if not (k == uc or k.startswith(uc + "/"))}
    if os.path.isdir(r.w.user_cache):
        for n in os.listdir(r.w.user_cache):       # files beside the sets
            p = os.path.join(r.w.user_cache, n)
            if not os.path.isdir(p) and not beside_ok(r):
                s["BESIDE " + n] = n
        for n in r.model:
            p = os.path.join(r.w.user_cache, n)
            for k, v in snapshot(p).items():
                s["SET %s/%s" % (n, k)] = v
    return s


def beside_ok(r):
    """did the disk fail, or the process die, so that files could be left?"""
    return any("net" not in f for f in r.w.fired_faults)


def _c13_post(r):
    if r.w.escapes:
        return r.fail("escape", "writes outside: %r" % (r.w.escapes[:3],))
    after = outside(r)
    bad = sorted(k for k in set(after) | set(r.c13) if after.get(k) != r.c13.get(k)
                 and not any(k.startswith("SET %s/" % n) for n in r.sc.get("touched", [])))
    if bad:
        return r.fail("outside-changed", "the installation changed what is not its own: %s" % bad[:6])


PRE["C13"], POST["C13"] = _c13_pre, _c13_post


# ------------------------------------------------------------------ generators
def base_sc(prop, seed, rng, small=False, users=None, **kw):
    sc = dict(prop=prop, seed=seed, clock=rng.randrange(1500000000, 1900000000),
              dirseed=rng.randrange(0, 1 << 60) if rng.random() < 0.8 else 0,
              tz=rng.choice(["UTC", "America/Chicago", "Asia/Kolkata", "Pacific/Apia"]),
              redirect=rng.random() < 0.5, content_length=rng.random() < 0.5)
    sc["source"] = SRC_SMALL if small else SRC
    names = rng.sample(NAMES, rng.randrange(0, 4) if users is None else users)
    mk = (lambda **k: vers(rng, **dict(SMALL, **k))) if small else (lambda **k: vers(rng, **k))
    sc["user"] = [dict(name=n, v=mk()) for n in names]
    sc["server"] = {n: mk() for n in NAMES}
    sc["ops"], sc["faults"] = [], []
    sc.update(kw)
    return sc, names


def pick_install(rng, names, update=None, new=None, count=1):
    """an install op aimed at present and absent names"""
    absent = [n for n in NAMES if n not in names]
    pick = []
    for _ in range(count):
        if names and (not absent or new is False or (new is None and rng.random() < 0.6)):
            n = rng.choice(names)
        else:
            n = rng.choice(absent)
        if n not in pick:
            pick.append(n)
    up = update if update is not None else any(n in names for n in pick) or rng.random() < 0.4
    return dict(op="install", names=pick, update=up)


def with_ids(sc):
    for i, op in enumerate(sc["ops"]):
        op["id"] = i
    return sc


def job(prop, seed, ctx):
    return GEN[prop](seed, ctx)


def probe(sc, ctx):
    s = dict(sc, faults=[])
    r = ctx.execute(s, log=True)
    return r


def flog(r, pid=0):
    return [e for e in r.get("log", []) if e[0] == pid]


# ---- C01 ----------------------------------------------------------------
def gen_c01(seed, ctx):
    rng = random.Random(seed)
    small = rng.random() < 0.75
    sc, names = base_sc("C01", seed, rng, small=small)
    sc["ops"] = [pick_install(rng, names, count=rng.choice([1, 1, 2]))]
    if rng.random() < 0.3:
        sc["ops"].append(pick_install(rng, names + sc["ops"][0]["names"], update=True))
    with_ids(sc)
    p = probe(sc, ctx)
    p["probe"] = True
    yield p
    if p.get("violation") or p.get("harness"):
        return
    target = rng.randrange(len(sc["ops"]))
    lg = flog(p, target)
    muts = [e for e in lg if mutating(e)]
    if not muts:
        return
    sweep = small and rng.random() < (0.25 if ctx.tier == "quick" else 0.6)
    if sweep:
        pts = muts
    else:
        k = min(len(muts), 10)
        tail = muts[-min(len(muts), 40):]
        pts = rng.sample(muts, k // 2) + rng.sample(tail, min(len(tail), k - k // 2))
        pts += rng.sample(lg, min(2, len(lg)))
    absent = {}
    for e in pts:
        f = dict(proc=target, n=e[1], kind="crash")
        if e[2] == "write" and rng.random() < 0.5:
            f["frac"] = rng.choice([0.0, 0.3, 0.5, 0.99])
        r = ctx.execute(dict(sc, faults=[f]))
        yield r
        if r.get("absent"):
            absent[r["muts"]] = f
    if len(absent) > 1:
        ks = sorted(absent)
        yield ctx.execute(dict(sc, faults=[], pair=[absent[ks[0]], absent[ks[-1]]]))


# ---- C02 ----------------------------------------------------------------
def storage_fault(rng, lg, pid, kinds=("err", "torn", "kbd", "persist", "short")):
    muts = [e for e in lg if mutating(e)]
    k = rng.choice(kinds)
    e = rng.choice(muts) if muts and rng.random() < 0.75 else rng.choice(lg)
    if k == "err":
        return dict(proc=pid, n=e[1], kind="err", errno=rng.choice(ERRS))
    if k == "torn":
        ws = [x for x in lg if x[2] == "write"] or [e]
        e = rng.choice(ws)
        return dict(proc=pid, n=e[1], kind="torn", errno=rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT]),
                    frac=rng.choice([0.0, 0.2, 0.5, 0.9]))
    if k == "kbd":
        return dict(proc=pid, n=e[1], kind="kbd")
    if k == "persist":
        what = rng.choice(["full", "ro", "eio"])
        if what == "full":
            return dict(proc=pid, n=e[1], kind="persist", errno=errno.ENOSPC, ops=["write", "mkdir", "open_w"])
        if what == "ro":
            return dict(proc=pid, n=e[1], kind="persist", errno=errno.EACCES, ops=["open_w", "mkdir"])
        return dict(proc=pid, n=e[1], kind="persist", errno=errno.EIO, ops=["write", "read"])
    if k == "short":
        rw = [x for x in lg if x[2] in ("read", "write")] or [e]
        e = rng.choice(rw)
        return dict(proc=pid, n=e[1], kind="short", frac=rng.choice([0.01, 0.3, 0.7]))
    raise HarnessError(k)


NETFAIL = ["refused", "dns", "conn-timeout", "abort", "tls", "no-answer", "reset", "stall", "truncate",
           "login-page", "empty", "cut", "http"]


def net_fault(rng, pid, k=None, attempt=1):
    k = k or rng.choice(NETFAIL)
    f = dict(proc=pid, net=attempt, kind=k)
    if k in ("reset", "stall", "truncate", "cut"):
        f["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99, 0.999])
    if k == "http":
        f["code"] = rng.choice([404, 403, 429, 500, 502, 503, 410])
    return f


def gen_c02(seed, ctx):
    rng = random.Random(seed)
    sc, names = base_sc("C02", seed, rng, small=rng.random() < 0.7, users=rng.randrange(1, 4))
    sc["ops"] = [pick_install(rng, names, update=True, new=False if rng.random() < 0.8 else None,
                              count=rng.choice([1, 1, 1, 2]))]
    with_ids(sc)
    p = probe(sc, ctx)
    p["probe"] = True
    yield p
    if p.get("violation") or p.get("harness"):
        return
    lg = flog(p, 0)
    for _ in range(12):
        x = rng.random()
        if x < 0.72:
            fl = [storage_fault(rng, lg, 0)]
        elif x < 0.87:
            fl = [net_fault(rng, 0, attempt=a) for a in (1, 2, 3, 4)]
        else:
            n = p.get("outw", {}).get("0") or 3
            fl = [dict(proc=0, where="out", n=rng.randrange(1, n + 1), kind="out",
                       errno=rng.choice([errno.EPIPE, errno.ENOSPC, errno.EIO]))]
        yield ctx.execute(dict(sc, faults=fl))


# ---- C03 ----------------------------------------------------------------
def gen_c03(seed, ctx):
    rng = random.Random(seed)
    sc, names = base_sc("C03", seed, rng, nontrivial=True)
    n = rng.randrange(1, 4)
    have = list(names)
    for _ in range(n):
        op = pick_install(rng, have, count=rng.choice([1, 1, 2, 3]))
        op["expect"] = "ok"
        sc["ops"].append(op)
        have += op["names"]
        if rng.random() < 0.4:
            ref = rng.choice(op["names"])
            sc["ops"].append(dict(op="move", ref=ref, v=vers(rng)))
            if rng.random() < 0.7:
                sc["ops"].append(dict(op="install", names=[ref], update=True, expect="ok"))
        if rng.random() < 0.3:
            sc["ops"].append(dict(op="clock", by=rng.choice([-10**8, -3600, 86400, 10**8])))
        if rng.random() < 0.3:
            sc["ops"].append(dict(op="dirorder", seed=rng.randrange(1 << 60)))
        if rng.random() < 0.3:
            sc["ops"].append(dict(op="config"))
    sc["ops"].append(dict(op="use", name=rng.choice(have)))
    with_ids(sc)
    p = probe(sc, ctx)
    yield p
    if p.get("violation") or p.get("harness"):
        return
    inst = [o["id"] for o in sc["ops"] if o["op"] == "install"]
    for _ in range(2):       # disturbances an installation must ride out
        pid = rng.choice(inst)
        lg = flog(p, pid)
        fl = []
        for _ in range(rng.randrange(1, 5)):
            fl.append(storage_fault(rng, lg, pid, kinds=("short",)))
        if rng.random() < 0.5:
            fl.append(dict(proc=pid, net=1, kind="delay", secs=rng.choice([0.5, 3])))
        if rng.random() < 0.4:
            fl.append(dict(proc=pid, n=rng.randrange(1, len(lg)), kind="jump", by=rng.choice([-10**7, 10**7, -5])))
        yield ctx.execute(dict(sc, faults=fl))


# ---- C04 ----------------------------------------------------------------
def gen_c04(seed, ctx):
    rng = random.Random(seed)
    sc, names = base_sc("C04", seed, rng, users=rng.randrange(0, 3), nontrivial=True)
    for s in sc["user"]:
        s["v"] = dict(s["v"])
    for _ in range(rng.randrange(1, 4)):
        nm = rng.choice(NAMES[:4] + ["broken", "definitions-main", "v3.3", "0", "zz top"])
        sc["ops"].append(dict(op="damage", name=nm, how=rng.choice(DAMAGE + PART_DAMAGE), arg=rng.randrange(1000)))
    dam = {o["name"] for o in sc["ops"]}
    cmds = rng.sample(["list", "config", "validate", "install", "default"], 3)
    for c in cmds:
        if c == "list":
            sc["ops"].append(dict(op="look"))
        elif c == "config":
            sc["ops"].append(dict(op="look_config"))
        elif c == "validate":
            ok = [s["name"] for s in SRC if s["name"] not in dam]
            sc["ops"].append(dict(op="validate", name=rng.choice(ok)))
        elif c == "install":
            cand = [n for n in NAMES if n not in dam and n not in names]
            sc["ops"].append(dict(op="install", names=[rng.choice(cand)], update=False, report=False, expect="ok"))
        else:
            sc["ops"].append(dict(op="look_default"))
    with_ids(sc)
    p = probe(sc, ctx)
    yield p
    if p.get("violation") or p.get("harness"):
        return
    # the info file of one set cannot be read, or disappears, while punx looks
    sc2, names = base_sc("C04", seed, rng, users=rng.randrange(1, 4), nontrivial=False)
    sc2["ops"] = [dict(op="look_config_fault")]
    with_ids(sc2)
    p = probe(sc2, ctx)
    if p.get("violation") or p.get("harness"):
        yield p
        return
    lg = [(e, n) for e in flog(p, 0) for n in names if ("/punx/%s/" % n) in e[3] + "/" and "/.config/" in e[3]]
    for e, victim in rng.sample(lg, min(len(lg), 4)):
        k = rng.choice(["err", "vanish", "eof", "err"])
        if k == "err" and e[2] in ("open", "read", "stat", "listdir", "access", "readlink"):
            f = dict(proc=0, n=e[1], kind="err", errno=rng.choice([errno.EACCES, errno.EIO, errno.EMFILE, errno.ENOENT]))
        elif k == "eof" and e[2] == "read":
            f = dict(proc=0, n=e[1], kind="eof")
        else:
            f = dict(proc=0, n=e[1], kind="vanish")
        yield ctx.execute(dict(sc2, faults=[f], victim=victim))


def _undamaged(self):
    return {n: v for n, v in self.model.items() if n not in self.odd}


def op_look(self, op):
    p = self.ask_listing()
    if p.status != 0:
        return self.fail("bricked", "with damaged set(s) %s in the user cache, punx cannot list its file sets: %s %s" % (
            sorted(self.odd), p.exc_type, p.exc))
    return self.look_sets(p.value["sets"], "the list of file sets")


def look_sets(self, sets, where):
    good = _undamaged(self)
    want = {n: fs.sha_of(v) for n, v in self.source.items() if n not in self.odd}
    want.update({n: fs.sha_of(v) for n, v in good.items()})
    for n, sha in want.items():
        if n not in sets:
            return self.fail("good-set-missing", "damaged set(s) %s hide the good set %r from %s" % (sorted(self.odd), n, where))
        got = sets[n]["sha"] if isinstance(sets[n], dict) else sets[n]
        if not sha.startswith(got) or not got:
            return self.fail("good-set-wrong", "%r has sha %r in %s, is %r" % (n, got, where, sha))
    for n in sets:
        if n not in want and n not in self.odd and not (n in self.source):
            return self.fail("phantom", "%r in %s" % (n, where))


def op_look_config(self, op):
    p = self.w.run(argv=["configuration"], pid=op["id"])
    if p.status != 0:
        return self.fail("bricked", "with damaged set(s) %s, `punx configuration` fails (%s)" % (sorted(self.odd), describe_status(p)))
    rows = table_rows(p.out)
    if rows is None:
        return self.fail("report-wrong", "no table")
    return self.look_sets({r[0]: r[3] for r in rows}, "`punx configuration`")


def op_look_config_fault(self, op):
    victim = self.sc.get("victim")
    if victim:
        self.odd.add(victim)
    p = self.w.run(argv=["configuration"], pid=op["id"])
    if p.status != 0:
        return self.fail("bricked", "one info file (%s) could not be read; `punx configuration` fails (%s)" % (
            victim, describe_status(p)))
    rows = table_rows(p.out)
    if rows is None:
        return self.fail("report-wrong", "no table")
    return self.look_sets({r[0]: r[3] for r in rows}, "`punx configuration`")


def op_look_default(self, op):
    p = self.ask_listing()
    if p.status != 0:
        return self.fail("bricked", "with damaged set(s) %s, punx has no default: %s %s" % (sorted(self.odd), p.exc_type, p.exc))
    d = p.value["default"]
    if d is None:
        return self.fail("bricked", "no default file set with damaged set(s) %s" % sorted(self.odd))
    sets = p.value["sets"]
    usable = {n: v for n, v in list(self.source.items()) + list(self.model.items()) if n not in self.odd}
    top = max(v["date"] for v in usable.values())
    names = [n for n, v in usable.items() if v["date"] == top]
    by_name = {s["path"]: n for n, s in sets.items()}
    got = by_name.get(d["path"])
    if got in self.odd:
        return      # a damaged set with a readable date is a set, as far as the listing knows
    if got not in names:
        return self.fail("default-wrong", "default is %r, newest good set is %r" % (got, names))


for _f in (op_look, look_sets, op_look_config, op_look_config_fault, op_look_default):
    setattr(Run, _f.__name__, _f)


# ---- C05 ----------------------------------------------------------------
def gen_c05(seed, ctx):
    rng = random.Random(seed)
    sc, names = base_sc("C05", seed, rng, small=rng.random() < 0.7)
    tgt = rng.choice(NAMES)
    n = rng.randrange(1, 4)
    for _ in range(n):
        sc["ops"].append(dict(op="install", names=[tgt], update=True))
        if rng.random() < 0.5:
            mk = dict(SMALL) if sc["source"] is SRC_SMALL else {}
            sc["ops"].append(dict(op="move", ref=tgt, v=vers(rng, **mk)))
    sc["ops"].append(dict(op="install", names=[tgt], update=True, expect="ok"))
    sc["ops"].append(dict(op="config"))
    with_ids(sc)
    p = probe(sc, ctx)
    p["probe"] = True
    yield p
    if p.get("violation") or p.get("harness"):
        return
    inst = [o["id"] for o in sc["ops"] if o["op"] == "install"][:-1]
    for _ in range(8):
        fl = []
        for pid in inst:
            lg = flog(p, pid)
            x = rng.random()
            muts = [e for e in lg if mutating(e)]
            if x < 0.6 and muts:
                e = rng.choice(muts if rng.random() < 0.5 else muts[-min(len(muts), 30):])
                f = dict(proc=pid, n=e[1], kind="crash")
                if e[2] == "write":
                    f["frac"] = rng.choice([0.0, 0.5])
                fl.append(f)
            elif x < 0.85:
                fl.append(storage_fault(rng, lg, pid))
            else:
                fl += [net_fault(rng, pid, attempt=a) for a in (1, 2, 3)]
        yield ctx.execute(dict(sc, faults=fl))


# ---- C06 ----------------------------------------------------------------
def gen_c06(seed, ctx):
    rng = random.Random(seed)
    sc, names = base_sc("C06", seed, rng, small=rng.random() < 0.7, users=rng.randrange(1, 5), nontrivial=True)
    pick = rng.sample(names, rng.randrange(1, len(names) + 1))
    sc["all_present"] = True
    for _ in range(rng.randrange(1, 3)):
        sc["ops"].append(dict(op="install", names=pick, update=False, expect="ok"))
        if rng.random() < 0.4:
            sc["ops"].append(dict(op="move", ref=pick[0], v=None))
    if rng.random() < 0.35:
        new = rng.choice([n for n in NAMES if n not in names])
        k = list(pick)
        k.insert(rng.randrange(len(k) + 1), new)
        sc["ops"] = [dict(op="install", names=k, update=False, expect="ok")]
        sc["all_present"] = False
    with_ids(sc)
    yield ctx.execute(dict(sc))
    if sc["all_present"]:
        # ... whatever the network would have done
        yield ctx.execute(dict(sc, faults=[net_fault(rng, o["id"], attempt=a) for o in sc["ops"] if o["op"] == "install" for a in (1, 2, 3)]))


# ---- C07 ----------------------------------------------------------------
def gen_c07(seed, ctx):
    rng = random.Random(seed)
    sc, names = base_sc("C07", seed, rng, small=rng.random() < 0.7, nontrivial=True)
    op = pick_install(rng, names, update=True, count=rng.choice([1, 1, 2, 3]))
    op["expect"] = "fail"
    sc["ops"] = [op]
    with_ids(sc)
    for _ in range(4):
        s = json.loads(json.dumps(sc))
        ref = rng.choice(op["names"])
        k = rng.choice(["special", "http", "login-page", "empty", "cut", "truncate", "raw", "404", "reset", "corrupt"])
        if k not in ("special", "raw", "404"):
            ref = op["names"][0]
            s["ops"][0]["names"] = [ref]
        s["ops"][0]["bad"] = [ref]
        if k == "special":
            s["server"][ref] = dict(special=rng.choice(["no-nxdl", "nothing", "one-file", "other-project"]), salt=1)
        elif k == "raw":
            s["server"][ref] = dict(raw=rng.choice(["", "PK", "not a zip", "<html/>", "PK\x03\x04" + "\0" * 50, "\x1f\x8b\x08" + "x" * 90]), salt=1)
        elif k == "404":
            s["server"].pop(ref)
        elif k == "corrupt":
            s["server"][ref] = dict(s["server"][ref], junk=False)
            s["faults"] = [dict(proc=0, net=1, kind="corrupt-data", pick=rng.random(), at=rng.random(), xor=rng.choice([1, 0x80, 0xff]))]
            s["redirect"] = False
        else:
            if k in ("cut", "truncate", "reset"):
                f = dict(proc=0, kind=k, frac=rng.choice([0.0, 0.05, 0.5, 0.9, 0.97]))
            else:
                f = net_fault(rng, 0, k)
            s["redirect"] = False
            s["faults"] = [dict(f, net=a) for a in (1, 2, 3, 4, 5, 6)]
        yield ctx.execute(s)


# ---- C08 ----------------------------------------------------------------
def gen_c08(seed, ctx):
    rng = random.Random(seed)
    sc, names = base_sc("C08", seed, rng, small=True, max_requests=12, bound=3600)
    sc["redirect"] = False
    op = pick_install(rng, names, update=True)
    sc["ops"] = [op]
    with_ids(sc)
    trans = ["refused", "dns", "conn-timeout", "abort"]
    for _ in range(4):
        s = json.loads(json.dumps(sc))
        x = rng.random()
        if x < 0.45:      # fewer failures than attempts: must succeed
            s["ops"][0]["expect"] = "ok"
            k = rng.choice([1, 2])
            s["faults"] = [dict(net_fault(rng, 0, rng.choice(trans)), net=a) for a in range(1, k + 1)]
        elif x < 0.65:    # never reachable: must give up, visibly
            s["ops"][0]["expect"] = "fail"
            s["faults"] = [dict(net_fault(rng, 0, rng.choice(trans)), net=a) for a in range(1, 13)]
        else:             # the peer goes silent: must not wait forever
            s["faults"] = [dict(net_fault(rng, 0, rng.choice(["no-answer", "stall", "delay", "reset"])), net=a)
                           for a in range(1, rng.choice([2, 3, 13]))]
            for f in s["faults"]:
                if f["kind"] == "delay":
                    f["secs"] = rng.choice([1, 1000, 10**6])
        yield ctx.execute(s)


# ---- C11 ----------------------------------------------------------------
def gen_c11(seed, ctx):
    rng = random.Random(seed)
    sc, names = base_sc("C11", seed, rng, small=rng.random() < 0.8, nontrivial=True, users=rng.randrange(0, 5))
    pool = [rdate(rng) for _ in range(3)] + ["2018-05-15 16:34:18", "2009-12-31 23:59:58", "2018-05-15 16:34:16", "2018-05-15 16:34:20"]
    for s in sc["user"]:
        s["v"] = dict(s["v"], date=rng.choice(pool))
    for n in sc["server"]:
        sc["server"][n] = dict(sc["server"][n], date=rng.choice(pool))
    if rng.random() < 0.3:     # a user set may shadow a bundled one
        small = dict(SMALL) if sc["source"] is SRC_SMALL else {}
        nm = rng.choice(["v3.3", "v2018.5"])
        sc["user"].append(dict(name=nm, v=vers(rng, date=rng.choice(pool), **small)))
        names.append(nm)
    have = list(names)
    for _ in range(rng.randrange(2, 6)):
        x = rng.random()
        if x < 0.45:
            op = pick_install(rng, [n for n in have if n in NAMES], count=rng.choice([1, 2]))
            op["expect"] = "ok"
            sc["ops"].append(op)
            have += [n for n in op["names"] if n not in have]
        elif x < 0.6:
            sc["ops"].append(dict(op="config"))
        elif x < 0.7:
            sc["ops"].append(dict(op="same_default"))
        elif x < 0.78:
            sc["ops"].append(dict(op="clock", by=rng.choice([-10**9, 10**8])))
        elif x < 0.84:
            sc["ops"].append(dict(op="touch", name=rng.choice(have) if have else "main", by=rng.randrange(10**8)))
        elif x < 0.92 and have:
            a, b = rng.choice(have), rng.choice([n for n in NAMES + ["current", "backup-of-main", "0"] if n not in have] or ["z"])
            sc["ops"].append(dict(op=rng.choice(["rename", "rename", "copy", "link"]), name=a, to=b))
            have.append(b)
        else:
            sc["ops"].append(dict(op="dirorder", seed=rng.randrange(1 << 60)))
    sc["ops"].append(dict(op="config"))
    sc["ops"].append(dict(op="same_default"))
    if sc["source"] is SRC and rng.random() < 0.5:
        sc["ops"].append(dict(op="validate"))
    with_ids(sc)
    yield ctx.execute(sc)


def op_touch(self, op):
    p = os.path.join(self.w.user_cache, op["name"])
    if os.path.isdir(p):
        os.utime(p, (op["by"], op["by"]))


def op_same_default(self, op):
    """the choice depends on the dates alone: not on the order in which the
    directory happens to be listed"""
    seen = {}
    for k in (0, 1, 2, 77, 12345, 999):
        self.w.seam.dirseed.value = k
        p = self.ask_listing()
        if p.status != 0:
            return self.fail("unusable-after", "listing fails: %s" % p.exc)
        d = p.value["default"]
        seen[d["path"]] = k
        exp = self.expected_default()
        if not any(os.path.realpath(d["path"]) == os.path.realpath(self.path_of(n)) for n in exp):
            return self.fail("default-wrong", "default is %r (%s), newest is %r" % (d["ref"], d["last_modified"], exp))
    if len(seen) > 1:
        return self.fail("default-unstable", "the default file set depends on the order of the directory listing: %s" % sorted(
            os.path.basename(x) for x in seen))


def path_of(self, n):
    return os.path.join(self.w.user_cache if n in self.model else self.w.source_cache, n)


for _f in (op_touch, op_same_default, path_of):
    setattr(Run, _f.__name__, _f)


# ---- C12 ----------------------------------------------------------------
def gen_c12(seed, ctx):
    rng = random.Random(seed)
    sc, names = base_sc("C12", seed, rng, small=True, nontrivial=True, users=rng.randrange(0, 6))
    if rng.random() < 0.3:
        sc["config"] = rng.choice(["home/punx/cache", "cfg/punx/cache/x", "home/My Config", "site2/punx", "home/.config/punx/cache"])
    if rng.random() < 0.4:
        nm = rng.choice(["v3.3", "v2018.5"])
        sc["user"].append(dict(name=nm, v=vers(rng, **SMALL)))
        names.append(nm)
    for i, s in enumerate(sc["user"]):       # distinct dates: ties have no order
        s["v"] = dict(s["v"], date="20%02d-%s" % (10 + i, s["v"]["date"][5:]))
    for i, n in enumerate(sorted(sc["server"])):
        sc["server"][n] = dict(sc["server"][n], date="20%02d-%s" % (20 + i, sc["server"][n]["date"][5:]))
    if rng.random() < 0.5:                   # all on one day (or hour, or minute)
        every = sc["user"] + [dict(name=n) for n in sorted(sc["server"])]
        form = rng.choice(["2021-05-05 %02d:17:42", "2021-05-05 10:%02d:42", "2021-05-05 10:17:%02d"])
        for s, k in zip(every, rng.sample(range(0, 24, 1) if form.endswith("42") else range(0, 60, 2), len(every))):
            if "v" in s:
                s["v"] = dict(s["v"], date=form % k)
            else:
                sc["server"][s["name"]] = dict(sc["server"][s["name"]], date=form % k)
    have = list(names)
    for _ in range(rng.randrange(1, 5)):
        x = rng.random()
        if x < 0.5:
            op = pick_install(rng, [n for n in have if n in NAMES], count=rng.choice([1, 2]))
            op["expect"] = "ok"
            sc["ops"].append(op)
            have += op["names"]
        elif x < 0.65 and have:
            sc["ops"].append(dict(op="remove", name=rng.choice(have)))
        elif x < 0.8:
            sc["ops"].append(dict(op="dirorder", seed=rng.randrange(1 << 60)))
        if rng.random() < 0.3:      # sets that did not get here by `punx install`
            a = rng.choice(have + ["v3.3", "v2018.5"])
            b = rng.choice([n for n in NAMES + ["current", "backup-of-main", "v3.3", "0"] if n != a])
            k = rng.choice(["rename", "copy", "copy", "link"])
            sc["ops"].append(dict(op=k, name=a, to=b))
            if b not in have and (k == "copy" or a in have):
                have.append(b)
        sc["ops"].append(dict(op="config"))
    with_ids(sc)
    yield ctx.execute(sc)


# ---- C13 ----------------------------------------------------------------
EVIL_NAMES = ["..", ".", "../..", "../victim", "../../home/x", "a/b", "feature/x", "a/../..", "", " ",
              "../punx", "../../site/punx/cache/v3.3", "main/..", "/abs/path", "./main", "main/"]
EVIL_PATHS = ["../evil.xml", "../../site/punx/cache/v3.3/nxdl.xsd", "/abs/base_classes/NXevil.nxdl.xml",
              "definitions-main/../../v9/base_classes/NXevil.nxdl.xml", "..\\..\\base_classes\\NXevil.nxdl.xml",
              "../base_classes/NXevil.nxdl.xml", "base_classes/NXevil.nxdl.xml", "v3.2/base_classes/NXevil.nxdl.xml",
              "v3.2/nxdl.xsd", "//applications/NXevil.nxdl.xml", "C:/base_classes/NXevil.nxdl.xml",
              "./base_classes/NXevil.nxdl.xml", "../v3.2/base_classes/NXevil.nxdl.xml"]


def gen_c13(seed, ctx):
    rng = random.Random(seed)
    sc, names = base_sc("C13", seed, rng, small=True, nontrivial=True, users=rng.randrange(1, 4))
    for _ in range(3):
        s = json.loads(json.dumps(sc))
        x = rng.random()
        if x < 0.45:
            nm = rng.choice(EVIL_NAMES)
            s["server"][nm] = vers(rng, **SMALL)
            s["ops"] = [dict(op="install_evil", names=[nm], update=rng.random() < 0.7)]
            s["touched"] = [nm]
        elif x < 0.85:
            ref = rng.choice(NAMES)
            v = vers(rng, **SMALL)
            v.update(special="evil", paths=rng.sample(EVIL_PATHS, rng.randrange(1, 4)), first=rng.random() < 0.4,
                     symlink=rng.random() < 0.25)
            s["server"][ref] = v
            s["ops"] = [dict(op="install_evil", names=[ref], update=True)]
            s["touched"] = [ref]
        else:
            op = pick_install(rng, names, update=True)
            s["ops"] = [op]
            s["touched"] = op["names"]
        with_ids(s)
        if x >= 0.7 and rng.random() < 0.6:        # a download that can not be used
            ref = s["touched"][0]
            k = rng.choice(["special", "raw", "net", "net", "corrupt"])
            if k == "special":
                s["server"][ref] = dict(special=rng.choice(["no-nxdl", "nothing", "one-file", "other-project"]), salt=1)
            elif k == "raw":
                s["server"][ref] = dict(raw=rng.choice(["", "PK", "not a zip", "PK\x03\x04" + "\0" * 50]), salt=1)
            elif k == "corrupt":
                s["redirect"] = False
                s["faults"] = [dict(proc=0, net=1, kind="corrupt-data", pick=rng.random(), at=rng.random(), xor=rng.choice([1, 0x80, 0xff]))]
            else:
                s["redirect"] = False
                s["faults"] = [dict(net_fault(rng, 0), net=a) for a in range(1, 8)]
            yield ctx.execute(dict(s, ops=[dict(o, op="install_evil") for o in s["ops"]]))
            continue
        r = probe(s, ctx)
        yield r
        if r.get("violation") or r.get("harness"):
            continue
        lg = flog(r, 0)
        if lg and rng.random() < 0.5:
            yield ctx.execute(dict(s, faults=[storage_fault(rng, lg, 0)]))


def op_install_evil(self, op):
    argv = ["install"] + (["-u"] if op.get("update") else []) + op["names"]
    p = self.w.run(argv=argv, pid=op["id"])
    self.notes.setdefault("status", []).append(p.status)
    if p.status == "hang":
        return self.fail("hang", "`punx %s`" % " ".join(argv))


Run.op_install_evil = op_install_evil

GEN = dict(C01=gen_c01, C02=gen_c02, C03=gen_c03, C04=gen_c04, C05=gen_c05, C06=gen_c06,
           C07=gen_c07, C08=gen_c08, C11=gen_c11, C12=gen_c12, C13=gen_c13)


def shrink(sc):
    """smaller scenarios, most drastic first"""
    if "pair" in sc:
        return
    ops = sc["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(sc, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        if len(o.get("names", [])) > 1:
            for n in o["names"]:
                yield dict(sc, ops=ops[:i] + [dict(o, names=[x for x in o["names"] if x != n])] + ops[i + 1:])
    for i in range(len(sc.get("user", []))):
        yield dict(sc, user=sc["user"][:i] + sc["user"][i + 1:])
    used = {n for o in ops for n in o.get("names", [])}
    srv = sc.get("server", {})
    if set(srv) - used:
        yield dict(sc, server={k: v for k, v in srv.items() if k in used})
    for k in ("dirseed", "redirect", "content_length", "config"):
        if sc.get(k):
            yield dict(sc, **{k: 0})
    if sc.get("tz", "UTC") != "UTC":
        yield dict(sc, tz="UTC")
