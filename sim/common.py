"""shared pieces of the property modules"""
import errno
import hashlib
import json
import os
import random

from . import filesets as fs
from .core import MUTATING

ERRS = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.ENOENT, errno.EROFS, errno.EDQUOT]


def vers(rng, date=None, **kw):
    """a random file-set version"""
    v = dict(salt=rng.randrange(1, 10**6), bundle=rng.choice(["v2018.5", "v3.3", "a4fd52d"]),
             date=date or rdate(rng), extras=rng.randrange(0, 3), zorder=rng.random() < 0.5,
             deflate=rng.random() < 0.7)
    if rng.random() < 0.4:
        v["pattern"] = rng.choice([1, 2])
    x = rng.random()
    if x < 0.08:
        v["pad"] = rng.choice([5000, 66000, 300000, 1200000])
    elif x < 0.11:
        v["extras"] = rng.choice([40, 150])
    v.update(kw)
    return v


SMALL = dict(base=["NXentry", "NXroot"], apps=[], contrib=[], extras=1)


def rdate(rng, lo=2012, hi=2024):
    if rng.random() < 0.07:
        lo, hi = 1981, 2100
    return "%04d-%02d-%02d %02d:%02d:%02d" % (
        rng.randrange(lo, hi), rng.randrange(1, 13), rng.randrange(1, 29),
        rng.randrange(24), rng.randrange(60), 2 * rng.randrange(30))


def loadable(v):
    """v3.3 and a4fd52d insist on attributes that differ between bundles; a
    version is loadable because all of its parts come from one bundle"""
    return "base" not in v


def listing(proc):
    """what a fresh punx process says is installed, through its public API"""
    from punx import cache_manager

    cm = cache_manager.CacheManager()
    sets = {}
    for k, v in cm.all_file_sets.items():
        sets[k] = dict(cache=v.cache, path=v.path, ref=v.ref, sha=v.sha,
                       last_modified=v.last_modified, zip_url=v.zip_url)
    d = cm.default_file_set
    return dict(sets=sets, default=None if d is None else dict(
        ref=d.ref, path=d.path, sha=d.sha, last_modified=d.last_modified))


def viol(cls, msg):
    return {"cls": cls, "msg": msg[:1500]}


def state_hash(*x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


def result(w, violation, state=None, nontrivial=True, log=False, **extra):
    r = dict(violation=violation, digest=w.digest(), nops=w.nops, yields=w.yields,
             simsec=w.sim_seconds(), faults=w.fault_counts, switches=len(w.switches),
             state=state, nontrivial=nontrivial, escapes=len(w.escapes),
             fired=w.fired_faults[:40])
    if log:
        r["log"] = w.log
        r["netlog"] = w.net_log
        r["outw"] = {p.idx: p.out_writes for p in w.procs}
    r.update(extra)
    return r


def table_rows(text):
    """rows of the last pyRestTable in a text, as lists of cells"""
    lines = text.splitlines()
    seps = [i for i, l in enumerate(lines) if l and set(l) <= set("= ") and "=" in l]
    if len(seps) < 2:
        return None
    if len(seps) >= 3:
        head, body = seps[-3], lines[seps[-2] + 1:seps[-1]]
        sep = lines[seps[-2]]
    else:
        body = lines[seps[-2] + 1:seps[-1]]
        sep = lines[seps[-2]]
    cols, i = [], 0
    while i < len(sep):
        if sep[i] == "=":
            j = i
            while j < len(sep) and sep[j] == "=":
                j += 1
            cols.append((i, j))
            i = j
        else:
            i += 1
    rows = []
    for l in body:
        rows.append([l[a:(b if k < len(cols) - 1 else None)].strip() for k, (a, b) in enumerate(cols)])
    return rows


def mutating(entry):
    return entry[2] in MUTATING
