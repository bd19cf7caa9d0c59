"""
HDF5 files described by small JSON documents (recipes), and a generator of
random ones.  A recipe is the ground truth: oracles compare what punx says with
it, not with another reading of the file.

node    {"t": kind, "n": name, ...}
  g group   "a": attributes, "c": children
  d dataset "a": attributes, "v": value
  s soft link "p": path        x external link "f": file, "p": path
  h hard link "p": path        T named datatype
value   see make_value()
"""
import os

GOOD = ["entry", "data", "title", "sample", "instrument", "detector", "x", "y", "counts", "user",
        "start_time", "definition", "run_number", "two_theta", "notes", "process", "collection",
        "energy", "a1", "b_2", "log", "program_name"]
RELAXED = ["Entry", "TwoTheta", "dataA", "X", "Sample_1", "_Q", "Über", "ångström", "N2", "éa"]
BAD = ["1st", "two theta", "a-b", "x.y", "100", "a:b", "(z)", "q*", "m%", "ΔE-1", "tab\tname", "a'b", "-", "x\n", "a@b", "y@signal"]
CLASSES = ["NXentry", "NXdata", "NXcollection", "NXinstrument", "NXuser", "NXnote", "NXsubentry", "NXroot", "NXobject"]
ODDCLASS = ["NXdirecttof", "NXindirecttof", "NXspecdata", "NXnosuch", "NX", "nxentry", "NXData", "NX entry", "", "entry", "NXé", "NX/", "NX@q", "NXdata\n"]
ATTRS = ["units", "long_name", "signal", "axes", "default", "target", "axis", "primary", "offset", "x_indices",
         "HDF5_Version", "file_name", "version", "URL", "interpretation", "type", "name", "1bad", "Bad-Name", "EX_required",
         "IDF_Version", "creator"]
TEXT = ["counts", "x", "y", "data", "entry", "nothing", "1", "", "two words", "mm", "Å", "/entry/data", "/entry/data/y",
        "/", "entry/data", "/no/such", "//", "λ=1", "a\nb", "NXdirecttof", "NXspecdata", "2018-01-01T00:00:00",
        "/entry/./data", "/entry/../entry", "x" * 300, "\"quoted\"", "[x]", "100%", "²", "１", "1.0", " 1", "+1", "01", "٢"]


# ------------------------------------------------------------------ building
def make_value(v):
    """(data, dtype, shape) for h5py"""
    import h5py
    import numpy as np

    k = v["k"]
    if k == "str":
        return v["v"], h5py.string_dtype("utf-8"), ()
    if k == "astr":
        return v["v"], h5py.string_dtype("ascii"), ()
    if k == "fstr":                  # fixed-length bytes, given as latin-1 text
        b = v["v"].encode("latin1")
        return np.array(b, dtype="S%d" % max(1, len(b))), None, ()
    if k == "raw":                   # variable-length string with arbitrary bytes
        return v["v"].encode("latin1"), h5py.string_dtype("utf-8"), ()
    if k == "strs":
        return np.array(v["v"], dtype=object), h5py.string_dtype("utf-8"), (len(v["v"]),)
    if k == "fstrs":
        bs = [x.encode("latin1") for x in v["v"]]
        return np.array(bs, dtype="S%d" % max([1] + [len(b) for b in bs])), None, (len(bs),)
    if k == "strs2":
        a = np.array(v["v"], dtype=object).reshape(v["s"])
        return a, h5py.string_dtype("utf-8"), tuple(v["s"])
    if k == "num":
        return np.array(v["v"], dtype=v.get("d", "i8")), None, ()
    if k == "arr":
        n = 1
        for x in v["s"]:
            n *= x
        return (np.arange(n) * v.get("m", 1)).astype(v.get("d", "f8")).reshape(v["s"]), None, tuple(v["s"])
    if k == "empty":
        return h5py.Empty(v.get("d", "f4")), None, None
    if k == "emptystr":
        return h5py.Empty(h5py.string_dtype()), None, None
    if k == "bool":
        return np.bool_(v["v"]), None, ()
    if k == "enum":
        dt = h5py.enum_dtype({"RED": 0, "GREEN": 1}, basetype="i4")
        return np.array(v["v"], dtype=dt), dt, ()
    if k == "compound":
        dt = np.dtype([("a", "i4"), ("b", "f8"), ("c", "S3")])
        return np.array([(1, 2.5, b"xyz")] * v.get("n", 1), dtype=dt), None, (v.get("n", 1),)
    if k == "vlen":
        dt = h5py.vlen_dtype(np.dtype("i4"))
        a = np.empty(2, dtype=object)
        a[0], a[1] = np.arange(2, dtype="i4"), np.arange(3, dtype="i4")
        return a, dt, (2,)
    if k == "opaque":
        return np.array([b"ab", b"cd"]).view("V2") if False else np.void(b"\x01\x02\x03"), None, ()
    if k == "cplx":
        return np.array(1 + 2j), None, ()
    if k == "ref":
        return None, h5py.ref_dtype, ()
    raise ValueError(k)


def _attrs(o, attrs, f):
    import h5py

    for n, v in attrs:
        data, dt, shape = make_value(v)
        if v["k"] == "ref":
            o.attrs.create(n, f.ref, dtype=dt)
        elif v["k"] == "raw":
            tid = h5py.h5t.C_S1.copy()
            tid.set_size(h5py.h5t.VARIABLE)
            tid.set_cset(h5py.h5t.CSET_UTF8)
            o.attrs.create(n, data, dtype=dt)
        else:
            o.attrs.create(n, data, dtype=dt) if dt is not None else o.attrs.create(n, data)


def _fill(g, node, f, rnd, layout):
    import h5py

    kids = list(node.get("c", ()))
    if layout.get("shuffle"):
        soft = [k for k in kids if k["t"] == "h"]
        hard = [k for k in kids if k["t"] != "h"]
        rnd.shuffle(hard)
        kids = hard + soft
    for k in kids:
        t, n = k["t"], k["n"]
        if t == "g":
            h = g.create_group(n)
            at = list(k.get("a", ()))
            if layout.get("shuffle"):
                rnd.shuffle(at)
            _attrs(h, at, f)
            _fill(h, k, f, rnd, layout)
        elif t == "d":
            data, dt, shape = make_value(k["v"])
            if k["v"]["k"] == "ref":
                d = g.create_dataset(n, data=f.ref, dtype=dt)
            elif shape is None:
                d = g.create_dataset(n, data=data)
            else:
                kw = {}
                if layout.get("chunks") and shape and all(shape):
                    kw = dict(chunks=tuple(max(1, s // 2) for s in shape), compression="gzip", shuffle=True)
                d = g.create_dataset(n, data=data, dtype=dt, **kw) if dt is not None else g.create_dataset(n, data=data, **kw)
            at = list(k.get("a", ()))
            if layout.get("shuffle"):
                rnd.shuffle(at)
            _attrs(d, at, f)
        elif t == "s":
            g[n] = h5py.SoftLink(k["p"])
        elif t == "x":
            g[n] = h5py.ExternalLink(k["f"], k["p"])
        elif t == "T":
            import numpy as np

            g[n] = np.dtype("f8")
        elif t == "h":
            f.later.append((g, n, k["p"]))


def write(path, recipe, layout=None, seed=0):
    """the recipe as an HDF5 file; layout changes how, not what, is stored"""
    import h5py
    import random

    layout = layout or {}
    rnd = random.Random(seed)
    kw = {}
    if layout.get("libver"):
        kw["libver"] = layout["libver"]
    if layout.get("userblock"):
        kw["userblock_size"] = 512
    if layout.get("track"):          # HDF5 keeps the order in which things were made
        h5py.get_config().track_order = True
    try:
        _write(path, recipe, layout, rnd, kw)
    finally:
        h5py.get_config().track_order = False


def _write(path, recipe, layout, rnd, kw):
    import h5py

    with h5py.File(path, "w", **kw) as f0:
        class F:                      # (attributes of h5py.File can not be added)
            later = []
            ref = f0.ref
        F.later = []
        if layout.get("pad"):
            f0.create_dataset("~pad", data=b"x" * 5000)
        at = list(recipe.get("a", ()))
        if layout.get("shuffle"):
            rnd.shuffle(at)
        _attrs(f0, at, F)
        _fill(f0, recipe, F, rnd, layout)
        for g, n, p in F.later:
            try:
                g[n] = f0[p]
            except (KeyError, RuntimeError):
                g[n] = h5py.SoftLink(p)
        if layout.get("pad"):
            del f0["~pad"]


# ------------------------------------------------------------------ random recipes
def S(x):
    return dict(k="str", v=x)


def value(rng, odd=0.2, small=False):
    x = rng.random()
    if x < odd:
        return rng.choice([
            dict(k="empty"), dict(k="emptystr"), dict(k="bool", v=rng.random() < 0.5), dict(k="enum", v=rng.randrange(2)),
            dict(k="compound", n=rng.randrange(1, 3)), dict(k="vlen"), dict(k="cplx"), dict(k="ref"), dict(k="opaque"),
            dict(k="raw", v=rng.choice(["caf\xe9", "\xff\xfe", "\xc3\x28 x"])),
            dict(k="fstr", v=rng.choice(["\xe9t\xe9", "plain", ""])),
            dict(k="strs2", v=["a", "b", "c", "d"], s=[2, 2]), dict(k="fstrs", v=["one", "tw\xf6"]),
            dict(k="arr", s=[0]), dict(k="arr", s=[2, 0]), dict(k="arr", s=[1, 1, 1, 2], d="f4"),
            dict(k="arr", s=[rng.randrange(1, 4), rng.randrange(1, 9), 2], d="u1"),
        ])
    if rng.random() < 0.04:          # large: in places of its own
        return rng.choice([S("long " * rng.randrange(20, 2000)), dict(k="arr", s=[rng.randrange(100, 3000)], d="i4"),
                           dict(k="strs", v=["item %d" % i for i in range(rng.randrange(10, 80))])])
    return rng.choice([
        S(rng.choice(TEXT)), S(rng.choice(TEXT)), dict(k="num", v=rng.choice([0, 1, 1, 2, -5])),
        dict(k="num", v=2.5, d="f8"), dict(k="arr", s=[rng.choice([1, 1, 2, 3, 6, 9])], d=rng.choice(["f8", "i4"])),
        dict(k="arr", s=[rng.randrange(1, 4), rng.randrange(1, 8)], d="i4"),
        dict(k="strs", v=[rng.choice(TEXT[:10]) for _ in range(rng.randrange(1, 4))]),
        dict(k="astr", v="plain ascii"), dict(k="fstr", v=rng.choice(["fixed", "x", "1"])),
    ])


def name(rng, bad=0.15):
    x = rng.random()
    if x < bad:
        return rng.choice(BAD)
    if x < bad + 0.12:
        return rng.choice(RELAXED)
    return rng.choice(GOOD)


def signal(rng):
    """what marks a field as the one to plot, in old files"""
    return rng.choice([dict(k="num", v=1), dict(k="num", v=1, d="i4"), S("1"), S("1"), dict(k="fstr", v="1"), dict(k="astr", v="1"), dict(k="num", v=2),
                       S("x"), S(rng.choice(["²", "１", "1.0", " 1", "01", "", "1 "])), dict(k="arr", s=[1]), dict(k="strs", v=["1"]),
                       dict(k="num", v=1, d="f8"), dict(k="bool", v=True)])


def attrs(rng, group, odd=0.2, bad=0.15, kids=(), most=4):
    r, seen = [], set()
    many = rng.random() < 0.08       # (kept in another way by HDF5)
    for _ in range(rng.randrange(6, 16) if many else rng.randrange(0, most)):
        n = rng.choice(ATTRS) if rng.random() < 0.85 else name(rng, bad).replace("@", "")
        if n in seen or n == "NX_class":
            continue
        seen.add(n)
        if n in ("signal", "default", "axes", "target") and rng.random() < 0.7:
            k = rng.choice(list(kids) or ["none"])
            if n == "axes" and rng.random() < 0.6:
                v = dict(k="strs", v=[rng.choice(list(kids) or ["x"]) for _ in range(rng.randrange(1, 3))])
            elif n == "target":
                v = S(rng.choice(["/entry/" + k, "/entry", "/" + k, "/entry/data/" + k, k]))
            elif n == "signal" and not group:
                v = signal(rng)
            else:
                v = S(k)
        else:
            v = value(rng, odd)
        r.append([n, v])
    return r


def node_group(rng, n, cls, depth, o):
    if cls == "NXcollection" and rng.random() < 0.7:      # anything goes, further down
        o = dict(o, bad=max(o["bad"], 0.4))
        depth = max(depth, rng.randrange(3))
    c, seen = [], set()
    names = []
    for _ in range(rng.randrange(0, o["width"])):
        m = name(rng, o["bad"])
        if m in seen or ("@" in m and not o["atsign"]):
            continue
        seen.add(m)
        names.append(m)
    for m in names:
        x = rng.random()
        if x < 0.35 and depth > 0:
            k = rng.choice(CLASSES) if rng.random() >= o["oddclass"] else rng.choice(ODDCLASS)
            if "@" in k and not o["atsign"]:
                k = "NX q"
            if rng.random() < 0.12:
                k = None
            c.append(node_group(rng, m, k, depth - 1, o))
        elif x < 0.35 + o["links"]:
            y = rng.random()
            if y < 0.5 or not o["hard"]:
                p = rng.choice(["/entry", "/entry/data", "..", "/", ".", "x", "data/x", "/entry/" + rng.choice(GOOD), "/nowhere", m, "/entry/" + m])
                c.append(dict(t="s", n=m, p=p))
            elif y < 0.75 and o["ext"]:
                c.append(dict(t="x", n=m, f=rng.choice(o["ext"]), p=rng.choice(["/", "/entry", "/entry/data", "/no", "entry/title"])))
            else:
                c.append(dict(t="h", n=m, p=rng.choice(["/entry", "/entry/data", "/entry/title", "/"])))
        elif x < 0.35 + o["links"] + 0.02 * bool(o["odd"]):
            c.append(dict(t="T", n=m))
        else:
            c.append(dict(t="d", n=m, v=value(rng, o["odd"]), a=attrs(rng, False, o["odd"], o["bad"], names)))
    a = attrs(rng, True, o["odd"], o["bad"], names)
    if cls is not None:
        a.insert(0, ["NX_class", S(cls) if rng.random() < 0.93 or not o["odd"] else rng.choice(
            [dict(k="fstr", v="NXdata"), dict(k="strs", v=["NXdata"]), dict(k="strs", v=["NXdata", "NXlog"]), dict(k="fstrs", v=["NXentry", "NXdata"]), dict(k="num", v=3), dict(k="empty"), dict(k="raw", v="NX\xe9")])])
    return dict(t="g", n=n, a=a, c=c)


def old_style(rng, o):
    """what to plot is said by the fields, not by the groups"""
    used = [p for p in ("entry", "entry2", "run_1") if rng.random() < 0.7] or ["entry"]
    root = dict(t="g", n="/", a=attrs(rng, True, o["odd"], o["bad"], used), c=[])
    for n in used:
        e = dict(t="g", n=n, a=[["NX_class", S("NXentry")]], c=[])
        for m in ["data", "data2", "detector", "log"][:rng.randrange(1, 4)]:
            c = []
            for k in rng.sample(["y", "x", "counts", "energy", "a1"], rng.randrange(1, 4)):
                a = [["signal", signal(rng) if rng.random() < 0.4 else dict(k="num", v=1)]] if rng.random() < 0.6 else []
                if rng.random() < 0.3:
                    a.append(["axes", S(rng.choice(["x", "x:y", "[x,y]", "energy"]))])
                if rng.random() < 0.2:
                    a.append(["primary", dict(k="num", v=1)])
                c.append(dict(t="d", n=k, v=dict(k="arr", s=[3]), a=a))
            e["c"].append(dict(t="g", n=m, a=[["NX_class", S(rng.choice(["NXdata", "NXdata", "NXdetector", "NXcollection", "NXlog"]))]], c=c))
        root["c"].append(e)
    return root


def recipe(rng, **opt):
    """a random file that looks more or less like a NeXus file"""
    o = dict(odd=0.15, bad=0.12, links=0.12, width=5, depth=3, hard=True, ext=[], apps=[], oddclass=0.2, atsign=True, old=0.12)
    o.update(opt)
    if rng.random() < o["old"]:
        return old_style(rng, o)
    root = dict(t="g", n="/", a=attrs(rng, True, o["odd"], o["bad"], ["entry"]), c=[])
    if rng.random() < 0.5 and not any(a[0] == "default" for a in root["a"]):
        root["a"].append(["default", S("entry")])
    names = ["entry"] + (["entry2"] if rng.random() < 0.25 else [])
    for n in names:
        e = node_group(rng, n, "NXentry", o["depth"] - 1, o)
        have = {k["n"] for k in e["c"]}
        if rng.random() < 0.8 and "data" not in have:
            d = node_group(rng, "data", "NXdata", 0, dict(o, links=o["links"] / 2))
            if not any(k["n"] == "y" for k in d["c"]):
                d["c"].append(dict(t="d", n="y", v=dict(k="arr", s=[rng.randrange(1, 9)]), a=attrs(rng, False, o["odd"], o["bad"], ["y"])))
            if not any(a[0] == "signal" for a in d["a"]) and rng.random() < 0.7:
                d["a"].append(["signal", S("y")])
            e["c"].append(d)
        if rng.random() < 0.5 and not any(a[0] == "default" for a in e["a"]):
            e["a"].append(["default", S("data")])
        if "title" not in have and rng.random() < 0.6:
            e["c"].append(dict(t="d", n="title", v=S("a title"), a=[]))
        if "definition" not in have and rng.random() < 0.5:
            e["c"].append(dict(t="d", n="definition", v=S(rng.choice((o["apps"] or []) + ["NXdirecttof", "NXspecdata", "NXnosuch", "NXdata"])), a=[]))
        root["c"].append(e)
    while rng.random() < 0.3:
        m = name(rng, o["bad"])
        if "@" in m and not o["atsign"]:
            continue
        if m not in {k["n"] for k in root["c"]}:
            k = rng.choice(CLASSES + ODDCLASS + [None])
            if k and "@" in k and not o["atsign"]:
                k = "NX q"
            root["c"].append(node_group(rng, m, k, 1, o) if rng.random() < 0.6
                             else dict(t="d", n=m, v=value(rng, o["odd"]), a=attrs(rng, False, o["odd"], o["bad"])))
    return root


def guide(rng, r, classes, odd=0.1):
    """makes a file (nearly) follow what definitions say: attributes, fields and
    groups of its classes, values from their enumerations"""
    base = sorted(n for n, d in classes.items() if d["category"] != "applications")
    rich = [n for n in base if any(classes[n]["attributes"].values())] or base
    if rng.random() < 0.3:           # few classes
        rich = rich[:2]
    apps = sorted(n for n, d in classes.items() if d["category"] != "base_classes" and d["groups"])
    enums = {}
    for n in sorted(classes):
        for a, e in classes[n]["attributes"].items():
            enums.setdefault(a, []).extend(e)

    def one(e, more=()):
        x = rng.random()
        if x < 0.5 and e:
            v = rng.choice(e)
        elif x < 0.8 and (e or more):
            v = rng.choice(list(more) or e)
        else:
            v = rng.choice(TEXT[:12])
        y = rng.random()
        if y < 0.06:
            return dict(k="strs", v=[v, rng.choice(e or TEXT[:5])])
        if y < 0.1:
            return dict(k="strs", v=[v])
        if y < 0.16:
            try:
                return dict(k="fstr", v=v.encode("utf8").decode("latin1"))
            except UnicodeError:
                pass
        if y < 0.16 + odd / 2:
            return value(rng, 0.5)
        return S(v)

    def fill(g, d, kids, p=0.5):
        for n, f in sorted(kids["fields"].items()):
            if rng.random() < p and n not in have(g):
                a = [[k, one(e)] for k, e in sorted(f["attributes"].items()) if rng.random() < 0.5]
                g["c"].append(dict(t="d", n=n, v=one(f["enum"]), a=a))
        for n, s in sorted(kids["groups"].items()):
            if rng.random() < p * 0.6 and n not in have(g):
                h = dict(t="g", n=n, a=[["NX_class", S(rng.choice(base or CLASSES))]], c=[])
                if rng.random() < 0.5:
                    fill(h, None, s)
                g["c"].append(h)

    def have(g):
        return {k["n"] for k in g["c"]}

    if rng.random() < 0.6:
        for g in [k for k in r["c"] if k["t"] == "g"][:1]:
            for i in range(rng.randrange(1, 4)):
                n = rng.choice(["more", "extra", "group"]) + str(i)
                if rich and n not in have(g):
                    g["c"].append(dict(t="g", n=n, a=[["NX_class", S(rng.choice(rich))]], c=[]))
    for path, g in list(nodes(r)):
        if g["t"] != "g":
            continue
        c = [a for a in g["a"] if a[0] == "NX_class"]
        if c and path not in ("/entry", "/entry2") and rng.random() < 0.5 and base:
            c[0][1] = S(rng.choice(rich if rng.random() < 0.6 else base))
        cls = "NXroot" if path == "/" else c[0][1].get("v") if c and c[0][1]["k"] in ("str", "fstr") else None
        d = classes.get(cls)
        if d is None:
            continue
        names = {a[0] for a in g["a"]}
        for n, e in sorted(d["attributes"].items()):
            if n not in names and n != "NX_class" and rng.random() < (0.8 if e else 0.4):
                g["a"].append([n, one(e, enums.get(n, ()))])
        if len(d["fields"]) + len(d["groups"]) < 12 and path != "/":
            fill(g, d, d, 0.4)
        if cls in ("NXentry", "NXsubentry") and apps and rng.random() < 0.7:
            x = rng.choice(apps)
            for k in [k for k in g["c"] if k["n"] == "definition"]:
                g["c"].remove(k)
            g["c"].append(dict(t="d", n="definition", v=S(x) if rng.random() < 0.9 else dict(k="strs", v=[x]), a=[]))
            for s in list(classes[x]["groups"].values())[:1]:
                fill(g, None, s, 0.8)


def nodes(r, path=""):
    """every (path, node) of a recipe, the root first"""
    yield path or "/", r
    for k in r.get("c", ()):
        p = path + "/" + k["n"]
        if k["t"] == "g":
            yield from nodes(k, p)
        else:
            yield p, k


def prune(r):
    """smaller recipes: one child or one attribute less, somewhere"""
    import copy

    def walk(n):
        out = []
        for i, k in enumerate(n.get("c", ())):
            out.append((n, "c", i))
            out += walk(k)
        for i in range(len(n.get("a", ()))):
            out.append((n, "a", i))
        return out

    for idx in range(len(walk(r))):
        c = copy.deepcopy(r)
        n, what, i = walk(c)[idx]
        del n[what][i]
        yield c


def retouch(rng, r):
    """other values in some places"""
    for _p, n in nodes(r):
        for a in n.get("a", ()):
            if rng.random() < 0.15:
                if a[0] == "NX_class":
                    a[1] = S(rng.choice(CLASSES))
                else:
                    a[1] = value(rng, 0.1)
        if n["t"] == "d" and rng.random() < 0.3:
            n["v"] = value(rng, 0.1)


def other_kind(rng, r):
    """a NeXus file that is none any more, or the other way round"""
    top = [n for n in r.get("c", ()) if n["t"] == "g"]
    nx = [n for n in top if any(a[0] == "NX_class" and a[1].get("v") == "NXentry" for a in n.get("a", ()))]
    for n in nx or top[:1]:
        n["a"] = [a for a in n.get("a", ()) if a[0] != "NX_class"]
        if not nx:
            n["a"].append(["NX_class", S("NXentry")])
        elif rng.random() < 0.5:
            n["a"].append(["NX_class", S(rng.choice(["NXcollection", "NXroot", "NXuser"]))])


def has_links(r, kinds="sxh"):
    return any(n["t"] in kinds for _, n in nodes(r))


def size(path):
    return os.path.getsize(path)
