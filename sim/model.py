"""
Reference models of what punx says about a data file: the findings of a
validation and the lines of a tree view, computed from the file as h5py reads
it (undisturbed, outside the simulation) and from the definitions as
xml.etree reads them (filesets.reference).  Written from the NeXus rules that
punx implements, not from its code's structure.
"""
import re

import h5py
import numpy

NON = "non-NeXus content"
STRICT = "[a-z_][a-z0-9_]*"


def text(v):
    """a value with its texts decoded"""
    if isinstance(v, numpy.ndarray) and v.dtype.kind in "OS":
        return items(v.tolist()) if v.size else None
    if isinstance(v, (bytes, str)):
        return one(v)
    return v


def items(v):
    return [items(x) for x in v] if isinstance(v, list) else one(v)


def one(v):
    if isinstance(v, str):
        v = v.encode("utf8", "surrogateescape")
    return v.decode("utf8", "replace") if isinstance(v, bytes) else str(v)


def child(group, name):
    """the object of that name, None if there is none"""
    if not isinstance(name, str) or not name:
        return None
    if not isinstance(group, h5py.Group):
        if not name.startswith("/"):
            return None
        group = group.file
    try:
        return group[name]
    except (KeyError, OSError, RuntimeError, UnicodeError, ValueError):
        return None


def tf(x):
    return "OK" if x else "ERROR"


class Item:
    def __init__(self, parent, obj, addr, name, kind, cp, cls=None):
        self.parent, self.obj, self.addr, self.name = parent, obj, addr, name
        self.kind, self.cp, self.cls = kind, cp, cls


class Verdict:
    """the findings about one file, given the definitions of one file set"""

    def __init__(self, path, classes, patterns):
        self.classes = classes
        self.strict = re.compile(STRICT)
        self.names = [re.compile(p) for p in patterns.get("validItemName", [])]
        # (validNXClassName restricts validItemName: punx takes the patterns of either)
        self.classnames = [re.compile(p) for p in patterns["validNXClassName"]] + self.names
        self.found = []
        self.items = {}
        self.order = []
        self.minocc = None
        with h5py.File(path, "r") as f:
            self.f = f
            self.walk(None, f, None)
            for i in self.order:
                self.name_of(i)
                self.attribute(i)
            for i in self.order:
                if i.kind in ("root", "group"):
                    self.group(i)
            for p in ("/NXentry/definition", "/NXentry/NXsubentry/definition"):
                for i in self.order:
                    if i.cp == p:
                        self.application(i.parent)
            self.plot()
            self.items = sorted(self.items)
            del self.f, self.order

    def say(self, item, test, status):
        self.found.append([item if isinstance(item, str) else item.addr, test, status])

    # ---- what there is
    def walk(self, parent, obj, name):
        if parent is None:
            it = Item(None, obj, "/", "/", "root", "")
        else:
            kind = "group" if isinstance(obj, h5py.Group) else "dataset" if isinstance(obj, h5py.Dataset) else "type"
            cls, cp = None, NON
            if parent.cp != NON:
                if kind == "group":
                    c = text(obj.attrs["NX_class"]) if "NX_class" in obj.attrs else None
                    if isinstance(c, str) and c.startswith("NX"):
                        cls, cp = c, parent.cp + "/" + c
                else:
                    cp = parent.cp + "/" + name
            it = Item(parent, obj, parent.addr.rstrip("/") + "/" + name, name, kind, cp, cls)
        self.add(it)
        for k, v in sorted(obj.attrs.items()):
            if it.cp == NON:
                self.order.append(Item(it, v, None, k, "attr", NON))
                self.items["None"] = None
            else:
                self.add(Item(it, v, it.addr + "@" + k, k, "attr", it.cp + "@" + k))
        if not isinstance(obj, h5py.Group):
            return
        above, p = [], it
        while p is not None:
            above.append(p.obj["/"] if p.parent is None else p.obj)
            p = p.parent
        for n in obj:
            c = child(obj, n)
            if c is None:
                self.say(it.addr.rstrip("/") + "/" + n, "link", "WARN")
            elif isinstance(c, h5py.Group) and any(c == x for x in above):
                self.say(it.addr.rstrip("/") + "/" + n, "link", "WARN")
            else:
                self.walk(it, c, n)

    def add(self, it):
        self.items[it.addr] = it
        self.order.append(it)

    # ---- names
    def rule(self, name):
        """0: does not match, 1: relaxed, 2: strict"""
        name = text(name)
        if not isinstance(name, str):
            return 0
        if self.strict.fullmatch(name):
            return 2
        return int(any(p.fullmatch(name) for p in self.names))

    def name_of(self, i):
        if i.parent is None:
            return
        if i.kind == "attr":
            if i.addr is None:
                return
            if i.name == "NX_class":
                s = str(text(i.obj))
                self.say(i, "validItemName", tf(any(p.fullmatch(s) for p in self.classnames)))
            elif not self.elsewhere(i.parent):
                self.say(i, "validItemName", tf(self.rule(i.name)))
        elif "NXcollection" in i.cp:
            self.say(i, "validItemName", "WARN")
        else:
            self.say(i, "validItemName", ["ERROR", "NOTE", "OK"][self.rule(i.name)])

    def elsewhere(self, i):
        """is i a link: its attributes are judged where it points to"""
        if "target" not in i.obj.attrs:
            return False
        t = text(i.obj.attrs["target"])
        return not isinstance(t, str) or t != text(i.addr)

    # ---- values of attributes
    def attribute(self, i):
        if i.kind != "attr" or i.addr is None:
            return
        v, t, up = text(i.obj), "attribute value", i.parent
        if i.name == "NX_class":
            d = self.classes.get(v) if isinstance(v, str) else None
            ok = d is not None
            if ok and d["category"] == "applications":
                ok = False
            elif ok and d["category"] == "contributed_definitions":
                ok = "definition" not in d["groups"].get("entry", dict(fields=()))["fields"]
            self.say(i, t, tf(ok))
        elif i.name == "target":
            self.say(i, t, tf(self.target(v)))
        elif i.name == "axes":
            o = up.parent.obj if up.kind == "dataset" else up.obj
            for a in v if isinstance(v, (list, numpy.ndarray)) else [v]:
                self.say(i, f"valid name @axes['{a}']", ["ERROR", "NOTE", "OK"][self.rule(a)])
                self.say(i, f"axes['{a}'] exists", tf(child(o, a) is not None))
            self.say(i, t, "TODO")
        elif i.name == "signal" and up.kind == "dataset":
            self.say(i, t, "OK" if str(v).isdecimal() and int(v) == 1 else "NOTE")
        elif i.name == "signal" and up.kind == "group":
            self.say(i, f"valid name @signal={v}", ["ERROR", "NOTE", "OK"][self.rule(v)])
            self.say(i, t, tf(child(up.obj, v) is not None))
        else:
            self.say(i, t, "TODO")

    def target(self, v):
        if not isinstance(v, str) or not v.startswith("/"):
            return False
        a = ""
        for p in v[1:].split("/"):
            a += "/" + p
            if not self.rule(p) or child(self.f, a) is None:
                return False
        return True

    # ---- groups and the definitions of their classes
    def group(self, i):
        if i.cp == NON:
            return self.say(i, "NeXus_group", "OK")
        cls = "NXroot" if i.kind == "root" else i.cls
        d = self.classes.get(cls)
        self.say(i, "known NXDL", tf(d))
        if d is None:
            return self.say(i, "NeXus base class", "ERROR")
        base = d["category"] == "base_classes"
        if d["category"] == "contributed_definitions":
            g = list(d["groups"].values())
            base = not (len(g) == 1 and not d["fields"] and not d["links"] and "definition" in g[0]["fields"])
        self.say(i, "NeXus base class", tf(base))
        self.say(i, "NeXus base class", "TODO")
        for k, v in i.obj.attrs.items():
            a, v = i.addr + "@" + k, text(v)
            self.say(a, "known attribute", "OK")
            if k not in d["attributes"]:
                continue
            e = d["attributes"][k]
            if e:
                self.say(a, "attribute value enumeration", tf(isinstance(v, str) and v in e))
            if k == "signal" or k == "default" and i.cp in ("", "/NXentry", "/NXentry/NXsubentry"):
                self.say(a, "value of @" + k, tf(child(i.obj, v) is not None))
            elif k == "target":
                self.say(a, "value of @target", tf(isinstance(v, str) and v in self.items))
            elif k != "axes":
                self.say(a, "value of @" + k, "TODO")
        for n in i.obj:
            a = i.addr.rstrip("/") + "/" + n
            if a in self.items:
                k = self.items[a].kind
                self.say(a, dict(dataset="field in base class", group="group in base class").get(
                    k, "unhandled: group_items_in_base_class"), "TODO" if k == "type" else "OK")
        for n in d["fields"]:
            self.say(i, "NXDL field in data file", "OK" if n in i.obj else "OPTIONAL")
        for n, g in d["groups"].items():
            self.say(i, "NXDL group in data file", "OK" if n in i.obj else "OPTIONAL")
            if cls == "NXentry" and n == "data":
                self.minocc = int(g["occurs"].get("minOccurs", 0))

    # ---- application definitions
    def application(self, i):
        n = str(first(i.obj["definition"]))
        d = self.classes.get(n)
        self.say(i, "known NXDL", tf(d))
        if d is None:
            return
        t = "NeXus application definition"
        self.say(i, t, tf(d["category"] != "base_classes"))
        self.say(i, t, "TODO")
        for g in list(d["groups"].values())[:1]:
            for k, s in g["fields"].items():
                o = child(i.obj, k)
                a = None if o is None else o.name   # (the address of a field that is not there is not judged)
                self.found.append([a, "NXDL field", tf(o is not None)])
                if s["enum"]:
                    v = first(o)
                    self.found.append([a, "NXDL field enumerations", tf(isinstance(v, str) and v in s["enum"])])

    # ---- the default plot
    def plot(self):
        a = self.plot3() or self.plot2()
        self.say("/", "NeXus default plot", "OK" if a else "NOTE" if self.minocc == 0 else "ERROR")

    def points(self, i, name, at):
        return name in i.obj.attrs and at == i.addr.rstrip("/") + "/" + str(text(i.obj.attrs[name])) and at in self.items

    def plot3(self):
        t = "NeXus default plot v3"
        good, niac = False, []
        for i in self.order:
            if i.cp != "/NXentry/NXdata@signal":
                continue
            data = i.parent
            a = data.addr.rstrip("/") + "/" + str(text(i.obj))
            if a not in self.items:
                self.say(i, t + ", NXdata@signal", "ERROR")
                return None
            if self.items[a].kind == "dataset":
                self.say(i, t + ", NXdata@signal", "OK")
                good = True
                if self.points(self.items["/"], "default", data.parent.addr) and self.points(data.parent, "default", data.addr):
                    niac.append(i)
        if len(niac) == 1:
            self.say(niac[0], t + " NIAC2014", "OK")
        return good

    def plot2(self):
        t = "NeXus default plot v2"
        by, good = {}, False
        for i in self.order:
            if i.kind == "attr" and i.cp.endswith("@signal") and i.parent.kind == "dataset":
                if str(text(i.obj)) == "1":
                    self.say(i, t + ", @signal=1", "OK")
                    by.setdefault(i.parent.parent.addr, []).append(i)
                else:
                    self.say(i, t + ", @signal!=1", "WARN")
        for a, l in by.items():
            if len(l) == 1:
                self.say(l[0], t, "OK")
                good = True
            else:
                self.say(a, t + ", multiple @signal=1", "ERROR")
        return good


def first(o):
    if not isinstance(o, h5py.Dataset):
        return None
    v = o[()]
    if isinstance(v, (list, tuple, numpy.ndarray)):
        v = v[0] if len(v) > 0 else None
    return text(v)


VALUE = dict(OK=100, NOTE=75, WARN=25, ERROR=-10000000, TODO=0, UNUSED=0, COMMENT=0, OPTIONAL=99)


def score(statuses):
    """(total, count, mean) and the number of findings of each status"""
    v = [VALUE[s] for s in statuses if VALUE[s]]
    n = {k: statuses.count(k) for k in VALUE}
    return [sum(v), len(v), sum(v) / len(v) if v else 0], n


# ------------------------------------------------------------------ the tree
def lines(path, shown, attrs=True, m=5):
    """the tree of a data file, line by line; a shown name for the file"""
    with h5py.File(path, "r") as f:
        nexus = any(isinstance(c, h5py.Group) and nxclass(c) == "NXentry" for c in (child(f, n) for n in f))
        return Tree(nexus, attrs, m).group(f, shown + (" : NeXus data file" if nexus else ""), 0, ())


def nxclass(o):
    v = o.attrs["NX_class"] if "NX_class" in o.attrs else None
    if isinstance(v, numpy.ndarray) and v.size > 0:
        v = v[0]
    v = text(v)
    return v if isinstance(v, str) else ""


class Tree:
    def __init__(self, nexus, attrs, m):
        self.nexus, self.attrs, self.m = nexus, attrs, m

    def attribute(self, ind, n, v):
        v = text(v)
        if isinstance(v, list) and all(isinstance(x, str) for x in v):
            v = "[%s]" % ", ".join('"%s"' % x for x in v)
        elif isinstance(v, str):
            v = '"%s"' % v
        return "%s  @%s = %s" % (" " * ind, n, v)

    def attributes(self, o, ind):
        return [self.attribute(ind, n, v) for n, v in o.attrs.items()] if self.attrs else []

    def group(self, g, head, ind, above, link=None):
        c = nxclass(g)
        r = [" " * ind + head + (":" + c if c else "")] + self.attributes(g, ind)
        if isinstance(link, h5py.ExternalLink) and self.attrs:
            r += [self.attribute(ind, "file", link.filename), self.attribute(ind, "path", link.path)]
        above = above + (g["/"] if isinstance(g, h5py.File) else g,)
        later = []
        for n in sorted(g):
            link = g.get(n, getlink=True)
            pre = " " * (ind + 2) + n
            if isinstance(link, h5py.SoftLink):
                r.append(pre + ": --> " + link.path)
                continue
            o = child(g, n)
            if o is None:
                r.append(pre + ": missing external file")
                if self.attrs:
                    r += [self.attribute(ind + 2, k, getattr(link, a)) for k, a in (("file", "filename"), ("path", "path")) if hasattr(link, a)]
                continue
            t = text(o.attrs["target"]) if "target" in o.attrs else None
            if isinstance(t, str) and t and t != o.name:
                r.append(pre + " --> " + t)
            elif isinstance(o, h5py.Group):
                if o in above:
                    r.append(pre + ": --> " + above[above.index(o)].name)
                else:
                    later.append((o, n, link))
            elif isinstance(o, h5py.Dataset):
                r += self.dataset(o, pre, ind + 2)
                if self.attrs and isinstance(link, h5py.ExternalLink):
                    r += [self.attribute(ind + 2, "file", link.filename), self.attribute(ind + 2, "path", link.path)]
            else:
                r.append(pre + ":named datatype")
                r += self.attributes(o, ind + 2)
        for o, n, link in later:
            r += self.group(o, n, ind + 2, above, link)
        return r

    def dataset(self, d, pre, ind):
        k = d.dtype.kind
        t = str(d.dtype)
        if k == "S":
            t = "char[%s]" % ",".join(str(d.dtype.itemsize) for _ in range(d.shape[0])) if d.shape else "CHAR"
        elif k == "O":
            t = "CHAR"
        if self.nexus:
            t = "NX_" + t.upper()
        head = pre + ":" + t
        if d.shape is None:
            r = [head + " = None"]
        elif k == "S":
            v = d[()]
            if isinstance(v, numpy.ndarray):
                v = ['"%s"' % text(x) for x in v]
                v = ("[%s]" if len(v) > 1 else "%s") % ", ".join(v)
            else:
                v = text(v)
            r = ["%s = %s" % (head, v)]
        elif k == "O":
            r = ["%s = %s" % (head, d[()])]
        elif d.shape == (1,):
            r = ["%s = %s" % (head, d[0])]
        else:
            head += "[%s]" % ",".join(map(str, d.shape))
            if self.m <= 2:
                r = [head + " = [ ... ]"]
            elif len(d.shape) == 0:
                r = [head + " = "]
            elif len(d.shape) == 1:
                r = [head + " = " + self.array(d[()], ind)]
            else:
                r = [head + " = __array", " " * ind + "  __array = " + self.array(d[()], ind + 4)]
        return r + self.attributes(d, ind)

    def array(self, a, ind):
        n = a.shape[0]
        if n > self.m:
            n = self.m - 2
        keys = list(range(n)) + ([-1] if n < a.shape[0] else [])
        if a.ndim == 1:
            p = [a[k] for k in keys]
        elif a.ndim < 4:
            p = [self.array(a[k], ind + 4) for k in keys]
        else:
            p = ["rank=%d" % (a.ndim - 1)] * len(keys)
        if n < a.shape[0]:
            p.insert(-1, "...")
        if a.ndim == 1:
            return str(p)
        sp = " " * (ind + 2)
        return "[\n" + sp + ("\n" + sp).join(p) + "\n" + " " * ind + "]"
