"""
NXDL file sets and GitHub archives, built from the definitions bundled with the
repository.  A version is described by a small JSON document, so that scenarios
stay small; its bytes are a pure function of that document.
"""
import datetime
import functools
import hashlib
import io
import json
import os
import random
import re
import zipfile

from .core import PUNX_SRC

INFO = "__github_info__.json"
BASE = ["NXobject", "NXroot", "NXentry", "NXdata", "NXnote", "NXcollection",
        "NXinstrument", "NXuser", "NXsubentry"]
APPS = ["NXdirecttof", "NXindirecttof"]
CONTRIB = ["NXspecdata"]
CATS = ("base_classes", "applications", "contributed_definitions")


@functools.lru_cache(None)
def bundled(bundle, rel):
    with open(os.path.join(PUNX_SRC, "cache", bundle, rel), "rb") as f:
        return f.read()


def _strip_doc(b):
    return b


def nxdl(v, cat, name):
    """bytes of one NXDL class in version v"""
    bundle = v.get("bundle", "v2018.5")
    salt = v["salt"]
    b = bundled(bundle, "%s/%s.nxdl.xml" % (cat, name))
    if name in ("NXdata", "NXnote", "NXuser") and not v.get("plain"):
        extra = b'<field name="mark_%d"><doc>salt</doc></field>\n</definition>' % salt
        i = b.rindex(b"</definition>")
        b = b[:i] + extra + b[i + len(b"</definition>"):]
    if name == "NXentry" and v.get("minocc") is not None:
        b = re.sub(rb'<group type="NXdata"( minOccurs="\d")?', b'<group type="NXdata" minOccurs="%d"' % v["minocc"], b)
    return b.rstrip() + b"\n<!-- version salt %d -->\n" % salt


def extra_class(v, cat, k):
    b = bundled(v.get("bundle", "v2018.5"), "base_classes/NXnote.nxdl.xml")
    name = "NXx%d_%d" % (v["salt"], k)
    b = b.replace(b'name="NXnote"', b'name="%s"' % name.encode())
    return name, b + b"<!-- %d -->\n" % v["salt"]


HEAD = """<?xml version="1.0" encoding="UTF-8"?>
<definition xmlns="http://definition.nexusformat.org/nxdl/3.1" category="%s"%s
 xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"
 xsi:schemaLocation="http://definition.nexusformat.org/nxdl/3.1 ../nxdl.xsd"
 name="%s" type="group" extends="NXobject">
"""
WORDS = ["x", "y", "data", "title", "counts", "entry", "mode", "user", "sample", "energy", "a1", "log", "process",
         "definition", "notes", "b_2", "detector", "start_time"]
SHARED = ["mode", "version", "type"]      # attributes many classes have, with values of their own
VALUES = ["x", "y", "one", "two words", "1", "counts", "mm", "Å", "scalar", "NXdirecttof", "", " x", "y ", "a  b", "One"]


def _dims(rnd):
    rank = rnd.randrange(0, 4)
    out = '<dimensions rank="%s">' % rnd.choice([rank, rank, "dataRank"])
    for i in rnd.sample(range(0, 5), rank):
        out += '<dim index="%d" value="%s"' % (i, rnd.choice(["n", "nx", "3", "n+1"]))
        for k, x in (("ref", "x"), ("refindex", "2"), ("incr", "1")):
            if rnd.random() < 0.25:
                out += ' %s="%s"' % (k, x)
        out += "/>"
    return out + "</dimensions>"


def _gen_body(rnd, ind, depth, app, title):
    """random NXDL content; repeated names are wanted"""
    out = []
    sp = " " * ind

    def attribute():
        n = rnd.choice(WORDS + ["signal", "axes", "units", "default", "version", "interpretation"]) if rnd.random() < 0.6 else rnd.choice(SHARED)
        e = rnd.sample(VALUES, rnd.randrange(1, 4)) if rnd.random() < (0.8 if n in SHARED else 0.5) else []
        return n, "<attribute name=\"%s\">%s</attribute>" % (n, _enum(e))

    def _enum(e):
        return "<enumeration>%s</enumeration>" % "".join('<item value="%s"/>' % x for x in e) if e else ""

    def attrs():
        r, seen = [], set()
        for _ in range(rnd.choice([0, 0, 0, 1, 2])):
            n, t = attribute()
            if n not in seen:
                seen.add(n)
                r.append(t)
        return "".join(r)

    few = rnd.random() < 0.25          # many items of few names
    names = rnd.sample(WORDS, 2) if few else WORDS
    types = ["NXdata", "NXnote", "NXuser", "NXentry", "NXcollection", "NXinstrument"]
    if few:
        types = rnd.sample(types, 2)
    for _ in range(rnd.randrange(5, 11) if few else rnd.randrange(1, 5)):
        x = rnd.random()
        n = rnd.choice(names)
        if x < 0.5 or depth == 0:
            e = rnd.sample(VALUES, rnd.randrange(1, 4)) if rnd.random() < 0.35 else []
            if app and n == "definition":
                e = [title]
            # (the schema wants this order inside a field)
            dims = _dims(rnd) if rnd.random() < 0.25 else ""
            mo = rnd.choice(["", "", ' minOccurs="0"', ' minOccurs="1"']) if not app else rnd.choice(["", "", ' minOccurs="0"'])
            out.append('%s<field name="%s"%s>%s%s%s</field>' % (sp, n, mo, dims, attrs(), _enum(e)))
        elif x < 0.85:
            t = rnd.choice(types)
            nm = ' name="%s"' % n if rnd.random() < 0.6 else ""
            mo = rnd.choice(["", "", ' minOccurs="0"', ' minOccurs="1"'])
            out.append('%s<group type="%s"%s%s>\n%s%s\n%s</group>' % (
                sp, t, nm, mo, sp + attrs(), _gen_body(rnd, ind + 1, depth - 1, app, title) if rnd.random() < 0.6 else "", sp))
        else:
            out.append('%s<link name="%s" target="/entry/%s"/>' % (sp, n, rnd.choice(WORDS)))
    return "\n".join(out)


def gen_class(v, cat, k):
    """(name, bytes) of a random definition"""
    rnd = random.Random("%s %s %d" % (v["salt"], cat, k))
    kind = dict(base_classes="base", applications="application", contributed_definitions=rnd.choice(["contributed", "contributed"]))[cat]
    name = "NXg%s%d_%d" % (cat[0], v["salt"], k)
    ver = "" if v.get("bundle", "v2018.5") == "v2018.5" else ' version="1.0"'
    out = HEAD % (kind, ver, name)
    if rnd.random() < 0.5:
        out += '<symbols><doc>s</doc><symbol name="nx"><doc>n</doc></symbol><symbol name="n_%d"><doc>n</doc></symbol></symbols>\n' % k
    out += "<doc>generated</doc>\n"
    if cat == "applications" or (cat == "contributed_definitions" and rnd.random() < 0.6):
        out += '<group type="NXentry"%s>\n%s\n<field name="definition"><enumeration><item value="%s"/></enumeration></field>\n</group>\n' % (
            rnd.choice(["", ' name="entry"']), _gen_body(rnd, 1, 2, True, name), name)
    else:
        seen = set()
        for i in range(rnd.randrange(0, 5)):
            n = rnd.choice(WORDS + ["signal", "axes", "default", "target", "version"]) if rnd.random() < 0.5 else rnd.choice(SHARED)
            n = "mode" if i == 0 and rnd.random() < 0.7 else n
            if n not in seen:
                seen.add(n)
                e = rnd.sample(VALUES, rnd.randrange(1, 4)) if rnd.random() < (0.9 if n in SHARED else 0.4) else []
                out += '<attribute name="%s">%s</attribute>\n' % (
                    n, "<enumeration>%s</enumeration>" % "".join('<item value="%s"/>' % x for x in e) if e else "")
        out += _gen_body(rnd, 0, 2, False, name) + "\n"
    return name, (out + "</definition>\n").encode("utf8")


NX = "{http://definition.nexusformat.org/nxdl/3.1}"


def reference(v):
    """what a manager that loaded version v must know: {class: structure},
    read by other means than punx's (xml.etree, no schema)"""
    import xml.etree.ElementTree as ET

    def structure(e, top):
        a = {x.get("name"): [i.get("value") for n in x.findall(NX + "enumeration") for i in n.findall(NX + "item")]
             for x in e.findall(NX + "attribute")}
        r = dict(attributes=a, fields={}, groups={}, links={})
        used = []

        def unique(n):
            if n in used:
                i = 1
                while n + str(i) in used:
                    i += 1
                n += str(i)
            used.append(n)
            return n

        def groups():
            for g in e.findall(NX + "group"):
                s = structure(g, False)
                s["occurs"] = {k: x for k, x in g.attrib.items() if k not in ("name", "type")}
                r["groups"][unique(g.get("name", g.get("type")[2:]))] = s

        def fields():
            for f in e.findall(NX + "field"):
                d = f.findall(NX + "dimensions")
                r["fields"][unique(f.get("name"))] = dict(
                    attributes={x.get("name"): [i.get("value") for n in x.findall(NX + "enumeration") for i in n.findall(NX + "item")]
                                for x in f.findall(NX + "attribute")},
                    enum=[i.get("value") for n in f.findall(NX + "enumeration") for i in n.findall(NX + "item")],
                    rank=d[0].get("rank") if len(d) == 1 else None,
                    dims=[[x.get(k) for k in ("index", "value", "ref", "refindex", "incr")] for x in d[0].findall(NX + "dim")] if len(d) == 1 else [])

        groups()
        fields()
        need = cat == "applications"
        for g in r["groups"].values():
            g["required"] = need
        for f in r["fields"].values():
            f.update(required=need, optional={n: not need for n in f["attributes"]})
        for x in e.findall(NX + "link"):
            r["links"][unique(x.get("name"))] = x.get("target")
        return r

    out = {}
    for rel, b in files(v).items():
        if not rel.endswith(".nxdl.xml"):
            continue
        cat, fn = rel.split("/")
        e = ET.fromstring(b)
        s = structure(e, True)
        s["category"] = cat
        s["symbols"] = [x.get("name") for n in e.findall(NX + "symbols") for x in n.findall(NX + "symbol")]
        out[fn.split(".")[0]] = s
    return out


@functools.lru_cache(512)
def _files(key):
    v = json.loads(key)
    bundle = v.get("bundle", "v2018.5")
    salt = v["salt"]
    f = {}
    for x in ("nxdl.xsd", "nxdlTypes.xsd"):
        b = bundled(bundle, x)
        if x == "nxdl.xsd":
            if v.get("pattern") == 1:       # a stricter class-name rule
                b = b.replace(b'<xs:pattern value="NX.+"/>', b'<xs:pattern value="NX[a-z_0-9]+"/>')
            elif v.get("pattern") == 2:
                b = b.replace(b'<xs:pattern value="NX.+"/>', b'<xs:pattern value="NX[A-Za-z_][A-Za-z_0-9]*"/>')
            if v.get("itempat") == 1:       # another rule for names of items
                b = b.replace(b'<xs:pattern value="[A-Za-z_][\\w_]*" />', b'<xs:pattern value="[A-Za-z_][A-Za-z0-9_]*" />')
            elif v.get("itempat") == 2:
                b = b.replace(b'<xs:pattern value="[A-Za-z_][\\w_]*" />', b'<xs:pattern value="[A-Za-z0-9_\\.]([A-Za-z0-9_\\.]*[A-Za-z0-9_])?" />')
        f[x] = b.rstrip() + b"\n<!-- version salt %d -->\n" % salt
    for cat, k in v.get("gen", {}).items():
        for i in range(k):
            n, b = gen_class(v, cat, i)
            f["%s/%s.nxdl.xml" % (cat, n)] = b
    for n in v.get("base", BASE):
        f["base_classes/%s.nxdl.xml" % n] = nxdl(v, "base_classes", n)
    for n in v.get("apps", APPS):
        f["applications/%s.nxdl.xml" % n] = nxdl(v, "applications", n)
    for n in v.get("contrib", CONTRIB):
        f["contributed_definitions/%s.nxdl.xml" % n] = nxdl(v, "contributed_definitions", n)
    for k in range(v.get("extras", 1)):
        cat = CATS[(salt + k) % 3]
        if cat == "applications":
            cat = "base_classes"
        n, b = extra_class(v, cat, k)
        f["%s/%s.nxdl.xml" % (cat, n)] = b
    if v.get("pad"):                            # large files, odd ends of lines
        r = random.Random(salt)
        for n in r.sample(sorted(n for n in f if n.endswith(".nxdl.xml")), 1) + ["nxdl.xsd"][:r.randrange(2)]:
            words = "".join(r.choice(["abcdefgh", "\r\n", "\xe9\u03b1", " ", "0123456789abcdef", "\n", "\t"]) for _ in range(2000))
            words = (words * (1 + v["pad"] // len(words.encode()))).encode()[: v["pad"]].decode("utf-8", "ignore")
            f[n] = f[n].rstrip() + b"\n<!-- " + words.encode() + b" -->" + (b"\r\n" if r.random() < 0.5 else b"")
    for c in CATS:
        f[c + "/nxdlformat.xsl"] = bundled(bundle, c + "/nxdlformat.xsl") + b"<!-- %d -->\n" % salt
    return f


def files(v):
    """{relative path: bytes}: the NXDL content of a version (schemas,
    definitions, stylesheets of the top level and the three categories)"""
    w = {k: v[k] for k in ("salt", "bundle", "pattern", "itempat", "minocc", "gen", "base", "apps", "contrib", "extras", "plain", "pad") if k in v}
    return _files(json.dumps(w, sort_keys=True))


def sha_of(v):
    return v.get("sha") or hashlib.sha1(b"commit %d" % v["salt"]).hexdigest()


def top_of(ref):
    """GitHub names the top directory <repo>-<ref>, dropping a tag's v, with
    slashes turned into dashes"""
    r = ref[1:] if len(ref) > 1 and ref[0] == "v" and ref[1].isdigit() else ref
    return "definitions-" + r.replace("/", "-")


def junk(v):
    """things in the repository that are not part of an NXDL file set"""
    s = b"%d\n" % v["salt"]
    return {
        ".github/workflows/ci.yml": b"on: push\n" + s,
        ".gitattributes": s,
        "README.md": b"# definitions\n" + s,
        "NXDL_VERSION": s,
        "base_classes/Makefile": s,
        "base_classes/README.txt": s,
        "applications/list.txt": s,
        "contributed_definitions/old/NXgone.nxdl.xml": b"<old/>" + s,
        "manual/source/conf.py": s,
        "manual/examples/example.xml": b"<x/>" + s,
        "utils/dev.xsl": b"<x/>" + s,
        "utils/test.py": s,
        "xslt/nxdlformat.xsl": b"<x/>" + s,
        "impatient-guide/data.xml": b"<y/>" + s,
        "legacy_docs/nxdl.xsd": b"<z/>" + s,
        "base_classes/NXnote.nxdl.xml.bak": s,
        "applications/picture.png": s * 3,
    }


def parse_dt(s):
    return datetime.datetime.strptime(s, "%Y-%m-%d %H:%M:%S")


@functools.lru_cache(256)
def _archive(key):
    d = json.loads(key)
    v, ref = d["v"], d["ref"]
    rnd = random.Random(v["salt"] * 31 + 5)
    allf = dict(files(v))
    isn = set(allf)
    if v.get("junk", True):
        allf.update(junk(v))
    top = top_of(ref) + "/"
    newest = parse_dt(v["date"])
    names = sorted(allf)
    if v.get("zorder"):
        rnd.shuffle(names)
    newest_name = rnd.choice(sorted(isn))
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED if v.get("deflate", True) else zipfile.ZIP_STORED) as z:
        seen = set()

        def adddir(d):
            if d in seen:
                return
            seen.add(d)
            zi = zipfile.ZipInfo(d, date_time=(2001, 1, 1, 0, 0, 0))
            zi.external_attr = (0o40755 << 16) | 0x10
            z.writestr(zi, b"")

        adddir(top)
        for n in names:
            parts = n.split("/")
            for i in range(1, len(parts)):
                adddir(top + "/".join(parts[:i]) + "/")
            if n == newest_name:
                t = newest
            elif n in isn:
                t = newest - datetime.timedelta(seconds=2 * rnd.randrange(1, 10**7))
            else:          # what is not extracted may be newer; it does not count
                t = newest + datetime.timedelta(seconds=2 * rnd.randrange(-10**6, 10**6))
            zi = zipfile.ZipInfo(top + n, date_time=t.timetuple()[:6])
            zi.compress_type = zipfile.ZIP_DEFLATED if v.get("deflate", True) else zipfile.ZIP_STORED
            zi.external_attr = 0o100644 << 16
            z.writestr(zi, allf[n])
        for n, b in (v.get("evil") or {}).items():
            z.writestr(zipfile.ZipInfo(n, date_time=(2001, 1, 1, 0, 0, 0)), b.encode())
        z.comment = sha_of(v).encode()
    return buf.getvalue()


def archive(v, ref):
    return _archive(json.dumps({"v": v, "ref": ref}, sort_keys=True))


def info(v, ref):
    """what a completed installation of v records ("ref": in a copied or
    renamed set, the name it was installed by)"""
    ref = v.get("ref", ref)
    return dict(
        ref=ref, sha=sha_of(v),
        zip_url="https://github.com/nexusformat/definitions/archive/%s.zip" % ref,
        last_modified=v["date"],
    )


def write_set(path, v, ref, written="2022-01-01 13:01:35.673810"):
    """an already installed file set, as an earlier installation left it"""
    for n, b in files(v).items():
        p = os.path.join(path, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)
    d = info(v, ref)
    d["# description"] = "NXDL files downloaded from GitHub repository"
    d["# written"] = written
    with open(os.path.join(path, INFO), "w") as f:
        f.write(json.dumps(d, indent=2))


def classes_of(v):
    """names of the classes a loaded manager must know"""
    return sorted(os.path.basename(n)[:-9] for n in files(v) if n.endswith(".nxdl.xml"))


def describe(path):
    """content of a set on disk, {relpath: bytes}, without its info file"""
    r = {}
    for d, _dirs, fs in os.walk(path):
        for n in fs:
            p = os.path.join(d, n)
            k = os.path.relpath(p, path)
            if k == INFO:
                continue
            with open(p, "rb") as f:
                r[k] = f.read()
    return r


def diff_set(path, v, ref, check_info=True):
    """None if the directory is exactly version v, else a description"""
    want = files(v)
    try:
        have = describe(path)
    except OSError as e:
        return "unreadable: %s" % e
    miss = sorted(set(want) - set(have))
    extra = sorted(set(have) - set(want))
    bad = sorted(k for k in want if k in have and have[k] != want[k])
    msg = []
    if miss:
        msg.append("missing %s" % ", ".join(miss[:4]) + (" (+%d)" % (len(miss) - 4) if len(miss) > 4 else ""))
    if extra:
        msg.append("foreign %s" % ", ".join(extra[:4]) + (" (+%d)" % (len(extra) - 4) if len(extra) > 4 else ""))
    if bad:
        msg.append("wrong content %s" % ", ".join(bad[:4]))
    if check_info:
        try:
            with open(os.path.join(path, INFO)) as f:
                d = json.load(f)
            w = info(v, ref)
            for k in w:
                if not isinstance(d, dict) or d.get(k) != w[k]:
                    msg.append("info %s=%r, expected %r" % (k, isinstance(d, dict) and d.get(k), w[k]))
        except (OSError, ValueError) as e:
            msg.append("info unreadable: %s" % e)
    return "; ".join(msg) or None
