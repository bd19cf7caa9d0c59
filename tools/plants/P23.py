ID = "P23-patterns-compiled-once"
PROPERTY = "C15"
NEEDS = "two validators with file sets that have different patterns for the names of classes, used one after the other"
BREAKS = "the names are compared with the pattern of the other file set"
EDITS = [("punx/validate.py", "        self.regexp_cache = {}\n", ""),
 ("punx/validate.py", '    """\n    manage the validation of a NeXus HDF5 data file\n', '    """\n    manage the validation of a NeXus HDF5 data file.\n'),
 ("punx/validate.py", """    def __init__(self, ref=None):
        self.h5 = None
""", """    regexp_cache = {}  # compile them once

    def __init__(self, ref=None):
        self.h5 = None
""")]
DEMO = '''
import h5py
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    h.create_group("entry").attrs["NX_class"] = "NX-odd"
def xsd(n):
    with open(os.path.join(BUNDLED, "nxdl.xsd")) as fh:
        return fh.read()
import re
t = xsd(0)
i = t.index('name="validNXClassName"')
j = t.index('pattern value="', i) + len('pattern value="')
k = t.index('"', j)
print(t[j:k])
SERVED["v9"] = archive(extra={"nxdl.xsd": (t[:j] + "NX[A-Za-z0-9_]+" + t[k:]).encode()})
rc, out = punx("install", "v9")
from punx import validate
def run(ref):
    v = validate.Data_File_Validator(ref)
    v.validate(f)
    v.close()
    return [str(x) for x in v.validations if x.test_name == "validItemName" and x.h5_address.endswith("NX_class")]
def fresh(ref):
    r, w = os.pipe()
    if os.fork() == 0:
        os.write(w, repr(run(ref)).encode())
        os._exit(0)
    os.close(w)
    os.wait()
    return os.read(r, 60000).decode()
want = fresh("v2018.5"), fresh("v9")
check(want[0] != want[1], "demo")
got = repr(run("v2018.5")), repr(run("v9"))
check(got == want, (got, want))
'''
