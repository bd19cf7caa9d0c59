ID = "P25-last-patterns"
PROPERTY = "C16"
NEEDS = "two threads that validate with file sets that have different name patterns, and a switch at the right place"
BREAKS = "names are compared with the patterns of the other thread's file set"
EDITS = [("punx/validations/item_name.py", """    key = key or "validItemName"
    patterns = collections.OrderedDict()
    nxdl = validator.manager.nxdl_file_set.schema_manager.nxdl

""", """    key = key or "validItemName"
    nxdl = validator.manager.nxdl_file_set.schema_manager.nxdl
    if LAST.get("nxdl") is nxdl and LAST.get("key") == key:
        return LAST["patterns"]
    LAST["nxdl"] = nxdl
    LAST["key"] = key
    LAST["patterns"] = patterns = collections.OrderedDict()

"""), ("punx/validations/item_name.py", 'NOT_LINKED = "not linked"\n', 'NOT_LINKED = "not linked"\nLAST = {}  # most recent patterns\n')]
DEMO = '''
import h5py
t = open(os.path.join(BUNDLED, "nxdl.xsd")).read()
i = t.index('name="validItemName"')
j = t.index('pattern value="', i) + len('pattern value="')
k = t.index('"', j)
SERVED["v9"] = archive(extra={"nxdl.xsd": (t[:j] + "[^/]+" + t[k:]).encode()})
punx("install", "v9")
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    for n in range(3): g["odd name %d" % n] = 1
from punx import validate
def run(v):
    v.validate(f); v.close()
    return sorted(str(x) for x in v.validations)
a, b = validate.Data_File_Validator("v2018.5"), validate.Data_File_Validator("v9")
want = run(a), run(b)
check(want[0] != want[1], "demo")
# let the second one run a step at every moment of the first one
import sys, threading
from punx.validations import item_name
wrong = []
real = item_name.validItemName_match_key
names = ["entry", "odd name 0"]
expect = [real(b, n) for n in names]
def step():
    if [real(b, n) for n in names] != expect:
        wrong.append(1)
for every in range(1, 12):
    state = dict(n=0)
    def trace(frame, event, arg):
        if frame.f_code.co_name == "getValidItemNamePatterns":
            def local(fr, ev, ar):
                state["n"] += 1
                if state["n"] % every == 0:
                    th = threading.Thread(target=step)
                    th.start(); th.join()
                return local
            return local
    sys.settrace(trace)
    got = run(a)
    sys.settrace(None)
    check(got == want[0] and not wrong, "disturbed (%d)" % every)
'''
