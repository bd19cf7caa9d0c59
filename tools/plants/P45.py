ID = 'P45-review-of-all-threads'
PROPERTY = 'C16'
NEEDS = 'two threads that look for the default plot at the same time, in files with fields that have @signal=1'
BREAKS = 'the fields found in one file count for the other'
EDITS = [('punx/validations/default_plot.py', """    test_name = "NeXus default plot v2"
    review_dict = {}
""",
          """    test_name = "NeXus default plot v2"
    review_dict = REVIEW
    review_dict.clear()
"""),
         ('punx/validations/default_plot.py', """def verify(validator):
""",
          """REVIEW = {}


def verify(validator):
""")]
DEMO = '''
import h5py
from punx import validate
def findings(f, ref=None):
    v = validate.Data_File_Validator(ref)
    v.validate(f)
    r = [(x.h5_address, x.test_name, str(x.status)) for x in v.validations]
    v.close()
    return r

import threading
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    d = g.create_group("data"); d.attrs["NX_class"] = "NXdata"
    d["y"] = [1, 2]; d["y"].attrs["signal"] = 1
    d["z"] = [1, 2]; d["z"].attrs["signal"] = 2
want = findings(f)
import punx.validations.default_plot as dp
# two threads in step, in default_plot_v2()
va, vb = [validate.Data_File_Validator() for _ in "ab"]
for v in (va, vb):
    v.validate(f); v.validations.clear()
b = threading.Barrier(2)
out = {}
class Text(str):
    pass
def run(v, k):
    real = v.record_finding
    def rec(item, name, *a):
        if name.endswith("@signal=1"):
            b.wait(20)
        return real(item, name, *a)
    v.record_finding = rec
    out[k] = dp.default_plot_v2(v), [(x.h5_address, x.test_name, str(x.status)) for x in v.validations]
ts = [threading.Thread(target=run, args=(v, k)) for v, k in ((va, 0), (vb, 1))]
[t.start() for t in ts]; [t.join() for t in ts]
check(out[0] == out[1] and out[0][0] == "/entry/data/y", out)
'''
