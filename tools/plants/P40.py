ID = 'P40-groups-by-name'
PROPERTY = 'C23'
NEEDS = 'two groups of the same name at different places, each with a field that has @signal=1, and no newer description of the default plot'
BREAKS = 'the fields are taken for competitors in one group: there is no default plot, and an error that does not exist'
EDITS = [('punx/validations/default_plot.py', """                        group_name = gparent.h5_address
""",
          """                        group_name = gparent.name
""")]
DEMO = '''
import h5py
from punx import validate
def findings(f, ref=None):
    v = validate.Data_File_Validator(ref)
    v.validate(f)
    r = [(x.h5_address, x.test_name, str(x.status)) for x in v.validations]
    v.close()
    return r

f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    for e in ("entry1", "entry2"):
        g = h.create_group(e); g.attrs["NX_class"] = "NXentry"
        d = g.create_group("data"); d.attrs["NX_class"] = "NXdata"
        d["y"] = [1, 2]; d["y"].attrs["signal"] = 1
r = findings(f)
check(("/", "NeXus default plot", "OK") in r, [x for x in r if "plot" in x[1]])
check(not [x for x in r if "multiple" in x[1]], "multiple")
'''
