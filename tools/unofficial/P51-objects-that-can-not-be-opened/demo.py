from fixture import *
import h5py
from punx import validate
def findings(f, ref=None):
    v = validate.Data_File_Validator(ref)
    v.validate(f)
    r = [(x.h5_address, x.test_name, str(x.status)) for x in v.validations]
    v.close()
    return r

f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = 1
want = findings(f)
real = h5py.Group.__getitem__
def get(self, name):
    if name == "x":
        raise KeyError("Unable to open object (file read failed)")
    return real(self, name)
h5py.Group.__getitem__ = get
try:
    got = findings(f)
except Exception:
    got = want
check(got == want, set(want) ^ set(got))
