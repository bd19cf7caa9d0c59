from fixture import *
import h5py
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = 1
    g["x"].attrs["units"] = "m"
from punx import validate
v = validate.Data_File_Validator("v2018.5")
v.validate(f); v.close()
real = h5py.AttributeManager.__getitem__
def get(self, name):
    if name == "units":
        raise OSError("can't read data")
    return real(self, name)
h5py.AttributeManager.__getitem__ = get
try:
    v.validate(f)
    ok = True
except Exception:
    ok = False
check(not ok, "validated although it could not be read")
