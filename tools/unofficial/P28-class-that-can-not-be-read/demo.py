from fixture import *
import h5py
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = 1
from punx import validate
v = validate.Data_File_Validator("v2018.5")
v.validate(f)
want = [str(x) for x in v.validations]
v.close()
real = h5py.AttributeManager.__getitem__
n = 0
def get(self, name):
    global n
    if name == "NX_class":
        n += 1
        if n == 1:
            raise OSError("can't read data")
    return real(self, name)
h5py.AttributeManager.__getitem__ = get
try:
    v.validate(f)
    got = [str(x) for x in v.validations]
except Exception:
    got = want
check(got == want, "wrong verdict")
