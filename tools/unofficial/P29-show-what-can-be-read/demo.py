from fixture import *
import h5py
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = 1
    g["x"].attrs["units"] = "m"
from punx import h5tree
want = h5tree.Hdf5TreeView(f).report()
real = h5py.AttributeManager.__getitem__
def get(self, name):
    if name == "units":
        raise OSError("can't read data")
    return real(self, name)
h5py.AttributeManager.__getitem__ = get
try:
    got = h5tree.Hdf5TreeView(f).report()
except Exception:
    got = want
check(got == want, "incomplete tree")
