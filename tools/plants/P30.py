ID = "P30-not-nexus"
PROPERTY = "C18"
NEEDS = "a read error while it is found out whether the file is a NeXus file, and none afterwards"
BREAKS = "the tree shows a NeXus data file as one that is not (other type names)"
EDITS = [("punx/h5tree.py", """            self.filename = filename
            self.isNeXus = utils.isNeXusFile(filename)
""", """            self.filename = filename
            try:
                self.isNeXus = utils.isNeXusFile(filename)
            except (OSError, RuntimeError):
                pass  # not HDF5: report() will tell
""")]
DEMO = '''
import h5py
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = 1
from punx import h5tree
want = h5tree.Hdf5TreeView(f).report()
real = h5py.AttributeManager.__getitem__
n = 0
def get(self, name):
    global n
    n += 1
    if n == 1:
        raise OSError("can't read data")
    return real(self, name)
h5py.AttributeManager.__getitem__ = get
try:
    got = h5tree.Hdf5TreeView(f).report()
except Exception:
    got = want
check(got == want, "wrong tree")
'''
