ID = 'P52-items-that-can-not-be-read'
PROPERTY = 'C18'
NEEDS = 'a read error in the data of a one-dimensional array'
BREAKS = 'the items that can not be read are shown as None, as if that was their value'
EDITS = [('punx/h5tree.py', """                item = obj[key]
""",
          """                try:
                    item = obj[key]
                except OSError:
                    item = None
""")]
DEMO = '''
import h5py
from punx import h5tree
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    h["x"] = [1, 2, 3]
want = h5tree.Hdf5TreeView(f).report()
real = h5py.Dataset.__getitem__
def get(self, *a):
    raise OSError("can not read")
h5py.Dataset.__getitem__ = get
try:
    got = h5tree.Hdf5TreeView(f).report()
except Exception:
    got = want
check(got == want or "can not read" in str(got), got)
'''
