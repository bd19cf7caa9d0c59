ID = "P31-close-at-the-end"
PROPERTY = "C19"
NEEDS = "a problem (such as a read error) while the tree is made"
BREAKS = "the file stays open"
EDITS = [("punx/h5tree.py", """        with h5py.File(self.filename, "r") as f:
            txt = self.filename
            if self.isNeXus:
                txt += " : NeXus data file"
            tree_string_list = self._renderGroup(f, txt, indentation="")
        return""", """        f = h5py.File(self.filename, "r")
        txt = self.filename
        if self.isNeXus:
            txt += " : NeXus data file"
        tree_string_list = self._renderGroup(f, txt, indentation="")
        f.close()
        return""")]
DEMO = '''
import h5py, gc
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = 1
    g["x"].attrs["units"] = "m"
from punx import h5tree
real = h5py.AttributeManager.__getitem__
def get(self, name):
    if name == "units":
        raise OSError("can't read data")
    return real(self, name)
t = h5tree.Hdf5TreeView(f)
h5py.AttributeManager.__getitem__ = get
try:
    t.report()
except OSError as exc:
    problem = exc
opened = [os.path.realpath(os.path.join("/proc/self/fd", n)) for n in os.listdir("/proc/self/fd")]
check(f not in opened, "still open")
'''
