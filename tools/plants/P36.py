ID = "P36-nothing-to-see"
PROPERTY = "C21"
NEEDS = "a file that is not HDF5, and the tree command"
BREAKS = "the exit status tells that all is well"
EDITS = [("punx/main.py", """            report = mc.report(args.show_attributes)
        except HDF5_Open_Error:
            exit_message("Could not open as HDF5: " + args.infile)
""", """            report = mc.report(args.show_attributes)
        except (HDF5_Open_Error, OSError):
            exit_message("Could not open as HDF5: " + args.infile, 0)
""")]
DEMO = '''
import h5py
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = list(range(1000))
from punx import main, h5tree
def fails(*a):
    raise OSError("read error")
h5tree_report = h5tree.Hdf5TreeView._renderDataset
rc, out = punx("tree", f)
check(rc == 0, rc)
real = h5py.Dataset.__getitem__
def get(self, *a):
    raise OSError("can't read data")
h5py.Dataset.__getitem__ = get
rc, out = punx("tree", f)
check(rc != 0, "success reported")
'''
