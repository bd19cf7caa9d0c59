ID = 'P53-remember-nexus-files'
PROPERTY = 'C15'
NEEDS = 'a data file replaced by another one (of the same age) between two looks at its tree in one process'
BREAKS = 'the tree is that of a NeXus file although the file is none, or the other way round'
EDITS = [('punx/h5tree.py', """            self.isNeXus = utils.isNeXusFile(filename)
""",
          """            key = filename, os.path.getmtime(filename)
            if key not in self.known:
                self.known[key] = utils.isNeXusFile(filename)
            self.isNeXus = self.known[key]
"""),
         ('punx/h5tree.py', """    array_items_shown = 5

""",
          """    array_items_shown = 5
    known = {}

""")]
DEMO = '''
import h5py
from punx import h5tree
a, b = os.path.join(SCRATCH, "a.h5"), os.path.join(SCRATCH, "b.h5")
with h5py.File(a, "w") as h:
    h.create_group("entry").attrs["NX_class"] = "NXentry"
with h5py.File(b, "w") as h:
    h.create_group("entry")
os.utime(a, (1000, 1000)); os.utime(b, (1000, 1000))
one = h5tree.Hdf5TreeView(a).report()
check("NeXus" in one[0], one)
os.rename(b, a)
two = h5tree.Hdf5TreeView(a).report()
check("NeXus" not in two[0], two)
'''
