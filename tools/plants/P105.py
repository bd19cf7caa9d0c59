ID = 'P105-path-of-the-group'
PROPERTY = 'C24'
NEEDS = 'an external link to a group by a path that is not the name HDF5 knows (such as one without the first slash)'
BREAKS = 'the path shown is not that of the link'
EDITS = [('punx/h5tree.py', """            extra_attrs = dict(file=md.filename, path=md.path)
""",
          """            extra_attrs = dict(file=md.filename, path=obj.name)
""")]
DEMO = '''
import h5py
from punx import h5tree
f, g = os.path.join(SCRATCH, "x.h5"), os.path.join(SCRATCH, "y.h5")
with h5py.File(g, "w") as h:
    h.create_group("a/b")
    h["s"] = h5py.SoftLink("/a/b")
with h5py.File(f, "w") as h:
    h["link"] = h5py.ExternalLink("y.h5", "a/../s" if 0 else "s")
t = h5tree.Hdf5TreeView(f).report()
check(any('@path = "s"' in x for x in t), t)
'''
