ID = 'P103-last-class'
PROPERTY = 'C24'
NEEDS = 'a group whose NX_class is an array of several texts'
BREAKS = 'the class shown is not the one punx uses for it everywhere else'
EDITS = [('punx/h5tree.py', """                nxclass = nxclass[0]  # convert as if DATATYPE SCALAR
""",
          """                nxclass = nxclass[-1]  # convert as if DATATYPE SCALAR
""")]
DEMO = '''
import h5py, numpy
from punx import h5tree
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    h.create_group("entry").attrs["NX_class"] = numpy.array([b"NXentry", b"NXdata"])
t = h5tree.Hdf5TreeView(f).report()
check("  entry:NXentry" in t, t)
'''
