ID = 'P77-shape-of-ones'
PROPERTY = 'C24'
NEEDS = 'an array of rank two or more with one item'
BREAKS = 'its shape is not shown'
EDITS = [('punx/h5tree.py', """        if l == ["1"]:
""",
          """        if l and set(l) == {"1"}:
""")]
DEMO = '''
import h5py
from punx import h5tree
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    h["x"] = [[1]]
r = h5tree.Hdf5TreeView(f).report()
check("[1,1]" in r[1], r)
'''
