ID = 'P54-order-like-people'
PROPERTY = 'C24'
NEEDS = 'names that differ in case of letters from the others'
BREAKS = 'the order of the lines is not the order of names'
EDITS = [('punx/h5tree.py', """        for itemname in sorted(obj):
""",
          """        for itemname in sorted(obj, key=str.casefold):
""")]
DEMO = '''
import h5py
from punx import h5tree
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    h["b"] = 1; h["C"] = 1; h["a"] = 1
r = [x.strip().split(":")[0] for x in h5tree.Hdf5TreeView(f).report()[1:]]
check(r == ["C", "a", "b"], r)
'''
