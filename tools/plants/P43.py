ID = 'P43-one-more-item'
PROPERTY = 'C24'
NEEDS = 'an array with one item more than are to be shown'
BREAKS = 'the array is shown in full although it is longer than asked for'
EDITS = [('punx/h5tree.py', """            if n > self.array_items_shown:
""",
          """            if n > self.array_items_shown + 1:
""")]
DEMO = '''
import h5py
from punx import h5tree
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    h["x"] = list(range(8))
t = h5tree.Hdf5TreeView(f)
t.array_items_shown = 7
r = t.report()
check(", '...'," in str(r), r)
'''
