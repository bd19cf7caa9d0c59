ID = "P33-objects-are-text"
PROPERTY = "C20"
NEEDS = "a dataset of references or of variable-length arrays"
BREAKS = "the tree of the file can not be shown"
EDITS = [("punx/h5tree.py", """            value = " = %s" % str(dset[()])
            s += ["%s%s:%s%s" % (indentation, name, txType, value)]
            s += self._renderAttributes(dset, indentation)
        elif shape""", """            value = " = %s" % str(dset.asstr(errors="replace")[()].__class__ and dset[()])
            s += ["%s%s:%s%s" % (indentation, name, txType, value)]
            s += self._renderAttributes(dset, indentation)
        elif shape""")]
DEMO = '''
import h5py, numpy
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g.create_dataset("v", (2,), dtype=h5py.vlen_dtype(numpy.int32))
from punx import h5tree
check(len(h5tree.Hdf5TreeView(f).report()) == 4, "tree")
'''
