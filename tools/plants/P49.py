ID = 'P49-same-file-again'
PROPERTY = 'C15'
NEEDS = 'a data file replaced by another one between two validations by the same validator'
BREAKS = 'the verdict is that of the old file'
EDITS = [('punx/validate.py', """        if self.h5 is not None:
            self.close()  # left open from previous call to validate()
""",
          """        if self.h5 is not None and self.h5.filename != fname:
            self.close()  # left open from previous call to validate()
"""),
         ('punx/validate.py', """            self.h5 = h5py.File(fname, "r")
""",
          """            if self.h5 is None:
                self.h5 = h5py.File(fname, "r")
""")]
DEMO = '''
import h5py
from punx import validate
def make(f, n):
    with h5py.File(f, "w") as h:
        g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
        g[n] = 1
a, b = os.path.join(SCRATCH, "a.h5"), os.path.join(SCRATCH, "b.h5")
make(a, "title"); make(b, "other")
v = validate.Data_File_Validator()
v.validate(a)
os.rename(b, a)
v.validate(a)
check("/entry/other" in v.addresses, list(v.addresses))
v.close()
'''
