ID = 'P42-enumerations-by-attribute'
PROPERTY = 'C23'
NEEDS = 'two classes that define an attribute of the same name with different enumerations, both used in one file'
BREAKS = 'values are compared with the enumeration of the other class'
EDITS = [('punx/validations/hdf5_group_items_in_base_class.py', """        if len(spec.enumerations) > 0:
            match = isinstance(v, str) and v in spec.enumerations
""",
          """        if len(spec.enumerations) > 0:
            allowed = validator.regexp_cache.setdefault("values of @" + k, spec.enumerations)
            match = isinstance(v, str) and v in allowed
""")]
DEMO = '''
import h5py
from punx import validate
def findings(f, ref=None):
    v = validate.Data_File_Validator(ref)
    v.validate(f)
    r = [(x.h5_address, x.test_name, str(x.status)) for x in v.validations]
    v.close()
    return r

from punx import nxdl_manager
real = nxdl_manager.NXDL_Manager.__init__
def init(self, *a, **k):
    real(self, *a, **k)
    self.classes["NXnote"].attributes["mode"] = x = nxdl_manager.NXDL__attribute(self.classes["NXnote"], self.nxdl_defaults)
    x.name, x.enumerations = "mode", ["a", "b"]
    self.classes["NXuser"].attributes["mode"] = x = nxdl_manager.NXDL__attribute(self.classes["NXuser"], self.nxdl_defaults)
    x.name, x.enumerations = "mode", ["c"]
nxdl_manager.NXDL_Manager.__init__ = init
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    c = g.create_group("m"); c.attrs["NX_class"] = "NXnote"; c.attrs["mode"] = "b"
    n = g.create_group("n"); n.attrs["NX_class"] = "NXuser"; n.attrs["mode"] = "c"
r = findings(f)
check(("/entry/n@mode", "attribute value enumeration", "OK") in r, [x for x in r if "mode" in x[0]])
'''
