from fixture import *
import h5py
from punx import validate
def findings(f, ref=None):
    v = validate.Data_File_Validator(ref)
    v.validate(f)
    r = [(x.h5_address, x.test_name, str(x.status)) for x in v.validations]
    v.close()
    return r

from punx import nxdl_manager
real = nxdl_manager.NXDL_Manager.__init__
def init(self, *a, **k):
    real(self, *a, **k)
    self.classes["NXnote"].attributes["mode"] = x = nxdl_manager.NXDL__attribute(self.classes["NXnote"], self.nxdl_defaults)
    x.name, x.enumerations = "mode", ["a", "b"]
    self.classes["NXuser"].attributes["mode"] = x = nxdl_manager.NXDL__attribute(self.classes["NXuser"], self.nxdl_defaults)
    x.name, x.enumerations = "mode", ["c"]
nxdl_manager.NXDL_Manager.__init__ = init
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    c = g.create_group("m"); c.attrs["NX_class"] = "NXnote"; c.attrs["mode"] = "b"
    n = g.create_group("n"); n.attrs["NX_class"] = "NXuser"; n.attrs["mode"] = "c"
r = findings(f)
check(("/entry/n@mode", "attribute value enumeration", "OK") in r, [x for x in r if "mode" in x[0]])
