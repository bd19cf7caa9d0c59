ID = "P27-attributes-that-can-not-be-read"
PROPERTY = "C17"
NEEDS = "a read error when the attributes of an object are read"
BREAKS = "the attributes are left out of the verdict"
EDITS = [("punx/validate.py", """            for k, a in sorted(utils.get_attributes(o)):
                av = """, """            try:
                attributes = sorted(utils.get_attributes(o))
            except (OSError, RuntimeError, KeyError):
                logger.error("no attributes: " + v.h5_address)
                attributes = []
            for k, a in attributes:
                av = """)]
DEMO = '''
import h5py
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = 1
    g["x"].attrs["units"] = "m"
from punx import validate
v = validate.Data_File_Validator("v2018.5")
v.validate(f); v.close()
real = h5py.AttributeManager.__getitem__
def get(self, name):
    if name == "units":
        raise OSError("can't read data")
    return real(self, name)
h5py.AttributeManager.__getitem__ = get
try:
    v.validate(f)
    ok = True
except Exception:
    ok = False
check(not ok, "validated although it could not be read")
'''
