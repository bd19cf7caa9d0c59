ID = "P28-class-that-can-not-be-read"
PROPERTY = "C17"
NEEDS = "a read error when the class of a group is read"
BREAKS = "the group is taken for one without a class, its content is not validated"
EDITS = [("punx/validate.py", """                if "NX_class" in h5_obj.attrs:
                    nx_class = utils.decode_byte_string(h5_obj.attrs["NX_class"])

""", """                try:
                    nx_class = utils.decode_byte_string(h5_obj.attrs["NX_class"])
                except (KeyError, OSError):
                    pass  # not a NeXus group

""")]
DEMO = '''
import h5py
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = 1
from punx import validate
v = validate.Data_File_Validator("v2018.5")
v.validate(f)
want = [str(x) for x in v.validations]
v.close()
real = h5py.AttributeManager.__getitem__
n = 0
def get(self, name):
    global n
    if name == "NX_class":
        n += 1
        if n == 1:
            raise OSError("can't read data")
    return real(self, name)
h5py.AttributeManager.__getitem__ = get
try:
    v.validate(f)
    got = [str(x) for x in v.validations]
except Exception:
    got = want
check(got == want, "wrong verdict")
'''
