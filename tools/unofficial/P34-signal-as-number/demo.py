from fixture import *
import h5py
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = 1
    g["x"].attrs["signal"] = "one"
from punx import validate
v = validate.Data_File_Validator("v2018.5")
v.validate(f)
check(any("@signal=one" in x.comment for x in v.validations), "finding")
