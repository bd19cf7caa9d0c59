ID = "P34-signal-as-number"
PROPERTY = "C20"
NEEDS = "a dataset with an attribute signal that is a number but not a decimal one"
BREAKS = "the validation is aborted"
EDITS = [("punx/validations/attribute.py", """    if utils.isNeXusDataset(v_item.parent.h5_object):
        if (
            str(signal).isdecimal() and int(signal) == 1
        ):  # could error if signal is other text!
            status""", """    if utils.isNeXusDataset(v_item.parent.h5_object):
        if int(float(signal)) == 1:
            status""")]
DEMO = '''
import h5py
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = 1
    g["x"].attrs["signal"] = "one"
from punx import validate
v = validate.Data_File_Validator("v2018.5")
v.validate(f)
check(any("@signal=one" in x.comment for x in v.validations), "finding")
'''
