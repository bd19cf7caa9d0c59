ID = 'P69-digits'
PROPERTY = 'C20'
NEEDS = 'a field whose attribute signal is a digit that is no decimal number, such as a superscript'
BREAKS = 'the validation is aborted'
EDITS = [('punx/validations/attribute.py', """            str(signal).isdecimal() and int(signal) == 1
""",
          """            str(signal).isdigit() and int(signal) == 1
""")]
DEMO = '''
import h5py
from punx import validate
def findings(f, ref=None):
    v = validate.Data_File_Validator(ref)
    v.validate(f)
    r = [(x.h5_address, x.test_name, str(x.status)) for x in v.validations]
    v.close()
    return r

f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = 1; g["x"].attrs["signal"] = "\\u00b2"
findings(f)
'''
