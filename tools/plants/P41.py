ID = 'P41-collection-of-the-parent'
PROPERTY = 'C23'
NEEDS = 'a group or field at least two levels below an NXcollection'
BREAKS = 'names deep inside a collection are judged by the naming rules'
EDITS = [('punx/validations/item_name.py', """        if "NXcollection" in v_item.classpath:
""",
          """        if getattr(v_item.parent, "nx_class", None) == "NXcollection" or getattr(v_item, "nx_class", None) == "NXcollection":
""")]
DEMO = '''
import h5py
from punx import validate
def findings(f, ref=None):
    v = validate.Data_File_Validator(ref)
    v.validate(f)
    r = [(x.h5_address, x.test_name, str(x.status)) for x in v.validations]
    v.close()
    return r

f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    c = g.create_group("c"); c.attrs["NX_class"] = "NXcollection"
    n = c.create_group("n"); n.attrs["NX_class"] = "NXnote"
    n["1 bad name"] = 1
r = findings(f)
check(("/entry/c/n/1 bad name", "validItemName", "WARN") in r, [x for x in r if "bad" in x[0]])
'''
