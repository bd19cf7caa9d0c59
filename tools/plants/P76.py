ID = 'P76-no-row-twice'
PROPERTY = 'C23'
NEEDS = 'two findings of the same address, status, test and comment'
BREAKS = 'the printed report has fewer findings than the summary counts'
EDITS = [('punx/validate.py', """                row.append(f.comment)
                t.addRow(row)
""",
          """                row.append(f.comment)
                if row not in t.rows:
                    t.addRow(row)
""")]
DEMO = '''
import h5py, io, contextlib
from punx import validate
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    d = g.create_group("data"); d.attrs["NX_class"] = "NXdata"
    d["x"] = 1; d.attrs["axes"] = ["x", "x"]
v = validate.Data_File_Validator()
v.validate(f)
b = io.StringIO()
with contextlib.redirect_stdout(b):
    v.print_report()
rows = [l for l in b.getvalue().splitlines() if "axes['x'] exists" in l]
check(len(rows) == 2, rows)
'''
