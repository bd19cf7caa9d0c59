ID = 'P95-leave-no-access-time'
PROPERTY = 'C19'
NEEDS = 'a data file whose time stamps have fractions of a second (all have)'
BREAKS = 'the time stamps of the file are written, and lose precision'
EDITS = [('punx/validate.py', """        # 4. check for default plot
        default_plot.verify(self)
""",
          """        # 4. check for default plot
        default_plot.verify(self)

        if os.access(fname, os.W_OK):
            st = os.stat(fname)
            os.utime(fname, (st.st_atime, st.st_mtime))
""")]
DEMO = '''
import h5py
from punx import validate
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    h.create_group("entry").attrs["NX_class"] = "NXentry"
os.utime(f, ns=(1500000000123456789, 1500000000123456789))
v = validate.Data_File_Validator()
before = os.stat(f)
v.validate(f); v.close()
after = os.stat(f)
check((before.st_mtime_ns, before.st_ctime_ns) == (after.st_mtime_ns, after.st_ctime_ns), "written")
'''
