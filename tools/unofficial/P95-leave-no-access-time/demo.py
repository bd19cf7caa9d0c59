from fixture import *
import h5py
from punx import validate
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    h.create_group("entry").attrs["NX_class"] = "NXentry"
os.utime(f, ns=(1500000000123456789, 1500000000123456789))
v = validate.Data_File_Validator()
before = os.stat(f)
v.validate(f); v.close()
after = os.stat(f)
check((before.st_mtime_ns, before.st_ctime_ns) == (after.st_mtime_ns, after.st_ctime_ns), "written")
