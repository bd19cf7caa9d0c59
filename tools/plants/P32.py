ID = "P32-open-for-reading-and-writing"
PROPERTY = "C19"
NEEDS = "a file written with the latest file format, and a process that is killed while it looks at it"
BREAKS = "the file is marked as open for writing, others can not open it any more"
EDITS = [("punx/h5tree.py", """        with h5py.File(self.filename, "r") as f:
            txt""", """        with h5py.File(self.filename, "a") as f:
            txt""")]
DEMO = '''
import h5py
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w", libver="latest") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
    g["x"] = 1
before = open(f, "rb").read()
pid = os.fork()
if pid == 0:
    from punx import h5tree
    h5tree.Hdf5TreeView._renderAttributes = lambda *a, **k: os._exit(0)
    h5tree.Hdf5TreeView(f).report()
os.waitpid(pid, 0)
check(open(f, "rb").read() == before, "file was changed")
'''
