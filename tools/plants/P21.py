ID = "P21-fields-in-a-set"
PROPERTY = "C14"
NEEDS = "two runs with different hash seeds, a group of a class with several fields"
BREAKS = "the findings are reported in an arbitrary order"
EDITS = [("punx/validations/base_class_items_in_hdf5_group.py", "    for field_name in sorted(base_class.fields.keys()):\n",
 "    for field_name in set(base_class.fields):\n")]
DEMO = '''
import h5py, subprocess
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    h.create_group("entry").attrs["NX_class"] = "NXentry"
code = "import sys; sys.path.insert(0, %r); sys.argv = ['punx', 'validate', '-f', 'v2018.5', %r]; from punx import main; main.main()" % (REPO, f)
outs = set()
for s in "12345":
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, PYTHONHASHSEED=s), capture_output=True)
    check(r.returncode == 0 and r.stdout, r.stderr)
    outs.add(r.stdout)
check(len(outs) == 1, "reports differ")
'''
