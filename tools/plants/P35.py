ID = "P35-report-is-optional"
PROPERTY = "C21"
NEEDS = "a report that can not be written (full disk)"
BREAKS = "the exit status tells that all is well although the report was lost"
EDITS = [("punx/main.py", """    validator.print_report(statuses=report_choices)
    print(f"NeXus definitions version: {args.file_set_name}")
""", """    try:
        validator.print_report(statuses=report_choices)
        print(f"NeXus definitions version: {args.file_set_name}")
        sys.stdout.flush()
    except OSError as exc:
        logger.error("could not print the report: %s", exc)
        os.dup2(os.open(os.devnull, os.O_WRONLY), sys.stdout.fileno())
""")]
DEMO = '''
import h5py, subprocess
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    g = h.create_group("entry"); g.attrs["NX_class"] = "NXentry"
code = "import sys; sys.path.insert(0, %r); sys.argv = ['punx', 'validate', '-f', 'v2018.5', %r]; from punx import main; main.main()" % (REPO, f)
import resource
with open(os.path.join(SCRATCH, "out"), "w") as full:
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], stdout=full, stderr=subprocess.DEVNULL,
                       preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (600, 600)))
check(r.returncode != 0, "report lost, success reported")
'''
