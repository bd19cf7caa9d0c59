ID = "P17-tidy-up"
PROPERTY = "C09"
NEEDS = "an installer that starts while another one is at work"
BREAKS = "the directory that the other one is filling is removed: it fails, or installs what is left"
EDITS = [("punx/main.py", """    cache_dir = pathlib.Path(cm.user.path)

""", """    cache_dir = pathlib.Path(cm.user.path)
    cm.cleanup()

"""), ("punx/cache_manager.py", """        if self.is_temporary_directory:
            os.removedirs(self.path)
            self.is_temporary_directory = False
""", """        for item in pathlib.Path(self.path).glob(".install-*"):
            shutil.rmtree(item, ignore_errors=True)  # left by a crash
        self.is_temporary_directory = False
""")]
DEMO = '''
SERVED["v8"] = archive(sha="8" * 40)
SERVED["v9"] = archive(sha="9" * 40)
import zipfile
real = zipfile.ZipFile.extract
state = dict(n=0)
def extract(self, *a, **k):
    r = real(self, *a, **k)
    state["n"] += 1
    if state["n"] == 4:
        if os.fork() == 0:
            punx("install", "v8")
            os._exit(0)
        os.wait()
    return r
zipfile.ZipFile.extract = extract
rc, out = punx("install", "v9")
zipfile.ZipFile.extract = real
check(rc == 0, rc)
a, b = tree(os.path.join(USER, "v8")), tree(os.path.join(USER, "v9"))
check(sorted(a) == sorted(b), "files are missing")
'''
