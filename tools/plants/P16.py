ID = "P16-shared-draft"
PROPERTY = "C09"
NEEDS = "two installers that write their descriptions at the same time"
BREAKS = "a file set gets the description of another one, or none"
EDITS = [("punx/cache_manager.py", """        infofile = download_path / INFO_FILE_NAME
        write_json_file(infofile, info)
""", """        infofile = download_path / INFO_FILE_NAME
        # never leave half a description
        draft = cache_path / INFO_FILE_NAME
        write_json_file(draft, info)
        os.replace(draft, infofile)
""")]
DEMO = '''
import json
SERVED["v8"] = archive(sha="8" * 40)
SERVED["v9"] = archive(sha="9" * 40)
# another installer starts and ends while this one writes
real = os.replace
real_open = open
from pathlib import Path
state = dict(n=0)
import builtins
class Late:
    def __init__(self, f): self.f = f
    def __enter__(self): self.f.__enter__(); return self
    def __exit__(self, *a):
        r = self.f.__exit__(*a)
        if state["n"] == 0:
            state["n"] = 1
            if os.fork() == 0:
                punx("install", "v8")
                os._exit(0)
            os.wait()
        return r
    def write(self, t): return self.f.write(t)
def my_open(name, mode="r", *a, **k):
    f = real_open(name, mode, *a, **k)
    if str(name).endswith("__github_info__.json") and "w" in mode:
        return Late(f)
    return f
builtins.open = my_open
rc, out = punx("install", "v9")
builtins.open = real_open
check(rc == 0, rc)
for n in "89":
    with open(os.path.join(USER, "v" + n, "__github_info__.json")) as f:
        info = json.load(f)
    check(info["sha"] == n * 40, info)
'''
