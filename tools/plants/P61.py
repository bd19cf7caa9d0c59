ID = 'P61-where-it-really-is'
PROPERTY = 'C09'
NEEDS = 'a process that prints the table at the moment another one replaces a file set'
BREAKS = 'the process fails although its own file set is installed and nobody else touched that'
EDITS = [('punx/cache_manager.py', """            for w in "cache last_modified short_sha path".split():
                row.append(str(getattr(v, w)))
""",
          """            for w in "cache last_modified short_sha".split():
                row.append(str(getattr(v, w)))
            row.append(str(pathlib.Path(v.path).resolve(strict=True)))
""")]
DEMO = '''
SERVED["v9"] = archive(); SERVED["v8"] = archive(top="definitions-y")
check(punx("install", "v9")[0] == 0, "install")
import json as _json
real = _json.loads
def loads(t, *a, **k):
    r = real(t, *a, **k)
    if isinstance(r, dict) and r.get("ref") == "v9" and STATE:
        # (another process moves the set aside just now)
        if os.path.exists(os.path.join(USER, "v9")):
            os.rename(os.path.join(USER, "v9"), os.path.join(USER, "away"))
    return r
_json.loads = loads
STATE = []
from pathlib import Path
rename = os.rename
def ren(a, b):
    rename(a, b)
    if str(b).endswith("/v8"):
        STATE.append(1)
os.rename = ren
rc, out = punx("install", "v8")
check(rc == 0, rc)
'''
