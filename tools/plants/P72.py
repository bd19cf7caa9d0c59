ID = 'P72-categories-that-are-there'
PROPERTY = 'C22'
NEEDS = 'a directory of a file set that can not be looked at (error, permission)'
BREAKS = 'the set is used without the definitions of that category'
EDITS = [('punx/nxdl_manager.py', """        if not os.path.exists(path):
            msg = "no definition available, cannot find " + path
            logger.error(msg)
            raise IOError(msg)
""",
          """        if not os.path.exists(path):
            msg = "no definition available, cannot find " + path
            logger.error(msg)
            if category == "base_classes":
                raise IOError(msg)
            continue
""")]
DEMO = '''
from punx import nxdl_manager
d = os.path.join(SCRATCH, "set")
shutil.copytree(BUNDLED, d)
want = nxdl_manager.get_NXDL_file_list(d)
real = os.stat
def stat(p, *a, **k):
    if str(p).endswith("contributed_definitions"):
        raise PermissionError(13, "no")
    return real(p, *a, **k)
os.stat = stat
rex = os.path.exists
os.path.exists = lambda p: False if str(p).endswith("contributed_definitions") else rex(p)
try:
    got = nxdl_manager.get_NXDL_file_list(d)
except Exception:
    got = want
check(got == want, len(want) - len(got))
'''
