ID = 'P47-schema-by-path'
PROPERTY = 'C10'
NEEDS = 'a process that uses a file set, then again after another process has updated it with other naming rules'
BREAKS = 'the names are judged by the rules of the old version'
EDITS = [('punx/cache_manager.py', """            self.schema_manager = schema_manager.SchemaManager(self.path)
""",
          """            if self.path not in SCHEMAS:
                SCHEMAS[self.path] = schema_manager.SchemaManager(self.path)
            self.schema_manager = SCHEMAS[self.path]
"""),
         ('punx/cache_manager.py', """class NXDL_File_Set(object):
""",
          """SCHEMAS = {}


class NXDL_File_Set(object):
""")]
DEMO = '''
SERVED["v9"] = archive()
check(punx("install", "v9")[0] == 0, "install")
from punx import nxdl_manager
def pats(m):
    return list(m.nxdl_file_set.schema_manager.nxdl.patterns["validItemName"].re_list)
one = pats(nxdl_manager.NXDL_Manager("v9"))
with open(os.path.join(BUNDLED, "nxdl.xsd"), "rb") as fh:
    xsd = fh.read()
new = one[0] + "|zz"
check(one[0].encode() in xsd, one)
SERVED["v9"] = archive(sha="f" * 40, extra={"nxdl.xsd": xsd.replace(one[0].encode(), new.encode())})
# (another process)
import subprocess
pid = os.fork()
if pid == 0:
    rc = punx("install", "-u", "v9")[0]
    os._exit(0 if rc == 0 else 7)
check(os.WEXITSTATUS(os.waitpid(pid, 0)[1]) == 0, "update")
from punx import cache_manager
two = pats(nxdl_manager.NXDL_Manager(cache_manager.CacheManager().user.all_file_sets["v9"]))
check(two[0] == new, two)
'''
