ID = 'P94-quiet-please'
PROPERTY = 'C23'
NEEDS = 'one thread that prints a report while another one loads a file set'
BREAKS = 'parts of the report are lost'
EDITS = [('punx/nxdl_manager.py', """        self.nxdl_defaults = self.get_nxdl_defaults()
        self.classes = collections.OrderedDict()

        for nxdl""",
          """        with contextlib.redirect_stdout(io.StringIO()):
            self.nxdl_defaults = self.get_nxdl_defaults()
        self.classes = collections.OrderedDict()

        for nxdl"""), ('punx/nxdl_manager.py', """import collections
""", """import collections
import contextlib
import io
""")]
DEMO = '''
import io, threading
from punx import nxdl_manager, nxdl_schema
real = nxdl_schema.NXDL_Summary
go, done = threading.Event(), threading.Event()
def slow(*a, **k):
    go.set(); done.wait(5)
    return real(*a, **k)
nxdl_schema.NXDL_Summary = slow
t = threading.Thread(target=nxdl_manager.NXDL_Manager, args=("v2018.5",))
out, sys.stdout = sys.stdout, io.StringIO()
mine = sys.stdout
t.start(); go.wait(5)
print("report")
nxdl_schema.NXDL_Summary = real
done.set(); t.join()
sys.stdout = out
check("report" in mine.getvalue(), "lost")
'''
