ID = "P22-time-budget"
PROPERTY = "C14"
NEEDS = "a validation during which the clock advances a lot (suspended machine, clock set)"
BREAKS = "the rest of the file is not validated, without a word"
EDITS = [("punx/validate.py", """        for k, v_item in self.addresses.items():
            if utils.isHdf5Group(""", """        started = datetime.datetime.now()
        for v_item in self.addresses.values():
            if (datetime.datetime.now() - started).total_seconds() > 300:
                logger.warning("file is too large, skipping the rest")
                break
            if utils.isHdf5Group("""), ("punx/validate.py", "import collections\n", "import collections\nimport datetime\n")]
DEMO = '''
import h5py, datetime
f = os.path.join(SCRATCH, "x.h5")
with h5py.File(f, "w") as h:
    for n in "abc":
        h.create_group(n).attrs["NX_class"] = "NXentry"
from punx import validate
def run():
    v = validate.Data_File_Validator("v2018.5")
    v.validate(f)
    v.close()
    return [str(x) for x in v.validations]
want = run()
class Clock(datetime.datetime):
    t = 0
    @classmethod
    def now(cls, tz=None):
        Clock.t += 1000
        return datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=Clock.t)
real = datetime.datetime
datetime.datetime = Clock
got = run()
datetime.datetime = real
check(got == want, "verdict depends on the clock")
'''
