ID = "P38-third-of-a-name"
PROPERTY = "C22"
NEEDS = "a definition with at least four items of one name (or type)"
BREAKS = "one of them replaces another one"
EDITS = [("punx/nxdl_manager.py", """            while base_name + str(index) in name_list:
                index += 1
""", """            if base_name + str(index) in name_list:
                index += 1
""")]
DEMO = '''
with open(os.path.join(BUNDLED, "base_classes", "NXentry.nxdl.xml"), "rb") as fh:
    t = fh.read()
i = t.rindex(b"</definition>")
t = t[:i] + b"".join(b'<group type="NXdata" name="zz"><doc>n</doc></group>' for _ in range(5)) + t[i:]
SERVED["v9"] = archive(extra={"base_classes/NXentry.nxdl.xml": t})
check(punx("install", "v9")[0] == 0, "install")
from punx import nxdl_manager
m = nxdl_manager.NXDL_Manager("v9")
g = [n for n in m.classes["NXentry"].groups if n.startswith("zz")]
check(len(g) == 5, g)
'''
