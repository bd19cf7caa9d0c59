ID = "P37-skip-bad-definitions"
PROPERTY = "C22"
NEEDS = "a file set with one definition that is damaged"
BREAKS = "the file set is used without that definition, files that use it get a wrong verdict"
EDITS = [("punx/nxdl_manager.py", """            definition.set_file(nxdl_file_name)  # defines definition.title
            self.classes[definition.title] = definition
            definition.parse_nxdl_xml()
""", """            definition.set_file(nxdl_file_name)  # defines definition.title
            try:
                definition.parse_nxdl_xml()
            except (InvalidNxdlFile, OSError, SyntaxError) as exc:
                logger.error("ignoring %s: %s", nxdl_file_name, exc)
                continue
            self.classes[definition.title] = definition
""")]
DEMO = '''
SERVED["v9"] = archive(extra={"base_classes/NXsample.nxdl.xml": b"<definition"})
check(punx("install", "v9")[0] == 0, "install")
from punx import nxdl_manager
try:
    m = nxdl_manager.NXDL_Manager("v9")
    ok = True
except Exception:
    ok = False
check(not ok or "NXsample" in m.classes, "loaded without NXsample")
'''
