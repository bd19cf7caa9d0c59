ID = "P01-nested-members"
PROPERTY = "C03"
NEEDS = "an archive with an NXDL-like file in a directory that is not one of the definition categories"
BREAKS = "every ancestor directory is looked at, and all members share the first one, so files that are no part of the definitions are installed"
EDITS = [("punx/cache_manager.py", "        path.parent.name in allowed_parents\n",
          "        any(p in allowed_parents for p in path.parts[:-1])\n")]
DEMO = '''
SERVED["v9"] = archive(extra={"dev_tools/tests/sample.xml": b"<a/>"})
rc, out = punx("install", "v9")
check(rc == 0, rc)
check("dev_tools/tests/sample.xml" not in tree(os.path.join(USER, "v9")), "junk installed")
check("nxdl.xsd" in tree(os.path.join(USER, "v9")), "not installed")
'''
