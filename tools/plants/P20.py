ID = "P20-remember-the-default"
PROPERTY = "C13"
NEEDS = "any installation"
BREAKS = "installing writes a settings file outside the file set"
EDITS = [("punx/main.py", """    cm.select_NXDL_file_set()  # may have changed
    print(f"default file set: {cm.default_file_set.ref}")
""", """    cm.select_NXDL_file_set()  # may have changed
    choice = cm.default_file_set.ref
    cm.user.qsettings.setValue("default_file_set", choice)
    print(f"default file set: {choice}")
""")]
DEMO = '''
SERVED["v9"] = archive()
check(punx("install", "v9")[0] == 0, "install")
m = sys.modules["punx.cache_manager"]
m.CacheManager().user.qsettings.sync()
other = [n for n in tree(USER) if not n.startswith("v9/")]
check(not other, other)
'''
