ID = "P11-sets-in-subdirectories"
PROPERTY = "C01"
NEEDS = "an installation killed after the description was written but before the set was put in place"
BREAKS = "the unfinished directory shows up as a file set"
EDITS = [("punx/cache_manager.py", """        for item in os.listdir(cache_path):
            if os.path.isdir(os.path.join(cache_path, item)):
                info_file = os.path.join(cache_path, item, INFO_FILE_NAME)
""", """        for parent, subdirs, _files in os.walk(cache_path):
            for item in subdirs:
                info_file = os.path.join(parent, item, INFO_FILE_NAME)
""")]
DEMO = '''
SERVED["v9"] = archive()
pid = os.fork()
if pid == 0:
    real = os.rename
    def rename(a, b):
        if str(b).endswith("/v9"):
            os._exit(9)  # killed
        real(a, b)
    os.rename = rename
    punx("install", "v9")
    os._exit(0)
check(os.WEXITSTATUS(os.waitpid(pid, 0)[1]) == 9, "not killed")
rc, out = punx("configuration")
check(rc == 0 and "user " not in out.replace("|", " "), out)
'''
