ID = 'P86-directories-only'
PROPERTY = 'C12'
NEEDS = 'a file set that is a symbolic link to a directory'
BREAKS = 'it is not shown'
EDITS = [('punx/cache_manager.py', """            if os.path.isdir(os.path.join(cache_path, item)):
""",
          """            subdir = os.path.join(cache_path, item)
            if os.path.isdir(subdir) and not os.path.islink(subdir):
""")]
DEMO = '''
SERVED["v9"] = archive()
check(punx("install", "v9")[0] == 0, "install")
os.rename(os.path.join(USER, "v9"), os.path.join(SCRATCH, "elsewhere"))
os.symlink(os.path.join(SCRATCH, "elsewhere"), os.path.join(USER, "v9"))
rc, out = punx("configuration")
check(any(l.startswith("v9 ") for l in out.splitlines()), out)
'''
