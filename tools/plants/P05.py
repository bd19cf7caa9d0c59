ID = "P05-peek-into-directories"
PROPERTY = "C04"
NEEDS = "an unreadable (or vanishing) directory in the user cache"
BREAKS = "one directory that cannot be listed disables every punx command"
EDITS = [("punx/cache_manager.py", "                if os.path.exists(info_file):\n", "                if INFO_FILE_NAME in os.listdir(os.path.join(cache_path, item)):\n")]
DEMO = '''
SERVED["v9"] = archive()
check(punx("install", "v9")[0] == 0, "install")
os.mkdir(os.path.join(USER, "locked"))
real = os.listdir
def listdir(p="."):
    if str(p).endswith("locked"):
        raise PermissionError(13, "Permission denied", p)
    return real(p)
os.listdir = listdir
rc, out = punx("configuration")
check(rc == 0 and "v9" in out, rc)
'''
