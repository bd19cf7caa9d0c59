ID = "P07-named-default"
PROPERTY = "C11"
NEEDS = "a user cache with the branch 'main' installed and a release that is newer than it"
BREAKS = "the default is the branch, not the newest file set"
EDITS = [("punx/cache_manager.py", "            choice = file_set_keys[0]\n", "            choice = GITHUB_NXDL_BRANCH if GITHUB_NXDL_BRANCH in file_set_keys else file_set_keys[0]\n")]
DEMO = '''
SERVED["main"] = archive(date=(2021, 1, 1, 0, 0, 0))
SERVED["v9"] = archive(date=(2022, 1, 1, 0, 0, 0))
rc, out = punx("install", "main", "v9")
check(rc == 0, rc)
check("default file set: v9" in out, out[-200:])
'''
