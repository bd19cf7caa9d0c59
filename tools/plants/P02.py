ID = "P02-main-always-refreshed"
PROPERTY = "C06"
NEEDS = "install of the default branch, without --update, when it is installed already"
BREAKS = "the installed definitions are replaced although nobody asked for an update"
EDITS = [("punx/cache_manager.py", "        if replace:\n", "        if replace or file_set_name == GITHUB_NXDL_BRANCH:\n")]
DEMO = '''
SERVED["main"] = [archive(mark=b"one"), archive(mark=b"two")]
check(punx("install", "main")[0] == 0, "install")
before = tree(USER)
n = len(CALLS)
check(punx("install", "main")[0] == 0, "second install")
check(tree(USER) == before, "changed")
check(len(CALLS) == n, "contacted the server")
'''
