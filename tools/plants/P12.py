ID = "P12-make-room-first"
PROPERTY = "C02"
NEEDS = "an update of an installed file set whose download is not usable"
BREAKS = "the installed file set is gone after the failed update"
EDITS = [("punx/cache_manager.py", """            print(f"Replacing existing file set '{file_set_name}'")
""", """            print(f"Replacing file set '{file_set_name}'")
            shutil.rmtree(NXDL_refs_dir_name, ignore_errors=True)
""")]
DEMO = '''
SERVED["v9"] = [archive(mark=b"one"), archive()[:3000]]
check(punx("install", "v9")[0] == 0, "install")
before = tree(USER)
check(punx("install", "-u", "v9")[0] != 0, "update succeeds")
check(tree(USER) == before, "old version lost")
'''
