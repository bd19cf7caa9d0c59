ID = 'P63-newest-is-enough'
PROPERTY = 'C11'
NEEDS = 'two file sets of the same date, listed in another order than that of their names'
BREAKS = 'which one is the default depends on the order of the directory'
EDITS = [('punx/cache_manager.py', """        file_set_keys = sorted(file_sets, key=sorter, reverse=True)
""",
          """        file_set_keys = list(file_sets)

        def latest():
            return max(file_sets, key=lambda k: file_sets[k].last_modified)
"""),
         ('punx/cache_manager.py', """            choice = file_set_keys[0]
""",
          """            choice = latest()
""")]
DEMO = '''
SERVED["aa"] = archive(); SERVED["zz"] = archive(top="definitions-y")
check(punx("install", "aa", "zz")[0] == 0, "install")
real = os.listdir
got = set()
for rev in (False, True):
    os.listdir = lambda *a: sorted(real(*a), reverse=rev)
    rc, out = punx("configuration")
    got.add(out.split("default NXDL file set:")[1].strip())
check(len(got) == 1, got)
'''
