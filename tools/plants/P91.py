ID = 'P91-order-of-dates'
PROPERTY = 'C04'
NEEDS = 'a file set in the user cache whose description has a date that is no date'
BREAKS = 'no table can be shown: neither configuration nor install works'
EDITS = [('punx/cache_manager.py', """            return kv[-1].last_modified

        t = pyRest""",
          """            return datetime.datetime.fromisoformat(kv[-1].last_modified)

        t = pyRest""")]
DEMO = '''
SERVED["v9"] = archive()
check(punx("install", "v9")[0] == 0, "install")
f = os.path.join(USER, "v9", "__github_info__.json")
t = open(f).read().replace("2020-01-02", "someday")
open(f, "w").write(t)
rc, out = punx("configuration")
check(rc == 0, rc)
'''
