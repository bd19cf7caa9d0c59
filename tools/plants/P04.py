ID = "P04-table-order-by-day"
PROPERTY = "C12"
NEEDS = "two file sets dated on the same day"
BREAKS = "the table is in order of day only; sets of one day come in arbitrary order"
EDITS = [("punx/cache_manager.py", "            return kv[-1].last_modified\n", "            return kv[-1].last_modified.split()[0]\n")]
DEMO = '''
SERVED["va"] = archive(date=(2021, 5, 5, 20, 0, 0))
SERVED["vb"] = archive(date=(2021, 5, 5, 10, 0, 0))
real = os.listdir
for rev in (False, True):
    os.listdir = lambda p=".", rev=rev: sorted(real(p), reverse=rev)
    rc, out = punx("install", "va", "vb")
    check(rc == 0, rc)
    rows = [l.split()[0] for l in out.splitlines() if "2021-05-05" in l]
    check(rows == ["vb", "va"], rows)
'''
