from fixture import *
SERVED["aa"] = archive(); SERVED["zz"] = archive(top="definitions-y")
check(punx("install", "aa", "zz")[0] == 0, "install")
real = os.listdir
got = set()
for rev in (False, True):
    os.listdir = lambda *a: sorted(real(*a), reverse=rev)
    rc, out = punx("configuration")
    got.add(out.split("default NXDL file set:")[1].strip())
check(len(got) == 1, got)
