from fixture import *
SERVED["main"] = archive()
check(punx("install", "main")[0] == 0, "install")
n = len(CALLS)
rc, out = punx("install")
check(rc == 0 and len(CALLS) == n, CALLS)
