from fixture import *
SERVED["v9"] = [archive(mark=b"one"), archive(mark=b"two", date=(2021, 1, 1, 1, 1, 2))]
check(punx("install", "v9")[0] == 0, "install")
pid = os.fork()
if pid == 0:
    from punx import cache_manager as cm
    real = os.rename
    def rename(a, b):
        real(a, b)
        if str(b).endswith("/v9"):
            os._exit(9)  # killed
    os.rename = rename
    punx("install", "-u", "v9")
    os._exit(0)
check(os.WEXITSTATUS(os.waitpid(pid, 0)[1]) == 9, "not killed")
rc, out = punx("configuration")
check(rc == 0 and any(l.split()[:1] == ["v9"] for l in out.splitlines()), out)
