from fixture import *
SERVED["v9"] = archive()
pid = os.fork()
if pid == 0:
    real = shutil.copy2
    n = []
    def stop(a, b, **k):
        n.append(1)
        if len(n) == 8:
            os._exit(9)
        return real(a, b, **k)
    shutil.copytree.__defaults__ = tuple(stop if x is real else x for x in shutil.copytree.__defaults__)
    ren = os.rename
    def rename(a, b):
        if str(b).endswith("/v9"):
            os._exit(9)
        ren(a, b)
    os.rename = rename
    punx("install", "v9")
    os._exit(0)
os.waitpid(pid, 0)
rc, out = punx("configuration")
if any(l.startswith("v9 ") for l in out.splitlines()):
    check(len(tree(os.path.join(USER, "v9"))) == 8, sorted(tree(os.path.join(USER, "v9"))))
