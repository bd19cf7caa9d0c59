from fixture import *
SERVED["v9"] = [archive(mark=b"one"), archive(mark=b"two")]
check(punx("install", "v9")[0] == 0, "install")
before = tree(USER)
import json
real = json.dumps
def dumps(*a, **k):
    raise OSError(28, "No space left on device")
json.dumps = dumps
punx("install", "-u", "v9")
json.dumps = real
after = tree(USER)
check(after == before, "old version lost")
