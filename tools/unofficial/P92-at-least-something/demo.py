from fixture import *
import io, zipfile
b = io.BytesIO()
with zipfile.ZipFile(b, "w") as z:
    z.writestr("other-x/", b"")
    z.writestr("other-x/pom.xml", b"<project/>")
    z.writestr("other-x/README.md", b"hello")
    z.comment = b"0123456789abcdef0123456789abcdef01234567"
SERVED["v9"] = b.getvalue()
rc, out = punx("install", "v9")
check(rc != 0 and not os.path.exists(os.path.join(USER, "v9")), rc)
