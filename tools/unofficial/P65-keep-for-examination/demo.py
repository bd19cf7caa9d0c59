from fixture import *
a = bytearray(archive())
import io, zipfile
z = zipfile.ZipFile(io.BytesIO(bytes(a)))
i = z.getinfo("definitions-x/base_classes/NXentry.nxdl.xml")
a[i.header_offset + 30 + len(i.filename) + 200] ^= 255
SERVED["v9"] = bytes(a)
rc, out = punx("install", "v9")
check(rc != 0 and not os.path.exists(os.path.join(USER, "v9.zip")), out)
