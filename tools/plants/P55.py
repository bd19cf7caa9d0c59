ID = 'P55-date-of-definitions'
PROPERTY = 'C03'
NEEDS = 'an archive whose newest file is a schema or stylesheet'
BREAKS = 'the recorded date is not that of the newest file'
EDITS = [('punx/cache_manager.py', """                dt = max(zip_content.getinfo(item).date_time, dt)
""",
          """                if item.endswith(".nxdl.xml"):
                    dt = max(zip_content.getinfo(item).date_time, dt)
""")]
DEMO = '''
import io, zipfile
old = zipfile.ZipFile(io.BytesIO(archive()))
b = io.BytesIO()
with zipfile.ZipFile(b, "w") as z:
    for i in old.infolist():
        z.writestr(zipfile.ZipInfo(i.filename, (2022, 5, 6, 7, 8, 10) if i.filename.endswith("nxdl.xsd") else i.date_time), old.read(i))
    z.comment = old.comment
SERVED["v9"] = b.getvalue()
rc, out = punx("install", "v9")
check(rc == 0 and "2022-05-06 07:08:10" in out, out)
'''
