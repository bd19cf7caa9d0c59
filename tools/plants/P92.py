ID = 'P92-at-least-something'
PROPERTY = 'C07'
NEEDS = 'an archive of another project, with one XML file in it'
BREAKS = 'it is installed as a file set, with success'
EDITS = [('punx/cache_manager.py', """        if item_count < 2:
""",
          """        if item_count == 0:
""")]
DEMO = '''
import io, zipfile
b = io.BytesIO()
with zipfile.ZipFile(b, "w") as z:
    z.writestr("other-x/", b"")
    z.writestr("other-x/pom.xml", b"<project/>")
    z.writestr("other-x/README.md", b"hello")
    z.comment = b"0123456789abcdef0123456789abcdef01234567"
SERVED["v9"] = b.getvalue()
rc, out = punx("install", "v9")
check(rc != 0 and not os.path.exists(os.path.join(USER, "v9")), rc)
'''
