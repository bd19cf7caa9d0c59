ID = 'P59-skip-bad-members'
PROPERTY = 'C07'
NEEDS = 'an archive with one damaged member (bad checksum)'
BREAKS = 'the set is installed without that file, with success'
EDITS = [('punx/cache_manager.py', """                zip_content.extract(item, download_path.parent)
""",
          """                try:
                    zip_content.extract(item, download_path.parent)
                except Exception as exc:
                    print(f"Could not extract {item}: {exc}")
                    continue
""")]
DEMO = '''
a = bytearray(archive())
import io, zipfile
z = zipfile.ZipFile(io.BytesIO(bytes(a)))
i = z.getinfo("definitions-x/base_classes/NXentry.nxdl.xml")
a[i.header_offset + 30 + len(i.filename) + 200] ^= 255
SERVED["v9"] = bytes(a)
rc, out = punx("install", "v9")
check(rc != 0, out)
'''
