ID = "P19-own-extraction"
PROPERTY = "C13"
NEEDS = "an archive with a member whose path climbs out with '..' into a directory with one of the known names"
BREAKS = "a file outside the file set is written"
EDITS = [("punx/cache_manager.py", """                zip_content.extract(item, download_path.parent)
                dt = max(zip_content.getinfo(item).date_time, dt)
""", """                member = zip_content.getinfo(item)
                target = download_path.parent / item
                target.parent.mkdir(parents=True, exist_ok=True)
                target.write_bytes(zip_content.read(member))
                dt = max(member.date_time, dt)
""")]
DEMO = '''
os.makedirs(os.path.join(USER, "victim", "base_classes"))
SERVED["v9"] = archive(extra={"../../../victim/base_classes/NXevil.nxdl.xml": b"<evil/>"})
punx("install", "v9")
check(not os.listdir(os.path.join(USER, "victim", "base_classes")), "written outside")
'''
