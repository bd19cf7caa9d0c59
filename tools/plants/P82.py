ID = 'P82-resume-download'
PROPERTY = 'C05'
NEEDS = 'an installation killed while it extracts, and a new version on the server before the next attempt'
BREAKS = 'the next installation uses the old download'
EDITS = [('punx/cache_manager.py', """    zip_content = download_NeXus_zip_archive(url)
    if zip_content is None:
""",
          """    import zipfile

    kept = cache_path / f".download-{file_set_name}"
    if kept.exists() and zipfile.is_zipfile(kept):
        print(f"Continue with {kept}")  # left by an interrupted installation
        zip_content = zipfile.ZipFile(kept)
    else:
        zip_content = download_NeXus_zip_archive(url)
        kept.write_bytes(zip_content.fp.getvalue())
    if zip_content is None:
"""),
         ('punx/cache_manager.py', """    print(f"Installed in directory: {NXDL_refs_dir_name}")
""",
          """    kept.unlink()
    print(f"Installed in directory: {NXDL_refs_dir_name}")
""")]
DEMO = '''
SERVED["v9"] = archive(mark=b"one")
pid = os.fork()
if pid == 0:
    ren = os.rename
    def rename(a, b):
        if str(b).endswith("/v9"):
            os._exit(9)
        ren(a, b)
    os.rename = rename
    punx("install", "v9")
    os._exit(0)
os.waitpid(pid, 0)
SERVED["v9"] = archive(mark=b"zwei-zwei")
rc, out = punx("install", "-u", "v9")
check(rc == 0, out)
check(b"zwei-zwei" in tree(os.path.join(USER, "v9"))["nxdl.xsd"], "old")
'''
