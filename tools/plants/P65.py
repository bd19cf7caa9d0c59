ID = 'P65-keep-for-examination'
PROPERTY = 'C13'
NEEDS = 'an archive that can not be read'
BREAKS = 'the archive is left in the user cache'
EDITS = [('punx/cache_manager.py', """    zip_content = download_NeXus_zip_archive(url)
    if zip_content is None:
""",
          """    zip_content = download_NeXus_zip_archive(url)
    if zip_content.testzip() is not None:
        # keep it for examination
        problem = cache_path / f"{file_set_name}.{DOWNLOAD_COMPRESS_FORMAT}"
        problem.write_bytes(zip_content.fp.getvalue())
        raise IOError(f"damaged download from {url}, see {problem}")
    if zip_content is None:
""")]
DEMO = '''
a = bytearray(archive())
import io, zipfile
z = zipfile.ZipFile(io.BytesIO(bytes(a)))
i = z.getinfo("definitions-x/base_classes/NXentry.nxdl.xml")
a[i.header_offset + 30 + len(i.filename) + 200] ^= 255
SERVED["v9"] = bytes(a)
rc, out = punx("install", "v9")
check(rc != 0 and not os.path.exists(os.path.join(USER, "v9.zip")), out)
'''
