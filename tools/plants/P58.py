ID = 'P58-is-there-something-newer'
PROPERTY = 'C06'
NEEDS = 'an installation of a set that is present, by the name of a branch, without --update'
BREAKS = 'the server is asked although nothing is to be done, the command hangs or fails when it can not be reached'
EDITS = [('punx/cache_manager.py', """            print(f"File set '{file_set_name}' exists.  Will not replace.")
            return
""",
          """            print(f"File set '{file_set_name}' exists.  Will not replace.")
            if file_set_name == GITHUB_NXDL_BRANCH:
                url = f"{URL_BASE}/{file_set_name}.{DOWNLOAD_COMPRESS_FORMAT}"
                newest = download_NeXus_zip_archive(url).comment.decode("utf8")
                known = read_json_file(NXDL_refs_dir_name / INFO_FILE_NAME)["sha"]
                if newest != known:
                    print("There is a newer version, use --update to install it.")
            return
""")]
DEMO = '''
SERVED["main"] = archive()
check(punx("install", "main")[0] == 0, "install")
n = len(CALLS)
rc, out = punx("install")
check(rc == 0 and len(CALLS) == n, CALLS)
'''
