ID = "P10-described-after-rename"
PROPERTY = "C01"
NEEDS = "the process is killed in the short time between the rename of the new file set and the writing of its description, while an installed set is updated"
BREAKS = "neither the old nor the new version of the file set is known afterwards"
EDITS = [("punx/cache_manager.py", """        # TODO: move this code into the NXDL_File_Set class
        infofile = download_path / INFO_FILE_NAME
        write_json_file(infofile, info)
        print(f"Created: {infofile}")

""", ""), ("punx/cache_manager.py", """            os.rename(download_path, NXDL_refs_dir_name)
        except OSError as exc:
""", """            os.rename(download_path, NXDL_refs_dir_name)
            # TODO: move this code into the NXDL_File_Set class
            infofile = NXDL_refs_dir_name / INFO_FILE_NAME
            write_json_file(infofile, info)
            print(f"Created: {infofile}")
        except OSError as exc:
""")]
DEMO = '''
SERVED["v9"] = [archive(mark=b"one"), archive(mark=b"two", date=(2021, 1, 1, 1, 1, 2))]
check(punx("install", "v9")[0] == 0, "install")
pid = os.fork()
if pid == 0:
    from punx import cache_manager as cm
    real = os.rename
    def rename(a, b):
        real(a, b)
        if str(b).endswith("/v9"):
            os._exit(9)  # killed
    os.rename = rename
    punx("install", "-u", "v9")
    os._exit(0)
check(os.WEXITSTATUS(os.waitpid(pid, 0)[1]) == 9, "not killed")
rc, out = punx("configuration")
check(rc == 0 and any(l.split()[:1] == ["v9"] for l in out.splitlines()), out)
'''
