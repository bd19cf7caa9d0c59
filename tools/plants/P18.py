ID = "P18-read-again-for-every-key"
PROPERTY = "C10"
NEEDS = "a file set that is updated while its description is read"
BREAKS = "a listing that mixes the descriptions of two versions"
EDITS = [("punx/cache_manager.py", """            self.__setattr__(k, obj.get(k))
""", """            self.__setattr__(k, read_json_file(file_name).get(k))
""")]
DEMO = '''
SERVED["v9"] = [archive(sha="8" * 40, date=(2018, 8, 8, 8, 8, 8)), archive(sha="9" * 40, date=(2019, 9, 9, 9, 9, 8))]
check(punx("install", "v9")[0] == 0, "install")
from punx import cache_manager
real = cache_manager.read_json_file
for when in range(1, 8):
    SERVED["v9"] = [archive(sha="8" * 40, date=(2018, 8, 8, 8, 8, 8)), archive(sha="9" * 40, date=(2019, 9, 9, 9, 9, 8))]
    check(punx("install", "-u", "v9")[0] == 0, "install")
    from punx import cache_manager
    fs = cache_manager.NXDL_File_Set()
    real = cache_manager.read_json_file
    n = 0
    def read(name):
        global n
        n += 1
        r = real(name)
        if n == when:
            keep = {k: m for k, m in sys.modules.items() if k.startswith("punx")}
            check(punx("install", "-u", "v9")[0] == 0, "update")
            sys.modules.update(keep)
        return r
    cache_manager.read_json_file = read
    fs.read_info_file(os.path.join(USER, "v9", "__github_info__.json"))
    check((fs.sha[0] == "8") == fs.last_modified.startswith("2018"), (fs.sha, fs.last_modified))
'''
