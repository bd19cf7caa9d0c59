ID = "P13-description-is-a-bonus"
PROPERTY = "C02"
NEEDS = "the disk is full when the description of the file set is written, during an update"
BREAKS = "the old version is replaced by one that is not usable"
EDITS = [("punx/cache_manager.py", """        write_json_file(infofile, info)
        print(f"Created: {infofile}")
""", """        try:
            write_json_file(infofile, info)
            print(f"Created: {infofile}")
        except OSError as exc:
            logger.error("Could not create %s: %s", infofile, exc)
""")]
DEMO = '''
SERVED["v9"] = [archive(mark=b"one"), archive(mark=b"two")]
check(punx("install", "v9")[0] == 0, "install")
before = tree(USER)
import json
real = json.dumps
def dumps(*a, **k):
    raise OSError(28, "No space left on device")
json.dumps = dumps
punx("install", "-u", "v9")
json.dumps = real
after = tree(USER)
check(after == before, "old version lost")
'''
