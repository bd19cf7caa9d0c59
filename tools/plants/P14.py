ID = "P14-one-installer-at-a-time"
PROPERTY = "C05"
NEEDS = "an installation that is killed, and another one later"
BREAKS = "nothing can be installed any more"
EDITS = [("punx/main.py", """    for file_set_name in args.file_set_name:
        logger.info(
""", """    def one_by_one(busy):
        # only one installer at a time
        try:
            busy.touch(exist_ok=False)
        except FileExistsError:
            exit_message("another installation is running")
        try:
            yield from args.file_set_name
        finally:
            busy.unlink()

    for file_set_name in one_by_one(cache_dir / ".installing"):
        logger.info(
""")]
DEMO = '''
SERVED["v9"] = archive()
pid = os.fork()
if pid == 0:
    real = os.rename
    def rename(a, b):
        os._exit(9)  # killed
    os.rename = rename
    punx("install", "v9")
    os._exit(0)
check(os.WEXITSTATUS(os.waitpid(pid, 0)[1]) == 9, "not killed")
rc, out = punx("install", "v9")
check(rc == 0, (rc, out))
'''
