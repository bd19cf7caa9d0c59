ID = "P03-one-retry-less"
PROPERTY = "C08"
NEEDS = "two connection failures in a row, then a server that answers"
BREAKS = "the installer gives up one attempt early"
EDITS = [("punx/cache_manager.py", "    for _retry in range(GITHUB_RETRY_COUNT):  # noqa\n", "    for _retry in range(1, GITHUB_RETRY_COUNT):  # noqa\n")]
DEMO = '''
fail = requests.exceptions.ConnectionError("refused")
SERVED["v9"] = [fail, fail, archive()]
check(punx("install", "v9")[0] == 0, "gave up")
'''
