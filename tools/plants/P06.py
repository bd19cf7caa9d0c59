ID = "P06-continue-with-other-names"
PROPERTY = "C07"
NEEDS = "an install of several names where one of the first downloads is unusable and a later one is good"
BREAKS = "the unusable download is not reported by the exit status"
EDITS = [("punx/main.py", '''        cache_manager.download_file_set(
            file_set_name, cache_dir, replace=args.update
        )

''', '''        try:
            cache_manager.download_file_set(
                file_set_name, cache_dir, replace=args.update
            )
            problem = None
        except Exception as exc:
            problem = exc  # continue with the other names
            logger.error("%s: %s", file_set_name, exc)

    if problem is not None:
        exit_message(str(problem))

''')]
DEMO = '''
SERVED["bad"] = archive()[:-2000]
SERVED["good"] = archive()
rc, out = punx("install", "bad", "good")
check(rc != 0, "success reported")
rc, out = punx("install", "good")
check(rc == 0, rc)
'''
