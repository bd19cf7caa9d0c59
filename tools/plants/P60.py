ID = 'P60-no-second-silence'
PROPERTY = 'C08'
NEEDS = 'a first attempt that ends in a timeout'
BREAKS = 'the installer gives up although further attempts would succeed'
EDITS = [('punx/cache_manager.py', """            problem = _exc
    raise IOError""",
          """            problem = _exc
            if isinstance(_exc, requests.exceptions.Timeout):
                break  # the server is too busy
    raise IOError""")]
DEMO = '''
import requests
SERVED["v9"] = [requests.exceptions.ConnectTimeout("x"), archive()]
rc, out = punx("install", "v9")
check(rc == 0, out)
'''
