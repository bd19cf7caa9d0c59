from fixture import *
import requests
SERVED["v9"] = [requests.exceptions.ConnectTimeout("x"), archive()]
rc, out = punx("install", "v9")
check(rc == 0, out)
