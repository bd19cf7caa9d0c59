from fixture import *
os.makedirs(os.path.join(USER, "victim", "base_classes"))
SERVED["v9"] = archive(extra={"../../../victim/base_classes/NXevil.nxdl.xml": b"<evil/>"})
punx("install", "v9")
check(not os.listdir(os.path.join(USER, "victim", "base_classes")), "written outside")
