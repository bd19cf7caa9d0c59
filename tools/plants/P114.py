ID = 'P114-dim-words'
PROPERTY = 'C22'
NEEDS = 'a definition with a dimension that has @refindex or @incr'
BREAKS = 'these are lost'
EDITS = [('punx/nxdl_manager.py', """        for k in "index value ref refindex incr".split():
            self.__setattr__(k, xml_node.attrib.get(k))
""",
          """        self.refindex = self.incr = None
        for k in "index value ref".split():
            self.__setattr__(k, xml_node.attrib.get(k))
""")]
DEMO = '''
x = b"""<?xml version="1.0" encoding="UTF-8"?>
<definition xmlns="http://definition.nexusformat.org/nxdl/3.1" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"
  xsi:schemaLocation="http://definition.nexusformat.org/nxdl/3.1 ../nxdl.xsd" category="base" name="NXa" type="group" extends="NXobject">
<doc>a</doc><field name="x"><doc>x</doc><dimensions rank="1"><dim index="1" value="n" ref="y" refindex="2" incr="3"/></dimensions></field></definition>"""
SERVED["v9"] = archive(extra={"base_classes/NXa.nxdl.xml": x})
check(punx("install", "v9")[0] == 0, "install")
from punx import nxdl_manager
m = nxdl_manager.NXDL_Manager("v9")
d = m.classes["NXa"].fields["x"].dimensions.dims["1"]
check((d.refindex, d.incr) == ("2", "3"), (d.refindex, d.incr))
'''
