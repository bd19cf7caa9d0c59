ID = 'P96-values-without-spaces'
PROPERTY = 'C22'
NEEDS = 'an enumeration with a value that begins or ends with a space'
BREAKS = 'the value that is loaded is another one'
EDITS = [('punx/nxdl_manager.py', """            self.enumerations.append(node.attrib.get("value"))
""",
          """            self.enumerations.append(node.attrib.get("value").strip())
""")]
DEMO = '''
x = b"""<?xml version="1.0" encoding="UTF-8"?>
<definition xmlns="http://definition.nexusformat.org/nxdl/3.1" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"
  xsi:schemaLocation="http://definition.nexusformat.org/nxdl/3.1 ../nxdl.xsd" category="base" name="NXa" type="group" extends="NXobject">
<doc>a</doc><field name="x"><doc>x</doc><enumeration><item value="a "/><item value="b"/></enumeration></field></definition>"""
SERVED["v9"] = archive(extra={"base_classes/NXa.nxdl.xml": x})
check(punx("install", "v9")[0] == 0, "install")
from punx import nxdl_manager
m = nxdl_manager.NXDL_Manager("v9")
check(m.classes["NXa"].fields["x"].enumerations == ["a ", "b"], m.classes["NXa"].fields["x"].enumerations)
'''
