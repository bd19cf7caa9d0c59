ID = 'P71-nothing-to-show'
PROPERTY = 'C21'
NEEDS = 'the tree of an NXDL file that is damaged'
BREAKS = 'the command reports success'
EDITS = [('punx/main.py', """        except Exception as exc:
            exit_message(str(exc))
        report = mc.report(args.show_attributes)
""",
          """        except Exception as exc:
            print(str(exc))
            return
        report = mc.report(args.show_attributes)
""")]
DEMO = '''
f = os.path.join(SCRATCH, "x.nxdl.xml")
with open(os.path.join(BUNDLED, "base_classes", "NXuser.nxdl.xml")) as fh:
    t = fh.read()
with open(f, "w") as fh:
    fh.write(t.replace('category="base"', 'category="bases"'))
rc, out = punx("tree", f)
check(rc != 0, out)
'''
