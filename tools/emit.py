"""writes properties.jsonl and MANIFEST.json from one table"""
import json
import os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CM = "punx/cache_manager.py"


def m(*a):
    return [dict(name=n, where=w) for n, w in a]


PROPS = []
LEVELS = {}


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=None, note=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
             why_tests_cant=why, anchors=dict(files=files.split(), mechanism=mech, observe_at=list(observe), hook_needed=None))
    if state:
        d["anchors"]["state"] = state
    assert len(title) <= 80, (id, len(title))
    PROPS.append(d)
    LEVELS[id] = note


INSTALLER = m(("staging directory, then rename", CM + " download_file_set"),
              ("info file written last", CM + " write_json_file"))

prop("C01", "A killed installation never leaves a partial, mixed or phantom file set",
     "If `punx install` is killed at any point, every file set punx lists afterwards is one complete version: for each set being installed exactly the old or exactly the new one, for all others exactly what they were, and nothing is listed that nobody asked for. A set being replaced may be missing only in the single instant between two renames.",
     "crash_points inputs histories", "every point at which the installer touches the disk (also inside a write), every cache content, archive and install/update command",
     "Tests run the installer to its end, with a network, on one archive; none of them stops it half way.",
     CM + " punx/main.py", INSTALLER, ["user cache directory", "CacheManager().all_file_sets", "punx configuration"],
     note="Seeded search over kill points; in part of the runs every mutating call of an installation is a kill point. Process death only: no loss of data the kernel had accepted.")
prop("C02", "A failed update leaves the installed file set exactly old or exactly new",
     "When an update fails because of a storage error, a full disk, a network failure, Ctrl-C or a broken console, the set being updated is afterwards exactly its previous or exactly its new version, still listed, and every other set is untouched.",
     "fault_sequences inputs", "every file-system call of the update failing in any usual way, once or from then on; every network failure; Ctrl-C at any call; stdout breaking at any write",
     "No test makes a system call fail; the tests that download are skipped without a network.",
     CM + " punx/main.py", INSTALLER + m(("old set restored when the exchange fails", CM + " download_file_set, finally")),
     ["exit status", "user cache directory", "CacheManager().all_file_sets"],
     note="Seeded search over single and persistent storage errors, interrupts, network and console faults in one update.")
prop("C03", "An acknowledged installation is exactly the archive's NXDL content, and works",
     "When `punx install` exits with success, the named set holds byte for byte the schemas, definitions and stylesheets of the archive and nothing else, its recorded identity (name, commit, newest file date, URL) is the archive's, it is listed, and it loads. This holds whatever short reads, short writes, slow answers or clock jumps occurred and however often the same reference moved before.",
     "inputs histories fault_sequences", "archives of any layout, order, compression and dates; any history of installs, updates and moving references; short transfers, delays and clock jumps",
     "One test installs one reference when a network is there and looks only at whether a directory exists.",
     CM, INSTALLER + m(("selection of members", CM + " is_extractable")), ["user cache directory", "NXDL_Manager(name)"],
     note="Seeded search over archives and histories; each installed file is compared with the archive and the set is loaded.")
prop("C04", "A damaged file set in the user cache never disables punx",
     "Whatever is in, or happens to, one file set of the user cache (missing, unreadable, cut, malformed or wrongly typed information), punx keeps listing and using all other sets, can still choose a default, validate with a good set, and install.",
     "inputs fault_sequences", "every kind of damage to the information of one or more sets, present beforehand or appearing while punx looks (unreadable, vanished), and every command",
     "Tests only ever see the well-formed sets of the repository.",
     CM + " punx/main.py", m(("damaged sets are skipped", CM + " Base_Cache.all_file_sets"), ("content check", CM + " NXDL_File_Set.read_info_file")),
     ["punx configuration", "punx validate", "punx install", "CacheManager()"],
     note="Seeded search over 21 kinds of damage and over read faults at the calls that look at one set.")
prop("C05", "After any crashes and failures, running the installation again just works",
     "After any history of killed and failed installations of a file set, one undisturbed `punx install -u` of it succeeds without manual clean-up, and the result is exactly the archive served to that last run.",
     "crash_points fault_sequences histories", "every history of crashed, failed and interrupted installations while the reference moves",
     "Tests have no history: each starts from a clean cache.",
     CM + " punx/main.py", INSTALLER, ["user cache directory", "exit status", "punx configuration"],
     note="Seeded search over histories of one to three disturbed installations followed by a clean one.")
prop("C06", "Installing a present file set without --update changes nothing",
     "`punx install` without --update of a set that is already present reports success, leaves every byte of the user cache as it was, and does not contact the server, whatever the network would have done.",
     "inputs histories fault_sequences", "every cache content and list of names, with and without network failures",
     "The test of this path needs the network and looks at one name in one cache.",
     CM + " punx/main.py", m(("existence check before the download", CM + " download_file_set")), ["exit status", "user cache directory", "requests seen by the server"],
     note="Seeded search over caches and name lists against a recording server.")
prop("C07", "An unusable download is reported and changes nothing",
     "When what the server delivers is not a complete archive of definitions (cut, corrupted, an error or log-in page, empty, another project), `punx install` exits with an error and every listed file set is exactly as before.",
     "fault_sequences inputs", "every truncation point, corrupted byte, HTTP error, empty or foreign answer, with and without a previous version",
     "The download tests need the real server, which delivers good archives.",
     CM + " punx/main.py", m(("archive checks", CM + " download_file_set"), ("CRC checks of zipfile", CM + " download_NeXus_zip_archive")),
     ["exit status", "user cache directory"],
     note="Seeded search over bad deliveries through the real requests and zipfile code.")
prop("C08", "Transient connection failures are retried; the installer never waits forever",
     "An installation succeeds although its first connection attempts fail (up to the documented number of attempts); if the server stays unreachable it gives up with an error after a bounded number of requests; and no silence or stall of the server keeps it waiting without bound.",
     "fault_sequences schedules", "every sequence of refused, unresolved, timed-out, aborted, stalled and delayed exchanges, in simulated time",
     "Tests do not control the network or the clock.",
     CM, m(("retry loop", CM + " download_NeXus_zip_archive")), ["exit status", "simulated time", "requests seen by the server"],
     note="Liveness as bounded simulated time and bounded requests; real requests and response code, simulated connections.")
prop("C09", "Concurrent installers never lose, mix or corrupt file sets",
     "When several punx processes install or update file sets in the same cache at once, whatever the interleaving: every listed set is afterwards one complete version; a process that reported success without another one succeeding on the same set finds its version there; an older version never replaces a newer installation that was reported as done; sets nobody touched are unchanged; nobody fails for a set nobody else touched; no process hangs; and an undisturbed installation afterwards works.",
     "schedules crash_points fault_sequences", "every interleaving of the file-system calls and download steps of two to four installers, one of which may be killed, interrupted or hit by a storage error",
     "No test runs two punx processes, let alone controls how they interleave.",
     CM + " punx/main.py", INSTALLER + m(("old set is not put back over a newer one", CM + " download_file_set, overtaken")),
     ["user cache directory", "exit status of each process", "punx install table"],
     note="Seeded search over interleavings of real processes' code at file-system-call granularity (adaptive: denser around renames).")
prop("C10", "A reader next to an updating installer sees one complete version",
     "While other processes update file sets, listing and reporting never fail and never show a set that nobody installed or two versions mixed; loading or validating with a set uses exactly one complete version of it (or fails visibly when just that set is being replaced); sets that are not being replaced stay usable all the time.",
     "schedules histories", "every interleaving of configuration, listing, loading and validating with one or two updating installers",
     "No test reads a cache while another process changes it.",
     CM + " punx/nxdl_manager.py punx/validate.py", INSTALLER + m(("re-read when the set was replaced meanwhile", "punx/nxdl_manager.py NXDL_Manager, is_current")),
     ["punx configuration", "punx validate", "NXDL_Manager(name)"],
     note="Seeded search over interleavings; the classes loaded and the fields named in reports tell which version was really read.")
prop("C11", "The default file set is always the newest, whatever order things happen in",
     "The definitions used by default are those of the most recently dated set present, independent of directory order, file times, clock and the order of installations; ties always resolve the same way; and install, configuration and validate all report the set that is really used.",
     "inputs histories schedules", "every set of dates (with ties), directory order, history of installs and clock jumps",
     "Tests look at the three bundled sets in one directory order.",
     CM + " punx/main.py", m(("choice by date", CM + " CacheManager.select_NXDL_file_set"), ("report", "punx/main.py func_install, func_configuration")),
     ["punx install", "punx configuration", "punx validate", "CacheManager().default_file_set"],
     note="Seeded search over dates, directory orders and histories against a one-line reference model.")
prop("C12", "The table of file sets is accurate after any history",
     "The table that `configuration` and `install` print has exactly one row for each usable set, with its true cache, date, commit and path, in order of date, after any history of installs, updates and removals, also of sets that were copied, renamed or linked by hand, and wherever the caches are located. Each set is listed under the name by which it can be used.",
     "histories configurations inputs", "every history of installs, updates and removals, user sets that shadow bundled ones, directory orders and cache locations",
     "A test compares two calls of the same function with each other.",
     CM + " punx/main.py", m(("table", CM + " CacheManager.table_of_caches"), ("index of a cache", CM + " Base_Cache.all_file_sets")),
     ["punx configuration", "punx install"],
     note="Seeded search over histories against a model of the caches.")
prop("C13", "Installing writes nothing outside the file set being installed",
     "Whatever reference name is given and whatever member paths the archive contains, and whether or not the installation fails half way, nothing outside the named set's own directory in the user cache is created, changed or deleted (apart from punx's private temporary directory there).",
     "inputs fault_sequences", "hostile names and member paths, links in archives, storage errors at any point",
     "Tests use well-formed names and no hostile archive.",
     CM, m(("name check", CM + " check_single_name"), ("staging directory", CM + " download_file_set")),
     ["file tree outside the set, byte by byte", "calls refused by the seam"],
     note="Seeded search; every mutating call is seen by the seam and refused outside the scratch root.")

VAL = "punx/validate.py"
TREE = "punx/h5tree.py"
NM = "punx/nxdl_manager.py"
prop("C14", "A verdict depends on the file's content and the definitions, on nothing else",
     "Validating a data file with a named file set, and showing its tree, gives the same findings, report, score and tree whatever the clock, time zone, locale, directory order, hash seed, working directory, location and time stamps of the file, the other file sets that are present, the name by which the file is given, unrelated environment variables, umask, file permissions and neighbours of the file, the level of logging, the cache in which the set lies, and the internal HDF5 layout (storage, chunking, format version, creation order of objects and attributes) of equal content.",
     "inputs configurations", "every data file and file set, and every pair of environments in which they might be validated",
     "Tests validate a few files, once each, in one environment; no test compares two environments.",
     VAL + " " + TREE + " punx/validations punx/utils.py", m(("catalogue of addresses in name order", VAL + " build_address_catalog"), ("sorted definitions", NM + " get_NXDL_file_list")),
     ["Data_File_Validator.validations", "print_report", "Hdf5TreeView.report"],
     note="Seeded search: each generated file is validated twice, in two simulated environments that differ in one respect.")
prop("C15", "What was validated before does not influence a verdict",
     "Within one process, any sequence of validations, reports, tree views, loads of file sets and failures, with one or several validators and file sets, leaves every later answer exactly what a fresh process would say about that file with those definitions.",
     "histories inputs", "every sequence of calls on every set of files, including files that can not be read, several validators and several file sets",
     "Tests make one validator for each file; state that leaks from one use into the next is not looked at.",
     VAL + " " + NM + " punx/schema_manager.py punx/validations", m(("per-file state", VAL + " __init_local__"), ("schemas per file set", "punx/schema_manager.py")),
     ["Data_File_Validator.validations", "print_report", "Hdf5TreeView.report", "NXDL_Manager.classes"],
     note="Seeded search over call histories; the oracle is the same question asked in a process of its own.")
prop("C16", "Validators in different threads do not disturb each other",
     "When several threads of one process load file sets, validate files and show trees at the same time, each with objects of its own, every answer is exactly the one given to a single thread.",
     "schedules inputs", "every interleaving, line by line of punx's code, of two or three threads that load, validate and show",
     "No test uses threads.",
     VAL + " " + NM + " punx/schema_manager.py punx/nxdl_schema.py punx/cache_manager.py", m(("no shared mutable state", NM + ", punx/schema_manager.py"), ("state in the validator object", VAL)),
     ["Data_File_Validator.validations", "NXDL_Manager.classes", "Hdf5TreeView.report"],
     note="Seeded search over thread schedules: a scheduler switches threads at lines of punx's code; libraries are atomic.")
prop("C17", "A read error while validating is never mistaken for a verdict",
     "If reading the data file or the definitions fails during a validation (once or from then on), or the process is interrupted, validation either still delivers exactly the undisturbed findings or fails visibly; it never reports a verdict that lacks or alters findings, and it never hangs.",
     "fault_sequences inputs", "every file-system call of a validation failing in any usual way, or delivering less than asked for, on every data file",
     "No test makes a read fail.",
     VAL + " punx/utils.py punx/validations " + NM + " " + CM, m(("missing objects are told from read errors", "punx/utils.py get_child"), ("re-raised read errors", VAL)),
     ["Data_File_Validator.validate", "exceptions", "isNeXusFile"],
     note="Seeded search over read faults (error, persistent error, short read, interrupt, vanished file) at sampled calls; oracle: the undisturbed run.")
prop("C18", "A read error never silently changes the tree that is shown",
     "If reading fails while the tree of a data file or NXDL file is made, the tree is either exactly the undisturbed one, or the failure is visible: as an error of the command, or as an error text in the place of the value that could not be read.",
     "fault_sequences inputs", "every file-system call failing in any usual way, on every file",
     "No test makes a read fail.",
     TREE + " punx/nxdltree.py punx/utils.py", m(("missing objects are told from read errors", "punx/utils.py get_child"), ("error text for arrays", TREE + " _renderNdArray")),
     ["Hdf5TreeView.report", "NxdlTreeView.report"],
     note="Seeded search over read faults; oracle: the undisturbed run.")
prop("C19", "Looking at a file never changes it and never keeps it open",
     "Validating, showing or testing data files, successfully or not, never writes to any file of the user, and leaves nothing open once the validator is closed (or gone) and the call has returned: neither the file nor files its links lead to.",
     "fault_sequences inputs crash_points", "every data file, damaged or not, every sequence of uses, with read errors, interrupts and kills",
     "Tests do not look at open handles or at the bytes of the files they read.",
     VAL + " " + TREE + " punx/utils.py", m(("read-only opening", VAL + " validate"), ("close", VAL + " close"), ("context managers", TREE + " report")),
     ["open descriptors of the process", "bytes and mutating calls seen by the seam"],
     note="Seeded search; the seam sees every call, open descriptors are listed after every call.")
prop("C20", "Every readable data file is validated and shown to its end",
     "Any file HDF5 can read (with names in UTF-8, as HDF5 requires), whatever types, shapes, texts, attributes and links it has (dangling, circular, into missing or damaged files), is validated and shown completely: neither command aborts or runs forever, every group and field is examined under its own address, and every object has its line in the tree.",
     "inputs fault_sequences", "every HDF5 content, and every damage or read error of the files external links lead to",
     "Tests use a dozen well-formed files.",
     VAL + " " + TREE + " punx/utils.py punx/validations", m(("links that lead nowhere", "punx/utils.py get_child"), ("cycles", VAL + " _group_address_catalog_"), ("odd types", "punx/utils.py decode_byte_string")),
     ["Data_File_Validator.addresses", "print_report", "Hdf5TreeView.report"],
     note="Seeded search over generated files with odd content, against the recipe each file was made from.")
prop("C21", "The exit status of validate and tree tells the truth",
     "`punx validate` and `punx tree` exit with success if and only if the file could be examined (for an NXDL file: if it is valid) and the complete report was delivered; a missing, damaged or invalid file, an unknown file set or kind of finding, a read error or a broken console makes them exit with failure. The report that is delivered tells what the validation found, and `punx demo` works with what is installed.",
     "inputs fault_sequences", "every command line, file (also missing, cut, foreign, spoilt), read error and error of the standard output",
     "Tests call the functions behind the commands, on good files, and ignore exit statuses.",
     "punx/main.py " + VAL + " punx/nxdltree.py", m(("errors become exit messages", "punx/main.py func_validate, func_tree, exit_message"), ("schema check of NXDL files", VAL + " validate_xml")),
     ["exit status", "standard output"],
     note="Seeded search over command lines, spoilt files, read faults and console faults.")
prop("C22", "Definitions are loaded exactly as their files say, or not at all",
     "Loading a file set yields exactly the classes, groups, fields, attributes, enumerations, dimensions, links and naming rules that its files define (and which of them are required: by default those of application definitions), for every valid set, in every directory order; if a file of the set can not be read completely, loading fails instead of yielding fewer or altered definitions.",
     "inputs fault_sequences", "every set of definitions, directory order, and failure or shortening of any read while loading",
     "Tests count the classes of the bundled sets.",
     NM + " punx/schema_manager.py punx/nxdl_schema.py", m(("parser", NM + " NXDL__definition.parse_nxdl_xml"), ("list of files", NM + " get_NXDL_file_list")),
     ["NXDL_Manager(name).classes", "NXDL_File_Set.schema_manager"],
     note="Seeded search over generated definitions and read faults; oracle: an independent parse of the same files.")

prop("C23", "A validation finds exactly what the file and the definitions call for",
     "Whenever a validation of a data file finishes, its findings are exactly those that the content of the file and the chosen definitions call for, each once, at the right address and with the right status: for every name by the naming rules of that file set, and for every attribute value, group, field and link, application definition and the default plot. The printed report has every finding of the requested kinds exactly once, the summary counts them, and the score is the mean of their values. This holds whatever was done before or is done at the same time, and whatever read errors or clock jumps were survived.",
     "inputs histories schedules fault_sequences", "every data file HDF5 can read, every file set, every history of validations and reports, thread schedule and read fault",
     "Tests assert single findings on a dozen files, each validated once, alone and undisturbed.",
     VAL + " punx/validations punx/finding.py", m(("name rules", "punx/validations/item_name.py"), ("attribute values", "punx/validations/attribute.py"),
                                                  ("groups against definitions", "punx/validations/base_class_items_in_hdf5_group.py, hdf5_group_items_in_base_class.py"),
                                                  ("default plot", "punx/validations/default_plot.py"), ("report", VAL + " print_report")),
     ["Data_File_Validator.validations", "finding_summary, finding_score", "print_report"],
     note="Seeded search; oracle: an executable reference model (sim/model.py) of the findings, computed from the file by h5py and from the definitions by an independent parser. Comments of findings are not judged.")
prop("C24", "The tree shows exactly what the data file contains",
     "Every tree of a data file that is delivered has one line, at its place and depth, for each group, field, link, named type and attribute of the file, with its NeXus class, its type and shape, and its value (arrays shortened to the requested number of items), in order of names, and nothing else. This holds for every option, whatever was done before or is done at the same time, and whatever read errors were survived. The tree of an NXDL file is what the stylesheet of the default file set makes of that file.",
     "inputs histories schedules fault_sequences", "every data file HDF5 can read, every option of the tree, histories of uses, thread schedules and read faults",
     "Tests compare the trees of a few files, made once and undisturbed.",
     TREE + " punx/utils.py", m(("groups", TREE + " _renderGroup"), ("arrays", TREE + " _renderNdArray"), ("attributes", TREE + " _renderAttribute")),
     ["Hdf5TreeView.report"],
     note="Seeded search; oracle: an executable reference model (sim/model.py) of the lines, computed from the file by h5py.")

NA = [
    ("N01", "Sub-command abbreviation", "punx command names may be shortened to any unique prefix of two or more characters.",
     "pure function of the argument list: no schedule, clock, I/O or fault can influence it, so there is nothing to simulate", "punx/main.py", "MyArgumentParser.parse_args"),
]


def main():
    with open(os.path.join(TOP, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
        for i, t, s, r, file, fn in NA:
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=["inputs"], text="every input of the function"),
                    why_tests_cant="The tests sample a few inputs.", anchors=dict(files=[file], mechanism=m((fn, file))))) + "\n")
    man = dict(version=1, setup_cmd="/opt/venv/bin/python -B check.py setup",
               checks=[dict(property=p["id"], quick_cmd="/opt/venv/bin/python -B check.py run " + p["id"],
                            thorough_cmd="/opt/venv/bin/python -B check.py run " + p["id"],
                            evidence_file="evidence/%s.json" % p["id"],
                            technique="deterministic simulation with fault injection (seeded search)",
                            level="exploration", level_note=LEVELS[p["id"]] or "Seeded search.") for p in PROPS],
               not_applicable=[dict(property=x[0], reason=x[3]) for x in NA],
               notes="No hooks in /repo: the seams are below libc (LD_PRELOAD), urllib3's connection pool and stdout. "
                     "`check.py replay FILE` reproduces a violation; `check.py selftest` proves determinism.")
    with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
