"""what each check runs"""

FSREAL = ["punx (all modules, compiled from /repo's working tree)", "requests", "zipfile", "json", "lxml",
          "PyQt5 QSettings", "glibc file I/O below the seam, on a scratch tmpfs"]
FSSTUB = ["GitHub: simulated server behind urllib3's connection pool", "clocks, sleep, random bytes: simulated",
          "directory order: simulated", "stdout: simulated pipe", "process death: everything after the fatal call is suppressed"]
FSASSUME = ["a crash is the death of the process: what the kernel accepted stays (no loss of dirty pages)",
            "the scratch file system (tmpfs) has POSIX rename atomicity",
            "exploration: sampled schedules and faults, not all of them"]


def P(module, quick, thorough, rule, **kw):
    d = dict(module=module, quick=quick, thorough=thorough, rule=rule, real=FSREAL, stub=FSSTUB, assumptions=FSASSUME)
    d.update(kw)
    return d


VALKW = dict(
    real=["punx (all modules, compiled from /repo's working tree)", "h5py and HDF5, lxml", "glibc file I/O below the seam, on a scratch tmpfs"],
    stub=["clocks: simulated", "directory order: simulated", "stdout: simulated pipe", "thread scheduling (C16): simulated, lines of punx's code are the switching points"],
    assumptions=["libraries (h5py, HDF5, lxml) are correct and atomic between lines of punx's code",
                 "exploration: sampled files, histories, schedules and faults, not all of them"])

PROPS = {
    "C01": P("cache", 300, 3000, "random caches, versions and install/update histories; one process is killed at a sampled (sometimes every) file-system call, sometimes inside a write; a run is non-trivial if the kill happened"),
    "C02": P("cache", 350, 3000, "random caches and one update; one storage error (one-shot or persistent, any call), Ctrl-C, failed download or broken stdout; non-trivial if the fault fired"),
    "C03": P("cache", 400, 2500, "random archives (layout, compression, dates, junk), install histories with moving refs, clock jumps, short reads and writes; every installed file is compared with the archive's content"),
    "C04": P("cache", 600, 3000, "random damage (21 kinds, or an unreadable/vanishing info file at the moment it is looked at) to sets in the user cache, then listing, configuration, validate, install"),
    "C05": P("cache", 350, 2500, "random histories of crashed and failed installations, then one undisturbed installation that must succeed exactly"),
    "C06": P("cache", 1500, 3000, "random caches, install without -u of sets that are present, with and without a network that fails"),
    "C07": P("cache", 1000, 2500, "random unusable downloads: cut, truncated, corrupted, wrong content, HTTP errors, login pages"),
    "C08": P("cache", 1000, 2500, "random sequences of connection failures, stalls, delays in simulated time"),
    "C09": P("conc", 220, 4000, "2 to 4 installers of the same or different sets as concurrent processes; seeded preemptions at any file-system call or body chunk, concentrated on renames and info files; one of them may be killed, interrupted or hit a storage error; non-trivial if processes really interleaved"),
    "C10": P("conc", 220, 4000, "configuration, listing, loading and validating next to one or two updating installers; seeded preemptions; non-trivial if processes really interleaved"),
    "C14": P("valid", 220, 4000, "random data files and file sets, each validated and shown twice, in environments that differ in one respect (clock, zone, locale, directory order, hash seed, location, time stamps, other sets, cache, HDF5 layout); every run counts as non-trivial", **VALKW),
    "C15": P("valid", 220, 5000, "random histories of 4 to 12 calls (new, validate, report, close, tree, isNeXusFile, load, schema) on two or three files; each answer is compared with a fresh process; non-trivial: more than two calls", **VALKW),
    "C16": P("valid", 260, 7000, "two or three threads, each with a script of its own; seeded thread switches at lines of punx's code; non-trivial if threads really interleaved", **VALKW),
    "C17": P("valid", 230, 4000, "one read error (one-shot, persistent), short read, interrupt or vanished file (sometimes two) at a sampled call of a validation; non-trivial if it fired", **VALKW),
    "C18": P("valid", 330, 6000, "the same faults while a tree is made", **VALKW),
    "C19": P("valid", 300, 6000, "one to three uses of files by validators, tree and isNeXusFile, undisturbed and with a read fault or a kill", **VALKW),
    "C20": P("valid", 350, 8000, "random files with odd types, texts and links; external targets missing, cut, foreign or unreadable", **VALKW),
    "C21": P("valid", 700, 8000, "random command lines of validate and tree on good, missing, cut, foreign and spoilt files; one read fault or output fault", **VALKW),
    "C22": P("valid", 350, 6000, "random definitions compared with an independent parse; one read fault while loading", **VALKW),
    "C11": P("cache", 1200, 3000, "random sets with tied and adjacent dates, install histories, directory orders, clock jumps, touched directories"),
    "C12": P("cache", 1200, 3000, "random histories of installs, removals, shadowed bundled sets, odd locations; the printed table is compared with a model"),
    "C13": P("cache", 900, 2500, "hostile ref names and archive member paths (and faults in the middle); everything outside the target set is compared byte by byte"),
    "C23": P("valid", 260, 6000, "random files and file sets; histories of validations and reports, undisturbed, with a read fault, or in two or three threads; every finding delivered is compared with a reference model", **VALKW),
    "C24": P("valid", 400, 6000, "random files; trees made with random options, undisturbed, with a read fault, or in threads; every line is compared with a reference model", **VALKW),
}
