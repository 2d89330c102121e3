"""Which harness runs decide which property."""


class Job:
    def __init__(self, name, src, mode, flavour="asan", wrap=(), args=(), inst=1, inst_thorough=None,
                 timeout=240, timeout_thorough=3600, env=None, hdefs=(), ldefs=(), libs=(), alone=False, extra=(),
                 locales=False, lowfd=False):
        self.name, self.src, self.mode, self.flavour = name, src, mode, flavour
        self.wrap, self.args = tuple(wrap), tuple(str(a) for a in args)
        self.inst = inst
        self.inst_thorough = inst_thorough if inst_thorough is not None else max(4, inst)
        self.timeout, self.timeout_thorough = timeout, timeout_thorough
        self.env, self.hdefs, self.ldefs, self.libs = env or {}, tuple(hdefs), tuple(ldefs), tuple(libs)
        self.alone = alone
        # instances rotate through process locales / run with descriptor 0 free
        self.locales, self.lowfd = locales, lowfd
        self.extra = tuple(extra)

    def sources(self):
        return (self.src,) + self.extra

    def bkey(self):
        return repr((self.src, self.extra, self.flavour, self.wrap, self.hdefs, self.ldefs, self.libs))


JOBS = {}
CHECKS = {}


def job(name, *a, **k):
    JOBS[name] = Job(name, *a, **k)
    return name


def check(cid, jobs, rule, level="exploration", need=("evaluations_",), assumptions=(), exhaustive=False,
          keep=None, drop=None):
    CHECKS[cid] = dict(jobs=list(jobs), rule=rule, level=level, need=[n for n in need if n != "evaluations_"],
                       assumptions=list(assumptions), exhaustive=exhaustive,
                       keep=keep, drop=drop)


# ---- varint
check("C12", [job("varint-roundtrip", "h_varint.cpp", "roundtrip", inst=2)],
      "one case = one value encoded and decoded; boundary values of every byte length and random bit widths, both signs, "
      "all six types; non-trivial: distinct (type, value)", need=["encoded"])
check("C13", [job("varint-hostile", "h_varint.cpp", "hostile", inst=2)],
      "one case = one byte string decoded as one type from a buffer that ends at an unreadable page; all continuation "
      "patterns of 0..11 bytes with boundary payloads plus random strings; non-trivial: distinct (type, given length, bytes)",
      need=["accepted", "rejected"])
# ---- list, hash
check("C10", [job("list-model", "h_list.cpp", "model", inst=3)],
      "one case = one operation on one of several lists sharing a pool of nodes, judged against sequence models; "
      "non-trivial: distinct (operation, list lengths, positions)", need=["long lists", "ops"])
check("C11", [job("list-walk", "h_list.cpp", "walk", inst=2)],
      "one case = one complete walk (macro, list length, which elements are removed/moved/freed on the way); "
      "non-trivial: distinct tuples with a non-empty list", need=["long walks", "walks"])
job("hash-large", "h_hash.cpp", "large", inst=1, env={"ASAN_OPTIONS+": "max_allocation_size_mb=1000"})
check("C08", [job("hash-model", "h_hash.cpp", "model", inst=3), "hash-large"],
      "one case = one call judged against a map model; histories mix key families (sequential, strided, power-of-two "
      "aligned, random, single-bucket) and all table sizes; non-trivial: distinct (table size, operation, result, key "
      "state, chain situation)", need=["large tables", "table sizes", "ops", "maps with a callback"], drop="^free callback")
check("C09", [job("hash-own", "h_hash.cpp", "own", inst=2), "hash-large"],
      "one case = one entry life (inserted then removed/cleared/destroyed/refused) with every free callback call counted "
      "per datum and heap balance checked; non-trivial: distinct (exit path, table size, population)", need=["large tables", "freed"], drop="lookup|insert of|remove of|entry list|^init fails")
# ---- mailboxes
MBW = ["pipe", "pipe2", "write", "read", "poll", "ppoll", "select", "nanosleep", "usleep", "clock_nanosleep", "pthread_cond_clockwait", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait",
       "pthread_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_condattr_setclock",
       "clock_gettime", "gettimeofday"]


def mbjob(name, src, mode, **k):
    return job(name, src, mode, wrap=MBW, extra=("wrapdelay.cpp",), **k)


mbjob("mbox-single", "h_mbox.cpp", "single")
mbjob("mbox-mt", "h_mbox.cpp", "mt", inst=4, inst_thorough=8)
mbjob("mbox-virtual", "h_mbox.cpp", "virtual", inst=2)
mbjob("mbox-real", "h_mbox.cpp", "real", inst=2)
mbjob("mbox-tsan", "h_mbox.cpp", "tsan", flavour="tsan", inst=3)
check("C01", ["mbox-single", "mbox-mt"],
      "one case = one call of a single-thread history judged against a queue model, or one window of 8 consecutive "
      "arrivals of a multi-producer run; non-trivial: distinct (size, call, result, fill) and distinct arrival orders "
      "with at least two producers", need=["pushed", "peeked", "refused when full", "peeks when empty", "delivered"],
      drop="^read fd|timed out|times out")
check("C02", ["mbox-virtual", "mbox-real", "mbox-mt"],
      "one case = one blocking push on a full mailbox with a given timeout, consumer instant and interruptions (in virtual "
      "or real time), or one arrival window under contention; non-trivial: distinct tuples / arrival orders",
      need=["virtual timeouts|virtual time unusable", "virtual successes|virtual time unusable", "real timeouts", "real wake-ups",
            "block timeouts", "delivered", "timeouts with room"],
      drop="^read fd")
mbjob("dyn-single", "h_dynmbox.cpp", "single", inst=3)
mbjob("dyn-mt", "h_dynmbox.cpp", "mt", inst=4, inst_thorough=8)
mbjob("dyn-virtual", "h_dynmbox.cpp", "virtual", inst=2)
mbjob("dyn-real", "h_dynmbox.cpp", "real", inst=2)
mbjob("dyn-tsan", "h_dynmbox.cpp", "tsan", flavour="tsan", inst=3)
check("C03", ["dyn-virtual", "dyn-real", "dyn-mt"],
      "one case = one blocking push with a given timeout, size, consumer script and spurious wake-ups (virtual or real "
      "time), or one burst of a concurrent run; non-trivial: distinct tuples / burst histories",
      need=["virtual timeouts|virtual time unusable", "virtual successes|virtual time unusable", "real timeouts", "real wake-ups",
            "pushed blocking"],
      drop="^read fd|^peek of|maximum message refused")
check("C04", ["dyn-single", "dyn-mt"],
      "one case = one call of a single-thread history judged against a queue model (ring position, size, fill), or one "
      "burst of a concurrent run; non-trivial: distinct (position modulo 64 KiB, call, size, pending, result)",
      need=["pushed", "peeked", "delivered", "pushed above PIPE_BUF"],
      drop="^read fd|timed out|times out|maximum message|acceptance differs|new mailbox|oversized|missing buffer|creation")
check("C05", ["mbox-single", "mbox-mt", "dyn-single", "dyn-mt"],
      "one case = one quiescent point after a call (fd polled, compared with the model's emptiness) or one arrival window "
      "/ burst of a concurrent run whose consumer relies on poll events; non-trivial: distinct situations",
      need=["pushed", "peeked", "delivered", "peeks when empty"],
      keep="^read fd|accepted and delivered|left over")
check("C06", ["dyn-single"],
      "one case = one call of a history; refused and accepted pushes are compared with a new mailbox holding the same "
      "messages; non-trivial: distinct (position, call, size, pending, result)",
      need=["compared with a new mailbox", "positions around the end", "refused when full", "invalid pushes", "sizes created"],
      drop="^read fd|timed out")
check("C07", ["mbox-tsan", "dyn-tsan"],
      "one case = one arrival window / burst of a ThreadSanitizer run; non-trivial: distinct interleavings observed",
      need=["delivered", "rounds"],
      keep="^$")
# ---- random
RW = ["getrandom", "getentropy", "syscall", "open", "open64", "openat", "read", "close"]
job("rnd-bounded", "h_random.cpp", "bounded", flavour="plain", wrap=RW, inst=2)
job("rnd-bytes", "h_random.cpp", "bytes", flavour="plain", wrap=RW, inst=1)
job("rnd-bytes-asan", "h_random.cpp", "bytes", wrap=RW, inst=1)
job("rnd-text", "h_random.cpp", "text", flavour="plain", wrap=RW, inst=1)
job("rnd-text-asan", "h_random.cpp", "text", wrap=RW, inst=1)
job("rnd-shuffle", "h_random.cpp", "shuffle", flavour="plain", wrap=RW, inst=1)
job("rnd-hugeshuffle", "h_random.cpp", "hugeshuffle", flavour="plain", wrap=RW, inst=1, inst_thorough=1, timeout=400, timeout_thorough=3000)
job("rnd-shuffle-asan", "h_random.cpp", "shuffle", wrap=RW, inst=1)
job("rnd-streams", "h_random.cpp", "streams", flavour="plain", wrap=RW, inst=3)
job("rnd-tsan", "h_random.cpp", "tsan", flavour="tsan", wrap=RW, inst=2)
job("rnd-memory", "h_random.cpp", "memory", flavour="plain", wrap=RW, inst=2)
job("rnd-entropy", "h_random.cpp", "entropy", wrap=RW, inst=2, lowfd=True)
check("C14", ["rnd-bounded"],
      "one case = one recorded draw (width, maximum, value), all draws of a maximum entering chi-square tests (all values "
      "for small ranges, 61 range cells and remainders otherwise); entropy is seeded so that a run repeats; non-trivial: "
      "distinct (width, maximum > 0, value)", need=["draws", "statistical tests"])
job("rnd-huge", "h_random.cpp", "huge", flavour="plain", wrap=RW, inst=1, inst_thorough=1, timeout=500)
check("C15", ["rnd-bytes", "rnd-bytes-asan", "rnd-huge"],
      "one case = one request (size, repeat) or a sampled draw; every byte must vary over 14 repeats, every 16 byte window "
      "of a mixed history must be new, every bit and pair of bits passes coin tests; non-trivial: distinct requests of at "
      "least one byte", need=["fills", "statistical tests", "windows compared", "requests beyond 4 GiB"])
check("C16", ["rnd-text", "rnd-text-asan"],
      "one case = one text (kind, count, buffer size), with structure checked against the encoding's definition and every "
      "character position and pair of bits tested for uniformity; non-trivial: distinct (kind, count > 0, size)",
      need=["long alphabets", "texts", "statistical tests"])
check("C17", ["rnd-shuffle", "rnd-shuffle-asan", "rnd-hugeshuffle"],
      "one case = one shuffled array (count, item size, content); all permutations of 2..5 items counted, positions and "
      "order of neighbours for larger arrays; arrays whose items or whose bytes exceed 32 bits; non-trivial: at least 2 items", need=["arrays beyond 4 GiB", "large shuffles", "shuffles", "statistical tests"])
check("C18", ["rnd-streams"],
      "one case = one step (reseed, fork with reseed, concurrent use) over several threads, all 12 byte windows of all "
      "streams compared, including what each thread would have given without the reseed (a forked snapshot); "
      "non-trivial: distinct histories", need=["long series of reseeds", "reseeds while a thread seeds", "reseeds in a new thread", "reseeds in a process", "reseeded children", "windows compared"])
check("C19", ["rnd-memory"],
      "one case = a burst of requests followed by a scan of all writable memory except stacks for every 8 byte window of "
      "what was delivered and of the seeds; non-trivial: distinct bursts",
      need=["kept bytes tried as keys", "output windows searched", "seed windows searched", "oracle self-test"])
check("C20", ["rnd-entropy"],
      "one case = one script of results of getrandom/open/read (all single faults, then random sequences) for the strong "
      "source, an unseeded generator or a reseed, in a fresh process; non-trivial: distinct (script, calls made)",
      level="fault_enumeration",
      need=["strong delivered", "strong refused", "generator seeded", "generator stopped", "reseeded", "reseed refused", "seed bytes that matter", "device failing for good"])
CHECKS["C07"]["jobs"].append("rnd-tsan")
# ---- time
CW = ["clock_gettime", "gettimeofday", "time", "nanosleep", "clock_nanosleep", "usleep"]
job("time-arith", "h_time.cpp", "arith", wrap=CW, inst=3)
job("time-clock", "h_time.cpp", "clock", wrap=CW, inst=3)
check("C21", ["time-arith"],
      "one case = one operation on times around zero, second boundaries and type limits, judged with 128 bit integer "
      "arithmetic; non-trivial: distinct (operation, magnitude, borrow/carry situation)",
      need=["differences", "differences in place", "differences in us", "range checks", "comparisons", "additions", "conversions", "missing arguments"])
check("C26", ["time-clock"],
      "one case = one reading, elapsed time, sleep or conversion under scripted clocks (time passing and failures at each "
      "reading) or the real clocks; non-trivial: distinct (operation, magnitude, fault, spread class)",
      need=["clock readings", "elapsed times", "sleeps", "sleeps interrupted", "conversions to real time",
            "conversions with a failing clock", "real sleeps"])
SW = ["clock_gettime", "gettimeofday", "time", "settimeofday", "clock_settime", "stime"]
job("systime-format", "h_systime.cpp", "format", wrap=SW, inst=4, locales=True)
job("systime-hostile", "h_systime.cpp", "hostile", wrap=SW, inst=4, locales=True)
job("systime-ctx", "h_systime.cpp", "ctx", wrap=SW, inst=4, locales=True)
job("systime-local", "h_systime.cpp", "local", wrap=SW, inst=4, locales=True)
check("C22", ["systime-format"],
      "one case = one (instant, offset, form) formatted, compared with a calendar and parsed back; every 11th day of "
      "1970..9999 (every day when thorough), month boundaries, all offsets, small buffers; non-trivial: distinct tuples",
      need=["days", "month boundaries", "offsets", "small buffers", "empty buffers", "unknown formats"])
check("C23", ["systime-hostile"],
      "one case = one text in an exactly sized heap object, classed by an independent grammar as valid, to refuse or "
      "unspecified; non-trivial: distinct shapes (digits folded) of non-empty texts",
      need=["valid: accepted", "to refuse: refused", "unspecified: accepted|unspecified: refused"])
check("C24", ["systime-ctx"],
      "one case = one history of calls on a context judged against a model; non-trivial: distinct (calls, results)",
      need=["calls", "already set", "in progress", "times read"])
check("C25", ["systime-local"],
      "one case = one conversion to and from a broken-down time, or one reading/setting of the system time through "
      "stand-ins; non-trivial: distinct (day, offset) / (instant, zone, arguments)",
      need=["broken-down times", "system times read", "times around a change of season", "zone changes", "times read while time passes", "failing clock", "settings", "refused settings"])
job("props", "h_props.cpp", "all", wrap=["gettimeofday", "clock_gettime", "time", "settimeofday", "clock_settime"], ldefs=("-DBUILD_LIBPUTILS",), inst=4, locales=True)
check("C42", ["props"],
      "one case = one setting, reading or conversion by the library built with a property store (a stand-in store, stand-ins "
      "for the clocks); non-trivial: distinct arguments, properties and faults",
      need=["settings", "refused settings", "offsets read", "offsets absent", "padded numbers", "simulated conversions", "starts out of range",
            "conversions without a simulation"])
# ---- strings, macros
job("utf8-sanitize", "h_utf8.cpp", "sanitize", inst=4, locales=True)
job("utf8-check", "h_utf8.cpp", "check", inst=4, locales=True)
check("C32", [job_ for job_ in ["utf8-sanitize"]],
      "one case = one text (all character widths, malformed sequences), output size, forbidden set and replacement; output "
      "in a heap object of exactly the given size; non-trivial: distinct non-empty (text, size, set, replacement)",
      need=["long texts", "characters of the whole range", "replacements by every character", "cut", "whole", "with replacements", "cut inside a character", "malformed refused", "too small buffers"])
check("C33", ["utf8-check"],
      "one case = one text with byte and character limits around its own lengths and a forbidden set; every lead byte "
      "pair; single characters of the whole range; non-trivial: distinct non-empty (text, limits, set)",
      need=["long texts", "characters of the whole range", "sane", "malformed", "too long", "too many", "forbidden", "single characters", "lead byte pairs"])
job("cpp-helpers", "h_cpp.cpp", "all", inst=3)
check("C34", ["cpp-helpers"],
      "one case = one pair of strings or one path (all paths over three characters up to 8 characters, then random ones); "
      "non-trivial: distinct non-empty arguments", need=["starts", "ends", "strings", "paths"])
job("macro", "h_macro.cpp", "all", inst=1, extra=("macro_c.c",))
check("C40", ["macro"],
      "one case = one combination of values of one of 12 types through all macros with counted evaluations; non-trivial: "
      "distinct value combinations", need=["types", "arrays"])
# ---- safe write
job("safew-atomic", "h_safew.cpp", "atomic", extra=("alloc.cpp",), flavour="plain", inst=3, lowfd=True)
job("safew-readers", "h_safew.cpp", "readers", extra=("alloc.cpp",), flavour="plain", inst=1)
job("safew-long", "h_safew.cpp", "long", flavour="plain", extra=("alloc.cpp",), inst=2, lowfd=True)
job("safew-recover", "h_safew.cpp", "recover", extra=("alloc.cpp",), flavour="plain", inst=6, inst_thorough=8, lowfd=True)
job("safew-faults", "h_safew.cpp", "faults", extra=("alloc.cpp",), flavour="plain", inst=6, inst_thorough=8, lowfd=True)
job("safew-table", "h_safew.cpp", "table", hdefs=("-DNO_ALLOC",), inst=2, lowfd=True)
job("safew-checkfaults", "h_safew.cpp", "checkfaults", extra=("alloc.cpp",), flavour="plain", inst=6, inst_thorough=8, lowfd=True)
check("C27", ["safew-atomic", "safew-readers", "safew-long"],
      "one case = one rewrite observed call by call: the file is judged after every system call, inside every write and for "
      "every set of unsynchronised contents a power loss may drop, by readers opened at every call, and in real kills; or "
      "one content change seen by concurrent readers; non-trivial: distinct (call sequence, sizes, kind)",
      level="fault_enumeration",
      need=["crash points", "power loss images", "readers", "real kills", "commits", "rollbacks", "concurrent reads",
            "content changes seen", "writers killed", "writes", "stale links"],
      assumptions=["a power loss keeps the order of metadata operations and everything synchronised; unsynchronised "
                   "contents are kept, halved, zeroed or reverted per file"])
check("C28", ["safew-recover"],
      "one case = one file check run on one state reached by dying or losing power at a call of the rewrite or of earlier "
      "checks, explored to closure; non-trivial: distinct (contents, durable contents)",
      level="fault_enumeration",
      need=["rewrites", "rewrites over stale temporary files", "recoveries", "nested states", "committed rewrites checked", "real kills keeping the old"],
      assumptions=["a power loss keeps the order of metadata operations and everything synchronised; unsynchronised "
                   "contents are kept, halved, zeroed or reverted per file"])
check("C29", ["safew-faults"],
      "one case = one rewrite with one system call failing or transferring less (or everything failing from a call on), "
      "followed by a check and sometimes another rewrite; non-trivial: distinct (call sequence, call, fault)",
      level="fault_enumeration",
      need=["faults reported", "faults without consequence|faults reported", "short transfers overcome", "checks after a fault", "rewrites after a fault"])
check("C30", ["safew-table"],
      "one case = one set of files given to the check, judged by the documented table; all combinations of absent, matching, "
      "mismatching and truncated files, changed bits; non-trivial: distinct sets",
      need=["table entries", "payload kept", "temporary payload kept", "invalid", "bits changed", "repeated checks", "commits", "names"])
check("C31", ["safew-checkfaults"],
      "one case = one set of files, one system call of the check failing or reading less, then a check without failure; "
      "non-trivial: distinct (set, call, fault)", level="fault_enumeration",
      need=["valid files", "invalid files", "error reported", "succeeded despite the fault|error reported"])
# ---- directory size, sync helpers
job("fs-trees", "h_fsx.cpp", "trees", flavour="plain", wrap=("readdir", "readdir64"), extra=("alloc.cpp",), inst=2, lowfd=True)
job("fs-deep", "h_fsx.cpp", "deep", flavour="plain", wrap=("readdir", "readdir64"), extra=("alloc.cpp",), inst=1, lowfd=True)
job("fs-dirfaults", "h_fsx.cpp", "dirfaults", flavour="plain", wrap=("readdir", "readdir64"), extra=("alloc.cpp",), inst=3, lowfd=True)
check("C35", ["fs-trees", "fs-deep", "fs-dirfaults"],
      "one case = the size of one generated tree (known by construction), of a path around the system's limit, with few "
      "descriptors left, or with one system call failing; non-trivial: distinct (sizes, entries) or (call, fault)",
      need=["entries", "hidden entries", "sums above 32 bits", "trees with files below", "entries of kind link", "refused",
            "longest paths reached", "paths too long", "full paths", "out of descriptors|enough descriptors", "faults reported"])
job("sync", "h_fsx.cpp", "sync", flavour="plain", wrap=("readdir", "readdir64"), extra=("alloc.cpp",), inst=3, lowfd=True)
check("C36", ["sync"],
      "one case = one helper call with its system calls recorded (none, one or two of them failing), judged by which inodes "
      "were successfully synchronised during the call; non-trivial: distinct (helper, path, calls, faults)",
      level="fault_enumeration",
      need=["synchronised", "failures reported", "double failures", "wrong arguments", "long paths"])
# ---- inotify
job("ino-diff", "h_inotify.cpp", "diff", inst=2, lowfd=True)
job("ino-reenter", "h_inotify.cpp", "reenter", inst=2, lowfd=True)
job("ino-live", "h_inotify.cpp", "live", inst=2, lowfd=True)
job("ino-create", "h_inotify.cpp", "create", inst=1)
check("C37", ["ino-diff", "ino-reenter", "ino-live", "ino-create"],
      "one case = one processing call compared event by event with a raw descriptor watching the same paths, or one "
      "creation (succeeding, refused, without descriptors, with a failing system call); non-trivial: distinct (masks, "
      "lengths, bytes queued) with something queued",
      need=["events reported", "batches above the stack buffer", "batches within the stack buffer", "exactly 512 bytes",
            "nothing queued", "more than 64 KiB queued|more than 1 MiB queued", "events without name", "events with the longest names", "renames", "nested calls",
            "callbacks making events", "live events", "overflow events", "events behind an overflow", "refused creations", "no descriptor left",
            "failing system calls"])
# ---- descriptors
job("fd-flags", "h_fd.cpp", "flags", inst=1)
job("fd-exec", "h_fd.cpp", "exec", inst=1)
job("fd-histories", "h_fd.cpp", "histories", inst=2)
check("C38", ["fd-flags", "fd-exec", "fd-histories"],
      "one case = one helper call on one kind of descriptor with some flags, compared with the raw calls on a twin; one set "
      "of objects across a real exec; or one creation in a history with descriptors running out; non-trivial: distinct "
      "(kind, flags, added) adding something, or distinct creations",
      need=["flags added", "flags refused", "close-on-exec set", "queries", "bad descriptors", "failing system calls",
            "programs executed", "descriptors closed by exec", "created", "destroyed", "creations refused",
            "creations without descriptors", "descriptors examined", "balances", "descriptor 0"])
# ---- allocation failures
YW = ("fsync", "fdatasync", "syncfs", "sync")
job("oom", "h_oom.cpp", "all", flavour="plain", wrap=YW, extra=("alloc.cpp",), inst=3)
job("oom-asan", "h_oom.cpp", "all", hdefs=("-DNO_CXX",), extra=("alloc_wrap.cpp",),
    wrap=("malloc", "calloc", "realloc", "strdup", "strndup") + YW, inst=2)
check("C39", ["oom", "oom-asan"],
      "one case = one library call with one allocation (or it and all the following) failing, then the same call with "
      "memory; allocations made by the C library on its behalf included; non-trivial: distinct (call, parameters, "
      "allocation) where the failure really happened", level="fault_enumeration",
      need=["failures injected", "retries", "life cycles"])

job("conc-tsan", "h_conc.cpp", "tsan", flavour="tsan", inst=3)
job("conc", "h_conc.cpp", "digest", flavour="plain", inst=2)
check("C41", ["conc-tsan", "conc"],
      "one case = one sequence of calls of one module on its own objects, run alone and then beside others (of the same "
      "module or mixed) and compared result by result; non-trivial: distinct sequences",
      need=["results compared"] + ["threads: " + w for w in ("systime", "time", "varint", "text", "fs", "safew", "hash",
                                                             "list", "mbox", "inotify", "shared readers")])
# ---- uninitialised memory
job("init-msan", "h_init.c", "all", flavour="msan", inst=3,
    wrap=("fwrite", "write", "timegm", "mktime", "malloc", "calloc", "strdup", "lstat", "lstat64", "clock_gettime", "gettimeofday"))
job("cpp-valgrind", "h_cpp.cpp", "all", flavour="vg")
check("C43", ["init-msan", "cpp-valgrind"],
      "one case = one call under MemorySanitizer, the outputs and what lies behind the inputs marked as uninitialised "
      "before, the outputs looked at afterwards (or one call of a C++ helper under valgrind); non-trivial: distinct (call, input)",
      need=["oracle self-test", "outputs looked at", "varints read", "varints refused", "time operations", "times parsed",
            "times refused", "contexts completed", "dates", "random requests", "table operations", "lists",
            "texts sanitised", "texts refused", "mailbox operations", "creations refused", "safe writes",
            "file checks accepted", "file checks refused", "events", "bytes given to descriptors", "paths", "strings"],
      keep="^(result not initialised|bytes given)")
# ---- state of the process
job("state", "h_state.cpp", "all", flavour="plain", inst=4, locales=True,
    wrap=("chdir", "fchdir", "umask", "setenv", "unsetenv", "putenv", "setitimer", "alarm", "setrlimit", "srand", "srandom",
          "srand48", "dup2", "signal", "sigaction", "setlocale", "settimeofday", "clock_settime", "stime",
          # failures injected
          "read", "__read_chk", "write", "fopen", "fopen64", "fwrite", "fflush", "fsync", "rename", "poll", "__poll_chk",
          "pipe", "pipe2", "opendir", "readdir", "readdir64", "lstat", "lstat64", "malloc", "calloc", "strdup",
          "inotify_init1", "inotify_add_watch", "nanosleep", "clock_gettime", "gettimeofday", "iconv_open", "open", "open64",
          "ioctl", "getrandom"))
check("C44", ["state"],
      "one case = one call (successful, refused or failing) with the state of the process compared before and after, and "
      "changes during the call seen at the C library; non-trivial: distinct (call, result, setting)",
      need=["state items compared", "settings", "failed calls", "successful calls", "failures injected"])
