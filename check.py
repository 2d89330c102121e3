#!/usr/bin/env python3
"""Runner of the checks: check.py <ID> | --setup | --replay FILE | --all [IDs]

Builds the harnesses of one property from the working tree of /repo (override with
VP_REPO for experiments on scratch copies), runs them, turns what the monitors and
sanitizers reported into a verdict, writes evidence/<ID>.json.
Exit 0 held, 1 violation, 2 no answer (build or harness trouble)."""
import concurrent.futures as cf
import copy
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from jobs import CHECKS, JOBS  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
SEED &= 0x7fffffffffff
NCPU = os.cpu_count() or 4

COMMON = ["-g", "-fno-omit-frame-pointer", "-D_FILE_OFFSET_BITS=64", "-D_GNU_SOURCE",
          "-fno-common", "-w", "-U_FORTIFY_SOURCE"]
FLAVOUR = {
    "asan": ("gcc", "g++", ["-O1", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow",
                            "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]),
    "plain": ("gcc", "g++", ["-O2"]),
    "tsan": ("gcc", "g++", ["-O1", "-fsanitize=thread"]),
    "msan": ("clang", "clang++", ["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins"]),
    # under valgrind: confirms or clears what MemorySanitizer reports
    "vg": ("gcc", "g++", ["-O1", "-DMON_VALGRIND"]),
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:handle_abort=0:strict_string_checks=1:allocator_release_to_os_interval_ms=-1:"
                    "quarantine_size_mb=32",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:report_signal_unsafe=0:report_thread_leaks=0:second_deadlock_stack=1:history_size=4",
    "MSAN_OPTIONS": "exitcode=99",
    "LC_ALL": "C", "TZ": "UTC",
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash():
    fs = sorted(glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/*.h")
                + glob.glob(ROOT + "/harness/**/*.h", recursive=True))
    return sha(*[x for f in fs if os.path.isfile(f) for x in (os.path.basename(f), rd(f))])


HH = None


def compile_one(src, flavour, extra, cache):
    cc, cxx, fl = FLAVOUR[flavour]
    isx = src.endswith((".cpp", ".cc"))
    inrepo = src.startswith(REPO + "/")
    cmd = [cxx if isx else cc] + COMMON + fl
    if isx:
        cmd += ["-std=c++11"] if inrepo else ["-std=gnu++17"]
    cmd += ["-I" + REPO + "/include", "-I" + ROOT + "/harness/include", "-I" + ROOT + "/harness"]
    cmd += extra
    key = sha(HH, " ".join(cmd), os.path.basename(src), rd(src))
    obj = os.path.join(cache, key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("compiling %s (%s):\n%s" % (src, flavour, r.stdout.decode(errors="replace")[:1500]))
    os.rename(tmp, obj)
    return obj


def build(jobs, work):
    """-> {build key: executable}"""
    global HH
    HH = headers_hash()
    cache = os.path.join(ROOT, ".cache")
    try:
        os.makedirs(cache, exist_ok=True)
        with open(os.path.join(cache, ".w"), "w"):
            pass
    except OSError:
        cache = os.path.join(work, "cache")
        os.makedirs(cache, exist_ok=True)
    lib = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/*.cpp"))
    want = {}
    for j in jobs:
        want.setdefault(j.bkey(), j)
    objs = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {}
        for k, j in want.items():
            for s in j.sources():
                src = os.path.join(ROOT, "harness", s)
                futs[(src, j.flavour, tuple(j.hdefs))] = None
            for s in lib:
                futs[(s, j.flavour, tuple(j.ldefs))] = None
        # biggest first
        for key in sorted(futs, key=lambda k: -os.path.getsize(k[0]) - (1 << 20) * (not k[0].startswith(REPO))):
            futs[key] = ex.submit(compile_one, key[0], key[1], list(key[2]), cache)
        for key, f in futs.items():
            objs[key] = f.result()
        exes = {}

        def link(k, j):
            out = os.path.join(work, "h_" + sha(k)[:12])
            hs = [objs[(os.path.join(ROOT, "harness", s), j.flavour, tuple(j.hdefs))] for s in j.sources()]
            ls = [objs[(s, j.flavour, tuple(j.ldefs))] for s in lib]
            cmd = [FLAVOUR[j.flavour][1]] + FLAVOUR[j.flavour][2] + ["-g"] + hs + ls + \
                ["-Wl,--wrap=" + w for w in j.wrap] + ["-o", out, "-lpthread", "-lrt", "-lm", "-ldl"] + list(j.libs)
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise BuildError("linking %s:\n%s" % (j.src, r.stdout.decode(errors="replace")[:1500]))
            return out
        lf = {k: ex.submit(link, k, j) for k, j in want.items()}
        for k, f in lf.items():
            exes[k] = f.result()
    return exes


def prune_cache():
    cache = os.path.join(ROOT, ".cache")
    try:
        fs = [(os.path.getmtime(os.path.join(cache, f)), os.path.join(cache, f)) for f in os.listdir(cache)]
    except OSError:
        return
    fs.sort()
    tot = 0
    for m, f in reversed(fs):
        try:
            tot += os.path.getsize(f)
            if tot > 1500e6:
                os.unlink(f)
        except OSError:
            pass


SAN_RE = re.compile(r"(ERROR: (?:Address|Thread|Memory|Leak)Sanitizer[^\n]*|WARNING: (?:Thread|Memory)Sanitizer[^\n]*|"
                    r"[^\n]*runtime error: [^\n]*|SUMMARY: \w+Sanitizer[^\n]*)")

VG_RE = re.compile(r"==\d+== ((?:Conditional jump or move depends|Use of uninitialised value|Invalid (?:read|write)|"
                   r"Syscall param \S+ (?:points to|contains) uninitialised)[^\n]*)")


class Result:
    def __init__(self):
        self.stats, self.samples, self.viols = {}, [], []
        self.trouble = None
        self.hang = None
        self.done = False
        self.skipped = False
        self.wall = 0.0


def san_key(err):
    """stable identity of a sanitizer report: kind + innermost repo frame"""
    kind = "sanitizer"
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        kind = "UBSan: " + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:100]
    m = re.search(r"(?:ERROR|WARNING): (\w+Sanitizer): ([\w\- ]+)", err)
    if m:
        kind = m.group(1) + ": " + m.group(2).split(" on ")[0].strip()[:60]
    m = VG_RE.search(err)
    if m:
        kind = "valgrind: " + m.group(1)[:60]
    fr = ""
    for m in re.finditer(r"(?:at|by) 0x[0-9A-F]+: (\w+)[^\n]*\((\w+\.(?:c|cpp)):\d+\)", err) if m else ():
        if os.path.exists(REPO + "/src/" + m.group(2)):
            fr = " in %s (%s)" % (m.group(1), m.group(2))
            break
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+)[^\n]*?/(src|include/futils)/(\w+\.\w+)", err):
        fr = " in %s (%s)" % (m.group(1), m.group(3))
        break
    return kind + fr


LOCALES = [None, ("fr_FR.UTF-8", "fr_FR", "UTF-8"), ("tr_TR.ISO-8859-9", "tr_TR", "ISO-8859-9"),
           ("zh_CN.GB18030", "zh_CN", "GB18030")]


def locales(work):
    """directory of the compiled locales, None if they cannot be made"""
    for base in (os.path.join(ROOT, ".cache"), work):
        d = os.path.join(base, "locales")
        if os.path.isdir(d):
            return d
        try:
            tmp = tempfile.mkdtemp(prefix="loc_", dir=base)
        except OSError:
            continue
        for l in LOCALES[1:]:
            subprocess.run(["localedef", "-c", "-i", l[1], "-f", l[2], os.path.join(tmp, l[0])],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
            if not os.path.isdir(os.path.join(tmp, l[0])):
                shutil.rmtree(tmp, ignore_errors=True)
                return None
        os.chmod(tmp, 0o755)
        try:
            os.rename(tmp, d)
        except OSError:  # made by another check meanwhile
            shutil.rmtree(tmp, ignore_errors=True)
        return d
    return None


def run_job(j, exe, work, seed):
    scratch = tempfile.mkdtemp(prefix="s_", dir=work)
    os.chmod(scratch, 0o777)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF", "LD_", "MALLOC"))}
    env.update(SAN_ENV)
    env.update({k: v for k, v in j.env.items() if not k.endswith("+")})
    for k, v in j.env.items():
        if k.endswith("+"):
            env[k[:-1]] = env[k[:-1]] + ":" + v
    if j.locales and LOCALES[seed % 4]:
        d = locales(work)
        if d:
            env["LOCPATH"], env["LC_ALL"] = d, LOCALES[seed % 4][0]
            env["VP_LOCALE"] = LOCALES[seed % 4][0]
    if j.lowfd and seed % 2:
        env["VP_LOWFD"] = "1"
    env["VP_SCRATCH"] = scratch
    env["TMPDIR"] = scratch
    tmo = j.timeout if TIER == "quick" else j.timeout_thorough
    cmd = [exe, TIER, str(seed), j.mode] + list(j.args)
    if j.flavour in ("tsan", "msan") and shutil.which("setarch"):
        cmd = ["setarch", "-R"] + cmd
    if j.flavour == "vg":
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--vgdb=no"] + cmd
    outp, errp = os.path.join(scratch, ".stdout"), os.path.join(scratch, ".stderr")
    res = Result()
    t0 = time.time()
    with open(outp, "wb") as fo, open(errp, "wb") as fe:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=env, cwd=scratch,
                             start_new_session=True)
        try:
            rc = p.wait(tmo)
            timed = False
        except subprocess.TimeoutExpired:
            timed = True
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    out = rd(outp).decode(errors="replace")
    err = rd(errp).decode(errors="replace")
    for l in out.split("\n"):
        if l.startswith("STAT "):
            k, v = l[5:].rsplit(" ", 1)
            res.stats[k] = int(v)
        elif l.startswith("SAMPLE "):
            res.samples.append(l[7:])
        elif l.startswith("VIOL "):
            k, _, d = l[5:].partition(" | ")
            res.viols.append((k, d, ""))
        elif l.startswith("HARNESS "):
            res.trouble = l[8:]
        elif l.startswith("HANG "):
            res.hang = l[5:]
        elif l == "DONE":
            res.done = True
    m = (VG_RE if j.flavour == "vg" else SAN_RE).search(err)
    if m and (rc == 99 or not res.done or j.flavour == "tsan"):
        res.viols.append((san_key(err), m.group(1)[:300], err[:6000]))
        res.trouble = None
    elif not res.done and res.trouble is None and res.hang is None:
        if timed:
            res.hang = "no end within %ds" % tmo
        elif rc is not None and rc < 0:
            a = re.search(r"[^\n]*Assertion[^\n]*", err)
            res.viols.append(("crash: signal %d%s" % (-rc, " (assertion)" if a else ""),
                              a.group(0) if a else err[-500:], err[-6000:]))
        else:
            res.trouble = "exit %s without DONE: %s" % (rc, (err or out)[-1500:])
    res.wall = time.time() - t0
    try:  # directories a fault may have left unreadable
        subprocess.run(["chmod", "-R", "u+rwx", scratch], stderr=subprocess.DEVNULL)
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    return res


def load_known():
    out = []
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(.*?) -- (.*)", l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


vg_lock = threading.Lock()


def confirm(j, r, work, seed):
    """MemorySanitizer does not know all functions and system calls which write memory: valgrind has the last word"""
    if not shutil.which("valgrind"):
        return r
    v = copy.copy(j)
    v.flavour = "vg"
    try:
        with vg_lock:
            exe = build([v], work)[v.bkey()]
    except BuildError as e:
        return r
    r2 = run_job(v, exe, work, seed)
    if r2.viols:
        r2.viols = r.viols + r2.viols
        return r2
    if not r2.done:
        return r
    for x in r.viols[:3]:
        print("NOTE: %s: '%s' is not confirmed by valgrind" % (j.name, x[0]))
    r2.stats["reports not confirmed by valgrind"] = len(r.viols)
    return r2


def run_check(cid, only=None, seed=None, quiet=False):
    t0 = time.time()
    seed = SEED if seed is None else seed
    chk = CHECKS[cid]
    jobs = [JOBS[x] for x in chk["jobs"]] if only is None else [only]
    base = os.path.join(ROOT, ".work")
    try:
        os.makedirs(base, exist_ok=True)
        work = tempfile.mkdtemp(prefix="w_", dir=base)
    except OSError:
        work = tempfile.mkdtemp(prefix="vp_")
    os.chmod(work, 0o755)
    try:
        try:
            exes = build(jobs, work)
        except BuildError as e:
            print("ERROR: build failed: %s" % e)
            return 2
        if any(j.locales for j in jobs):
            locales(work)
        results = []
        # (job, instance)
        units = []
        for j in jobs:
            n = j.inst if TIER == "quick" else j.inst_thorough
            for i in range(n):
                units.append((j, i, (seed * 7919 + i * 104729 + 1) & 0x7fffffffffff))
        weight = max(1, NCPU)
        par = [u for u in units if not u[0].alone]
        ser = [u for u in units if u[0].alone]

        # a violation nobody listed decides the verdict: what has not started yet is not needed any more
        listed = [k for k in load_known() if k[0] == cid]
        found = threading.Event()

        def go(u):
            j, i, s = u
            if found.is_set():
                r = Result()
                r.done = r.skipped = True
                return (j, i, s, r)
            r = run_job(j, exes[j.bkey()], work, s)
            if j.flavour == "msan" and (r.viols or r.trouble):
                r = confirm(j, r, work, s)
            if not listed and any(counts(chk, v[0]) for v in r.viols):
                found.set()
            if r.hang is not None and not r.viols and not found.is_set():
                # confirm: a hang must repeat to count
                again = []
                for k in range(2):
                    r2 = run_job(j, exes[j.bkey()], work, s)
                    again.append(r2)
                    if r2.hang is not None or r2.viols:
                        break
                if any(x.hang is not None or x.viols for x in again):
                    r.viols.append(("hang in %s" % j.name, "%s; repeated on a second run" % r.hang, ""))
                    for x in again:
                        r.viols += x.viols
                    if not listed:
                        found.set()
                else:
                    print("NOTE: %s reported '%s' once, not repeated" % (j.name, r.hang))
                    r = again[-1]
            return (j, i, s, r)
        with cf.ThreadPoolExecutor(weight) as ex:
            results += list(ex.map(go, par))
        for u in ser:
            results.append(go(u))
        return verdict(cid, chk, results, seed, time.time() - t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        prune_cache()


GENERIC = re.compile(r"^(sanitizer|crash|hang|UBSan|\w+Sanitizer)")


def counts(chk, key):
    """false for what another property's check decides"""
    keep, drop = chk.get("keep"), chk.get("drop")
    return bool(GENERIC.match(key) or ((keep is None or re.search(keep, key)) and not (drop and re.search(drop, key))))


def verdict(cid, chk, results, seed, wall, only):
    stats, samples, trouble, viols = {}, [], [], []
    if os.environ.get("VP_VERBOSE"):
        for j, i, s, r in results:
            print("  %s[%d] %.1fs evals=%s" % (j.name, i, r.wall, r.stats.get("evaluations")))
    for j, i, s, r in results:
        for k, v in r.stats.items():
            if k.startswith("max:"):
                stats[k] = max(stats.get(k, v), v)
            else:
                stats[k] = stats.get(k, 0) + v
        samples += ["[%s] %s" % (j.name, x) for x in r.samples[:4]]
        if r.trouble:
            trouble.append("%s (seed %d): %s" % (j.name, s, r.trouble))
        if r.hang is not None and not r.viols:
            trouble.append("%s: hang %s" % (j.name, r.hang))
        for v in r.viols:
            viols.append((j, s) + v)
    if only is None:
        viols = [v for v in viols if counts(chk, v[2])]
    known = [(k, w) for (p, k, w) in load_known() if p == cid]
    fresh, seen_known = [], set()
    for v in viols:
        hit = [kw for kw in known if kw[0] == v[2]]
        if hit:
            seen_known.add(hit[0])
        else:
            fresh.append(v)
    if only is None:
        ev = {"property": cid, "tier": TIER, "seed": SEED, "level": chk["level"],
              "coverage": {"evaluations": stats.pop("evaluations", 0),
                           "distinct_nontrivial": stats.pop("distinct", 0),
                           "rule": chk["rule"], "samples": samples[:24],
                           "observed": {k: v for k, v in sorted(stats.items())},
                           "jobs": sorted({"%s/%s" % (j.name, j.flavour) for j, _, _, _ in results}),
                           "executions": len(results)},
              "assumptions": chk.get("assumptions", []),
              "wall_s": round(wall, 2), "violations": len(fresh)}
        if chk.get("exhaustive"):
            ev["coverage"]["exhaustive"] = True
        evd = os.environ.get("VP_OUT") or os.path.join(ROOT, "evidence")
        os.makedirs(evd, exist_ok=True)
        p = os.path.join(evd, cid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)
    for k, w in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (cid, w))
    if fresh:
        os.makedirs(os.path.join(os.environ.get("VP_OUT") or ROOT, "replays"), exist_ok=True)
        done = set()
        n = 0
        for j, s, k, d, log in fresh:
            if (k, j.name) in done:
                continue
            done.add((k, j.name))
            if n >= 8:
                break
            rp = os.path.join("replays", "%s-%d.json" % (cid, n))
            n += 1
            with open(os.path.join(os.environ.get("VP_OUT") or ROOT, rp), "w") as f:
                json.dump({"property": cid, "job": j.name, "seed": s, "tier": TIER, "key": k,
                           "detail": d, "log": log}, f, indent=1)
            print("  %s: %s | %s" % (j.name, k, d[:400]))
            print("VIOLATION property=%s replay=%s" % (cid, rp))
        return 1
    if trouble:
        for t in trouble[:5]:
            print("ERROR: %s" % t)
        return 2
    # an oracle that saw nothing has no say
    if only is None:
        for need in chk.get("need", []):
            if all(stats.get(n, 0) <= 0 for n in need.split('|')):
                print("ERROR: nothing observed for '%s'" % need)
                return 2
    print("OK property=%s tier=%s seed=%d evaluations=%s distinct=%s wall=%.1fs" % (
        cid, TIER, seed, ev["coverage"]["evaluations"] if only is None else "-",
        ev["coverage"]["distinct_nontrivial"] if only is None else "-", wall))
    return 0


def main():
    global TIER
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--setup":
        # nothing is installed: every check builds what it needs; verify the tools exist
        for t in ("gcc", "g++", "clang"):
            if not shutil.which(t):
                print("missing tool: " + t)
                return 2
        print("setup ok")
        return 0
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        TIER = d["tier"]
        job = JOBS[d["job"]]
        import copy
        job = copy.copy(job)
        job.inst = job.inst_thorough = 1
        # instance 0 gets seed*7919+1: run with the recorded one
        global build
        work = tempfile.mkdtemp(prefix="vp_")
        try:
            exe = build([job], work)[job.bkey()]
            r = run_job(job, exe, work, d["seed"])
            for v in r.viols:
                print("  %s | %s\n%s" % v)
            print("REPRODUCED" if r.viols or r.hang else "not reproduced")
            return 1 if r.viols or r.hang else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if a[0] == "--all":
        ids = a[1:] or sorted(CHECKS)
        rc = 0
        for c in ids:
            r = run_check(c)
            rc = max(rc, r)
        return rc
    if a[0] not in CHECKS:
        print("unknown property " + a[0])
        return 2
    return run_check(a[0])


if __name__ == "__main__":
    sys.exit(main())
