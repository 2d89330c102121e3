#!/usr/bin/env python3
"""sweep.py [ID...]: run every seeded bug against its property's check (other checks: sweep.py ID=C07,C41) and rewrite
tools/seeded.txt. Works on scratch worktrees of /repo."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(ROOT, "seeded")


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def main():
    only = dict((x.split("=") + [""])[:2] for x in sys.argv[1:])
    out = os.path.join(ROOT, "tools", "seeded.txt")
    old = {}
    if os.path.exists(out):
        for l in open(out):
            old[l.split("\t")[0]] = l.rstrip("\n").split("\t")
    q = queue.Queue()
    for i in sorted(os.listdir(SD)):
        if not only or i in only:
            q.put(i)
    lock = threading.Lock()
    miss = []

    def work():
        tmp = tempfile.mkdtemp(prefix="sweep_", dir="/tmp")
        wt = tmp + "/repo"
        with lock:
            sh("git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD")
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                break
            m = json.load(open(os.path.join(SD, i, "meta.json")))
            sh("git", "-C", wt, "checkout", "-q", "--", ".")
            r = sh("git", "-C", wt, "apply", os.path.join(SD, i, "patch.diff"))
            got = []
            if r.returncode:
                got = ["does not apply"]
            else:
                for c in (only.get(i) or m["property"]).split(","):
                    r = sh(sys.executable, os.path.join(ROOT, "check.py"), c, env=dict(os.environ, VP_REPO=wt, VP_OUT=tmp))
                    if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                        got.append(c)
            with lock:
                if not got:
                    miss.append(i)
                old[i] = [i, ", ".join(got) or "not caught", re.sub(r"\s+", " ", m["needs"]).replace("|", "/")]
                print(i, m["property"], got or "MISSED", flush=True)
        with lock:
            sh("git", "-C", "/repo", "worktree", "remove", "--force", wt)
        shutil.rmtree(tmp, ignore_errors=True)
    ts = [threading.Thread(target=work) for _ in range(int(os.environ.get("J", "2")))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    have = set(os.listdir(SD))
    with open(out, "w") as f:
        for i in sorted(old):
            if i in have:
                f.write("\t".join(old[i]) + "\n")
    print("missed:", miss)


main()
