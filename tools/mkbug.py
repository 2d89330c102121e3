#!/usr/bin/env python3
"""mkbug.py SPEC.py [ID...]: build /verif/seeded/<id> from a bug description and try it.

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new), ...], needs, breaks, src=[...], demo=C or C++ text,
cxx=bool, wrap=[...], libs=[...], cflags=[...])]."""
import json, os, shutil, subprocess, sys, tempfile, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo_XXXXXX) || exit 9
trap 'rm -rf -- "$t"' EXIT
set -e
objs=
for s in %(src)s; do
	o=$t/$(basename $s | tr . _).o
	case $s in *.cpp) c=g++;; *) c=gcc;; esac
	$c -w -g -O1 -D_GNU_SOURCE -D_FILE_OFFSET_BITS=64 %(cflags)s -I include -I "$here" -c $s -o $o
	objs="$objs $o"
done
%(cc)s -w -g -O1 -D_GNU_SOURCE -D_FILE_OFFSET_BITS=64 %(cflags)s -I include -I "$here" "$here/%(demo)s" $objs %(link)s -o $t/demo -lpthread -lrt -lm
set +e
cd $t
timeout %(timeout)d ./demo
r=$?
[ $r = 0 ] && echo "demo: as expected" || echo "demo: wrong (exit $r)"
exit $r
'''

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    for b in spec:
        if only and b["id"] not in only:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        tmp = tempfile.mkdtemp(prefix="vpbug_", dir="/tmp")
        wt = os.path.join(tmp, "repo")
        assert sh(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"]).returncode == 0
        try:
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(wt, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "edit does not match exactly once:", f, s.count(old), repr(old[:60])); ok = False; break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "wb").write(diff)
            demo = "demo.cpp" if b.get("cxx") else "demo.c"
            open(os.path.join(d, demo), "w").write(b["demo"])
            for n, t in b.get("files", {}).items():
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                open(os.path.join(d, n), "w").write(t)
            shutil.copy(os.path.join(ROOT, "harness/include/ulog.h"), os.path.join(d, "ulog.h"))
            link = " ".join(["-Wl,--wrap=" + w for w in b.get("wrap", [])] + b.get("libs", []))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(
                src=" ".join(b["src"]), cc="g++" if b.get("cxx") else "gcc", cflags=" ".join(b.get("cflags", [])),
                demo=demo, link=link, timeout=b.get("timeout", 120)))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]),
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            ft = sh(["bash", "/tmp/fulltest.sh", wt])
            line = [l for l in ft.stdout.splitlines() if " tests " in l]
            tests = line[0].split()[1:5] if line else ["?", ft.stdout[-600:]]
            good = len(tests) == 4 and tests[3] == "0"
            c = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
            w = sh(["bash", os.path.join(d, "demo.sh")], cwd=wt)
            checks = b.get("checks", [b["prop"]])
            res = []
            for cid in checks:
                e = dict(os.environ, VP_OUT=tmp, VP_REPO=wt)
                r = sh([sys.executable, os.path.join(ROOT, "check.py"), cid], env=e)
                det = [l for l in r.stdout.splitlines() if " | " in l][:1]
                res.append("%s:%d %s" % (cid, r.returncode, (det or r.stdout.splitlines()[-1:])[0][:150]))
            flag = "" if good and c.returncode == 0 and w.returncode not in (0, 9) and c.returncode == 0 else "   <<<< BAD SEED"
            if not good: flag += " tests " + " ".join(tests)
            if c.returncode: flag += " clean demo: " + c.stdout[-300:]
            if w.returncode in (0, 9): flag += " patched demo: " + w.stdout[-300:]
            print("%-28s demo %d/%d  %s%s" % (b["id"], c.returncode, w.returncode, " ; ".join(res), flag), flush=True)
        finally:
            sh(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
            shutil.rmtree(tmp, ignore_errors=True)

main()
