#!/usr/bin/env python3
"""newbug.py SPECFILE: writes seeded/<id>/ from a python spec and tries it in a copy of /repo.

The spec sets ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (C++ source).
The copy is bind mounted over /repo in a private mount namespace, so that build.sh,
test.sh and demo.sh see the planted change while /repo itself is untouched.
"""
import json, os, shutil, subprocess, sys
V = "/verif"
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec["ID"]
d = os.path.join(V, "seeded", ID)
os.makedirs(d, exist_ok=True)
copy = "/tmp/nb_" + ID
shutil.rmtree(copy, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", copy])
open(d + "/demo.cc", "w").write(spec["DEMO"])
open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds demo.cc against the library in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++17 -O1 -w -pthread -DNDEBUG -DBOOST_ALLOW_DEPRECATED_HEADERS -DBOOST_BIND_GLOBAL_PLACEHOLDERS \\
    -DBOOST_UBLAS_MOVE_SEMANTICS -I"$repo/_build/inc" "$here/demo.cc" -o "$tmp/demo" \\
    -L"$repo/_build" -lusml -lnetcdf_c++4 -lnetcdf -Wl,-rpath,"$repo/_build" || exit 3
cd "$tmp" && timeout -s KILL 120 ./demo > out.txt 2>&1
rc=$?
tail -5 out.txt
exit $rc
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
for f, old, new in spec["EDITS"]:
    p = os.path.join(copy, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
base = subprocess.run("git -C /repo show c109aad:%s" % spec["EDITS"][0][0], shell=True, capture_output=True, text=True).stdout
inside = "mount --bind %s /repo && cd /repo && " % copy
def run(cmd):
    return subprocess.run(["unshare", "-rm", "bash", "-c", inside + cmd], capture_output=True, text=True)
def demo(tag):
    r = run("bash %s/demo.sh" % d)
    print(tag, "rc", r.returncode, r.stdout[-300:].strip(), r.stderr[-300:].strip())
    return r.returncode
subprocess.run(["git", "-C", copy, "stash", "-q"])
r = run("bash /opt/vp/build.sh"); assert r.returncode == 0, r.stdout[-2000:]
a = demo("clean  ")
subprocess.run(["git", "-C", copy, "stash", "pop", "-q"])
r = run("bash /opt/vp/build.sh"); assert r.returncode == 0, r.stdout[-2000:]
b = demo("planted")
ok = a == 0 and b != 0
if "--test" in sys.argv:
    r = run("bash /opt/vp/test.sh %s/out.json" % copy)
    o = json.load(open(copy + "/out.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = st - set(o["passed"])
    print("tests", "ok" if not miss else sorted(miss)[:5])
    ok = ok and not miss
if "--check" in sys.argv:
    r = subprocess.run(["python3", V + "/run.py", spec["PROP"], "quick"], capture_output=True, text=True, env=dict(os.environ, USML_REPO=copy))
    print("check", "CAUGHT" if r.returncode == 1 else "MISSED rc %d" % r.returncode, [l for l in r.stdout.splitlines() if "VIOL" in l.upper() or "fail" in l][:3])
shutil.rmtree(copy)
print(ID, "OK" if ok else "NOT OK")
