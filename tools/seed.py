#!/usr/bin/env python3
"""seed.py SPEC.py: makes /verif/seeded/<id>/ from a description of a planted bug and validates it.
Validation applies the patch in a scratch copy of /repo, builds, runs the tests and the demo there, and runs the property's
check with VP_REPO pointing at the scratch copy.  SPEC.py defines ID, PROP, EDITS=[(file, from, to)], NEEDS, BREAKS, DEMO (C++)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = "/verif"
DEMO_SH = '''#!/bin/bash
# compiles demo.cpp against the headers in the current directory's include/ and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O1 -w -include cstdint -fopenmp -I"$PWD/include" %s"$here/demo.cpp" -o "$tmp/demo" || exit 98
"$tmp/demo"
'''
HEAD = '''#include <cstdio>
#define CHECK(c) do { if(!(c)) { std::printf("failed: %s\\n", #c); return 1; } } while(0)
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def one(path, quick):
    s = runpy.run_path(path)
    d = os.path.join(V, "seeded", s["ID"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    scr = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    r = os.path.join(scr, "repo")
    sh("cp -a /repo %s" % r)
    def bail(why, out=""):
        print("%s: REJECTED: %s\n%s" % (s["ID"], why, out[-2500:]))
        shutil.rmtree(scr); shutil.rmtree(d)
    open(os.path.join(d, "demo.cpp"), "w").write(HEAD + s["DEMO"].lstrip("\n"))
    for name, text in s.get("FILES", {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        if text.startswith("@"):
            shutil.copytree(text[1:], os.path.join(d, name))
        else:
            open(os.path.join(d, name), "w").write(text)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % s.get("FLAGS", ""))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    x = sh("bash %s/demo.sh" % d, cwd=r)
    if x.returncode:
        return bail("demo fails on the unchanged tree", x.stdout)
    for f, a, b in s["EDITS"]:
        p = os.path.join(r, f)
        t = open(p).read()
        if t.count(a) != 1:
            return bail("%d occurrences of %r" % (t.count(a), a))
        open(p, "w").write(t.replace(a, b))
    x = sh("git diff", cwd=r)
    open(os.path.join(d, "patch.diff"), "w").write(x.stdout)
    # lines removed by the patch must stem from the original repository
    for l in sh("git diff 3fdd4c1 HEAD -- " + " ".join({e[0] for e in s["EDITS"]}), cwd=r).stdout.splitlines():
        for q in x.stdout.splitlines():
            if l.startswith("+") and not l.startswith("+++") and q.startswith("-") and q[1:].strip() and q[1:] == l[1:]:
                return bail("touches a line of a fix commit: " + q)
    x = sh("bash %s/demo.sh" % d, cwd=r)
    if not x.returncode or x.returncode in (98, 99):
        return bail("demo does not fail with the patch (%d)" % x.returncode, x.stdout)
    demo = x.stdout.strip()[-150:]
    build = open("/opt/vp/build.sh").read().replace("/repo", r)
    test = open("/opt/vp/test.sh").read().replace("/opt/vp/build.sh", scr + "/b.sh").replace("/repo", r)
    open(scr + "/b.sh", "w").write(build); open(scr + "/t.sh", "w").write(test)
    shutil.rmtree(r + "/_build", ignore_errors=True)
    x = sh("bash %s/b.sh" % scr)
    if x.returncode:
        return bail("does not build", x.stdout)
    x = sh("bash %s/t.sh %s/out.json" % (scr, scr))
    res = open(scr + "/out.json").read() if os.path.exists(scr + "/out.json") else "{}"
    res = json.loads(res)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    failed = stable - set(res.get("passed", []))
    if failed:
        return bail("tests fail: %s" % sorted(failed)[:5], x.stdout)
    x = sh("VP_REPO=%s python3 check.py --property %s" % (r, s["PROP"]), cwd=V)
    print("%s: kept; demo: %s; %s exit %d" % (s["ID"], demo, s["PROP"], x.returncode))
    print("   " + "\n   ".join([l[:200] for l in x.stdout.splitlines() if "note" not in l][:5]))
    shutil.rmtree(scr)

for p in sys.argv[1:]:
    one(p, False)
    sys.stdout.flush()
