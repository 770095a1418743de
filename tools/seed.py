#!/usr/bin/env python3
"""Makes and validates planted bugs. Reads a python file defining SEEDS = [dict(id, prop, edits=[(file, old, new)], prog, keys, needs, breaks[, asan, c])].
The demonstration runs prog in the interpreter built from the tree and compares the screen with the one of the unchanged tree recorded here."""
import json, os, shutil, subprocess, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/p/seedwt"
DEMO = r'''#!/bin/bash
# exit 0 when the program below shows the expected screen
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
I=$(for d in "" graphics/pc graphics interpreter subsystem extension; do echo -I$PWD/source/$d; done)
F=$(find $PWD/source -name '*.c' | grep -v -e /main.c -e blockalloc -e opengl_test -e /nds/)
gcc -w -g -std=c11 -DPC %(flags)s $I "$D/%(main)s" $F -o "$T/run" -lm -lcsfml-audio -lcsfml-graphics -lcsfml-window -lcsfml-system || exit 3
cp -r "$PWD/resources" "$T/" 2>/dev/null
cd "$T"
timeout 60 "$T/run" "$(cat "$D/program.txt")" %(args)s 3> "$T/out" > "$T/log" 2> "$T/err"; rc=$?
if [ $rc -ne 0 ]; then echo "exit code $rc"; head -5 "$T/err"; exit 1; fi
diff "$D/expected.txt" "$T/out" && echo as expected
'''
def sh(c, **kw): return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)
def main():
    spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for s in m.SEEDS:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
        sh("rm -rf %s && cp -a /repo %s && cd %s && git checkout -q -- ." % (WT, WT, WT))
        d = os.path.join(V, "seeded", s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        main_c = "run.c"
        if s.get("c"): shutil.copy(s["c"], os.path.join(d, "run.c"))
        else: shutil.copy(os.path.join(V, "tools", "demo_run.c"), os.path.join(d, "run.c"))
        flags = "-fsanitize=address,undefined -fno-sanitize=shift,signed-integer-overflow,alignment -fno-sanitize-recover=undefined" if s.get("asan") else "-O1"
        q = lambda x: "'" + x.replace("'", "'\\''") + "'"
        args = " ".join(q(a) for a in s.get("args", [])) if s.get("args") else ("$'%s'" % s["keys"] if s.get("keys") else "")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(flags=("" if not s.get("asan") else "") + flags, main=main_c, args=args))
        if s.get("asan"):
            p = os.path.join(d, "demo.sh"); t = open(p).read().replace("timeout 60", "ASAN_OPTIONS=detect_leaks=0 timeout 60"); open(p, "w").write(t)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "program.txt"), "w").write(s.get("prog", ""))
        open(os.path.join(d, "expected.txt"), "w").write("")
        r = sh("bash %s/demo.sh" % d, cwd=WT)
        # first run records the screen: everything diff marks as new
        out = "".join(l[2:] + "\n" for l in r.stdout.splitlines() if l.startswith("> "))
        if "exit code" in r.stdout or (not out and not s.get("asan")): print(s["id"], "BAD program:", r.stdout, r.stderr[-500:]); continue
        open(os.path.join(d, "expected.txt"), "w").write(out)
        if sh("bash %s/demo.sh" % d, cwd=WT).returncode: print(s["id"], "demo not stable"); continue
        if s.get("show") or os.environ.get("SHOW"): print(out)
        bad = False
        for f, o, n in s["edits"]:
            p = os.path.join(WT, "source", f); t = open(p).read()
            if t.count(o) != 1: print(s["id"], "edit matches", t.count(o), "times:", o); bad = True; break
            open(p, "w").write(t.replace(o, n))
        if bad: continue
        diff = sh("git diff", cwd=WT).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        # removed lines must be original ones
        own = []
        for f, o, n in s["edits"]:
            for l in sh("git blame -s 5aa6ccd..HEAD -- source/%s" % f, cwd="/repo").stdout.splitlines():
                if not l.startswith("^"): own.append(l.split(") ", 1)[-1].strip())
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].strip() in own: print(s["id"], "touches own line:", l)
        r = sh("bash %s/demo.sh" % d, cwd=WT)
        if r.returncode == 0: print(s["id"], "DEMO PASSES with the bug"); continue
        if os.environ.get("SHOW"): print(r.stdout)
        if r.returncode == 3: print(s["id"], "does not compile", r.stderr); continue
        # the repository's tests
        t = sh("make -s test >/dev/null 2>&1; cat /opt/vp/env.sh", cwd=WT)
        r = sh("git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1; echo built $?; bash /opt/vp/test.sh /tmp/p/seedt.json >/dev/null 2>&1; git -C /repo checkout -q -- ." % d, cwd="/repo")
        res = json.load(open("/tmp/p/seedt.json")); stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [x for x in stable if x not in res["passed"]]
        if "built 0" not in r.stdout or miss: print(s["id"], "TESTS FAIL", miss, r.stdout[-300:], r.stderr[-300:]); continue
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if not sh("git -C /repo apply --check %s/patch.diff" % d).returncode == 0: print("no apply")
        print(s["id"], "ok")
    sh("bash /opt/vp/build.sh", cwd="/repo")
main()
