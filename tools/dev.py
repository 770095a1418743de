#!/usr/bin/env python3
"""dev.py FILE ENTRY [unwind] [fs] [-Dx ...] [--stub f] [--scale N=v] [--t secs] [cbmc flags]: one ad-hoc query, terse output"""
import sys, os, subprocess, tempfile, shutil, hashlib, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/vt", V + "/checks"]
import vt, specs
import concurrent.futures as cf
a = sys.argv[1:]
f, e = a[0], a[1]
pos, defs, stubs, scale, flags, t, excl = [], [], [], {"VALUE_STACK_SIZE": 8}, [], 120, list(specs.NOALLOC)
i = 2; solver = None; prog = None; popts = 2
while i < len(a):
    x = a[i]
    if x.startswith("-D"): defs.append(x[2:])
    elif x == "--stub": i += 1; stubs.append(a[i])
    elif x == "--ex": i += 1; excl += ["source/" + y for y in a[i].split(",")]
    elif x == "--prog": i += 1; prog = a[i].replace("|", "\n").replace("~", " ") + "\n"
    elif x == "--flow": scale.update(specs.FLOW_SCALE)
    elif x == "--opts": i += 1; popts = int(a[i])
    elif x == "--t": i += 1; t = int(a[i])
    elif x == "--solver": i += 1; solver = a[i]
    elif x == "--scale": i += 1; k, v = a[i].split("="); scale[k] = int(v)
    elif x.startswith("-"): flags.append(x)
    elif x.isdigit() and not flags: pos.append(int(x))
    else: flags.append(x)
    i += 1
h = hashlib.md5(repr(sorted(scale.items())).encode())
h.update(open(V + "/vt/vt.py", "rb").read())
for dp, dn, fn in os.walk(vt.SRC):
    for n in sorted(fn):
        p = os.path.join(dp, n); h.update(n.encode() + open(p, "rb").read())
root = "/tmp/p/dev_" + h.hexdigest()[:10]
j = vt.Job("dev%d" % os.getpid(), f, e, unwind=pos[0] if pos else 2, fs=pos[1] if len(pos) > 1 else 16, defines=defs, stubs=stubs, scale=scale, flags=flags, timeout=t, exclude=excl, solver=solver, prog=prog, progopts=popts)
with cf.ThreadPoolExecutor(8) as pool:
    b = vt.Builder(root)
    import fcntl
    lk = open("/tmp/p/dev.lock", "w"); fcntl.flock(lk, fcntl.LOCK_EX)
    if not os.path.exists(root + "/ok"):
        shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
        b.compile_goto(j.conf, pool)
        b.compile_native(False, pool)
        json.dump([list(b.lib.values())[0], list(b.cflags.values())[0], b.nat[False]], open(root + "/ok", "w"))
    lib, cfl, nat = json.load(open(root + "/ok"))
    b.nat = {False: nat}; b.lib = {j.conf: lib}; b.cflags = {j.conf: cfl}
    t0 = time.time()
    b.program_header(j)
    lk.close()
    gb = b.goto_binary(j)
    t1 = time.time()
    try:
        res, msgs, dt, cmd = vt.solve(j, gb, j.unwind, ["--trace"])
    except vt.Inconclusive as ex:
        print(ex); print(" ".join(vt.cbmc_cmd(j, gb, j.unwind))); sys.exit(2)
    print("build %.1f solve %.1f %s" % (t1 - t0, dt, vt.stats_of(msgs)))
    for r in res:
        d = r.get("description", "")
        if r["status"] != "SUCCESS":
            ins = vt.inputs_of_trace(r.get("trace"))
            print(r["status"], r["property"], d, "" if d.startswith("VTREACH") else vt.trace_failure(r.get("trace")), ins[:40])
