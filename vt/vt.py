#!/usr/bin/env python3
"""Solver-based checks of /repo (Minxrod/sbc) with CBMC.

usage: vt.py check <ID> [--jobs N] [--only JOB] [--keep]
       vt.py replay <file>            re-run a stored counterexample natively
       vt.py setup                    sanity check of the tools
"""
import concurrent.futures as cf
import threading
import glob, importlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SRC = os.path.join(REPO, "source")
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
NCPU = min(8, os.cpu_count() or 8)
TIER = os.environ.get("VERIF_TIER", "quick")
sys.path.insert(0, os.path.join(VERIF, "checks"))

INCS = [SRC] + [os.path.join(SRC, d) for d in
                ("graphics/pc", "graphics", "interpreter", "subsystem", "extension")]
# never part of an encoding: program entry and the SFML display
EXCLUDE_ALWAYS = {"source/main.c", "source/graphics/pc/opengl_test.c"}
CFLAGS = ["-std=c11", "-DPC"] + ["-I" + i for i in INCS]
SAN = ["-fsanitize=address,bounds,integer-divide-by-zero,null,unreachable",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


CSFML = ["-lcsfml-audio", "-lcsfml-graphics", "-lcsfml-window", "-lcsfml-system"]


class Inconclusive(Exception):
    pass


class ToolCrash(Exception):
    pass


def limits(mem_gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout=None, cwd=None, mem_gb=12, env=None, nolimit=False):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         preexec_fn=os.setsid if nolimit else limits(mem_gb), env=env)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return "timeout", out, err
    except BaseException:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        raise


class Job:
    """One solver query: a harness entry, its bounds, and what it leaves out.

    name      unique in the property
    file      harness C file (in /verif/harness)
    entry     harness function
    unwind    default loop bound (unwinding assertions are always on)
    unwindset dict loop-id -> bound (only for loops of the harness or libc)
    defines   -D options
    stubs     repo functions replaced by the harness (part of the claim)
    exclude   repo files left out (part of the claim)
    timeout   solver budget in seconds
    reach     names of the REACH witnesses that must be reachable
    flags     extra cbmc flags
    ndebug    compile with -DNDEBUG (release build) instead of the debug build
    bounds    text: the stated bounds
    tier      "quick" or "thorough": thorough-only jobs are skipped in quick
    scale     {NAME: value}: table sizes (#define NAME n) reduced in the encoded copy of the sources;
              the native replay always runs the sources as they are
    fallback  Job run (and reported) instead when the solver budget runs out
    prog      BASIC text: compiled natively by the real tokenizer of the current tree; the harness gets
              the bytecode (prog.h) and runs it symbolically
    finding   known finding id: this job is expected to fail (see KNOWN_FINDINGS)
    """
    def __init__(self, name, file, entry, unwind=2, unwindset=None, defines=(), stubs=(), exclude=(),
                 timeout=120, reach=(), flags=(), ndebug=False, bounds="", tier="quick",
                 finding=None, mem=8, only=None, solver=None, native=True, replay_timeout=20,
                 max_unwind=None, noreach=False,
                 fs=64, fallback=None, scale=None, prog=None, progopts=2, nvars=4, nlabels=4):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.defines = list(defines)
        self.stubs = list(stubs)
        self.exclude = set(exclude)
        self.reach = list(reach)
        self.flags = list(flags)
        self.scale = dict(scale or {})
        self.conf = (ndebug, tuple(sorted(self.scale.items())))


class Builder:
    def __init__(self, work):
        self.work = work
        self.lib = {}
        self.nat = {}
        self.lock = threading.Lock()
        self.files = []
        for dp, dn, fn in os.walk(SRC):
            for f in sorted(fn):
                if f.endswith(".c"):
                    full = os.path.join(dp, f)
                    rel = os.path.relpath(full, REPO)
                    if rel in EXCLUDE_ALWAYS or "/nds/" in rel:
                        continue
                    self.files.append(rel)
        self.files.sort()

    def _cc(self, args):
        rel, out, cmd = args
        rc, o, e = run(cmd, timeout=120, nolimit=True)
        if rc != 0:
            raise Inconclusive("compiling %s failed: %s" % (rel, e.decode(errors="replace")[-2000:]))
        return rel, out

    def encoded_copy(self, scale):
        """The sources as encoded: /repo's current tree with (1) `x->ptr.w` read through the other
        member of the same-size pointer union, which CBMC's simplifier needs (the value is the same),
        and (2) the table sizes of `scale`."""
        d = os.path.join(self.work, "src_" + "_".join("%s%d" % kv for kv in scale))
        shutil.copytree(SRC, os.path.join(d, "source"))
        for dp, dn, fn in os.walk(d):
            for f in fn:
                if not f.endswith((".c", ".h")):
                    continue
                p = os.path.join(dp, f)
                t0 = t = open(p, encoding="latin-1", newline="").read()
                t = re.sub(r"((?:[A-Za-z_]\w*(?:\[\w+\])?|\(\([\w ]+\*\)\s*\w+\))(?:->|\.)ptr)\.w\b(?!\s*=[^=])",
                           r"((u16*)\1.s)", t)
                if f == "common.h" and os.path.basename(dp) == "source":
                    # (3) every reported error also calls the harness's hook (if it has one)
                    t += ("\n#ifdef ERROR\n#undef ERROR\n#endif\nvoid vt_error(int);\n"
                          "#define ERROR(code) do { p->exec.error = code; vt_error(p->exec.error); return; } while (0)\n")
                # (4) the interpreter loop calls the harness's hook before every instruction
                m = re.search(r"\n[^\n;#]*\bvoid\s+_run\s*\([^)]*\)\s*\{.*?\b(?:while|for)\s*\((?:[^()]|\([^()]*\))*\)\s*\{", t, re.S)
                if m:
                    t = t[:m.end()] + " { void vt_step(void); vt_step(); } " + t[m.end():]
                for k, v in scale:
                    t = re.sub(r"(?m)^(\s*#define\s+%s\s+)\S.*$" % k, r"\g<1>%d" % v, t)
                if t != t0:
                    open(p, "w", encoding="latin-1", newline="").write(t)
        return d

    def compile_goto(self, conf, pool):
        if conf in self.lib:
            return
        ndebug, scale = conf
        root = self.encoded_copy(scale)
        cflags = [c.replace("-I" + REPO, "-I" + root) for c in CFLAGS]
        jobs = []
        for rel in self.files:
            out = os.path.join(root, rel.replace("/", "_") + ".gb")
            cmd = ["goto-cc"] + cflags + (["-DNDEBUG"] if ndebug else []) + \
                  ["-c", os.path.join(root, rel), "-o", out]
            jobs.append((rel, out, cmd))
        self.lib[conf] = dict(pool.map(self._cc, jobs))
        self.cflags = getattr(self, "cflags", {})
        self.cflags[conf] = cflags

    def compile_native(self, ndebug, pool):
        key = ndebug
        if key in self.nat:
            return
        d = os.path.join(self.work, "nat%d" % ndebug)
        os.makedirs(d, exist_ok=True)
        jobs = []
        for rel in self.files:
            out = os.path.join(d, rel.replace("/", "_") + ".o")
            cmd = ["sh", "-c", "gcc -w -g -O0 %s %s %s -c %s -o %s && objcopy --weaken %s" % (
                " ".join(CFLAGS), "-DNDEBUG" if ndebug else "", " ".join(SAN),
                os.path.join(REPO, rel), out, out)]
            jobs.append((rel, out, cmd))
        self.nat[key] = dict(pool.map(self._cc, jobs))

    def program_header(self, job):
        """-D option naming the compiled program of the job"""
        if job.prog is None:
            return []
        d = os.path.join(self.work, "job_" + job.name)
        os.makedirs(d, exist_ok=True)
        hdr = os.path.join(d, "program.h")
        if not os.path.exists(hdr):
            with self.lock:
                tool = os.path.join(self.work, "gen_bc")
                if not os.path.exists(tool):
                    rc, o, e = run(["gcc", "-w", "-g", "-O0"] + CFLAGS + SAN + [os.path.join(HARN, "gen_bc.c")] +
                                   [o for r, o in sorted(self.nat[False].items())] + ["-o", tool, "-lm"] + CSFML,
                                   timeout=180, nolimit=True)
                    if rc != 0:
                        raise Inconclusive("program compiler: " + e.decode(errors="replace")[-3000:])
            p = subprocess.run([tool, str(job.progopts), str(job.nvars), str(job.nlabels), hdr + ".tmp"], input=job.prog.encode("latin-1"),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                               env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
            if p.returncode != 0:
                # the real tokenizer fails on a valid program: a violation by itself
                raise ToolCrash("the tokenizer crashes on: %r" % job.prog, p.stderr.decode(errors="replace")[-2000:])
            os.rename(hdr + ".tmp", hdr)
        return ['PRG_HEADER="%s"' % hdr]

    def goto_binary(self, job):
        d = os.path.join(self.work, "job_" + job.name)
        os.makedirs(d, exist_ok=True)
        objs = [o for r, o in sorted(self.lib[job.conf].items())
                if r not in job.exclude and (job.only is None or r in job.only)]
        if job.stubs:
            lib = os.path.join(d, "lib.gb")
            rc, o, e = run(["goto-cc"] + objs + ["-o", lib], timeout=120, nolimit=True)
            if rc != 0:
                raise Inconclusive("link: " + e.decode(errors="replace")[-2000:])
            cmd = ["goto-instrument"]
            present = self.functions(lib)
            for s in job.stubs:
                if s in present:
                    cmd += ["--remove-function-body", s]
            if len(cmd) == 1:
                cmd += ["--remove-function-body", "main"]
            rc, o, e = run(cmd + [lib, lib + "2"], timeout=120, nolimit=True)
            if rc != 0:
                raise Inconclusive("goto-instrument: " + e.decode(errors="replace")[-2000:])
            objs = [lib + "2"]
        out = os.path.join(d, "h.gb")
        cmd = ["goto-cc"] + self.cflags[job.conf] + ["-DVT_CBMC", "-I" + HARN] + \
              (["-DNDEBUG"] if job.ndebug else []) + ["-D" + x for x in job.defines + self.program_header(job)] + \
              (["-DVT_NO_REACH"] if job.noreach else []) + \
              [os.path.join(HARN, job.file)] + objs + ["--function", job.entry, "-o", out]
        rc, o, e = run(cmd, timeout=180, nolimit=True)
        if rc != 0:
            raise Inconclusive("harness build: " + (o + e).decode(errors="replace")[-3000:])
        # keep only what the entry point reaches
        rc, o, e = run(["goto-instrument", "--drop-unused-functions", out, out + ".s"],
                       timeout=180, nolimit=True)
        if rc == 0 and os.path.exists(out + ".s"):
            return out + ".s"
        return out

    def functions(self, gb):
        """repo functions with a body in the encoding"""
        rc, o, e = run(["cbmc", "--list-goto-functions", "--json-ui", gb], timeout=120, nolimit=True)
        names = set()
        try:
            for blk in json.loads(o.decode(errors="replace"), strict=False):
                for f in (blk.get("functions") or []) if isinstance(blk, dict) else []:
                    if f.get("isBodyAvailable") and not f.get("isInternal"):
                        loc = (f.get("sourceLocation") or {}).get("file", "")
                        names.add(f["name"])
        except Exception:
            pass
        return names

    def native_binary(self, job):
        d = os.path.join(self.work, "job_" + job.name)
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "native")
        if os.path.exists(out):
            return out
        # repo symbols are weak: the harness's stand-ins win
        objs = [o for r, o in sorted(self.nat[job.ndebug].items())]
        cmd = ["gcc", "-w", "-g", "-O0"] + CFLAGS + SAN + ["-I" + HARN] + \
              (["-DNDEBUG"] if job.ndebug else []) + ["-D" + x for x in job.defines + self.program_header(job)] + \
              ["-DVT_ENTRY=" + job.entry, os.path.join(HARN, job.file),
               os.path.join(HARN, "vt_native.c")] + objs + \
              ["-o", out, "-lm"] + CSFML
        rc, o, e = run(cmd, timeout=180, nolimit=True)
        if rc != 0:
            raise Inconclusive("native build: " + e.decode(errors="replace")[-3000:])
        return out


def parse_cbmc(out):
    """-> (results, traces, messages) or None"""
    txt = out.decode(errors="replace")
    try:
        blocks = json.loads(txt, strict=False)
    except json.JSONDecodeError:
        return None
    results = None
    msgs = []
    for b in blocks:
        if "result" in b:
            results = b["result"]
        if "messageText" in b:
            msgs.append(b["messageText"])
    return results, msgs


def inputs_of_trace(trace):
    vals = []
    for st in trace or []:
        if st.get("stepType") == "input" and st.get("inputID") == "vt":
            v = st["values"][0]
            b = v.get("binary")
            if b is not None:
                n = int(b, 2)
                if n >= 1 << 31:
                    n -= 1 << 32
            else:
                n = int(re.match(r"-?\d+", v["data"]).group(0))
            vals.append(n)
    return vals


def trace_failure(trace):
    for st in reversed(trace or []):
        if st.get("stepType") == "failure":
            loc = st.get("sourceLocation", {})
            return "%s:%s %s" % (loc.get("file", "?"), loc.get("line", "?"), loc.get("function", "?"))
    return "?"


def native_run(binary, inputs, timeout, work):
    fd, inp = tempfile.mkstemp(prefix="in", dir=work)
    os.write(fd, ("\n".join(map(str, inputs)) + "\n").encode())
    os.close(fd)
    log = inp + ".log"
    rundir = tempfile.mkdtemp(prefix="run", dir=work)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99",
               UBSAN_OPTIONS="print_stacktrace=1", VT_SCRATCH=rundir)
    rc, o, e = run([binary, inp, log], timeout=timeout, cwd=rundir, nolimit=True, env=env)
    lines = open(log).read().splitlines() if os.path.exists(log) else []
    res = {"rc": rc, "reach": [l[9:] for l in lines if l.startswith("VTREACH: ")],
           "violated": [l[12:] for l in lines if l.startswith("VTVIOLATED: ")],
           "assume_failed": "VTASSUME" in lines, "done": "VTDONE" in lines,
           "stderr": e.decode(errors="replace")[-3000:]}
    if res["assume_failed"]:
        res["bad"] = None
    elif res["violated"]:
        res["bad"] = "; ".join(res["violated"])
    elif rc == "timeout":
        res["bad"] = "hang (no result after %ss)" % timeout
    elif not res["done"]:
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*)", res["stderr"])
        res["bad"] = "crash rc=%s %s" % (rc, m.group(1) if m else "")
    else:
        res["bad"] = None
    for f in (inp, log):
        if os.path.exists(f):
            os.remove(f)
    shutil.rmtree(rundir, ignore_errors=True)
    return res


BASE_FLAGS = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check",
              "--unwinding-assertions", "--no-malloc-may-fail", "--object-bits", "12", "--json-ui", "--verbosity", "8"]


def cbmc_cmd(job, gb, unwind, extra=()):
    cmd = ["cbmc", gb, "--function", job.entry] + BASE_FLAGS + ["--unwind", str(unwind)]
    cmd += ["--max-field-sensitivity-array-size", str(job.fs)]
    uw = {k: n for k, n in dict(job.unwindset or {}, **getattr(job, "loops", {})).items() if k.split(".")[0] in (getattr(job, "present", None) or (k.split(".")[0],))}
    if uw:
        cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in uw.items())]
    if job.solver == "cadical":
        cmd += ["--sat-solver", "cadical"]
    elif job.solver == "kissat":
        cmd += ["--external-sat-solver", "kissat"]
    elif job.solver in ("z3", "cvc5"):
        cmd += ["--" + job.solver, "--slice-formula"]
    cmd += job.flags
    cmd += list(extra)
    return cmd


def solve(job, gb, unwind, extra=()):
    t0 = time.time()
    cmd = cbmc_cmd(job, gb, unwind, extra)
    rc, o, e = run(cmd, timeout=job.timeout, mem_gb=job.mem)
    dt = time.time() - t0
    if rc == "timeout":
        raise Inconclusive("solver budget of %ds used up" % job.timeout)
    p = parse_cbmc(o)
    if p is None or p[0] is None:
        raise Inconclusive("cbmc gave no result (rc=%s): %s" % (rc, (o[-1500:] + e[-500:]).decode(errors="replace")))
    return p[0], p[1], dt, cmd


def stats_of(msgs):
    st = {}
    for m in msgs:
        g = re.search(r"(\d+) variables, (\d+) clauses", m)
        if g:
            st["variables"] = max(st.get("variables", 0), int(g.group(1)))
            st["clauses"] = max(st.get("clauses", 0), int(g.group(2)))
        g = re.search(r"size of program expression: (\d+) steps", m)
        if g:
            st["ssa_steps"] = int(g.group(1))
        g = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
        if g:
            st["vccs"], st["vccs_after_simplification"] = int(g.group(1)), int(g.group(2))
        g = re.search(r"Runtime Solver: ([\d.e-]+)s", m)
        if g:
            st["solver_s"] = round(st.get("solver_s", 0) + float(g.group(1)), 3)
        g = re.search(r"Runtime decision procedure: ([\d.e-]+)s", m, re.I)
        if g:
            st["decision_s"] = round(st.get("decision_s", 0) + float(g.group(1)), 3)
    return st


def run_job(builder, job, pool, log):
    try:
        return run_job1(builder, job)
    except ToolCrash as ex:
        return {"job": job.name, "entry": job.entry, "bounds": job.bounds, "properties": 1, "discharged": 0, "wall_s": 0,
                "violation": {"cbmc_property": "program", "description": ex.args[0], "where": "tokenizer", "inputs": [],
                              "native": "crash", "stderr": ex.args[1]}}
    except Inconclusive as ex:
        if job.fallback is None or "does not reproduce" in str(ex):
            raise
        rec = run_job1(builder, job.fallback)
        rec["reduced_bounds_because"] = str(ex)
        return rec


def run_job1(builder, job):
    rec = {"job": job.name, "entry": job.entry, "bounds": job.bounds, "unwind": job.unwind,
           "stubs": job.stubs, "reduced_tables": job.scale, "build": "release (NDEBUG)" if job.ndebug else "debug (asserts on)"}
    gb = builder.goto_binary(job)
    if job.unwindset:
        job.present = builder.functions(gb)
    unwind = job.unwind
    job.loops = {}
    t_all = time.time()
    while True:
        # first pass: all properties, traces only for failing ones
        res, msgs, dt, cmd = solve(job, gb, unwind, ["--trace"])
        bad = [r for r in res if r["status"] == "FAILURE"]
        unw = [r for r in bad if "unwind" in r["property"] or "recursion" in r["property"]]
        real = [r for r in bad if r not in unw and not r.get("description", "").startswith("VTREACH: ")]
        # a bound that is too small is raised for that loop, and the query repeated
        limit = job.max_unwind or job.unwind * 4
        ids = [r["property"].replace(".unwind.", ".") for r in unw if ".unwind." in r["property"]]
        if unw and not real and ids and len(ids) == len(unw) and all(job.loops.get(i, unwind) < limit for i in ids):
            for i in ids:
                job.loops[i] = min(limit, 2 * max(job.loops.get(i, 0), (job.unwindset or {}).get(i, 0), unwind))
            continue
        if unw and not real and unwind < limit:
            unwind = min(limit, unwind * 2)
            continue
        break
    rec["unwind_used"] = unwind
    rec["cmd"] = " ".join(cmd).replace(builder.work, "$WORK")
    rec.update(stats_of(msgs))
    rec["properties"] = len(res)
    rec["wall_s"] = round(time.time() - t_all, 2)
    reach = {r["description"][9:]: r for r in res if r.get("description", "").startswith("VTREACH: ")}
    rec["discharged"] = sum(1 for r in res if r["status"] == "SUCCESS" and
                            not r.get("description", "").startswith("VTREACH: "))
    viol = None
    notrepro = []
    # candidate counterexamples, assertion failures of the harness first
    real.sort(key=lambda r: 0 if r.get("description", "").startswith("VT: ") else 1)
    for r in real + unw:
        ins = inputs_of_trace(r.get("trace"))
        nb = builder.native_binary(job)
        nr = native_run(nb, ins, job.replay_timeout, builder.work)
        entry = {"cbmc_property": r["property"], "description": r["description"],
                 "where": trace_failure(r.get("trace")), "inputs": ins, "native": nr["bad"],
                 "assume_failed": nr["assume_failed"]}
        if nr["bad"]:
            viol = entry
            viol["stderr"] = nr["stderr"]
            break
        notrepro.append(entry)
        if len(notrepro) >= 12:
            break
    if viol:
        rec["violation"] = viol
        return rec
    # plain signed overflow wraps in the real build: only a crash or a wrong result counts
    wraps = [e for e in notrepro if "overflow" in e["cbmc_property"]]
    if wraps:
        rec["signed_overflow_that_wraps"] = wraps
        notrepro = [e for e in notrepro if e not in wraps]
    if real and notrepro:
        e = notrepro[0]
        raise Inconclusive("counterexample does not reproduce natively: %s [%s] at %s inputs=%s" %
                           (e["description"], e["cbmc_property"], e["where"], e["inputs"][:40]))
    if unw:
        raise Inconclusive("unwinding bound %d too small: %s" % (unwind, [u["property"] for u in unw][:4]))
    unk = [r for r in res if r["status"] not in ("SUCCESS", "FAILURE")]
    if unk:
        raise Inconclusive("undecided: " + unk[0]["property"])
    # vacuity: every witness must be reachable, and the real code must follow it
    rec["witnesses"] = {}
    if not job.noreach:
        for w in job.reach:
            if w not in reach:
                raise Inconclusive("witness %s is missing from the encoding" % w)
        for name, r in sorted(reach.items()):
            if r["status"] != "FAILURE":
                if name in job.reach:
                    raise Inconclusive("vacuous: witness %s is unreachable" % name)
                continue
            ins = inputs_of_trace(r.get("trace"))
            if not job.native:
                rec["witnesses"][name] = {"inputs": ins[:64], "followed_by_real_code": "not replayed"}
                continue
            nb = builder.native_binary(job)
            nr = native_run(nb, ins, job.replay_timeout, builder.work)
            if nr["bad"]:
                rec["violation"] = {"cbmc_property": "witness " + name, "description":
                                    "real code misbehaves on a solver-chosen input", "where": "native",
                                    "inputs": ins, "native": nr["bad"], "stderr": nr["stderr"]}
                return rec
            ok = name in nr["reach"]
            rec["witnesses"][name] = {"inputs": ins[:64], "followed_by_real_code": ok}
            if not ok:
                raise Inconclusive("witness %s is not followed by the real code (assume_failed=%s)" %
                                   (name, nr["assume_failed"]))
    rec["functions"] = sorted(builder.functions(gb))
    return rec


def load_spec(pid):
    import specs
    if pid not in specs.SPECS:
        sys.exit("unknown property " + pid)
    return specs.SPECS[pid]


def load_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {"findings": [], "fixed": []}


def repo_functions():
    names = set()
    for dp, dn, fn in os.walk(SRC):
        for f in fn:
            if f.endswith((".c", ".h")):
                t = open(os.path.join(dp, f), errors="replace").read()
                names.update(re.findall(r"^\s*[A-Za-z_][\w\s\*]*?\b(\w+)\s*\([^;{}]*\)\s*\{", t, re.M))
    return names


def check(pid, only=None, keep=False, njobs=NCPU):
    spec = load_spec(pid)
    tier = TIER
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vt_%s_" % pid)
    findings = {f["id"]: f for f in load_findings()["findings"] if f["property"] == pid}
    recs, errors, violations, known = [], [], [], []
    try:
        jobs = [j for j in spec["jobs"] if (tier == "thorough" or j.tier == "quick") and
                (only is None or j.name == only)]
        with cf.ThreadPoolExecutor(NCPU) as pool:
            b = Builder(work)
            alljobs = jobs + [j.fallback for j in jobs if j.fallback]
            for c in sorted({j.conf for j in alljobs}):
                b.compile_goto(c, pool)
            for nd in sorted({j.ndebug for j in jobs}):
                b.compile_native(nd, pool)
            # longest first
            order = sorted(jobs, key=lambda j: -j.timeout)
            with cf.ThreadPoolExecutor(njobs) as jp:
                futs = {jp.submit(run_job, b, j, pool, None): j for j in order}
                for f in cf.as_completed(futs):
                    j = futs[f]
                    try:
                        r = f.result()
                    except Inconclusive as ex:
                        errors.append((j.name, str(ex)))
                        print("[%s] %s: INCONCLUSIVE %s" % (pid, j.name, ex), flush=True)
                        continue
                    v = r.get("violation")
                    if j.finding:
                        # a job that pins one recorded defect: exactly that input class
                        if v and j.finding in findings:
                            known.append((j.finding, v))
                            r["known_finding"] = j.finding
                        elif v:
                            violations.append((j, v))
                    elif v:
                        violations.append((j, v))
                    recs.append(r)
                    print("[%s] %s: %s (%d properties, %.1fs)" % (
                        pid, j.name, "VIOLATED" if v else "holds", r["properties"], r["wall_s"]), flush=True)
    finally:
        if keep:
            print("work dir", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    repo_fn = repo_functions()
    fns = sorted({f for r in recs for f in r.get("functions", []) if f in repo_fn})
    for r in recs:
        r["functions"] = sum(1 for f in r.get("functions", []) if f in repo_fn)
    os.makedirs(EVID, exist_ok=True)
    samples = []
    for r in recs:
        for n, w in list(r.get("witnesses", {}).items())[:1]:
            samples.append({"job": r["job"], "witness": n, "inputs": w["inputs"]})
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real C code by CBMC %s: every assertion below is "
                           "decided by a SAT/SMT solver for all input values within the stated bounds; "
                           "unwinding assertions are on, so a bound that is too small is reported and not "
                           "silently truncated. Each witness shows the harness reaches its assertions and is "
                           "re-executed in the real gcc build." % "6.11.0",
            "obligations": sum(r["properties"] - len(r.get("witnesses", {})) for r in recs),
            "discharged": sum(r["discharged"] for r in recs),
            "queries": len(recs),
            "solver_s": round(sum(r.get("solver_s", 0) + 0.0 for r in recs), 2),
            "functions_encoded": fns,
            "traces_validated_against_impl": sum(1 for r in recs for w in r.get("witnesses", {}).values()
                                                 if w["followed_by_real_code"] is True),
            "jobs": recs,
            "samples": samples[:12],
        },
        "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if errors:
        ev["coverage"]["inconclusive"] = [{"job": a, "why": b_} for a, b_ in errors]
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for fid, v in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, findings[fid]["what"]))
    if violations:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for j, v in violations:
            path = os.path.join(EVID, "replay", "%s_%s.json" % (pid, j.name))
            json.dump({"property": pid, "job": j.name, "inputs": v["inputs"], "violation": v},
                      open(path, "w"), indent=1)
            print("  %s: %s [%s] %s native: %s inputs=%s" % (j.name, v["description"], v["cbmc_property"],
                                                           v["where"], v["native"], v["inputs"][:48]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        return 2
    print("[%s] holds within bounds; %.1fs" % (pid, time.time() - t0))
    return 0


COMMON_ASSUMPTIONS = [
    "signed integers wrap in two's complement (signed overflow itself is not reported)",
    "malloc succeeds; printf/iprintf logging has no effect",
    "the gcc and CBMC front ends agree on the meaning of the code (each witness is re-executed natively)",
]


def replay(path):
    d = json.load(open(path))
    spec = load_spec(d["property"])
    job = [j for j in spec["jobs"] if j.name == d["job"]][0]
    work = tempfile.mkdtemp(prefix="vt_replay_")
    try:
        with cf.ThreadPoolExecutor(NCPU) as pool:
            b = Builder(work)
            b.compile_native(job.ndebug, pool)
            nb = b.native_binary(job)
            r = native_run(nb, d["inputs"], job.replay_timeout, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(json.dumps({k: r[k] for k in ("rc", "bad", "violated", "reach", "assume_failed")}, indent=1))
    print(r["stderr"])
    return 1 if r["bad"] else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        for t in ("cbmc", "goto-cc", "goto-instrument", "gcc", "objcopy"):
            if not shutil.which(t):
                sys.exit("missing tool " + t)
        os.makedirs(EVID, exist_ok=True)
        import specs
        print("%d properties, %d jobs" % (len(specs.SPECS), sum(len(s["jobs"]) for s in specs.SPECS.values())))
        return 0
    if len(a) >= 2 and a[0] == "check":
        only = a[a.index("--only") + 1] if "--only" in a else None
        nj = int(a[a.index("--jobs") + 1]) if "--jobs" in a else NCPU
        return check(a[1], only, "--keep" in a, nj)
    if len(a) >= 2 and a[0] == "replay":
        return replay(a[1])
    sys.exit(__doc__)


if __name__ == "__main__":
    sys.exit(main())
