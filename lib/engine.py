"""Bounded symbolic checking of the real ecgen sources with CBMC.

One Job = one harness entry point, decided by the solver for every value of
its nondeterministic inputs.  The sources of /repo are recompiled by goto-cc
on every run; counterexamples are replayed by compiling the same harness, the
same model of libpari and the same /repo sources natively (clang, ASan+UBSan)
and feeding the solver's values in; only what reproduces is reported.
"""
import copy, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = os.cpu_count() or 4
MODEL = os.path.join(VERIF, "model")
HARN = os.path.join(VERIF, "harness")


class Job:
    def __init__(self, name, file, entry, src=None, model=("pm_core.c", "pm_gen.c"),
                 defs=None, unwind=None, unwindset=None, flags=(), std=True,
                 timeout=300, mem_gb=12, stub=(), tier="quick", bounds="",
                 reach=1, hang_is_violation=True, backend=None, objbits=12,
                 unwind_retry=True, native_defs=None, libs=(), fieldarr=None, slice_=False, rename=(), predrop=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.defs = dict(defs or {})


class Inconclusive(Exception):
    pass


def run(cmd, timeout=None, mem_gb=None, cwd=None, env=None, stdout=None):
    pre = None
    if mem_gb:
        import resource
        lim = int(mem_gb * (1 << 30))

        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    p = subprocess.Popen(cmd, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=env, preexec_fn=pre, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out or b"", err or b""
    return p.returncode, out or b"", err or b""


class Builder:
    """Compiles each translation unit at most once per (file, flags)."""

    def __init__(self, work):
        self.work = work
        self.lock = threading.Lock()
        self.futs = {}
        self.pool = ThreadPoolExecutor(NCPU)

    def _key(self, *a):
        return hashlib.sha1(repr(a).encode()).hexdigest()[:16]

    def _defs(self, defs):
        return ["-D%s=%s" % (k, v) if v is not None else "-D" + k for k, v in sorted(defs.items())]

    INC = ["-I" + os.path.join(MODEL, "include"), "-I" + MODEL, "-I" + HARN,
           "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "lib")]

    def obj(self, path, job, native):
        is_repo = path.startswith(REPO + "/")
        stub = job.stub
        # libc functions renamed in the code under test, so that the harness can
        # stand in for the outside world in both builds
        d = {s: "pm_" + s for s in job.rename} if is_repo else dict(job.defs)
        k = self._key(path, sorted(d.items()), native, tuple(stub) if is_repo else ())
        with self.lock:
            if k not in self.futs:
                self.futs[k] = self.pool.submit(self._compile, k, path, d, native, stub if is_repo else ())
        return self.futs[k]

    def _compile(self, k, path, defs, native, stub):
        out = os.path.join(self.work, k + (".no" if native else ".gb"))
        common = ["-DNDEBUG", "-w"] + self._defs(defs) + self.INC
        pre = ["-include", os.path.join(MODEL, "pm_repo.h")] if path.startswith(REPO + "/") else []
        if native:
            cmd = ["clang", "-g", "-O0", "-fno-inline", "-fPIC", "-fsanitize=address,undefined",
                   "-fno-sanitize=shift-exponent,shift-base,alignment,function,pointer-overflow,vla-bound",
                   "-fno-sanitize-recover=undefined"] + common + pre + ["-c", path, "-o", out]
        else:
            cmd = ["goto-cc", "-DVCBMC", "-DWITNESS"] + common + pre + ["-c", path, "-o", out]
        rc, o, e = run(cmd, timeout=200)
        if rc != 0 or not os.path.exists(out):
            txt = (o + e).decode(errors="replace")
            raise Inconclusive("compilation of %s failed: %s" % (path, " | ".join(l for l in txt.splitlines() if "error" in l)[:400] or txt[-400:]))
        if stub:
            if native:
                cmd = ["objcopy"] + ["--weaken-symbol=" + s for s in stub] + [out]
                rc, o, e = run(cmd, timeout=60)
            else:
                have = self._functions(out)
                todo = [s for s in stub if s in have]
                if todo:
                    cmd = ["goto-instrument"]
                    for s in todo:
                        cmd += ["--remove-function-body", s]
                    rc, o, e = run(cmd + [out, out + ".s"], timeout=60)
                    if rc != 0:
                        raise Inconclusive("goto-instrument: " + (o + e).decode(errors="replace")[-500:])
                    os.replace(out + ".s", out)
        return out

    def _functions(self, gb):
        rc, o, e = run(["goto-instrument", "--list-symbols", gb], timeout=60)
        return set(re.findall(r"^(\w+)\s", o.decode(errors="replace"), re.M)) if rc == 0 else set()


    def lacking(self, gb):
        """Functions the linked program calls and nothing defines."""
        rc, o, e = run(["goto-instrument", "--list-undefined-functions", gb], timeout=60)
        return set(o.decode(errors="replace").split()) if rc == 0 else set()


MORE = set(re.findall(r"#ifdef PM_NEED_(\w+)", open(os.path.join(MODEL, "pm_more.c")).read()))


def repo_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".c") and f != "ecgen.c":
                r.append(os.path.join(d, f))
    return sorted(r)


def resolve_src(job):
    """Default: every source of /repo/src (so moved helpers are still found);
    job.src may restrict ('only', [...]) or omit ('omit', [...])."""
    allsrc = repo_sources()
    s = job.src
    if s is None:
        s = ("omit", [])
    mode, lst = s
    if mode == "only":
        return [os.path.join(REPO, x if x.startswith("lib/") else "src/" + x) for x in lst]
    omit = set(os.path.join(REPO, "src", x) for x in lst if not x.startswith("+"))
    add = [os.path.join(REPO, x[1:]) for x in lst if x.startswith("+")]
    return [x for x in allsrc if x not in omit] + add


class JobResult:
    def __init__(self, job):
        self.job = job
        self.nprops = 0
        self.checked = 0
        self.reach_hit = 0
        self.fails = []          # (id, desc, loc, tape)
        self.model_fails = []
        self.solver_s = 0.0
        self.symex_s = 0.0
        self.steps = 0
        self.vars = 0
        self.clauses = 0
        self.vccs = 0
        self.wall = 0.0
        self.funcs = set()
        self.reach_tapes = []
        self.replayed_ok = 0
        self.error = None
        self.violations = []
        self.cmd = ""
        self.bodies = 0


def tape_of(trace):
    t = []
    for s in trace:
        if s.get("stepType") == "assignment" and s.get("lhs") == "pm_tape_v" and s.get("mode", "C") == "C":
            v = s.get("value", {})
            b = v.get("binary")
            if b is not None:
                t.append(int(b, 2))
            else:
                m = re.match(r"\d+", str(v.get("data", "0")))
                t.append(int(m.group(0)) if m else 0)
    # the initialisation of the global itself is the first assignment
    return t[1:] if t else t


def _predrop(gb, entry):
    """Remove the bodies of functions the entry point cannot reach, so that the
    functions only they mention are no candidates for function pointer calls."""
    rc, o, e = run(["goto-instrument", "--show-goto-functions", gb], timeout=100)
    if rc != 0:
        raise Inconclusive("goto-instrument: " + (o + e).decode(errors="replace")[-500:])
    body, cur, name = {}, None, None
    for ln in o.decode(errors="replace").splitlines():
        m = re.match(r"(\S+) /\* (\S+) \*/$", ln)
        if m:
            cur = body.setdefault(m.group(1), [])
        elif cur is not None:
            cur.append(ln)
    names = set(body)
    seen, todo = set(), ["__CPROVER__start", "__CPROVER_initialize", entry]
    while todo:
        f = todo.pop()
        if f in seen or f not in body:
            continue
        seen.add(f)
        txt = "\n".join(l for l in body[f] if not l.lstrip().startswith("//"))
        todo += [w for w in set(re.findall(r"[\w$]+", txt)) & names if w not in seen]
    drop = sorted(f for f in names - seen if body[f] and any("END_FUNCTION" in l for l in body[f]))
    if not drop:
        return
    cmd = ["goto-instrument"]
    for f in drop:
        cmd += ["--remove-function-body", f]
    rc, o, e = run(cmd + [gb, gb + ".d"], timeout=100)
    if rc != 0:
        raise Inconclusive("goto-instrument: " + (o + e).decode(errors="replace")[-500:])
    os.replace(gb + ".d", gb)


def solve(job, builder, unwind_extra=0, nohints=False, deadline=None):
    res = JobResult(job)
    t0 = time.time()
    if nohints:
        job = copy.copy(job)
        job.defs = dict(job.defs, PM_NOHINTS=1)
        job.name += "_nohints"
    files = [os.path.join(HARN, job.file)] + [os.path.join(MODEL, m) for m in job.model] + resolve_src(job)
    objs = [builder.obj(f, job, False) for f in files]
    objs = [o.result() for o in objs]
    gb = os.path.join(builder.work, re.sub(r"\W", "_", job.name) + ".gb")
    rc, o, e = run(["goto-cc", "--function", job.entry] + objs + ["-o", gb], timeout=200)
    if rc != 0:
        raise Inconclusive("link failed for %s: %s" % (job.name, (o + e).decode(errors="replace")[-2000:]))
    # less common library functions the program under test calls
    for _ in range(3):
        need = builder.lacking(gb) & MORE - set(k[8:] for k in job.defs)
        if not need:
            break
        job = copy.copy(job)
        job.defs = dict(job.defs, **{"PM_NEED_" + n: 1 for n in need})
        if "pm_more.c" not in job.model:
            job.model = tuple(job.model) + ("pm_more.c",)
        files = [os.path.join(HARN, job.file)] + [os.path.join(MODEL, m) for m in job.model] + resolve_src(job)
        objs = [o.result() for o in [builder.obj(f, job, False) for f in files]]
        rc, o, e = run(["goto-cc", "--function", job.entry] + objs + ["-o", gb], timeout=200)
        if rc != 0:
            raise Inconclusive("link failed for %s: %s" % (job.name, (o + e).decode(errors="replace")[-2000:]))
    if job.predrop:
        _predrop(gb, job.entry)
    res.rjob = job
    cmd = ["cbmc", gb, "--function", job.entry, "--json-ui", "--trace", "--drop-unused-functions",
           "--no-standard-checks", "--no-malloc-may-fail", "--verbosity", "8", "--object-bits", str(job.objbits), "--unwinding-assertions"]
    if job.std:
        cmd += ["--pointer-check", "--bounds-check", "--div-by-zero-check"]
    if job.unwind:
        cmd += ["--unwind", str(job.unwind + unwind_extra)]
    if job.unwindset:
        cmd += ["--unwindset", ",".join(job.unwindset)]
    if job.slice_:
        cmd += ["--slice-formula"]
    if job.fieldarr:
        cmd += ["--max-field-sensitivity-array-size", str(job.fieldarr)]
    b = job.backend
    if b == "cadical":
        cmd += ["--sat-solver", "cadical"]
    elif b == "z3":
        cmd += ["--smt2"]
    elif b == "cvc5":
        cmd += ["--cvc5"]
    env = None
    if b == "z3new":
        # cbmc runs the z3 found on the PATH: the newer one
        cmd += ["--smt2"]
        zd = os.path.join(builder.work, "zb")
        os.makedirs(zd, exist_ok=True)
        try:
            os.symlink(shutil.which("z3-new") or shutil.which("z3"), os.path.join(zd, "z3"))
        except FileExistsError:
            pass
        env = dict(os.environ, PATH=zd + ":" + os.environ["PATH"])
    cmd += list(job.flags)
    res.cmd = " ".join(cmd).replace(builder.work, "$WORK")
    outp = gb + ".json"
    tmo = job.timeout
    if deadline:
        tmo = max(5, min(tmo, deadline - time.time()))
    with open(outp, "wb") as fh:
        rc, _, err = run(cmd, timeout=tmo, mem_gb=job.mem_gb, stdout=fh, env=env)
    res.wall = time.time() - t0
    if rc is None:
        raise Inconclusive("%s: solver exceeded %ds" % (job.name, tmo))
    try:
        data = json.load(open(outp))
    except Exception as ex:
        raise Inconclusive("%s: cbmc output unreadable rc=%s %s" % (job.name, rc, err.decode(errors="replace")[-500:]))
    os.unlink(outp)
    results = None
    msgs = []
    for it in data:
        if "result" in it:
            results = it["result"]
        if "messageText" in it:
            msgs.append(it["messageText"])
    if rc not in (0, 10) or results is None:
        raise Inconclusive("%s: cbmc rc=%s: %s" % (job.name, rc, " | ".join(msgs[-5:])))
    for m in msgs:
        g = re.match(r"Runtime (?:Solver|decision procedure): ([\d.e+-]+)s", m)
        if g and m.startswith("Runtime decision"):
            res.solver_s += float(g.group(1))
        g = re.match(r"Runtime Symex: ([\d.e+-]+)s", m)
        if g:
            res.symex_s += float(g.group(1))
        g = re.match(r"size of program expression: (\d+) steps", m)
        if g:
            res.steps += int(g.group(1))
        g = re.match(r"(\d+) variables, (\d+) clauses", m)
        if g:
            res.vars, res.clauses = int(g.group(1)), int(g.group(2))
        g = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
        if g:
            res.vccs += int(g.group(1))
    unknown = []
    for r in results:
        loc = r.get("sourceLocation", {})
        f = loc.get("file", "")
        if f.startswith(REPO + "/"):
            res.funcs.add(os.path.relpath(f, REPO) + ":" + loc.get("function", "?"))
        desc, st = r.get("description", ""), r.get("status")
        if desc.startswith("REACH:"):
            if st == "FAILURE":
                res.reach_hit += 1
                res.reach_tapes.append((desc, tape_of(r.get("trace", []))))
            continue
        res.nprops += 1
        if st == "SUCCESS":
            res.checked += 1
            continue
        if st != "FAILURE":
            unknown.append(r.get("property"))
            continue
        item = dict(id=r.get("property"), desc=desc, loc="%s:%s" % (f, loc.get("line")), tape=tape_of(r.get("trace", [])))
        if desc.startswith("MODEL:") or ".no-body." in (r.get("property") or ""):
            res.model_fails.append(item)
        else:
            res.fails.append(item)
    if unknown and not res.fails and not res.model_fails:
        raise Inconclusive("%s: %d obligations undecided (%s)" % (job.name, len(unknown), unknown[0]))
    return res


def provider(fn, have):
    """A source of /repo/src outside the job that defines the function fn: code
    that was moved or newly calls another part of the program is still encoded."""
    for f in repo_sources():
        if f in have:
            continue
        try:
            txt = open(f, errors="replace").read()
        except OSError:
            continue
        if re.search(r"^[A-Za-z_][\w \t*]*\b%s\s*\([^;{]*\{" % re.escape(fn), txt, re.M) or \
                re.search(r"^(?:GENERATOR|CHECK|UNROLL)\(\s*%s\s*\)" % re.escape(fn), txt, re.M):
            return f
    return None


def native_binary(job, builder):
    defs = dict(job.defs)
    files = [os.path.join(HARN, job.file)] + [os.path.join(MODEL, m) for m in job.model] + resolve_src(job)
    objs = [builder.obj(f, job, True) for f in files]
    objs = [o.result() for o in objs]
    main = os.path.join(builder.work, "main_%s.c" % re.sub(r"\W", "_", job.entry))
    with open(main, "w") as fh:
        fh.write("void %s(void); int main(void){ %s(); return 0; }\n" % (job.entry, job.entry))
    exe = os.path.join(builder.work, re.sub(r"\W", "_", job.name) + ".exe")
    cmd = ["clang", "-g", "-fsanitize=address,undefined", main] + objs + ["-o", exe,
           "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,muldefs", "-no-pie", "-lm", "-lpthread"] + list(job.libs)
    rc, o, e = run(cmd, timeout=200)
    if rc != 0:
        raise Inconclusive("native link: " + (o + e).decode(errors="replace")[-1500:])
    return exe


def replay(job, builder, tape, tmo=20):
    exe = native_binary(job, builder)
    tf = tempfile.NamedTemporaryFile("w", dir=builder.work, suffix=".tape", delete=False)
    tf.write("\n".join(str(x) for x in tape) + "\n")
    tf.close()
    env = dict(os.environ, PM_TAPE=tf.name, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
               UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0:exitcode=98")
    rc, o, e = run([exe], timeout=tmo, env=env, cwd=builder.work)
    txt = (o + e).decode(errors="replace")
    if rc is None:
        return "hang", "the real code did not terminate within %ds on this input" % tmo
    if rc == 77:
        m = re.search(r"PM-FAIL (.*)", txt)
        return "fail", m.group(1) if m else "assertion"
    if rc in (98, 99) or (rc is not None and rc < 0):
        m = re.search(r"(ERROR: AddressSanitizer: .*|.*runtime error: .*)", txt)
        return "fail", (m.group(1) if m else "crashed with %s" % rc)
    if rc == 79:
        return "hang", "input exhausted without termination"
    if rc == 78:
        return "model", txt[-300:]
    if rc == 66:
        return "assume", txt[-300:]
    return "ok", "rc=%s %s" % (rc, txt[-300:])


def run_check(prop, title, jobs, tier, seed, assumptions, explanation, extra=None, known=None):
    """known: list of (substring of 'job/desc') suppressed as known findings."""
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vchk_%s_" % prop)
    builder = Builder(work)
    jobs = [j for j in jobs if j.tier == "quick" or tier == "thorough"]
    only = os.environ.get("VERIF_JOB")
    if only:
        jobs = [j for j in jobs if re.search(only, j.name)]
    out = dict(viol=[], inconc=[], known=[])
    results = []
    # the work directory of an aborted run is useless: always remove it
    try:
        deadline = t0 + (760 if tier == "quick" else 10 * 3600)
        found = threading.Event()

        def one(job):
            # one violation is enough for an answer: what has not started is skipped
            if found.is_set() or time.time() > deadline - 10:
                r = JobResult(job)
                r.error = "not run (%s)" % ("a violation was found already" if found.is_set() else "time limit of the check")
                return r
            r = one_(job)
            if r.violations and not any(k["job"] == job.name for k in (known or [])):
                found.set()
            return r

        def one_(job):
            extra_unw = 0
            nohints = False
            linked = 0
            for attempt in range(6):
                try:
                    r = solve(job, builder, extra_unw, nohints, deadline)
                except Inconclusive as ex:
                    r = JobResult(job)
                    r.error = str(ex)
                    return r
                missing = [m["id"].rsplit(".", 1)[1] if not m["id"].rsplit(".", 1)[1].isdigit() else m["id"].rsplit(".", 2)[1]
                           for m in r.model_fails if ".no-body." in (m["id"] or "")]
                if missing and job.src and job.src[0] == "only" and linked < 3:
                    have = resolve_src(job)
                    more = sorted(set(filter(None, (provider(m, have) for m in missing))))
                    if more:
                        job = copy.copy(job)
                        job.src = ("only", list(job.src[1]) + [os.path.relpath(m, os.path.join(REPO, "src")) for m in more])
                        linked += 1
                        continue
                hint = [f for f in r.fails if f["desc"].startswith("HINT:")]
                r.fails = [f for f in r.fails if not f["desc"].startswith("HINT:")]
                unw = [f for f in r.fails if "unwinding assertion" in f["desc"]]
                oth = [f for f in r.fails if "unwinding assertion" not in f["desc"]]
                todo = (oth + unw)[:4] + hint[:3]
                notes = []
                for f in todo:
                    try:
                        kind, msg = replay(r.rjob, builder, f["tape"])
                    except Inconclusive as ex:
                        kind, msg = "norun", str(ex)
                    if kind == "fail" and "(pc 0x000000000000 " in msg and any(".no-body." in (m["id"] or "") for m in r.model_fails):
                        kind, msg = "model", "calls a function the model lacks"
                    f["replay"] = (kind, msg)
                    if kind == "fail" or (kind == "hang" and job.hang_is_violation):
                        r.violations.append(f)
                        continue
                    notes.append("%s at %s did not reproduce natively (%s: %s)" % (f["desc"], f["loc"], kind, msg))
                if r.violations:
                    return r
                if hint and not nohints:
                    nohints = True
                    continue
                if unw and not extra_unw and job.unwind_retry:
                    extra_unw = (job.unwind or 0)
                    continue
                if notes:
                    r.error = "; ".join(notes)
                elif r.model_fails:
                    r.error = "outside the model: " + "; ".join("%s (%s)" % (m["desc"], m["loc"]) for m in r.model_fails[:3])
                elif r.reach_hit < job.reach:
                    r.error = "vacuous: %d of %d reachability witnesses" % (r.reach_hit, job.reach)
                return r
            return r
        with ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(one, jobs))
        # cross-validation: replay one witness per job through the native build
        validated = 0
        if tier == "thorough" or os.environ.get("VERIF_VALIDATE"):
            for r in results:
                for desc, tape in r.reach_tapes[:2]:
                    if r.error or r.violations:
                        continue
                    try:
                        kind, msg = replay(r.job, builder, tape)
                    except Inconclusive as ex:
                        kind, msg = "norun", str(ex)
                    if kind == "ok":
                        r.replayed_ok += 1
                        validated += 1
                    else:
                        r.error = "witness %s diverges natively: %s %s" % (desc, kind, msg)
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for r in results:
            new = []
            for f in r.violations:
                k = next((k for k in (known or []) if k["job"] == r.job.name and k["desc"] in (f["desc"], f["replay"][1])), None)
                if k:
                    out["known"].append((r.job.name, f, k))
                else:
                    new.append(f)
            if new:
                f = new[0]
                p = os.path.join(rdir, "%s_%s.json" % (prop, re.sub(r"\W", "_", r.job.name)))
                json.dump(dict(property=prop, job=r.job.name, harness=r.job.file, entry=r.job.entry, defs=r.job.defs,
                               failed=f["desc"], location=f["loc"], replay=f["replay"], tape=[str(x) for x in f["tape"]],
                               how="python3 lib/replay.py %s" % p), open(p, "w"), indent=1)
                out["viol"].append((r.job.name, f, p))
            elif r.error:
                out["inconc"].append((r.job.name, r.error))
    finally:
        builder.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(work, ignore_errors=True)
    funcs = sorted(set().union(*[r.funcs for r in results])) if results else []
    ev = dict(property=prop, tier=tier, seed=seed, level="other",
              coverage=dict(
                  explanation=explanation,
                  obligations=sum(r.nprops for r in results),
                  discharged=sum(r.checked for r in results),
                  queries=len(results),
                  reachability_witnesses=sum(r.reach_hit for r in results),
                  witness_traces_replayed_natively=sum(r.replayed_ok for r in results),
                  solver_seconds=round(sum(r.solver_s for r in results), 2),
                  symex_seconds=round(sum(r.symex_s for r in results), 2),
                  program_steps=sum(r.steps for r in results),
                  functions_encoded=funcs,
                  harnesses=[dict(name=r.job.name, harness=r.job.file + ":" + r.job.entry, bounds=r.job.bounds,
                                  unwind=r.job.unwind, defs=r.job.defs, obligations=r.nprops, discharged=r.checked,
                                  sat_variables=r.vars, sat_clauses=r.clauses, solver_s=round(r.solver_s, 2),
                                  wall_s=round(r.wall, 2), backend=r.job.backend or "minisat (cbmc built in)",
                                  status="violated" if any(v[0] == r.job.name for v in out["viol"]) else "known finding" if r.violations else ("inconclusive: " + r.error if r.error else "holds within bounds"))
                             for r in results]),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(out["viol"]))
    if extra:
        ev["coverage"].update(extra)
    ev["coverage"]["inconclusive"] = ["%s: %s" % x for x in out["inconc"]]
    ev["coverage"]["known_findings"] = ["%s: %s" % (j, f["desc"]) for j, f, k in out["known"]]
    return results, out, ev


def load_known(prop):
    """known-findings.txt:
         known: property=<id> job=<job> desc=<assertion> :: <what fails>
         fixed: property=<id> <commit> <what failed>        (documentation only)"""
    r = []
    for ln in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) job=(\S+) desc=(.*?) :: (.*)$", ln.strip())
        if m and m.group(1) == prop:
            r.append(dict(job=m.group(2), desc=m.group(3), text=m.group(4)))
    return r


def main(props):
    if len(sys.argv) < 3:
        print("usage: check <property> quick|thorough")
        sys.exit(2)
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = props[prop]
    results, out, ev = run_check(prop, p["title"], p["jobs"], tier, seed, p["assumptions"], p["explanation"],
                                 known=load_known(prop))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for h in ev["coverage"]["harnesses"]:
        print("%-24s %-22s obligations=%d/%d solver=%.1fs wall=%.1fs" % (h["name"], h["status"][:60], h["discharged"], h["obligations"], h["solver_s"], h["wall_s"]))
    for j, f, k in out["known"]:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    for j, e in out["inconc"]:
        print("INCONCLUSIVE property=%s job=%s %s" % (prop, j, e[-1500:]))
    for j, f, path in out["viol"]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  job %s: %s at %s; real code: %s" % (j, f["desc"], f["loc"], f["replay"][1]))
    print("property=%s tier=%s jobs=%d discharged=%d/%d solver=%.1fs wall=%.1fs" % (prop, tier, len(results), ev["coverage"]["discharged"],
          ev["coverage"]["obligations"], ev["coverage"]["solver_seconds"], ev["wall_s"]))
    if out["viol"]:
        sys.exit(1)
    # a job that could not be decided is reported above and in the evidence; a
    # check in which nothing at all was decided gives no answer
    if results and len(out["inconc"]) >= len(results):
        sys.exit(2)
    sys.exit(0)
