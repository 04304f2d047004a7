"""Orchestration: build the engine, compile /repo to LLVM IR, run symbolic jobs, replay, report, write evidence."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4
CLANG = "clang-18"
IRFLAGS = ("-O0 -Xclang -disable-O0-optnone -g -fno-builtin -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks "
           "-fno-stack-protector -ffp-contract=off -D_FORTIFY_SOURCE=0 -D__NO_CTYPE -D_GNU_SOURCE -w").split()
NATFLAGS = "-g -O0 -fsanitize=address -fno-omit-frame-pointer -fwrapv -fno-strict-aliasing -ffp-contract=off -D_GNU_SOURCE -w".split()

UNITS = {
    "tiny": dict(src=["tiny/src/*.c"], inc=["tiny/include", "tiny/src"]),
    "notepad": dict(src=["examples/notepad/src/buffer.c"], inc=["examples/notepad/include", "examples/notepad/src", "tiny/include"]),
    "server": dict(src=["examples/server/src/requestparser.c", "examples/server/src/request.c", "examples/server/src/list.c"],
                   inc=["examples/server/include", "examples/server/src", "tiny/include"]),
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def readb(p):
    with open(p, "rb") as f:
        return f.read()


def headers_digest(units):
    fs = []
    for u in units:
        for d in UNITS[u]["inc"]:
            fs += glob.glob(os.path.join(REPO, d, "**/*.h"), recursive=True)
    fs += glob.glob(os.path.join(VERIF, "rt/*.h")) + glob.glob(os.path.join(VERIF, "harness/*.h"))
    # sources may include sources; hash everything in the unit directories
    for u in units:
        for d in UNITS[u]["inc"]:
            fs += glob.glob(os.path.join(REPO, d, "*.c")) + glob.glob(os.path.join(REPO, d, "*.inc"))
    return digest(*[x for f in sorted(set(fs)) for x in (f, readb(f))])


def build_engine():
    key = digest(*[readb(f) for f in sorted(glob.glob(os.path.join(VERIF, "engine/*")))])
    exe = os.path.join(BUILD, "vpsym")
    stamp = exe + ".key"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    sh(["make", "-s", "-j2", "-B", "-C", os.path.join(VERIF, "engine"), "B=" + BUILD])
    with open(stamp, "w") as f:
        f.write(key)
    return exe


def compile_one(src, out, flags):
    tmp = out + ".%d.tmp" % os.getpid()
    os.makedirs(os.path.dirname(out), exist_ok=True)
    sh(flags + ["-c", src, "-o", tmp])
    os.replace(tmp, out)
    return out


class Builder:
    def __init__(self):
        self.pool = ThreadPoolExecutor(NCPU)
        self.fut = {}

    def unit_sources(self, units):
        r = []
        for u in units:
            got = []
            for pat in UNITS[u]["src"]:
                got += sorted(glob.glob(os.path.join(REPO, pat)))
            if not got:
                raise BuildError("no sources for unit " + u)
            r += got
        return r

    def incs(self, units):
        r = ["-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness")]
        for u in units:
            r += ["-I" + os.path.join(REPO, d) for d in UNITS[u]["inc"]]
        return list(dict.fromkeys(r))

    def obj(self, src, units, defs, native):
        hd = headers_digest(units)
        base = (["gcc"] + NATFLAGS) if native else ([CLANG] + IRFLAGS + ["-emit-llvm"])
        if native and src.startswith(REPO):
            # as in the engine: array accesses inside an object are checked against the declared array, too
            base = base + ["-fsanitize=bounds", "-fsanitize-undefined-trap-on-error"]
        flags = base + self.incs(units) + ["-D" + d for d in defs]
        key = digest(hd, src, readb(src), *flags)
        out = os.path.join(BUILD, "nat" if native else "ir", os.path.basename(src) + "." + key + (".o" if native else ".bc"))
        if out not in self.fut:
            if os.path.exists(out):
                self.fut[out] = None
            else:
                self.fut[out] = self.pool.submit(compile_one, src, out, flags)
        return out

    def wait(self, out):
        f = self.fut.get(out)
        if f is not None:
            f.result()
        return out

    def files(self, job, native):
        units = job["units"]
        skip = job.get("skip_src", [])
        r = [self.obj(s, units, job.get("unit_defs", []), native) for s in self.unit_sources(units) if os.path.basename(s) not in skip]
        r.append(self.obj(os.path.join(VERIF, "harness", job["src"]), units, job.get("defs", []) + job.get("unit_defs", []), native))
        if native:
            r.append(self.obj(os.path.join(VERIF, "rt/vp_native.c"), units, [], True))
        else:
            r.append(self.obj(os.path.join(VERIF, "rt/vplibc.c"), units, [], False))
        return r

    def link(self, job, native):
        fs = [self.wait(f) for f in self.files(job, native)]
        key = digest(*fs)
        out = os.path.join(BUILD, "nat" if native else "ir", "link-" + key + ("" if native else ".bc"))
        if os.path.exists(out):
            return out
        tmp = out + ".%d.tmp" % os.getpid()
        if native:
            sh(["gcc", "-fsanitize=address"] + fs + ["-o", tmp, "-lm"])
        else:
            sh(["llvm-link-18"] + fs + ["-o", tmp])
        os.replace(tmp, out)
        return out


def run_native(exe, inputs, timeout=20):
    """Run the real code on concrete inputs. Returns dict(verdict, violated, obs, text)."""
    d = tempfile.mkdtemp(prefix="vpnat")
    try:
        inf, repf = os.path.join(d, "in.txt"), os.path.join(d, "rep.txt")
        with open(inf, "w") as f:
            for n, h in inputs:
                f.write("%s %s\n" % (n, h))
        scratch = os.path.join(d, "cwd")
        os.mkdir(scratch)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=203:allocator_may_return_null=1:exitcode=77:handle_abort=0")
        try:
            p = subprocess.run([exe, inf, repf], cwd=scratch, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            rc, err, to = p.returncode, p.stderr.decode("latin1"), False
        except subprocess.TimeoutExpired as e:
            rc, err, to = None, (e.stderr or b"").decode("latin1"), True
        rep = open(repf).read() if os.path.exists(repf) else ""
        viol = [l[9:] for l in rep.splitlines() if l.startswith("VIOLATED ")]
        obs = [tuple((l[4:].rsplit(" ", 1) + [""])[:2]) for l in rep.splitlines() if l.startswith("OBS ")]
        bad = None
        if to:
            bad = "timeout (hang)"
        elif "AddressSanitizer" in err:
            m = re.search(r"AddressSanitizer:? ([^\n]*)", err)
            bad = "AddressSanitizer: " + (m.group(1)[:160] if m else "")
        elif "SIGNAL" in rep:
            m = re.search(r"Assertion `[^\n]*", err)
            bad = "killed by signal " + re.search(r"SIGNAL (\d+)", rep).group(1) + (" " + m.group(0) if m else "")
        elif "EXITED" in rep:
            bad = "exit() called"
        elif rc not in (0, 10, 12):
            bad = "exit status %s" % rc
        return dict(bad=bad, violated=viol, obs=obs, rc=rc, assume_false="ASSUME-FALSE" in rep, err=err[-3000:], allowed="ALLOWED-ABORT" in rep)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_engine(exe, bc, job, shard, nshards, max_time, dumpdir, procs):
    out = tempfile.mktemp(prefix="vpo")
    cmd = [exe, bc, "--out", out, "--shard", "%d/%d" % (shard, nshards), "--max-time", str(max_time), "--repo", REPO + "/"]
    if dumpdir:
        cmd += ["--dump", dumpdir]
    for k, v in job.get("opts", {}).items():
        cmd += ["--" + k, str(v)]
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limit)
    procs.append(p)
    try:
        _, err = p.communicate(timeout=max_time + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
        return dict(crash="engine timeout")
    if p.returncode != 0 or not os.path.exists(out):
        return dict(crash="engine exit %s: %s" % (p.returncode, err.decode("latin1")[-800:]))
    r = json.load(open(out))
    os.unlink(out)
    r["stderr"] = err.decode("latin1")[-2000:]
    return r


def limit():
    import resource
    m = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (m, m))


def load_known():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=\"([^\"]*)\" (.*)", l.strip())
            if m:
                r.append(dict(property=m.group(1), key=m.group(2), what=m.group(3)))
    return r


def crosscheck(files, limit_n, pool):
    """Re-decide dumped queries with other solvers. Returns (agree, disagree list, undecided)."""
    fs = files[:limit_n]

    def one(f):
        want = "sat" if f.endswith(".sat.smt2") else "unsat"
        try:
            p = subprocess.run(["z3-new", "-T:10", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=20)
            got = p.stdout.split()[0] if p.stdout.split() else "?"
        except Exception:
            got = "?"
        return f, want, got
    agree, dis, und = 0, [], 0
    for f, want, got in pool.map(one, fs):
        if got == want:
            agree += 1
        elif got in ("sat", "unsat"):
            dis.append(f)
        else:
            und += 1
    return agree, dis, und


def describe_inputs(inputs):
    out = []
    for n, h in inputs:
        b = bytes.fromhex(h)
        if len(b) in (1, 2, 4, 8):
            out.append("%s=%d" % (n, int.from_bytes(b, "little", signed=True)))
        else:
            out.append("%s=%r" % (n, b))
    return " ".join(out)


def run_check(pid, spec, tier, seed, verbose=False, only=None):
    t0 = time.time()
    jobs = [j for j in spec["jobs"] if (tier == "thorough" or j.get("tier", "quick") == "quick") and not (tier == "thorough" and j.get("tier") == "quick-only")]
    if only:
        jobs = [j for j in jobs if j["name"] in only]
    known = [k for k in load_known() if k["property"] == pid]
    B = Builder()
    eng = B.pool.submit(build_engine)
    for j in jobs:
        j.setdefault("units", ["tiny"])
        B.files(j, False)
    bcs = {}
    for j in jobs:
        bcs[j["name"]] = B.link(j, False)
    exe = eng.result()
    for j in jobs:
        B.files(j, True)  # start native builds in the background
    dumproot = tempfile.mkdtemp(prefix="vpq")
    budget = (spec.get("budget_quick", 240) if tier == "quick" else spec.get("budget_thorough", 3000))
    results = {}
    procs = []
    ex = ThreadPoolExecutor(NCPU)
    futs = {}
    order = []
    for j in jobs:
        n = j.get("shards", 1)
        for s in range(n):
            order.append((j, s, n))
    found_unknown = False

    def task(j, s, n):
        left = budget - (time.time() - t0)
        if left < 2:
            return dict(skipped="time budget")
        dd = os.path.join(dumproot, "%s-%d" % (j["name"], s))
        os.makedirs(dd)
        return run_engine(exe, bcs[j["name"]], j, s, n, min(left, j.get("max_time", 1e9)), dd, procs)
    for (j, s, n) in order:
        futs[ex.submit(task, j, s, n)] = (j, s)

    def known_match(e):
        for k in known:
            if k["key"] and (k["key"] == e["msg"] or k["key"] in (e["kind"] + ": " + e["msg"] + " at " + e["where"])):
                return k
        return None
    stopped = False
    for f in as_completed(futs):
        j, s = futs[f]
        r = f.result()
        results.setdefault(j["name"], {})[s] = r
        if verbose:
            print("  [%6.1fs] %s shard %d: %s" % (time.time() - t0, j["name"], s, r.get("crash") or r.get("skipped") or "paths=%d err=%d complete=%s time=%.1f q=%d st=%.1f rss=%d %s" % (
                r["paths_done"] + r["paths_aborted"], len(r["errors"]), r["complete"], r["time"], r["queries"], r["solver_time"], r["maxrss_mb"], r["why"])), flush=True)
        if not r.get("crash") and any(not known_match(e) for e in r.get("errors", [])) and not stopped and not spec.get("no_early_stop"):
            found_unknown = True
            # a candidate violation: give the rest a short grace, then confirm
            stopped = True
            if not verbose or tier == "quick":
                budget = min(budget, time.time() - t0)
                for p in procs:
                    if p.poll() is None:
                        try:
                            p.kill()
                        except Exception:
                            pass
    # ------------------------------------------------------------ verdict
    violations, knownhits, unconfirmed, notes, vac = [], [], [], [], []
    tot = dict(paths_done=0, paths_aborted=0, paths_error=0, paths_pruned=0, paths_unknown=0, forks=0, instrs=0, sym_branches=0, queries=0, z3calls=0, sat=0, unsat=0, unknown=0, cached=0, concretizations=0)
    stime, maxq = 0.0, 0.0
    funcs = {}
    jobrep = []
    complete = True
    validated, mism = 0, []
    samples_ev = []
    repdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    for old in glob.glob(os.path.join(repdir, pid + "-*")):
        os.unlink(old)
    crashed = []
    for j in jobs:
        rs = results.get(j["name"], {})
        labels = {}
        reached = {}
        jr = dict(job=j["name"], harness=j["src"], bounds=j.get("bounds", ""), shards=j.get("shards", 1), paths=0, instructions=0, assertions=0, seconds=0.0, complete=True)
        natexe = None
        jsamples = []
        errs = {}
        for s, r in sorted(rs.items()):
            if r.get("crash") or r.get("skipped"):
                complete = jr["complete"] = False
                if not stopped:
                    notes.append("%s/%d: %s" % (j["name"], s, r.get("crash") or r.get("skipped")))
                if r.get("crash") and not stopped:
                    crashed.append(notes[-1])
                continue
            for k in tot:
                tot[k] += r[k]
            stime += r["solver_time"]
            maxq = max(maxq, r["max_query_time"])
            jr["paths"] += r["paths_done"] + r["paths_aborted"]
            jr["instructions"] += r["instrs"]
            jr["seconds"] += r["time"]
            if not r["complete"]:
                complete = jr["complete"] = False
                notes.append("%s/%d incomplete: %s" % (j["name"], s, "; ".join(r["why"])))
            for l, c in r["labels"].items():
                a = labels.setdefault(l, [0, 0, 0])
                for i in range(3):
                    a[i] += c[i]
            for l, c in r["reached"].items():
                reached[l] = reached.get(l, 0) + c
            for f in r["functions"]:
                k = (f[0], f[1])
                if k not in funcs:
                    funcs[k] = dict(calls=0, miss=set(f[5]), total=f[4])
                funcs[k]["calls"] += f[2]
                funcs[k]["miss"] &= set(f[5])
            jsamples += r["samples"]
            for e in r["errors"]:
                errs.setdefault((e["kind"], e["msg"], e["where"] if e["kind"] != "assert" else ""), e)
        jr["assertions"] = sum(a[0] for a in labels.values())
        jr["assertion_labels"] = {l: a[0] for l, a in sorted(labels.items())}
        jr["reach_witnesses"] = reached
        for l in j.get("expect", []):
            if not (labels.get(l, [0])[0] or reached.get(l)):
                vac.append("%s: '%s' never reached" % (j["name"], l))
        if not errs and not jr["paths"] and jr["complete"]:
            vac.append("%s: no path completed" % j["name"])
        # replay candidate violations on the real code
        if errs or jsamples:
            natexe = B.link(j, True)
        elist = sorted(errs.values(), key=lambda e: bool(known_match(e)))
        nunk = sum(1 for e in elist if not known_match(e))
        elist = elist[:min(nunk, 6)] + elist[nunk:]
        for e in elist:
            nat = run_native(natexe, e["inputs"], timeout=j.get("native_timeout", 15))
            ok = bool(nat["bad"]) or (e["kind"] == "assert" and bool(nat["violated"]))
            k = known_match(e)
            fn = os.path.join(repdir, "%s-%s-%d.txt" % (pid, j["name"], len(violations) + len(knownhits) + len(unconfirmed)))
            with open(fn, "w") as f:
                f.write("# property %s, job %s (harness/%s defs %s)\n# %s: %s\n# at %s\n# stack %s\n# inputs: %s\n# native run of the real code: %s violated=%s\n" % (
                    pid, j["name"], j["src"], " ".join(j.get("defs", [])), e["kind"], e["msg"], e["where"], e["stack"], describe_inputs(e["inputs"]), nat["bad"], nat["violated"]))
                f.write("# replay: python3 check.py --replay %s\n" % fn)
                for n, h in e["inputs"]:
                    f.write("%s %s\n" % (n, h))
            rec = dict(kind=e["kind"], msg=e["msg"], where=e["where"], job=j["name"], replay=fn, native=nat["bad"] or nat["violated"], inputs=describe_inputs(e["inputs"])[:600])
            if k:
                knownhits.append((k, rec))
            elif ok:
                violations.append(rec)
            else:
                rec["native_err"] = nat["err"][-400:]
                unconfirmed.append(rec)
        # validate sampled paths: the real code, run on the same inputs, must give the same observations
        if not errs:
            pick = jsamples[:j.get("validate", 5 if tier == "quick" else 24)]
            for smp in pick:
                nat = run_native(natexe, smp["inputs"], timeout=j.get("native_timeout", 30))
                if nat["bad"] or nat["violated"] or nat["assume_false"] or [tuple(o) for o in smp["obs"]] != nat["obs"]:
                    mism.append(dict(job=j["name"], inputs=describe_inputs(smp["inputs"])[:400], engine=smp["obs"][:20], native=nat["obs"][:20], bad=nat["bad"], violated=nat["violated"], af=nat["assume_false"], err=nat["err"][-300:]))
                else:
                    validated += 1
                    if len(samples_ev) < 12:
                        samples_ev.append(dict(job=j["name"], inputs=describe_inputs(smp["inputs"])[:400], observed={o[0]: o[1][:64] for o in smp["obs"][:8]}))
        jobrep.append(jr)
    dumps = sorted(glob.glob(dumproot + "/*/*.smt2"))
    # deterministic spread over the jobs
    dumps = dumps[::max(1, len(dumps) // (16 if tier == "quick" else 120) or 1)]
    agree, dis, und = crosscheck(dumps, 16 if tier == "quick" else 120, B.pool)
    if dis:
        notes.append("second solver disagrees on %d queries" % len(dis))
        complete = False
    shutil.rmtree(dumproot, ignore_errors=True)
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["paths_done"] + tot["paths_aborted"] + tot["forks"],
            transitions=tot["instrs"],
            traces_validated_against_impl=validated,
            samples=samples_ev if samples_ev else [dict(note="no completed sample path in this run")],
            rule="states = completed symbolic paths + fork points; transitions = IR instructions of the real code executed symbolically; each path covers every input satisfying its path condition",
            exhaustive=bool(complete),
            symbolic_paths=tot["paths_done"], paths_ending_in_permitted_assert=tot["paths_aborted"], paths_pruned_by_assumptions=tot["paths_pruned"],
            solver=dict(name="z3 4.8.12 (C API)", queries=tot["queries"], solver_calls=tot["z3calls"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"], answered_from_cache=tot["cached"], seconds=round(stime, 2), slowest_query_s=round(maxq, 3),
                        crosschecked_with_second_solver=agree, second_solver_undecided=und, second_solver_disagrees=len(dis)),
            jobs=jobrep,
            functions_encoded=["%s:%s (%d calls, %d/%d lines)" % (k[0], k[1], v["calls"], v["total"] - len(v["miss"]), v["total"]) for k, v in sorted(funcs.items())],
            complete=bool(complete), notes=notes,
            validation_mismatches=mism, unconfirmed_counterexamples=unconfirmed,
            known_findings=[dict(what=k["what"], inputs=r["inputs"]) for k, r in knownhits],
        ),
        assumptions=spec.get("assumptions", []) + ["bounds as listed per job; nothing outside them is claimed", "C library functions are modelled by rt/vplibc.c and engine builtins", "allocation succeeds; objects are at fixed disjoint addresses; fresh heap memory holds 0xCB bytes"],
        wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VP_COV"):
        with open(os.path.join(VERIF, "evidence", pid + ".cov.json"), "w") as f:
            json.dump({"%s:%s" % k: sorted(v["miss"]) for k, v in funcs.items()}, f)
    seen = set()
    for k, r in knownhits:
        if k["key"] not in seen:
            seen.add(k["key"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for n in notes:
        print("NOTE " + n)
    for m in mism:
        print("ENGINE-MISMATCH %s" % json.dumps(m)[:1500])
    for u in unconfirmed:
        print("UNCONFIRMED %s: %s at %s [%s] %s native_err=%s" % (u["kind"], u["msg"], u["where"], u["inputs"][:300], u["replay"], u.get("native_err")))
    print("%s tier=%s jobs=%d paths=%d instrs=%d queries=%d solver=%.1fs validated=%d crosschecked=%d wall=%.1fs complete=%s" % (
        pid, tier, len(jobs), tot["paths_done"] + tot["paths_aborted"], tot["instrs"], tot["queries"], stime, validated, agree, wall, complete))
    for v in violations:
        print("%s: %s at %s inputs: %s native: %s" % (v["kind"], v["msg"], v["where"], v["inputs"][:400], v["native"]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    if violations:
        return 1
    if crashed:
        print("ERROR " + "; ".join(crashed)[:2000])
        return 2
    if vac:
        print("VACUOUS " + "; ".join(vac))
        return 2
    return 0
