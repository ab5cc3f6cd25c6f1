#!/usr/bin/env python3-vt
"""run_check.py PROPERTY [--tier quick|thorough] [--repo DIR]

Decides one property: compiles the property's contract files together with the
current sources of /repo, generates and discharges every obligation, and only
for obligations that are not discharged looks for a concrete failing input.
exit 0: held on everything explored; exit 1: VIOLATION line(s).
"""
import argparse, glob, hashlib, json, multiprocessing as mp, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
LLVM = "/usr/lib/llvm-18/bin/"
CXX = ("-std=c++17 -DNDEBUG -fno-pic -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-builtin "
       "-mllvm -disable-loop-idiom-all -emit-llvm -c -Wno-everything").split()


def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout


def build_irdump(work):
    src = os.path.join(HERE, "irdump.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    cache = os.path.join(VERIF, ".cache")
    out = os.path.join(cache, "irdump-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(cache, exist_ok=True)
    tmp = os.path.join(work, "irdump")
    rc, o = sh(["g++", "-O1", "-std=c++17", "-fno-rtti", src, "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS",
                "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-o", tmp])
    if rc:
        raise RuntimeError("irdump does not build:\n" + o)
    shutil.copy2(tmp, out + ".tmp%d" % os.getpid())
    os.replace(out + ".tmp%d" % os.getpid(), out)
    return out


class Unit:
    """one contract file with the sources it verifies"""

    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-3]
        txt = open(path).read()
        self.srcs = []
        for m in re.finditer(r"^// SRCS:(.*)$", txt, re.M):
            self.srcs += m.group(1).split()
        m = re.search(r"^// OPT:(.*)$", txt, re.M)
        self.opt = m.group(1).split() if m else ["-O1"]
        self.contracts = re.findall(r"^VP_CONTRACT\((\w+)\)", txt, re.M)
        self.tags = {}
        for m in re.finditer(r"^// CONTRACT (\w+):(.*)$", txt, re.M):
            self.tags[m.group(1)] = m.group(2).strip()
        self.functions = {}
        for m in re.finditer(r"^// VERIFIES:(.*)$", txt, re.M):
            for f in m.group(1).split(";"):
                if f.strip():
                    self.functions[f.strip()] = 1
        self.error = None
        self.jl = None


def compile_jobs(units, work, repo):
    os.makedirs(work + "/inc", exist_ok=True)
    os.symlink(repo, work + "/inc/usml")
    inc = ["-I" + work + "/inc", "-I" + VERIF + "/contracts"]
    jobs = {}
    for u in units:
        for f in [u.path] + [os.path.join(repo, s) for s in u.srcs]:
            key = (f, tuple(u.opt))
            if key not in jobs:
                o = os.path.join(work, "bc%d.bc" % len(jobs))
                jobs[key] = (["clang++"] + u.opt + CXX + inc + [f, "-o", o], o)
    return jobs


def run_parallel(cmds, n):
    res = {}
    running = {}
    todo = list(cmds.items())
    while todo or running:
        while todo and len(running) < n:
            k, (c, o) = todo.pop(0)
            log = open(o + ".log", "w+")
            running[k] = (subprocess.Popen(c, stdout=log, stderr=log), log)
        for k in list(running):
            p, log = running[k]
            if p.poll() is not None:
                log.seek(0)
                res[k] = (p.returncode, log.read())
                log.close()
                del running[k]
        time.sleep(0.02)
    return res


def worker(jl, name, timeout, limit, q):
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    import ir, exec as X, discharge
    from term import show, isT
    t0 = time.time()
    out = {"contract": name, "obs": [], "unsupported": None, "bounded": [], "assumed": [], "externs": [], "lemmas": []}
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeoutError("path exploration time limit")))
    ex = None
    try:
        m = ir.Module(jl)
        ex = X.Exec(m)
        signal.alarm(int(limit))
        try:
            ex.run_contract(name)
        finally:
            signal.alarm(0)
    except X.Unsupported as e:
        out["unsupported"] = str(e)
    except TimeoutError as e:
        out["unsupported"] = str(e)
    except MemoryError:
        out["unsupported"] = "out of memory"
    except Exception as e:
        out["unsupported"] = "internal: " + repr(e) + traceback.format_exc()[-600:]
    out["exec_s"] = round(time.time() - t0, 2)
    if ex is not None:
        out.update(paths=ex.paths, steps=ex.steps, implicit=ex.implicit, summarised=ex.summ_ok, feas=ex.feas.n,
                   bounded=sorted(map(str, ex.bounded)), assumed=sorted(map(str, ex.assumed)), externs=sorted(map(str, ex.externs)),
                   lemmas=sorted(ex.lemmas_used), reached=sorted(x for x in ex.reached if "usml" in x), covers=sorted(ex.covers), trivial=dict(getattr(ex, "trivial", {})))
        end = time.time() + limit
        memo = {}

        def prove_one(o):
            t = time.time()
            if t > end:
                return dict(label=o.label, kind=o.kind, where=o.where, ok=None, how="time limit", s=0, goal="", pc="", model=None)
            pcs = frozenset(o.pc)
            if any(p <= pcs for p in memo.get(o.goal, ())):
                return dict(label=o.label, kind=o.kind, where=o.where, ok=True, how="same obligation discharged before", s=0)
            try:
                r = discharge.prove(o.pc, o.goal, timeout, ex.feas)
                ok, how, model = r.ok, r.how, r.model
            except Exception as e:
                ok, how, model = None, "internal: " + repr(e)[:200], None
            if ok is True:
                memo.setdefault(o.goal, []).append(pcs)
            d = dict(label=o.label, kind=o.kind, where=o.where, ok=ok, how=how, s=round(time.time() - t, 3))
            if ok is not True:
                d["goal"] = show(o.goal)[:3000]
                d["pc"] = " & ".join(show(c) for c in o.pc)[:6000]
                d["model"] = model
            return d
        n = len(ex.obs)
        if n < 60:
            out["obs"] = [prove_one(o) for o in ex.obs]
        else:
            # obligations are independent: share them among processes (same goals stay together)
            K = 6
            groups = {}
            for i, o in enumerate(ex.obs):
                groups.setdefault(o.goal if isT(o.goal) else None, []).append(i)
            slots = [[] for _ in range(K)]
            for g in sorted(groups.values(), key=len, reverse=True):
                min(slots, key=len).extend(g)
            pipes = []
            for sl in slots:
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(rd)
                        data = json.dumps([(i, prove_one(ex.obs[i])) for i in sorted(sl)], default=str).encode()
                        with os.fdopen(wr, "wb") as f:
                            f.write(data)
                    finally:
                        os._exit(0)
                os.close(wr)
                pipes.append((pid, rd))
            got = {}
            for pid, rd in pipes:
                with os.fdopen(rd, "rb") as f:
                    data = f.read()
                os.waitpid(pid, 0)
                if data:
                    for i, d in json.loads(data):
                        got[i] = d
            out["obs"] = [got.get(i) or dict(label=o.label, kind=o.kind, where=o.where, ok=None, how="prover process ended", s=0, goal="", pc="", model=None)
                          for i, o in enumerate(ex.obs)]
    out["total_s"] = round(time.time() - t0, 2)
    q.put(out)


def run_contract_job(args):
    jl, name, timeout, limit, hard = args
    q = mp.get_context("fork").Queue()
    p = mp.get_context("fork").Process(target=worker, args=(jl, name, timeout, limit, q))
    p.start()
    t0 = time.time()
    out = None
    while time.time() - t0 < hard:
        try:
            out = q.get(timeout=0.2)
            break
        except Exception:
            if not p.is_alive():
                try:
                    out = q.get(timeout=1)
                except Exception:
                    pass
                break
    if p.is_alive():
        p.join(1)
        if p.is_alive():
            p.kill()
    if out is None:
        out = {"contract": name, "obs": [], "unsupported": "worker ended (time or memory)", "bounded": [], "assumed": [], "externs": [], "lemmas": [],
               "paths": 0, "exec_s": 0, "total_s": round(time.time() - t0, 2)}
    return out


def fval(s):
    s = s.strip().rstrip("?")
    try:
        if "/" in s:
            a, b = s.split("/")
            return float(a) / float(b)
        if s in ("True", "False"):
            return float(s == "True")
        return float(s)
    except ValueError:
        return None


class Native:
    def __init__(self, unit, work, repo):
        self.unit, self.work, self.repo = unit, work, repo
        self.exe = None
        self.err = None

    def build(self):
        if self.exe or self.err:
            return self.exe
        u = self.unit
        d = os.path.join(self.work, "native_" + u.name)
        os.makedirs(d, exist_ok=True)
        flags = ("-std=c++17 -O1 -g1 -DNDEBUG -fsanitize=address -fno-omit-frame-pointer -Wno-everything -I%s/inc -I%s/contracts" % (self.work, VERIF)).split() + [o for o in u.opt if o.startswith("-f")]
        cmds = {}
        for i, f in enumerate([u.path, HERE + "/native.cc"] + [os.path.join(self.repo, s) for s in u.srcs]):
            o = os.path.join(d, "o%d.o" % i)
            cmds[i] = (["clang++"] + flags + ["-c", f, "-o", o], o)
        res = run_parallel(cmds, 8)
        for i, (rc, log) in res.items():
            if rc:
                self.err = log[-2000:]
                return None
        exe = os.path.join(d, "native")
        rc, log = sh(["clang++", "-fsanitize=address", "-rdynamic", "-no-pie", "-Wl,--unresolved-symbols=ignore-all"] + [o for c, o in cmds.values()] +
                     ["-o", exe, "-lpthread", "-ldl"] + (["-lnetcdf_c++4", "-lnetcdf"] if "waveq3d/wave_queue.cc" in u.srcs else []))
        if rc:
            self.err = log[-2000:]
            return None
        self.exe = exe
        return exe

    ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=16")

    def search(self, contract, secs, seed, out, model=None):
        """(status, log): status 'fail' | 'ok' | 'none' | 'error'"""
        exe = self.build()
        if not exe:
            return "error", self.err or ""
        cmd = [exe, contract, "search", str(secs), str(seed), out]
        if model:
            mf = out + ".model"
            with open(mf, "w") as f:
                for k, v in model.items():
                    x = fval(v)
                    if x is not None:
                        f.write("%s %.17g\n" % (k.replace(" ", "_"), x))
            cmd.append(mf)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs * 3 + 60, env=self.ENV, cwd=self.work, errors="replace")
        except subprocess.TimeoutExpired:
            return "error", "native run timed out"
        if p.returncode == 3:
            return "fail", p.stdout
        if p.returncode == 0:
            return "ok", p.stdout
        if p.returncode == 4:
            return "none", p.stdout
        if p.returncode == 99 and os.path.exists(out):
            if "allocation-size-too-big" in p.stdout or "out-of-memory" in p.stdout:
                return "error", p.stdout
            return "fail", p.stdout
        return "error", "rc %d\n%s" % (p.returncode, p.stdout[-2000:])

    def replay(self, contract, f):
        exe = self.build()
        if not exe:
            return False, self.err
        try:
            p = subprocess.run([exe, contract, "replay", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, env=self.ENV, cwd=self.work, errors="replace")
        except subprocess.TimeoutExpired:
            return False, "timeout"
        return p.returncode in (3, 99), p.stdout


def load_known():
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\w+) contract=(\w+) label=\"([^\"]*)\" (.*)$", l.strip())
            if m:
                out.append(dict(property=m.group(1), contract=m.group(2), label=m.group(3), what=m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build the bitcode reader and stop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--replay", help="replay a recorded failing input")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = a.tier == "thorough"
    t0 = time.time()
    budget = 3000 if thorough else 800
    work = tempfile.mkdtemp(prefix="dvc_")
    rc = 1
    if a.setup:
        build_irdump(work)
        shutil.rmtree(work, ignore_errors=True)
        print("ready")
        return
    try:
        rc = check(a, seed, thorough, t0, budget, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def do_replay(a, units, work):
    txt = open(a.replay).read()
    m = re.search(r"^# contract (\w+)", txt, re.M)
    for u in units:
        if m and m.group(1) in u.contracts:
            os.makedirs(work + "/inc", exist_ok=True)
            os.symlink(a.repo, work + "/inc/usml")
            ok, log = Native(u, work, a.repo).replay(m.group(1), os.path.abspath(a.replay))
            print(log)
            return 1 if ok else 0
    print("no such contract")
    return 0


def check(a, seed, thorough, t0, budget, work):
    P = a.property
    units = [Unit(f) for f in sorted(glob.glob(VERIF + "/contracts/%s_*.cc" % P))]
    if not units:
        print("no contracts for", P)
        return 2
    if a.replay:
        return do_replay(a, units, work)
    irdump = build_irdump(work)
    jobs = compile_jobs(units, work, a.repo)
    res = run_parallel(jobs, a.j)
    compile_errors = []
    for u in units:
        objs = []
        for f in [u.path] + [os.path.join(a.repo, s) for s in u.srcs]:
            key = (f, tuple(u.opt))
            if res[key][0]:
                u.error = "%s: %s" % (f, res[key][1][:3000])
                break
            objs.append(jobs[key][1])
        if u.error:
            compile_errors.append((u, u.error))
            continue
        b = os.path.join(work, u.name)
        for cmd in ([LLVM + "llvm-link"] + objs + ["-o", b + ".all.bc"],
                    [LLVM + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join("vp_contract_" + c for c in u.contracts), b + ".all.bc", "-o", b + ".bc"],
                    [irdump, b + ".bc", b + ".jl"]):
            r, o = sh(cmd)
            if r:
                u.error = o[-3000:]
                break
        if u.error:
            compile_errors.append((u, u.error))
        else:
            u.jl = b + ".jl"
    t_build = time.time() - t0
    timeout = 60 if thorough else 15
    limit = 900 if thorough else 300
    tasks = [(u, c) for u in units if u.jl for c in u.contracts if not a.only or c in a.only.split(",")]
    # long ones first
    tasks.sort(key=lambda uc: -float(re.search(r"slow=(\d+)", u_tag(uc)).group(1)) if "slow=" in u_tag(uc) else 0)
    from concurrent.futures import ThreadPoolExecutor
    results = []
    with ThreadPoolExecutor(a.j) as pool:
        for (u, c), r in zip(tasks, pool.map(run_contract_job, [(u.jl, c, timeout, limit, 2 * limit + 30) for u, c in tasks])):
            r["unit"] = u
            results.append(r)
    # ---- verdicts
    n_ob = n_ok = b_ob = b_ok = 0
    backends = {}
    solver_s = 0.0
    violations, undecided, known_hits, bounded_contracts, samples = [], [], [], [], []
    known = load_known()
    assumptions, lemmas, externs = set(), set(), set()
    failed = []
    per_contract = []
    for r in results:
        nb = len(r["obs"]) + sum(r.get("trivial", {}).values()) + r.get("implicit", 0)
        okc = sum(1 for o in r["obs"] if o["ok"] is True) + sum(r.get("trivial", {}).values()) + r.get("implicit", 0)
        bounded = bool(r["bounded"]) or "bounded" in r["unit"].tags.get(r["contract"], "")
        if bounded:
            b_ob += nb
            b_ok += okc
        else:
            n_ob += nb
            n_ok += okc
        for o in r["obs"]:
            solver_s += o["s"]
            if o["ok"] is True:
                backends[o["how"]] = backends.get(o["how"], 0) + 1
        if r.get("trivial"):
            backends["simplifier (goal reduces to true during generation)"] = backends.get("simplifier (goal reduces to true during generation)", 0) + sum(r["trivial"].values())
        if r.get("implicit"):
            backends["implicit (memory bounds, division) by simplifier/linear z3"] = backends.get("implicit (memory bounds, division) by simplifier/linear z3", 0) + r["implicit"]
        for x in r["assumed"]:
            assumptions.add(x)
        for x in r["lemmas"]:
            lemmas.add(x)
        for x in r["externs"]:
            externs.add(x)
        if r["unsupported"]:
            failed.append((r, None, "unsupported: " + r["unsupported"]))
        elif r.get("paths", 0) == 0 or nb == 0:
            failed.append((r, None, "vacuous: no complete path or no obligation"))
        for o in r["obs"]:
            if o["ok"] is not True:
                failed.append((r, o, "countermodel" if o["ok"] is False else "not discharged: " + o["how"]))
        if bounded:
            bounded_contracts.append(r["contract"] + (": loops unrolled up to the bound at " + "; ".join(r["bounded"])[:300] if r["bounded"] else ": " + r["unit"].tags.get(r["contract"], "")))
        per_contract.append(dict(contract=r["contract"], paths=r.get("paths", 0), obligations=nb, discharged=okc, seconds=r["total_s"],
                                 labels=sorted(set(o["label"] for o in r["obs"]) | set(r.get("trivial", {})))[:40],
                                 status="bounded" if bounded else "all inputs"))
        if a.v:
            print("== %-28s paths %-4s obs %d/%d %.1fs%s%s" % (r["contract"], r.get("paths"), okc, nb, r["total_s"], " BOUNDED " + str(r["bounded"]) if r["bounded"] else "", " UNSUPPORTED " + r["unsupported"] if r["unsupported"] else ""))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    natives = {u.name: Native(u, work, a.repo) for u in units}
    by_contract = {}
    for r, o, why in failed:
        by_contract.setdefault(r["contract"], []).append((r, o, why))
    evals = 0
    # native runs: failed contracts, and (bounded stand-in) contracts with bounded unrolling
    native_targets = list(by_contract)
    if True:
        for r in results:
            if r["bounded"] and r["contract"] not in native_targets:
                native_targets.append(r["contract"])
    if thorough:
        for r in results:
            if r["contract"] not in native_targets:
                native_targets.append(r["contract"])
    rmap = {r["contract"]: r for r in results}
    seq_fail = {}

    def native_job(cn):
        r = rmap[cn]
        nat = natives[r["unit"].name]
        fl = by_contract.get(cn, [])
        per = 20 if thorough else 8
        models = [o["model"] for _, o, _ in fl if o and o.get("model")][:3] or [None]
        left = budget - (time.time() - t0)
        if left < 30:
            return cn, []
        got = []
        for i, m in enumerate(models):
            out = os.path.join(rdir, "%s_%s.txt" % (P, cn))
            if os.path.exists(out):
                os.remove(out)
            # inputs of the known findings do not hide others: search several seeds
            st, log = nat.search(cn, per if fl or thorough else 3, seed + i, out, m)
            got.append((st, log, out))
            if st == "fail":
                break
        return cn, got

    for u in {rmap[c]["unit"].name for c in native_targets}:
        natives[u].build()
    with ThreadPoolExecutor(4) as pool:
        native_res = dict(pool.map(native_job, native_targets))

    def known_for(contract, label):
        for k in known:
            if k["property"] == P and k["contract"] == contract and (label is None or k["label"] == label or label.startswith(k["label"] + ":")):
                return k
        return None

    for cn in native_targets:
        fl = by_contract.get(cn, [])
        got = native_res.get(cn, [])
        hit = [g for g in got if g[0] == "fail"]
        for g in got:
            m = re.search(r"runs (\d+)", g[1] or "")
            if m:
                evals += int(m.group(1))
        if a.v:
            for g in got:
                print("   native", cn, g[0], (g[1] or "")[:1500])
        if hit:
            st, log, out = hit[0]
            m = re.search(r"# failed: (.*)", log)
            lab = m.group(1) if m else "memory error"
            k = known_for(cn, lab)
            if k:
                known_hits.append(k)
                # other obligations of this contract still count
                rest = [(r, o, w) for r, o, w in fl if not (o and known_for(cn, o["label"]))]
                if not rest:
                    continue
                fl = rest
            else:
                with open(out, "a") as f:
                    f.write("# property %s\n# obligations not discharged in this contract:\n" % P)
                    for r, o, w in fl[:10]:
                        f.write("#   %s: %s\n" % (o["label"] + " @ " + o["where"] if o else "-", w[:300]))
                    f.write("# replay with: dvc/run_check.py %s --replay %s\n" % (P, out))
                    f.write("".join("# | " + l + "\n" for l in log.splitlines()[:60]))
                violations.append((cn, lab, out, True))
                continue
        sat = [(r, o, w) for r, o, w in fl if o and o["ok"] is False]
        for r, o, w in sat:
            k = known_for(cn, o["label"])
            if k:
                known_hits.append(k)
        sat = [x for x in sat if not known_for(cn, x[1]["label"])]
        if sat:
            out = os.path.join(rdir, "%s_%s.obligation.txt" % (P, cn))
            with open(out, "w") as f:
                for r, o, w in sat[:5]:
                    f.write("contract %s\nobligation %s (%s)\nat %s\nverdict %s by %s\ngoal %s\npath condition %s\ncountermodel %s\n\n" % (
                        cn, o["label"], o["kind"], o["where"], w, o["how"], o["goal"], o["pc"], json.dumps(o["model"])))
                for g in got:
                    f.write("native search: %s\n%s\n" % (g[0], (g[1] or "")[:1000]))
            violations.append((cn, sat[0][1]["label"], out, False))
        for r, o, w in fl:
            if o is None or o["ok"] is None:
                if o and known_for(cn, o["label"]):
                    continue
                undecided.append("%s / %s: %s" % (cn, o["label"] if o else "-", w[:200]))
    for u, e in compile_errors:
        undecided.append("%s does not compile against the current tree: %s" % (u.name, e[:300]))
        if a.v:
            print(e)
    seen = set()
    for k in known_hits:
        key = (k["contract"], k["label"])
        if key not in seen:
            seen.add(key)
            print("KNOWN-FINDING: property=%s %s" % (P, k["what"]))
    for x in undecided:
        print("UNDECIDED:", x)
    for cn, lab, out, found in violations:
        print("# contract %s, obligation %s" % (cn, lab))
        print("VIOLATION property=%s replay=%s%s" % (P, out, "" if found else " no-failing-input-found"))
    only_bounded = all("bounded" in t for u in units for t in [u.tags.get(c, "") for c in u.contracts])
    ev = dict(property=P, tier=a.tier, seed=seed, level="other" if only_bounded else "proof", wall_s=round(time.time() - t0, 1), violations=len(violations),
              coverage=dict(
                  obligations=n_ob, discharged=n_ok,
                  bounded_obligations=b_ob, bounded_discharged=b_ok,
                  explanation=("every contract of this property has a stated bound (see bounded), usually the number of objects in a collection; within it every obligation is discharged by the verifier for all values" if only_bounded
                               else "obligations and discharged count contracts without a bound; bounded_* count those with a stated bound (see bounded)"),
                  checker_cmd="python3-vt dvc/run_check.py %s --tier %s" % (P, a.tier),
                  trusted_base=TRUSTED,
                  contracts=per_contract,
                  functions_under_contract=demangle(sorted({f for r in results for f in r.get("reached", [])})),
                  sources_verified=sorted({s for u in units for s in u.srcs}),
                  backends=backends, solver_seconds=round(solver_s, 1), build_seconds=round(t_build, 1),
                  bounded=bounded_contracts, undecided=undecided,
                  native_evaluations=evals,
                  external_functions_assumed=sorted(externs)[:200],
                  trusted_lemmas=sorted(lemmas)),
              assumptions=sorted(assumptions) + ASSUME)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % P, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d obligations, %d discharged, %d contracts (%d bounded), %d undecided, %d violations, %.0f s" % (
        P, a.tier, n_ob + b_ob, n_ok + b_ok, len(results), len(bounded_contracts), len(undecided), len(violations), time.time() - t0))
    return 1 if violations else 0


def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    out = []
    for l in p.stdout.splitlines():
        l = re.sub(r"boost::numeric::ublas::", "ublas::", l)
        out.append(l if len(l) < 160 else l[:157] + "...")
    return sorted(set(out))


def u_tag(uc):
    return uc[0].tags.get(uc[1], "")


TRUSTED = [
    "clang 18 front end and -O1 optimiser (C++ to LLVM IR), llvm-link, libLLVM bitcode reader in dvc/irdump.cc",
    "dvc/exec.py symbolic semantics of LLVM IR, dvc/loops.py loop summaries, dvc/term.py ring and trigonometric normal forms",
    "z3 5.3 (SMT back end), dvc/smt.py axioms for sqrt, sin, cos, exp, log, pow, atan2, asin, acos, floor",
    "contracts of external functions in dvc/ext.py (libm, operator new/delete, memcpy, libstdc++ red-black tree and list hooks, pthread locks as no-ops, iostream as no-op)",
]
ASSUME = [
    "double arithmetic is treated as exact real arithmetic; rounding, overflow to infinity of finite values and underflow are not modelled",
    "integer arithmetic of loop counters and sizes is treated as mathematical integers (constants are wrapped to their width)",
    "the project's -Ofast flags are not used for the verified IR; IEEE reassociation is irrelevant over the reals",
    "single-threaded execution; operator new never fails",
]

if __name__ == "__main__":
    main()
