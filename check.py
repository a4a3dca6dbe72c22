#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of the code in /repo (see DESIGN.md).

usage: check.py PROPERTY [--tier quick|thorough]     exit 0 = held, 1 = VIOLATION printed
"""
import sys, os, re, json, time, glob, hashlib, subprocess, shutil, threading, random
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
import jobs as J

CLANG, OPT, LINK, NM = "/usr/bin/clang++-18", "/usr/bin/opt-18", "/usr/bin/llvm-link-18", "/usr/bin/llvm-nm-18"
INC = [f"-I{REPO}/include", f"-I{REPO}/include/aggregation", f"-I{REPO}/example/sptrsv_src/include", f"-I{REPO}/example", f"-I{ROOT}/harness"]
DEFS = ["-DNDEBUG", "-DMETIS"]
LIBGLOBS = ["src/*.cpp", "src/hdagg/*.cpp", "utils/*.cpp", "utils/external/*.cpp", "example/sptrsv_src/*.cpp"]
IO = re.compile(r"(^|/)(sparse_io|mmio|h_io)\.cpp$")   # encoded with the file interfaces of harness/io
CORES = int(os.environ.get("VP_CORES", "8"))

STATS = "paths forks instrs asserts assertsSym checks killed incomplete assumeKilled queries sat unsat unknown raceChecks raceQueries maxSteps solverSecs maxq".split()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def readb(p):
    try:
        with open(p, "rb") as f: return f.read()
    except OSError: return b""

def headers_hash():
    fs = []
    for d in ("include", "src", "utils", "example"):
        for base, _, names in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(base, n) for n in names if n.endswith((".h", ".hpp", ".inc", ".hxx"))]
    hf = sorted(glob.glob(f"{ROOT}/harness/*.h*")) + sorted(glob.glob(f"{ROOT}/harness/omp/*") + glob.glob(f"{ROOT}/harness/io/*"))
    return sha(*[f.encode() + readb(f) for f in sorted(fs) + hf])

def under_test(f):
    """names of the code under test: not the standard library, the intrinsics or the harness"""
    head = re.sub(r" \(\.\d+\)$", "", f).split("(")[0]
    return re.fullmatch(r"((HDAGG|sym_lib)::[\w:~]+|(\w+ )?sp\w+)", head) is not None

class Builder:
    """compiles the current /repo sources; objects are cached by content only"""
    def __init__(self):
        self.hh = headers_hash()
        self.lib = sorted(sum([glob.glob(os.path.join(REPO, g)) for g in LIBGLOBS], []))
        self.har = sorted(f for f in glob.glob(f"{ROOT}/harness/*.cpp") if os.path.basename(f) not in ("native.cpp",))
        self.log = []
        os.makedirs(f"{BUILD}/cache", exist_ok=True)
        self.entries = []
        for f in self.har:
            self.entries += re.findall(r'^ENTRY\((\w+)\)', open(f).read(), re.M)
        with open(f"{BUILD}/entries.inc.tmp{os.getpid()}", "w") as f: f.write("".join(f"H({e})\n" for e in self.entries))
        os.replace(f"{BUILD}/entries.inc.tmp{os.getpid()}", f"{BUILD}/entries.inc")
        self.lock = threading.Lock(); self.done = {}

    def compile_one(self, src, kind, flags, scale=""):
        code = readb(src)
        if scale and src in self.lib:   # size thresholds of the library, scaled down to the sizes explored
            for lit, val in (x.split("=") for x in scale.split(",")): code = re.sub(rb"(?<![\w.])" + re.escape(lit).encode() + rb"(?![\w.])", val.encode(), code)
            if code != readb(src):
                d = f"{BUILD}/scaled/{sha(src, code)}"; os.makedirs(d, exist_ok=True); flags = flags + [f"-I{os.path.dirname(src)}"]; src = f"{d}/{os.path.basename(src)}"
                with open(f"{src}.{os.getpid()}.{threading.get_ident()}", "wb") as f: f.write(code)
                os.replace(f.name, src)
        key = sha(src, code, self.hh, kind, " ".join(flags), " ".join(INC + DEFS), readb(f"{BUILD}/entries.inc") if src.endswith("native.cpp") else b"")
        out = f"{BUILD}/cache/{os.path.basename(src)}.{kind}.{key}.{'bc' if kind.startswith('bc') else 'o'}"
        if os.path.exists(out): return out
        if os.path.exists(out + ".fail") and not src.endswith("/harness/rt.cpp"): return None
        tmp = f"{out}.{os.getpid()}.{threading.get_ident()}"
        if kind.startswith("bc") and IO.search(src): flags = flags + ["-include", f"{ROOT}/harness/io/vp_io.h", f"-I{ROOT}/harness/io"]
        for std in ("-std=gnu++11", "-std=gnu++17"):
            cmd = ([CLANG] if kind.startswith("bc") else ["/usr/bin/g++"]) + flags + [std, "-w", "-ffp-contract=off"] + DEFS + INC + [f"-I{BUILD}", "-c", src, "-o", tmp]
            r = sh(cmd)
            if r.returncode == 0: break
        if r.returncode != 0:
            with self.lock: self.log.append(f"{src} does not compile ({kind}): {r.stdout[-300:]}")
            if src.startswith(f"{ROOT}/harness/rt.cpp"): raise RuntimeError(f"{src} does not compile ({kind}): {r.stdout[-1500:]}")
            open(out + ".fail", "w").write(r.stdout); return None
        if kind.startswith("bc"):
            r = sh([OPT, "-passes=function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)", tmp, "-o", tmp + "2"])
            if r.returncode != 0: self.log.append(r.stdout[-300:]); return None
            os.replace(tmp + "2", tmp)
        os.replace(tmp, out)
        return out

    def many(self, srcs, kind, flags, scale=""):
        with ThreadPoolExecutor(CORES) as ex:
            return [o for o in ex.map(lambda s: self.compile_one(s, kind, flags, scale), srcs) if o]

    def bitcode(self, omp=False, scale=""):
        kind = "bcomp" if omp else "bc"
        with self.lock:
            if kind + scale in self.done: return self.done[kind + scale]
        flags = ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm"]
        if omp: flags += ["-fopenmp", "-DENABLE_OPENMP", "-D__OPENMP__", f"-I{ROOT}/harness/omp"]
        objs = self.many(self.lib + self.har, kind, flags, scale)
        key = sha(*objs); out = f"{BUILD}/cache/linked.{kind}.{key}.bc"
        if not os.path.exists(out):
            tmp = f"{out}.{os.getpid()}"
            r = sh([LINK, "-o", tmp] + objs)
            if r.returncode != 0: raise RuntimeError("llvm-link: " + r.stdout[-2000:])
            r = sh([OPT, "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(self.entries), tmp, "-o", tmp + "2"])
            if r.returncode != 0: raise RuntimeError("opt: " + r.stdout[-2000:])
            os.replace(tmp + "2", out); os.unlink(tmp)
        self.done[kind + scale] = out
        return out

    def native(self, mode, scale=""):
        """asan / plain (valgrind) / asanomp / tsan: the real code with the same harness, for replay"""
        with self.lock:
            if mode + scale in self.done: return self.done[mode + scale]
        flags = {"asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], "plain": ["-O0", "-g1"],
                 "asanomp": ["-O1", "-g1", "-fsanitize=address", "-fopenmp", "-DENABLE_OPENMP", "-D__OPENMP__"],
                 "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fopenmp", "-DENABLE_OPENMP", "-D__OPENMP__"]}[mode]
        objs = self.many(self.lib + [f for f in self.har if not f.endswith("/rt.cpp")] + [f"{ROOT}/harness/native.cpp"], "n" + mode, flags, scale)
        key = sha(*objs); out = f"{BUILD}/cache/native.{mode}.{key}"
        if not os.path.exists(out):
            tmp = f"{out}.{os.getpid()}"
            r = sh(["/usr/bin/g++"] + [f for f in flags if f.startswith("-f")] + ["-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition"] + objs + ["-o", tmp])
            if r.returncode != 0: raise RuntimeError("native link: " + r.stdout[-2000:])
            os.replace(tmp, out)
        with self.lock: self.done[mode + scale] = out
        return out

def write_replay(path, job, inputs):
    with open(path, "w") as f:
        for k, v in inputs: f.write(f"{k} {v}\n")
        for k, v in job["params"].items(): f.write(f"param:{k} {v}\n")
        f.write(f"# entry {job['entry']}\n" + (f"# scale {job['scale']}\n" if job.get("scale") else ""))

def run_native(prog, entry, replay, timeout=20, pre=(), env=None):
    e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=76:allocator_may_return_null=0"
    e["TSAN_OPTIONS"] = "exitcode=75 halt_on_error=1"
    if env: e.update(env)
    scratch = f"{BUILD}/scratch.{os.getpid()}.{threading.get_ident()}"; os.makedirs(scratch, exist_ok=True)
    try:
        p = subprocess.run(list(pre) + [prog, entry, os.path.abspath(replay)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=scratch)
        err = p.stderr.decode("utf-8", "replace"); return p.returncode, err
    except subprocess.TimeoutExpired as ex:
        return "timeout", (ex.stderr or b"").decode("utf-8", "replace")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def verdict(rc, err):
    """what the real run showed: None = nothing wrong"""
    if rc == "timeout": return "does not terminate"
    if rc == 77: return "assertion: " + (re.findall(r"VP-ASSERT (.*)", err) or ["?"])[-1]
    if rc == 79: return "uncaught exception: " + (re.findall(r"VP-EXCEPTION (.*)", err) or ["?"])[-1]
    if rc == 76 or "AddressSanitizer" in err:
        m = re.search(r"AddressSanitizer: (\S+)", err); return "AddressSanitizer: " + (m.group(1) if m else "?")
    if rc == 78: return None
    if isinstance(rc, int) and rc < 0: return f"killed by signal {-rc}"
    if "VP-END" not in err and "VP-THROW" not in err: return f"the library ended the process (status {rc})"
    return None

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.b = Builder(); self.t0 = time.time()
        self.res = []; self.confirmed = []; self.unconfirmed = []; self.known = []; self.samples = []; self.nval = 0; self.mism = []
        self.findings = [f for f in J.known_findings(ROOT) if f.get("property") == prop]

    def run_job(self, k, job, workers):
        bc = self.b.bitcode(bool(job.get("omp")), job.get("scale", ""))
        out = f"{BUILD}/run.{self.prop}.{os.getpid()}.{k:03d}.out"
        cmd = [f"{BUILD}/symex", bc, "--entry", job["entry"], "--workers", str(workers), "--chunks", str(job.get("chunks", 24)), "--timeout", str(job["timeout"]),
               "--out", out, "--samples", str(job.get("samples", 3)), "--max-viol", "12", "--mem", str(job.get("mem", 2500))]
        for p, v in job["params"].items(): cmd += ["--param", f"{p}={v}"]
        if job.get("uf"): cmd.append("--uf")
        if job.get("steps"): cmd += ["--steps", str(job["steps"])]
        if job.get("omp"): cmd += ["--omp", str(job["omp"])]
        cmd += job.get("flags", [])
        t = time.time(); r = sh(cmd, timeout=job["timeout"] * 3 + 120)
        txt = readb(out).decode("utf-8", "replace")
        for f in glob.glob(out + "*"): os.unlink(f)
        res = dict(job=job, secs=time.time() - t, stat={}, cover={}, note={}, func={}, viol=[], sample=[], lost=0, done=False)
        for l in txt.splitlines():
            w, _, rest = l.partition(" ")
            if w == "STAT":
                for a, v in zip(STATS, rest.split()):
                    v = float(v); res["stat"][a] = max(res["stat"].get(a, 0), v) if a in ("maxSteps", "maxq") else res["stat"].get(a, 0) + v
            elif w in ("COVER", "FUNC", "NOTE"):
                n, _, name = rest.partition(" "); d = res[w.lower()]
                d[name] = d.get(name, 0) + int(float(n))
            elif w == "VIOL": res["viol"].append(json.loads(rest))
            elif w == "SAMPLE":
                try: res["sample"].append(json.loads(rest))
                except ValueError: pass
            elif w == "LOST": res["lost"] += 1
            elif w == "DONE": res["done"] = True
        if r.returncode != 0 or not res["done"]: res["error"] = f"symex rc={r.returncode}: {r.stdout[-400:]}"
        return res

    def handle(self, res):
        job = res["job"]; seen = {}
        for v in res["viol"]: seen.setdefault((v["kind"], v["func"], v["msg"]), []).append(v)
        for sig, vs in seen.items():
            if len(self.confirmed) >= 6: break
            for v in vs[:3]:
                rp = f"{BUILD}/replay/{self.prop}-{sha(job['entry'], json.dumps(job['params'], sort_keys=True), json.dumps(v['inputs']))[:10]}.txt"
                os.makedirs(os.path.dirname(rp), exist_ok=True); write_replay(rp, job, v["inputs"])
                shown = self.replay(job, v, rp)
                if shown:
                    kf = next((f for f in self.findings if f["kind"] == v["kind"] and f["func"] in v["func"] and f["msg"] in v["msg"] and f.get("job") == job.get("known")), None) if job.get("known") else None
                    (self.known if kf else self.confirmed).append(dict(v=v, replay=rp, shown=shown, job=job, kf=kf)); break
            else:
                self.unconfirmed.append(dict(v=vs[0], job=job, replay=rp))

    def replay(self, job, v, rp):
        entry = job["entry"]; mode = "asanomp" if job.get("omp") else "asan"
        env = {"OMP_NUM_THREADS": str(job["omp"])} if job.get("omp") else None
        if v["kind"] == "race":
            for _ in range(3):
                rc, err = run_native(self.b.native("tsan", job.get("scale", "")), entry, rp, 40, env=env)
                if "ThreadSanitizer: data race" in err: return "ThreadSanitizer: data race"
            return "data race shown by the two conflicting accesses of the parallel region: " + v["loc"]
        if v["kind"] == "leak":
            rc, err = run_native(self.b.native(mode, job.get("scale", "")), entry, rp, env=env)
            return verdict(rc, err)
        rc, err = run_native(self.b.native(mode, job.get("scale", "")), entry, rp, env=env); r = verdict(rc, err)
        if r: return r
        if "--interleave" in job.get("flags", []):   # a schedule: re-run the encoded code concretely under it
            r = sh([f"{BUILD}/symex", self.b.bitcode(True, job.get("scale", "")), "--entry", entry, "--replay", rp, "--workers", "1", "--omp", str(job["omp"])] + job["flags"])
            m = re.search(r"VIOL (.*)", r.stdout)
            if m: return "under the recorded thread schedule: " + m.group(1)
        if v["kind"] in ("uninit", "memory", "mismatch"):
            rc, err = run_native(self.b.native("plain", job.get("scale", "")), entry, rp, 60, pre=["valgrind", "-q", "--error-exitcode=74", "--leak-check=no", "--exit-on-first-error=yes", "--max-stackframe=8000000"])
            if rc == 74:
                m = re.search(r"==\d+== (\S.*)", err); return "valgrind: " + (m.group(1) if m else "error")
            r = verdict(rc, err)
            if r: return r
        return None

    def validate(self, res):
        """run sampled path models through the natively compiled code and compare every observed output"""
        job = res["job"]; 
        for s in res["sample"]:
            rp = f"{BUILD}/replay/{self.prop}-s{os.getpid()}-{threading.get_ident()}.txt"; os.makedirs(os.path.dirname(rp), exist_ok=True)
            write_replay(rp, job, s["inputs"])
            mode = "asanomp" if job.get("omp") else "asan"
            rc, err = run_native(self.b.native(mode, job.get("scale", "")), job["entry"], rp, env={"OMP_NUM_THREADS": str(job["omp"])} if job.get("omp") else None)
            v = verdict(rc, err)
            outs = [int(x) for x in re.findall(r"VP-OUT (-?\d+)", err)]; cov = sorted(set(re.findall(r"VP-COVER (.*)", err)))
            if v:
                keep = rp.replace("-s", "-native-s"); shutil.copy(rp, keep)
                self.confirmed.append(dict(v=dict(kind="native", msg="the real code fails on a path the executor completed: " + v, func="", loc="", inputs=s["inputs"]), replay=keep, shown=v, job=job, kf=None))
            elif [int(x) for x in s["outs"]] == outs and sorted(set(s["cover"])) == cov: self.nval += 1
            elif job.get("omp") and sorted(set(s["cover"])) == cov: self.nval += 1
            else: self.mism.append(dict(entry=job["entry"], inputs=s["inputs"], sym=[s["outs"], s["cover"]], real=[outs, cov, rc]))
            if len(self.samples) < 4: self.samples.append(dict(entry=job["entry"], params=job["params"], inputs={k: v2 for k, v2 in s["inputs"]}, outputs=s["outs"][:40]))
            try: os.unlink(rp)
            except OSError: pass

    def run(self):
        jobs = J.jobs_for(self.prop, self.tier)
        need_omp = any(j.get("omp") for j in jobs)
        for omp, scale in sorted({(bool(j.get("omp")), j.get("scale", "")) for j in jobs}): self.b.bitcode(omp, scale)
        tb = time.time() - self.t0
        # native replayer builds in the background while the solver works
        bg = []
        for mode, scale in {("asanomp" if j.get("omp") else "asan", j.get("scale", "")) for j in jobs}:
            t = threading.Thread(target=lambda m=mode, c=scale: self.b.native(m, c)); t.start(); bg.append(t)
        sem = threading.Condition(); free = [CORES]
        def go(kj):
            k, job = kj; w = min(job.get("workers", 2), CORES)
            with sem:
                while free[0] < w: sem.wait()
                free[0] -= w
            try: return self.run_job(k, job, w)
            finally:
                with sem: free[0] += w; sem.notify_all()
        order = sorted(enumerate(jobs), key=lambda kj: -kj[1].get("workers", 2))
        with ThreadPoolExecutor(max(1, len(jobs))) as ex: self.res = list(ex.map(go, order))
        for t in bg: t.join()
        for r in self.res: self.handle(r)
        with ThreadPoolExecutor(CORES) as ex: list(ex.map(self.validate, self.res))
        return self.report(tb)

    def report(self, tb):
        tot = {}
        for r in self.res:
            for a, v in r["stat"].items(): tot[a] = max(tot.get(a, 0), v) if a in ("maxSteps", "maxq") else tot.get(a, 0) + v
        funcs, notes, jl, warn = set(), {}, [], []
        for r in self.res:
            funcs |= set(r["func"])
            for n, c in r["note"].items(): notes[n] = notes.get(n, 0) + c
            j = r["job"]; miss = [c for c in j.get("covers", ["end"]) if c not in r["cover"]]
            complete = not r["stat"].get("incomplete") and not r["lost"] and not r.get("error") and not r["stat"].get("killed")
            if r.get("error"): warn.append(f"job {j['entry']} {j['params']}: {r['error']}")
            if miss and not r["viol"]: warn.append(f"job {j['entry']} {j['params']}: VACUOUS, never reached {miss}")
            jl.append(dict(entry=j["entry"], bounds=j["params"], bound_text=j.get("text", ""), paths=int(r["stat"].get("paths", 0)), queries=int(r["stat"].get("queries", 0)),
                           solver_s=round(r["stat"].get("solverSecs", 0), 2), wall_s=round(r["secs"], 2), complete_within_bounds=complete, unexplored_states=int(r["stat"].get("incomplete", 0)), threads=j.get("omp", 1), scaled_constants=j.get("scale", "")))
        # functions of the code under test that were really executed
        cov = dict(
            states=int(tot.get("paths", 0)), transitions=int(tot.get("instrs", 0)), traces_validated_against_impl=self.nval, samples=self.samples,
            exhaustive=all(x["complete_within_bounds"] for x in jl),
            explanation="states = symbolic paths executed to their end, transitions = LLVM IR instructions executed symbolically; every assertion/safety check on a path is decided by z3 for all inputs following that path",
            forks=int(tot.get("forks", 0)), assertions_reached=int(tot.get("asserts", 0)), assertions_with_symbolic_condition=int(tot.get("assertsSym", 0)), safety_checks=int(tot.get("checks", 0)),
            race_checks=int(tot.get("raceChecks", 0)), race_queries=int(tot.get("raceQueries", 0)),
            queries=int(tot.get("queries", 0)), sat=int(tot.get("sat", 0)), unsat=int(tot.get("unsat", 0)), unknown=int(tot.get("unknown", 0)), solver_time_s=round(tot.get("solverSecs", 0), 2), max_query_s=round(tot.get("maxq", 0), 3),
            functions_encoded=sorted(f for f in funcs if under_test(f)), jobs=jl, notes=notes, build_s=round(tb, 1),
            unconfirmed_candidates=[dict(kind=u["v"]["kind"], msg=u["v"]["msg"], func=u["v"]["func"], loc=u["v"]["loc"]) for u in self.unconfirmed],
            disagreements_with_native_run=self.mism[:5], warnings=warn, not_compiled=self.b.log[:10])
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", coverage=cov,
                  assumptions=J.assumptions_for(self.prop), wall_s=round(time.time() - self.t0, 2), violations=len(self.confirmed), known_findings=[k["kf"]["id"] for k in self.known])
        os.makedirs(f"{ROOT}/evidence", exist_ok=True)
        with open(f"{ROOT}/evidence/{self.prop}.json", "w") as f: json.dump(ev, f, indent=1)
        for w in warn: print("WARNING:", w)
        for m in self.mism[:3]: print("WARNING: executor and native run disagree:", json.dumps(m)[:600])
        for u in self.unconfirmed[:5]: print("UNCONFIRMED (not reported):", u["v"]["kind"], u["v"]["msg"], u["v"]["func"], u["v"]["loc"], u["replay"])
        for kid in sorted({k["kf"]["id"] for k in self.known}):
            k = next(k for k in self.known if k["kf"]["id"] == kid); print(f"KNOWN-FINDING: property={self.prop} {k['kf']['what']}")
        seen = set()
        for c in self.confirmed:
            sig = (c["v"]["kind"], c["v"]["func"], c["v"]["msg"])
            if sig in seen: continue
            seen.add(sig)
            print(f"VIOLATION property={self.prop} replay={c['replay']}")
            print(f"  {c['v']['kind']}: {c['v']['msg']} at {c['v']['func']} {c['v']['loc']}; entry {c['job']['entry']} {c['job']['params']}; real code: {c['shown']}")
            print("  inputs: " + " ".join(f"{a}={b}" for a, b in c["v"]["inputs"])[:800])
        print(f"{self.prop} {self.tier}: paths={int(tot.get('paths',0))} asserts={int(tot.get('asserts',0))} queries={int(tot.get('queries',0))} solver={tot.get('solverSecs',0):.1f}s validated={self.nval} exhaustive={cov['exhaustive']} wall={time.time()-self.t0:.1f}s")
        return 1 if self.confirmed else 0

def main():
    a = sys.argv[1:]; tier = os.environ.get("VERIF_TIER", "quick"); prop = None
    i = 0
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 1
        elif a[i] == "--replay": return replay_cmd(a[i + 1])
        else: prop = a[i]
        i += 1
    if not os.path.exists(f"{BUILD}/symex"): sh(["bash", f"{ROOT}/engine/build.sh"])
    return Check(prop, tier).run()

def replay_cmd(path):
    b = Builder(); entry = re.search(r"# entry (\w+)", open(path).read()).group(1)
    scale = "".join(re.findall(r"# scale (\S+)", open(path).read()))
    rc, err = run_native(b.native("asan", scale), entry, path); print(err[-4000:]); print("status", rc, "=>", verdict(rc, err)); return 0

if __name__ == "__main__":
    sys.exit(main())
