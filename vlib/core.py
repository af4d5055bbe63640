"""Common driver: builds a harness from /repo's working tree, runs oaksym over its entry points,
replays what it reports against the natively compiled code, and writes the evidence."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()
DEADLINE = 850 if TIER != "thorough" else 6 * 3600


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, env=None, cwd=None, timeout=900, inp=None):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, input=inp, text=True, capture_output=True)


def cargo_env(target):
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME="/root", LANG="C.UTF-8",
             RUSTUP_TOOLCHAIN="1.80.0", RUSTC_BOOTSTRAP="1", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", RUST_BACKTRACE="0", CARGO_TARGET_DIR=target)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    return e


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "engine", "*"))) + [os.path.join(VERIF, "harness/common/symnative.c")]:
        h.update(open(f, "rb").read())
    stamp = os.path.join(BUILD, "engine.stamp")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(stamp) and open(stamp).read() == h.hexdigest() and os.path.exists(os.path.join(BUILD, "oaksym")) and os.path.exists(os.path.join(BUILD, "symnative.o")):
            return
        r = sh(["bash", os.path.join(VERIF, "engine/build.sh"), os.path.join(BUILD, "oaksym")])
        if r.returncode:
            raise CheckError("cannot build the engine: " + r.stderr[-2000:])
        r = sh(["gcc", "-O1", "-c", os.path.join(VERIF, "harness/common/symnative.c"), "-o", os.path.join(BUILD, "symnative.o")])
        if r.returncode:
            raise CheckError("cannot build symnative: " + r.stderr[-2000:])
        open(stamp, "w").write(h.hexdigest())


def lock_file(dst):
    src = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(src):
        src = "/opt/vp/oak.Cargo.lock"
    shutil.copyfile(src, dst)


def build_harness(name, crate_dir, extra=(), features=(), profile=None, suffix=""):
    """Compiles a harness crate to whole-program bitcode and to a native binary. Returns (bitcode, binary)."""
    target = os.path.join(BUILD, "target")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # never trust time stamps: what comes from /repo or from here is always rebuilt
        for pat in ("oak-*", "oak_*", "oaklib-*", name + "-*"):
            for d in glob.glob(os.path.join(target, "release", ".fingerprint", pat)):
                shutil.rmtree(d, ignore_errors=True)
        for f in glob.glob(os.path.join(target, "release", "deps", name + "-*")):
            os.remove(f)
        if not os.path.exists(os.path.join(crate_dir, "Cargo.lock.own")):
            lock_file(os.path.join(crate_dir, "Cargo.lock"))
        cmd = ["cargo", "rustc", "--release", "--offline", "--bin", name] + list(features) + ["--", "--emit=llvm-bc,link", "-C", "link-arg=" + os.path.join(BUILD, "symnative.o")] + list(extra)
        env = cargo_env(target)
        for k, v in (profile or {}).items():
            env["CARGO_PROFILE_RELEASE_" + k] = v
        r = sh(cmd, env=env, cwd=crate_dir, timeout=850)
        if r.returncode:
            return None, None, r.stderr
        bcs = glob.glob(os.path.join(target, "release", "deps", name + "-*.bc"))
        if len(bcs) != 1:
            raise CheckError("expected one bitcode file, got %r" % bcs)
        # private copies so that another build cannot pull the files away
        out = os.path.join(BUILD, "out")
        os.makedirs(out, exist_ok=True)
        bc = os.path.join(out, name + suffix + ".bc")
        exe = os.path.join(out, name + suffix)
        shutil.copyfile(bcs[0], bc)
        if os.path.exists(exe):
            os.remove(exe)
        shutil.copy(os.path.join(target, "release", name), exe)
        return bc, exe, r.stderr


class Entry:
    def __init__(self, name, bound="", need=(), limit=20000000, max_stack=6000, max_viol=4):
        self.name, self.bound, self.need, self.limit, self.max_stack, self.max_viol = name, bound, list(need), limit, max_stack, max_viol


def run_entries(bc, entries, budget, samples=6, dump=None, jobs=None):
    """Runs every entry under the engine, in parallel (one forked engine per entry); returns {name: result}."""
    tmp = tempfile.mkdtemp(prefix="oaksym-")
    res = {}
    try:
        lst = os.path.join(tmp, "e")
        open(lst, "w").write("\n".join(e.name for e in entries) + "\n")
        cmd = [os.path.join(BUILD, "oaksym"), bc, "--entries", lst, "--out", os.path.join(tmp, "o"), "--max-time", str(budget), "--samples", str(samples), "--jobs", str(jobs or NPROC),
               "--limit", str(max(e.limit for e in entries)), "--max-stack", str(max(e.max_stack for e in entries)), "--max-viol", str(entries[0].max_viol)]
        if dump:
            os.makedirs(dump, exist_ok=True)
            cmd += ["--dump", dump, "--dump-max", str(max(8, 2000 // len(entries)))]
        try:
            r = sh(cmd, timeout=max(60, DEADLINE - (time.time() - T0)))
            err = r.stderr[-1500:]
        except subprocess.TimeoutExpired:
            err = "engine timed out"
        for k, e in enumerate(entries):
            f = os.path.join(tmp, "o.%d" % k)
            if os.path.exists(f):
                try:
                    g = json.loads(open(f).read())
                    res[g["entry"]] = g
                except ValueError:
                    err += " (truncated output)"
            if e.name not in res:
                res[e.name] = {"entry": e.name, "error": "no result from the engine: " + err}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def native(exe, jobs, timeout=10, per=400):
    """jobs: list of (entry, trace) -> list of (status, detail, logs)."""
    out = [None] * len(jobs)
    env = dict(os.environ, SYM_TIMEOUT=str(timeout))
    chunks = [list(range(i, min(len(jobs), i + per))) for i in range(0, len(jobs), per)]

    def one(ch):
        inp = "".join("%d %s %s\n" % (i, jobs[i][0], " ".join(str(v) for v in jobs[i][1])) for i in ch)
        r = subprocess.run([exe], input=inp, text=True, capture_output=True, env=env, errors="replace")
        for l in r.stdout.split("\n"):
            m = re.match(r"(\d+) ([^|]*)\|([^|]*)\|(.*)$", l)
            if m:
                out[int(m.group(1))] = (m.group(2), m.group(3), [int(x) for x in m.group(4).split(",") if x])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, chunks))
    return out


REPRO = {"assert": ("assert", "panic", "segv"), "panic": ("panic",), "non-termination": ("timeout", "segv", "died"), "stack-depth": ("segv", "timeout", "died"), "memory-error": ("segv", "panic", "died", "assert")}


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


class Check:
    def __init__(self, prop, technique, bounds, assumptions):
        self.prop, self.technique, self.bounds, self.assumptions = prop, technique, bounds, assumptions
        self.tot = {k: 0 for k in ("paths", "killed", "forks", "instrs", "asserts_concrete", "asserts_solver", "asserts_failed", "queries", "z3_calls", "cache_hits", "model_hits", "sat", "unsat", "unknown")}
        self.solver_time = 0.0
        self.functions = set()
        self.entries = {}
        self.samples = []
        self.validated = 0
        self.violations = []   # (desc, replay dict)
        self.errors = []
        self.extra = {}
        self.reach = {}
        self.notes = []
        self.cross = {"checked": 0, "agreed": 0, "inconclusive": 0}

    def explore(self, bc, exe, entries, budget, harness="", keep_fn=None, dump=None, describe=None, timeout=10, tag=""):
        res = run_entries(bc, entries, budget, dump=dump)
        vjobs, sjobs = [], []
        for e in entries:
            r = res[e.name]
            if "error" in r:
                self.errors.append("%s: %s" % (e.name, r["error"]))
                continue
            for k in self.tot:
                self.tot[k] += r.get(k, 0)
            self.solver_time += r["solver_time"]
            for f in r["functions"]:
                if keep_fn is None or keep_fn(f):
                    self.functions.add(f)
            for k, v in r["reach"].items():
                self.reach[k] = self.reach.get(k, 0) + v
            self.entries[e.name + tag] = {"bound": e.bound, "paths": r["paths"], "infeasible_or_excluded": r["killed"], "z3_calls": r["z3_calls"], "wall_s": round(r["wall"], 2)}
            for v in r["violations"]:
                vjobs.append((e, v))
            for s in r["samples"]:
                sjobs.append((e, s))
            if r["incomplete"] and not r["violations"]:
                self.errors.append("%s: exploration incomplete: %s" % (e.name, "; ".join(r["incomplete"][:3])))
            elif r["left"] and not r["violations"]:
                self.errors.append("%s: %d states left unexplored" % (e.name, r["left"]))
            if not r["violations"] and not r["incomplete"] and e.need != ["-"]:
                for n in e.need:
                    if not r["reach"].get(n):
                        self.errors.append("%s: vacuous, `%s` never reached" % (e.name, n))
                if r["paths"] == 0:
                    self.errors.append("%s: vacuous, no complete path" % e.name)
        # every counterexample is replayed against the real code before it is reported
        if vjobs:
            outs = native(exe, [(e.name, v["trace"]) for e, v in vjobs], timeout=timeout)
            for (e, v), o in zip(vjobs, outs):
                if o and o[0] in REPRO.get(v["kind"], ()):
                    d = describe(e.name, v) if describe else ""
                    self.violations.append({"entry": e.name, "kind": v["kind"], "what": v["msg"], "stack": v["stack"], "trace": v["trace"], "native": o[0], "native_detail": o[1], "describe": d, "harness": harness, "exe": exe})
                else:
                    self.errors.append("%s: counterexample does not reproduce natively (%s: %s -> %r) trace=%s stack=%s" % (e.name, v["kind"], v["msg"], o, v["trace"], v["stack"][:300]))
        # and every sampled path must behave natively as the engine says
        if sjobs:
            outs = native(exe, [(e.name, s["trace"]) for e, s in sjobs], timeout=max(timeout, 10))
            for (e, s), o in zip(sjobs, outs):
                if o and o[0] == "ok" and (o[2] == s["log"]):
                    self.validated += 1
                else:
                    self.errors.append("%s: sampled path disagrees with the native run: %r vs log %r trace=%s" % (e.name, o, s["log"][:20], s["trace"]))
            for e, s in sjobs[:: max(1, len(sjobs) // 6)][:6]:
                self.samples.append({"entry": e.name, "inputs": s["trace"][:64], "observed": s["log"][:16]})
        return res

    def cross_check(self, dump, limit):
        """Re-decides a sample of z3's unsat answers with cvc5."""
        fs = sorted(glob.glob(os.path.join(dump, "*.smt2")))
        if not fs:
            return
        step = max(1, len(fs) // limit)
        fs = fs[::step][:limit]

        def one(f):
            try:
                return sh(["cvc5", "--tlimit=20000", f], timeout=40).stdout.strip().split("\n")[0]
            except Exception:
                return "timeout"
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for f, r in zip(fs, ex.map(one, fs)):
                self.cross["checked"] += 1
                if r == "unsat":
                    self.cross["agreed"] += 1
                elif r == "sat":
                    self.errors.append("cvc5 disagrees with z3 on " + f)
                else:
                    self.cross["inconclusive"] += 1

    def add_static_violation(self, what, detail):
        self.violations.append({"entry": "static", "kind": "static", "what": what, "native": "yes", "describe": detail, "trace": []})

    def finish(self, level="model_checking"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        listed = [f for f in known_findings() if f.get("property") == self.prop and f.get("status") == "known"]
        fresh, seen_known = [], set()
        for v in self.violations:
            hit = None
            for i, f in enumerate(listed):
                if f.get("entry") == v["entry"] and (f.get("what") in (None, v["what"])) and (f.get("match") is None or re.search(f["match"], v.get("describe", ""))):
                    hit = i
                    break
            if hit is None:
                fresh.append(v)
            else:
                seen_known.add(hit)
        for i in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, listed[i].get("what_fails", listed[i].get("what", ""))))
        cov = {
            "states": self.tot["paths"], "transitions": self.tot["forks"], "traces_validated_against_impl": self.validated,
            "samples": self.samples[:12] or [{"note": "no sample"}],
            "explanation": "states are the complete symbolic paths explored (each covers every input satisfying its path condition), transitions the solver-decided forks between them; every path of every entry within the stated bounds was explored",
            "functions_encoded": sorted(self.functions)[:400], "functions_encoded_count": len(self.functions),
            "bounds": self.bounds, "entries": self.entries if len(self.entries) <= 120 else {k: self.entries[k] for k in sorted(sorted(self.entries, key=lambda k: -self.entries[k]["paths"])[:120])}, "entries_count": len(self.entries),
            "symbolic_instructions": self.tot["instrs"], "excluded_paths": self.tot["killed"],
            "queries": self.tot["queries"], "z3_calls": self.tot["z3_calls"], "query_cache_hits": self.tot["cache_hits"], "answered_by_known_model": self.tot["model_hits"],
            "sat": self.tot["sat"], "unsat": self.tot["unsat"], "unknown": self.tot["unknown"], "solver_time_s": round(self.solver_time, 2),
            "assertions_decided_by_path_condition": self.tot["asserts_concrete"], "assertions_decided_by_query": self.tot["asserts_solver"],
            "reachability_witnesses": self.reach if len(self.reach) < 200 else dict(sorted(self.reach.items())[:200]),
            "cvc5_cross_check": self.cross,
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(fresh)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for e in self.errors[:20]:
            log("ERROR", e)
        if fresh:
            for i, v in enumerate(fresh[:8]):
                rp = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (self.prop, i))
                v = dict(v)
                v["how"] = "echo '1 %s %s' | %s" % (v["entry"], " ".join(str(x) for x in v["trace"]), v.get("exe", ""))
                json.dump(v, open(rp, "w"), indent=1)
                log("counterexample in %s: %s: %s %s" % (v["entry"], v["kind"], v["what"], v.get("describe", "")))
                print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            return 1
        if self.errors:
            log("the check gives no answer: %d error(s)" % len(self.errors))
            return 2
        log("held: %d entries, %d paths, %d forks, %d z3 calls, solver %.1fs, %d traces validated" % (len(self.entries), self.tot["paths"], self.tot["forks"], self.tot["z3_calls"], self.solver_time, self.validated))
        return 0
