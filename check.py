#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current code.

  check.py PROPERTY            run the check (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py --setup             build the executor and warm the harness builds
  check.py --replay FILE       run one counterexample against the real code again
"""
import fcntl, glob, json, os, re, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, "build")
ZSYM = os.path.join(V, "zsym/target/release/zsym")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS="", CARGO_TERM_COLOR="never")
for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTC"):
    ENV.pop(k, None)
sys.path.insert(0, V)
from plan import PLAN, CRATES  # noqa: E402

T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def sh(cmd, cwd=None, what=""):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        die("%s failed: %s" % (what or "command", " ".join(cmd)))
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_zsym():
    with Lock("zsym"):
        sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(V, "zsym"), what="building the executor")


def build(crate):
    """Compile harness + /repo's working tree to whole-program IR and to a native binary."""
    c = CRATES[crate]
    with Lock(crate):
        hd = os.path.join(V, "harness", crate)
        td = os.path.join(BUILD, crate)
        # never trust time stamps of the code under test
        for pat in ("zippity-*", "zh_*"):
            for p in glob.glob(os.path.join(td, "release/.fingerprint", pat)):
                shutil.rmtree(p)
        for p in glob.glob(os.path.join(td, "release/deps/zh_%s*" % crate)):
            os.remove(p)
        os.makedirs(td, exist_ok=True)
        rt = os.path.join(td, "zs_rt.o")
        sh(["gcc", "-O1", "-c", os.path.join(V, "harness/common/zs_rt.c"), "-o", rt], what="replay runtime")
        if c.get("prepare"):
            c["prepare"](V, td, sh)
        sh(["cargo", "rustc", "--release", "--offline", "--quiet", "--target-dir", td] + c.get("cargo_args", []) +
           ["--", "--emit=llvm-bc,link", "-C", "link-arg=" + rt], cwd=hd, what="building the harness against " + REPO)
        sysroot = sh(["rustc", "--print", "sysroot"]).strip()
        bcs = glob.glob(os.path.join(td, "release/deps/zh_%s*.bc" % crate))
        if len(bcs) != 1:
            die("expected one bitcode file, found %r" % bcs)
        ll = os.path.join(td, "run.%d.ll" % os.getpid())
        sh([os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis"), bcs[0], "-o", ll], what="llvm-dis")
        exe = os.path.join(td, "run.%d.exe" % os.getpid())
        shutil.copy2(os.path.join(td, "release/zh_" + crate), exe)
    return ll, exe


def expand(pat):
    """'1,*3,_' -> force lists"""
    outs = [[]]
    for p in [x for x in pat.split(",") if x]:
        if p == "_":
            outs = [o + ["*"] for o in outs]
        elif p.startswith("*"):
            outs = [o + [str(i)] for o in outs for i in range(int(p[1:]))]
        elif ".." in p:
            a, b = p.split("..")
            outs = [o + [str(i)] for o in outs for i in range(int(a), int(b))]
        else:
            outs = [o + [p] for o in outs]
    return [",".join(o) for o in outs]


def replay(exe, entry, inputs, tag, timeout=30):
    f = os.path.join(BUILD, "replay.%d.%s.txt" % (os.getpid(), tag))
    with open(f, "w") as h:
        h.write(inputs)
    try:
        r = subprocess.run([exe, entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout,
                           env=dict(ENV, RUST_BACKTRACE="0"), cwd=BUILD)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace"), ""
    finally:
        os.remove(f)


def reproduces(v, rc, out, err):
    """Does the native run show the same failure?"""
    if v["kind"] == "hang":
        return rc == "timeout"
    if rc == "timeout":
        return False
    asserts = [l[7:] for l in out.split("\n") if l.startswith("ASSERT ")]
    if v["msg"] in asserts:
        return True
    if v["kind"] in ("assert", "fail"):
        return bool(asserts) or (rc < 0)
    return rc < 0 or rc in (101, 134) or bool(asserts)


def end(p):
    """End a process and those it started."""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def merge(ds, samples):
    """The results of the processes an exploration was split over."""
    d = ds[0]
    d["processes"] = len(ds)
    for x in ds[1:]:
        for k in ("paths", "dead_paths", "forks", "branches", "symbolic_branches", "instructions", "concretizations", "queries", "cache_hits", "sat", "unsat",
                  "unknown", "solver_time", "gf2_decided", "table_decided", "int_decided", "cross_checked", "cross_time", "expr_nodes"):
            d[k] += x[k]
        d["max_query"] = max(d["max_query"], x["max_query"])
        for k, (a, b) in x["asserts"].items():
            y = d["asserts"].setdefault(k, [0, 0])
            y[0] += a
            y[1] += b
        for f in ("reach", "incomplete"):
            for k, n in x[f].items():
                d[f][k] = d[f].get(k, 0) + n
        for v in x["violations"]:
            if not any((o["kind"], o["msg"], o["stack"]) == (v["kind"], v["msg"], v["stack"]) for o in d["violations"]):
                d["violations"].append(v)
        d["samples"] += x["samples"][:1]
        d["repo_functions"] = sorted(set(d["repo_functions"]) | set(x["repo_functions"]))
        for f, ls in x["repo_lines"].items():
            d["repo_lines"][f] = sorted(set(d["repo_lines"].get(f, [])) | set(ls))
    if len(d["samples"]) > samples:
        step = len(d["samples"]) / samples
        d["samples"] = [d["samples"][int(i * step)] for i in range(samples)]
    return d


def known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def matches(k, pid, entry, v):
    return (k.get("status") == "known" and k["property"] == pid and re.fullmatch(k["entry"], entry)
            and k["msg"] == v["msg"] and all(re.search(r, " ".join(v["human"])) for r in k.get("inputs", [])))


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.spec = PLAN[pid]
        self.results = []
        self.viol = None
        self.stop = False
        self.lock = threading.Lock()
        self.errors = []
        self.known_hits = []
        self.replayed = set()
        self.validated = 0
        self.procs = {}
        self.unrun = 0
        self.notes = []

    def shard(self, job, force):
        ll, exe = self.bin[job["crate"]]
        out = os.path.join(BUILD, "out.%d.%d.json" % (os.getpid(), threading.get_ident()))
        left = self.deadline - time.time()
        if left < 2 or self.stop:
            self.unrun += 1
            return
        lim = min(left, job.get("max_time", 600))
        cmd = [ZSYM, ll, "--entry", job["entry"], "--out", out, "--max-time", "%.0f" % lim, "--cov-prefix", "/repo/", "--samples", str(job.get("samples", 4)),
               "--slots", self.slots, "--workers", "8",
               "--solver-timeout", "20000" if self.tier == "quick" else "60000"] + job.get("args", [])
        if not any(k.get("status") == "known" and k["property"] == self.pid for k in known()):
            cmd += ["--grace", "15"]
        early = out.replace("/out.", "/early.")
        cmd += ["--early", early]
        if force:
            cmd += ["--force", force]
        t = time.time()
        log_f = out.replace("/out.", "/log.")
        with open(log_f, "w") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        with self.lock:
            self.procs[p.pid] = p
        seen = {}
        while True:
            try:
                p.wait(timeout=1)
            except subprocess.TimeoutExpired:
                pass
            # counterexamples found so far
            for f in glob.glob(early + ".*"):
                with open(f) as h:
                    ls = [l for l in h.read().split("\n")[:-1]]
                for l in ls[seen.get(f, 0):]:
                    self.counterexample(job, force, json.loads(l))
                seen[f] = len(ls)
            if p.returncode is not None:
                break
            if time.time() - t > lim + 30:
                end(p)
        for f in seen:
            os.remove(f)
        with open(log_f, errors="replace") as h:
            so = h.read()
        os.remove(log_f)
        with self.lock:
            self.procs.pop(p.pid, None)
        parts = glob.glob(out + "*")
        if self.stop or p.returncode not in (0, 1, 2) or out not in parts:
            for f in parts:
                os.remove(f)
            if self.stop:
                return
            if p.returncode in (-9, -15, 71):
                with self.lock:
                    self.notes.append("%s %s: executor was ended (time or memory)" % (job["entry"], force))
                    self.unrun += 1
                return
            with self.lock:
                self.errors.append("%s %s: executor ended with %s: %s" % (job["entry"], force, p.returncode, so[-800:]))
            return
        d = merge([json.load(open(f)) for f in sorted(parts)], job.get("samples", 4))
        for f in parts:
            os.remove(f)
        d["force"] = force
        d["wall"] = time.time() - t
        tag = str(threading.get_ident())
        # the encoding against the real binary: recorded paths must do the same natively
        for s in d["samples"]:
            rc, o, e = replay(exe, job["entry"], s["inputs"], tag)
            obs = [l for l in o.split("\n") if l.startswith("O ")]
            if obs == s["obs"] and rc == 0 and "DONE" in o:
                with self.lock:
                    self.validated += 1
            elif not d["violations"]:
                with self.lock:
                    self.errors.append("%s %s: a path the executor found good behaves differently natively (%s): %s" % (job["entry"], force, rc, (o + e)[-600:]))
        for v in d["violations"]:
            if v["kind"] == "hang":
                d["incomplete"]["path longer than the instruction limit"] = v["count"]
        with self.lock:
            self.results.append((job, d))

    def counterexample(self, job, force, v):
        """Replay a counterexample on the real code; stop at the first that is not a known finding."""
        key = (job["entry"], v["kind"], v["msg"], tuple(v["stack"]))
        with self.lock:
            if self.stop or key in self.replayed:
                return
            self.replayed.add(key)
        rc, o, e = replay(self.bin[job["crate"]][1], job["entry"], v["inputs"], str(threading.get_ident()))
        ok = reproduces(v, rc, o, e)
        k = [k for k in known() if matches(k, self.pid, job["entry"], v)]
        with self.lock:
            if not ok:
                if v["kind"] == "hang":
                    self.notes.append("%s %s: a path longer than the instruction limit was cut" % (job["entry"], force))
                else:
                    self.errors.append("%s %s: counterexample does not reproduce natively: %s %s rc=%s %s" % (job["entry"], force, v["kind"], v["msg"], rc, (o + e)[-500:]))
                    print(self.errors[-1], v["human"], flush=True)
            elif k:
                self.replayed.discard(key)
                if k[0] not in self.known_hits:
                    self.known_hits.append(k[0])
            elif not self.viol:
                self.viol = self.write_replay(job, v, rc, o, e)
                self.stop = True
                for q in list(self.procs.values()):
                    end(q)

    def write_replay(self, job, v, rc, o, e):
        rd = os.path.join(V, "replays")
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "%s-%s.txt" % (self.pid, job["entry"]))
        with open(p, "w") as f:
            f.write("# property %s, entry %s (crate %s)\n# %s: %s\n" % (self.pid, job["entry"], job["crate"], v["kind"], v["msg"]))
            for s in v["stack"]:
                f.write("# at %s\n" % s)
            f.write("# inputs in order: %s\n" % " ".join(v["human"])[:4000])
            f.write("# native run: exit %s\n" % rc)
            for l in (o + "\n" + e).split("\n"):
                if l and not l.startswith("O "):
                    f.write("#   %s\n" % l)
            f.write("# replay: %s/check.py --replay %s\n" % (V, p))
            f.write(v["inputs"])
        print("counterexample: %s: %s" % (v["kind"], v["msg"]))
        for s in v["stack"][:6]:
            print("   at", s)
        print("   inputs:", " ".join(v["human"])[:1500])
        return p

    def go(self):
        budget = self.spec.get("budget", {}).get(self.tier, 400 if self.tier == "quick" else 3600)
        jobs = []
        for j in self.spec["jobs"]:
            pats = j.get(self.tier, j.get("quick"))
            for pat in pats:
                for f in expand(pat):
                    jobs.append((j, f))
        crates = sorted({j["crate"] for j, _ in jobs})
        build_zsym()
        self.bin = {c: build(c) for c in crates}
        tb = time.time() - T0
        log("built %s; %d shards" % (",".join(crates), len(jobs)))
        self.deadline = time.time() + budget
        self.slots = os.path.join(BUILD, "slots.%d" % os.getpid())
        with open(self.slots, "wb") as f:
            f.write(b"\0" * 4096)
        it = iter(jobs)
        itl = threading.Lock()

        def worker():
            while True:
                with itl:
                    x = next(it, None)
                if x is None:
                    return
                try:
                    self.shard(*x)
                except Exception as ex:  # noqa: BLE001
                    with self.lock:
                        self.errors.append("%s %s: %r" % (x[0]["entry"], x[1], ex))

        ws = [threading.Thread(target=worker) for _ in range(min(8, len(jobs)))]
        for t in ws:
            t.start()
        for t in ws:
            t.join()
        os.remove(self.slots)
        for ll, exe in self.bin.values():
            os.remove(ll)
            os.remove(exe)
        return self.report(jobs, tb)

    def report(self, jobs, tb):
        R = [d for _, d in self.results]
        tot = lambda k: sum(d[k] for d in R)  # noqa: E731
        ents = {}
        for j, d in self.results:
            e = ents.setdefault(j["entry"], {"shards": 0, "paths": 0, "asserts": {}, "reach": {}, "incomplete": {}, "bounds": j.get("bounds", ""), "seconds": 0})
            e["shards"] += 1
            e["paths"] += d["paths"]
            e["seconds"] = round(e["seconds"] + d["wall"], 1)
            for k, n in d["asserts"].items():
                a = e["asserts"].setdefault(k, [0, 0])
                a[0] += n[0]
                a[1] += n[1]
            for k, n in d["reach"].items():
                e["reach"][k] = e["reach"].get(k, 0) + n
            for k, n in d["incomplete"].items():
                e["incomplete"][k] = e["incomplete"].get(k, 0) + n
        inc = {k: e["incomplete"] for k, e in ents.items() if e["incomplete"]}
        # vacuity: every entry must complete paths and reach its witness
        if not self.viol:
            for j in self.spec["jobs"]:
                e = ents.get(j["entry"])
                if not any(x is j for x, _ in jobs):
                    continue
                if e is None or e["paths"] == 0:
                    if not self.unrun:
                        self.errors.append("%s: no path completed" % j["entry"])
                    continue
                for r in j.get("reach", ["end"]):
                    if not e["reach"].get(r) and not (self.unrun or e["incomplete"]):
                        self.errors.append("%s: the witness '%s' was never reached (vacuous)" % (j["entry"], r))
        funcs = sorted({f for d in R for f in d["repo_functions"]})
        lines = {}
        for d in R:
            for f, ls in d["repo_lines"].items():
                lines.setdefault(f, set()).update(ls)
        samples = []
        for j, d in self.results[:]:
            for s in d["samples"][:1]:
                if len(samples) < 12:
                    samples.append({"entry": d["entry"], "inputs": s["inputs"].strip().split("\n")[:40], "observations": [o[:160] for o in s["obs"]][:6]})
        solver = {
            "z3": R[0]["z3"] if R else "", "smt_queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
            "solver_seconds": round(tot("solver_time"), 3), "slowest_query_seconds": max([d["max_query"] for d in R], default=0),
            "query_cache_hits": tot("cache_hits"), "decided_by_truth_table": tot("table_decided"), "decided_in_gf2": tot("gf2_decided"),
            "smt_decided_as_integers": tot("int_decided"), "decided_without_smt_rechecked_by_z3": tot("cross_checked"), "recheck_seconds": round(tot("cross_time"), 3),
        }
        cov = {
            "states": tot("paths"), "transitions": tot("branches"),
            "traces_validated_against_impl": self.validated,
            "samples": samples,
            "exhaustive": not inc and not self.unrun and not self.errors and not self.viol,
            "paths_infeasible": tot("dead_paths"), "symbolic_branches": tot("symbolic_branches"), "concretizations": tot("concretizations"),
            "ir_instructions": tot("instructions"), "expression_nodes": tot("expr_nodes"), "solver": solver,
            "entries": ents, "shards_run": len(R), "shards_not_run": self.unrun,
            "functions_encoded": funcs, "lines_encoded": {f: len(v) for f, v in sorted(lines.items())},
            "bounds": self.spec["bounds"], "outside": self.spec.get("outside", ""), "incomplete": inc, "notes": self.notes,
            "states_means": "complete symbolic paths (each stands for every concrete input satisfying its path condition)",
            "transitions_means": "branch decisions taken along those paths",
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
              "assumptions": self.spec.get("assumptions", []) + BASE_ASSUMPTIONS, "wall_s": round(time.time() - T0, 1), "violations": 1 if self.viol else 0}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        log("%s %s: %d shards (%d not run), %d paths, %d asserts, %d queries, solver %.1fs, %d paths replayed natively" % (
            self.pid, self.tier, len(R), self.unrun, cov["states"], sum(n[0] for e in ents.values() for n in e["asserts"].values()), solver["smt_queries"], solver["solver_seconds"], self.validated))
        for k, e in ents.items():
            log("   %-22s %3d shards %7d paths %6.1fs %s" % (k, e["shards"], e["paths"], e["seconds"], e["reach"]))
        for k, e in inc.items():
            for m, n in e.items():
                print("INCOMPLETE %s: %dx %s" % (k, n, m[:300]))
        for n in self.notes:
            print("NOTE", n)
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.viol), flush=True)
            return 1
        if self.errors:
            for e in self.errors[:10]:
                print("ERROR:", e)
            return 2
        if not R:
            print("ERROR: nothing was explored")
            return 2
        if inc or self.unrun:
            print("HELD on everything explored; NOT exhaustive within the stated bounds (see INCOMPLETE/evidence)")
        return 0


BASE_ASSUMPTIONS = [
    "the IR is that of a build with opt-level 1, overflow checks and debug assertions, target x86-64",
    "zsym's IR semantics and z3 are trusted; recorded paths of every shard are replayed on the native binary of the same harness and must agree",
    "allocation does not fail; one thread",
    "hash keys of RandomState are fixed to zero and SipHash's mixing is abstracted (hash collisions are allowed to happen, equality decides)",
    "cpuid reports no SIMD extensions (crc32fast's portable path is the one executed)",
]


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_zsym()
        for c in CRATES:
            for f in build(c):
                os.remove(f)
        log("setup done")
        return 0
    if a and a[0] == "--replay":
        txt = open(a[1]).read()
        m = re.match(r"# property (\S+), entry (\S+) \(crate (\S+)\)", txt)
        ll, exe = build(m.group(3))
        rc, o, e = replay(exe, m.group(2), "".join(l + "\n" for l in txt.split("\n") if l and not l.startswith("#")), "r")
        os.remove(ll)
        os.remove(exe)
        print("\n".join(l for l in o.split("\n") if not l.startswith("O ")), e, "exit", rc)
        return 0 if rc == 0 else 1
    if len(a) != 1 or a[0] not in PLAN:
        die("usage: check.py PROPERTY | --setup | --replay FILE")
    tier = os.environ.get("VERIF_TIER", "quick")
    return Run(a[0], "thorough" if tier == "thorough" else "quick").go()


if __name__ == "__main__":
    sys.exit(main())
