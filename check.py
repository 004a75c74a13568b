#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code.

usage: check.py --setup | check.py <property id> [--tier quick|thorough] [--job substring] [-v]

For a property, every job of spec.py (a harness entry with concrete bounds) is run through
symx, a symbolic executor over the LLVM IR that rustc emits for /repo's current sources and the
harness.  z3 decides every branch and every check for all input values within the bounds.
Counterexamples are replayed on the natively compiled harness before they are reported, and a
sample of the models of completed paths is replayed too and must give the same outputs.
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(V, "work")
SYMX = os.path.join(WORK, "target-engine/release/symx")
sys.path.insert(0, V)
import spec

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)


class CheckError(Exception):
    pass


def sh(cmd, cwd, env=ENV, what="command"):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("%s failed:\n%s" % (what, r.stdout[-4000:]))
    return r.stdout


def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "work", "seeded", "evidence"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if not f.endswith((".rs", ".toml", ".lock", ".c", ".json")):
                continue
            try:
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
            except OSError:
                pass
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def stamp_ok(name, h, outputs):
    p = os.path.join(WORK, name + ".stamp")
    try:
        return open(p).read() == h and all(os.path.exists(o) for o in outputs)
    except OSError:
        return False


def set_stamp(name, h):
    with open(os.path.join(WORK, name + ".stamp"), "w") as f:
        f.write(h)


def build_engine():
    with Lock("engine"):
        h = tree_hash([os.path.join(V, "engine")])
        if stamp_ok("engine", h, [SYMX]):
            return
        sh(["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"),
           dict(ENV, CARGO_TARGET_DIR=os.path.join(WORK, "target-engine")), "building the symbolic executor")
        set_stamp("engine", h)


def build_harness(crate):
    """LLVM IR and native binary of a harness crate, from /repo's current working tree."""
    src = os.path.join(V, "harness", crate)
    tgt = os.path.join(WORK, "target-" + crate)
    ll, exe = os.path.join(WORK, crate + ".ll"), os.path.join(WORK, crate + ".exe")
    with Lock("h-" + crate):
        h = tree_hash([os.path.join(V, "harness"), os.path.join(V, "rt"), REPO])
        if stamp_ok("h-" + crate, h, [ll, exe]):
            return ll, exe
        try:
            os.remove(os.path.join(WORK, "h-%s.stamp" % crate))
        except OSError:
            pass
        rt = os.path.join(WORK, "rt-%s.o" % crate)
        sh(["gcc", "-O1", "-c", os.path.join(V, "rt/rt.c"), "-o", rt], V, what="compiling rt.c")
        env = dict(ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp")
        # never trust time stamps: everything that comes from /repo or the harness is rebuilt
        pkgs = []
        for p in ["h" + crate] + spec.CRATES[crate]["repo_pkgs"]:
            pkgs += ["-p", p]
        subprocess.run(["cargo", "clean", "--offline", "--release"] + pkgs, cwd=src, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        deps = os.path.join(tgt, "release", "deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.endswith(".ll"):
                    os.remove(os.path.join(deps, f))
        sh(["cargo", "rustc", "--offline", "--release", "--", "--emit=llvm-ir,link", "-C", "link-arg=" + rt],
           src, env, "building harness " + crate)
        lls = [f for f in os.listdir(deps) if f.startswith("h" + crate + "-") and f.endswith(".ll")]
        if len(lls) != 1:
            raise CheckError("expected one IR module, found %s" % lls)
        shutil.copyfile(os.path.join(deps, lls[0]), ll)
        shutil.copy2(os.path.join(tgt, "release", "h" + crate), exe)
        set_stamp("h-" + crate, h)
    return ll, exe


def parse_native(text):
    runs, cur = [], None
    for l in text.split("\n"):
        if l.startswith("B "):
            cur = {"o": [], "r": [], "C": None, "E": None, "D": None}
            runs.append(cur)
        elif cur is not None and l[:2] == "o ":
            cur["o"].append(l)
        elif cur is not None and l[:2] == "r ":
            if l not in cur["r"]:
                cur["r"].append(l)
        elif cur is not None and l[:2] == "C ":
            cur["C"] = l[2:]
        elif cur is not None and l[:2] == "D ":
            cur["D"] = l[2:]
        elif cur is not None and l[:2] == "E " and cur["E"] is None:
            cur["E"] = l[2:]
    return runs


def parse_traces(text):
    tr, cur = [], None
    for l in text.split("\n"):
        if l.startswith("T"):
            cur = {"o": [], "r": [], "i": []}
            tr.append(cur)
        elif cur is not None and l[:2] in ("o ", "r ", "i "):
            cur[l[0]].append(l)
    return tr


def native(exe, entry, path, timeout):
    d = os.path.join(WORK, "scratch-%d-%d" % (os.getpid(), hash(path) & 0xffffff))
    os.makedirs(d, exist_ok=True)
    try:
        r = subprocess.run([exe, entry, path], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.stdout.decode("latin1"), r.stderr.decode("latin1")
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode("latin1"), "timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reproduced(v, run):
    """Whether the real code, natively compiled and given the inputs, fails too: a check that does not hold, a
    crash, or no end. (A path that does not end may trip a bound that the harness sets, and a write out of bounds
    may crash later than where it is found.)"""
    e = run["E"] or ""
    if run["D"] is not None:
        return False
    return run["C"] is not None or e.startswith("signal")


def run_job(pid, n, job, tier, bins, deadline):
    ll, exe = bins[job["crate"]]
    base = os.path.join(WORK, "runs", "%s-%s-%d" % (pid, tier, n))
    out, tr = base + ".json", base + ".traces"
    for f in (out, tr):
        if os.path.exists(f):
            os.remove(f)
    left = deadline - time.time()
    if left < 5:
        return {"job": job, "skipped": True}
    lim = min(job["time"], left)
    cmd = [SYMX, "--ll", ll, "--entry", job["entry"], "--out", out, "--traces", tr,
           "--time", str(lim), "--ntraces", str(job.get("ntraces", 24)), "--nviol", "6",
           "--steps", str(job.get("steps", 60_000_000)), "--solver-ms", str(job.get("solver_ms", 20000))]
    for a in job["args"]:
        cmd += ["--arg", str(a)]
    def lim_mem():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=lim + 60, preexec_fn=lim_mem)
    except subprocess.TimeoutExpired:
        return {"job": job, "stopped": "time"}
    if r.returncode in (-6, -9, -11, 101):
        return {"job": job, "stopped": "memory, or not executable (exit %d)" % r.returncode}
    if r.returncode != 0:
        return {"job": job, "error": "symx exit %d: %s" % (r.returncode, r.stderr[-600:])}
    res = json.load(open(out))
    res["job"] = job
    # replay completed paths natively
    text = open(tr).read() if os.path.exists(tr) else ""
    traces = parse_traces(text)
    res["validated"], res["mismatch"] = 0, []
    if traces:
        so, se = native(exe, job["entry"], tr, 25 * len(traces) + 30)
        runs = parse_native(so)
        for i, t in enumerate(traces):
            rr = runs[i] if i < len(runs) else None
            if rr and rr["E"] == "exit 0" and rr["o"] == t["o"] and set(rr["r"]) == set(t["r"]):
                res["validated"] += 1
            else:
                res["mismatch"].append({"trace": t["i"][:40], "expected": [t["o"][:30], t["r"]], "native": rr, "stderr": se[-300:]})
    # one decoded sample
    res["sample"] = None
    if traces:
        t = traces[len(traces) // 2]
        res["sample"] = {"entry": job["entry"], "args": job["args"], "inputs": [" ".join(x.split()[1:]) for x in t["i"]][:40],
                         "outputs": [x[2:] for x in t["o"]][:12], "reached": [x[2:] for x in t["r"]]}
    # replay counterexamples
    os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
    for j, v in enumerate(res["violations"]):
        p = os.path.join(WORK, "replay", "%s-%d-%d.trace" % (pid, n, j))
        with open(p, "w") as f:
            f.write("# property %s: %s: %s\n# replay: %s %s %s\n# at: %s\n" % (pid, v["kind"], v["msg"].replace("\n", " "), exe, job["entry"], p, " < ".join(v["stack"][:8])))
            f.write("T " + " ".join(map(str, job["args"])) + "\n" + v["inputs"])
        so, se = native(exe, job["entry"], p, 90)
        runs = parse_native(so)
        v["native"] = runs[0] if runs else None
        v["native_stderr"] = se[-500:]
        v["reproduced"] = bool(runs) and reproduced(v, runs[0])
        v["replay"] = p
    return res


def load_findings():
    out = []
    try:
        for l in open(os.path.join(V, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) entry=(\S+) kind=(\S+) match=/(.*?)/ :: (.*)$", l.strip())
            if m:
                out.append(dict(zip(("property", "entry", "kind", "match", "text"), m.groups())))
    except OSError:
        pass
    return out


def main():
    a = sys.argv[1:]
    os.makedirs(os.path.join(WORK, "runs"), exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if a and a[0] == "--setup":
        build_engine()
        for c in spec.CRATES:
            build_harness(c)
        return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = a[a.index("--job") + 1] if "--job" in a else None
    verbose = "-v" in a
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    prop = spec.PROPS[pid]
    jobs = [j for j in prop["jobs"] if tier == "thorough" or not j.get("thorough")]
    if only:
        jobs = [j for j in jobs if only in j["entry"] + " " + " ".join(map(str, j["args"]))]
    build_engine()
    crates = sorted({j["crate"] for j in jobs})
    with ThreadPoolExecutor(max_workers=len(crates) or 1) as ex:
        bins = dict(zip(crates, ex.map(build_harness, crates)))
    t_build = time.time() - t0
    deadline = t0 + (620 if tier == "quick" else 6 * 3600)
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("cost", 1))
    results = [None] * len(jobs)
    with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 8)) as ex:
        futs = {i: ex.submit(run_job, pid, i, jobs[i], tier, bins, deadline) for i in order}
        for i in order:
            results[i] = futs[i].result()
    # ---- verdict
    findings = load_findings()
    viol, errors, known, incomplete = [], [], [], []
    for r in results:
        j = r["job"]
        name = "%s(%s)" % (j["entry"], ",".join(map(str, j["args"])))
        if r.get("skipped"):
            incomplete.append(name + ": not started, time budget")
            continue
        if "stopped" in r:
            incomplete.append(name + ": stopped, out of " + r["stopped"])
            continue
        if "error" in r:
            errors.append(name + ": " + r["error"])
            continue
        if verbose:
            print("%-40s paths=%d forks=%d q=%d solver=%.1fs wall=%.1fs checks=%d validated=%d viol=%d inc=%s reach=%s" % (
                name, r["paths"], r["forks"], r["queries"], r["solver_s"], r["wall_s"], r["checks"], r["validated"], len(r["violations"]), r["incomplete"][:2], r["reach"]))
        for m in r["mismatch"][:2]:
            errors.append("%s: native replay of a completed path differs: %s" % (name, json.dumps(m)[:1500]))
        for v in r["violations"]:
            f = None
            for k in findings:
                if k["property"] == pid and k["entry"] == j["entry"] and k["kind"] == v["kind"] and re.search(k["match"], v["msg"] + " @ " + " < ".join(v["stack"])):
                    f = k
            if f:
                if f["text"] not in [x["text"] for x in known]:
                    known.append(f)
            elif v["reproduced"]:
                viol.append((name, v))
            elif "handle_alloc_error" in v["msg"] and v["native"] and v["native"]["E"] == "exit 0":
                incomplete.append(name + ": an allocation larger than symx can follow at %s" % v["stack"][:4])
            else:
                errors.append("%s: counterexample does not reproduce natively: %s %s %s native=%s" % (name, v["kind"], v["msg"], v["stack"][:4], v["native"]))
        for x in r["incomplete"]:
            incomplete.append(name + ": " + x)
        if not r["violations"] and not r["incomplete"]:
            for lab in j.get("reach", []):
                if lab not in r["reach"]:
                    errors.append("%s: vacuous: case '%s' was never reached" % (name, lab))
        if r["paths"] == 0 and not r["violations"]:
            errors.append(name + ": no path completed: %s" % r["incomplete"][:3])
    done = [r for r in results if "paths" in r]
    funcs = sorted({f for r in done for f in r["functions"]})
    ours = spec.own_functions(funcs)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] for r in done),
            "transitions": sum(r["branches"] for r in done),
            "traces_validated_against_impl": sum(r["validated"] for r in done),
            "samples": [r["sample"] for r in done if r.get("sample")][:4],
            "meaning": "states = symbolic paths completed (each stands for every input satisfying its path condition); transitions = IR branches executed on them; traces_validated = models of completed paths replayed on the native build with identical outputs",
            "exhaustive": not incomplete and not errors,
            "jobs": [{"entry": r["job"]["entry"], "args": r["job"]["args"], "bounds": r["job"].get("bounds", ""), "paths": r["paths"], "forks": r["forks"],
                      "instructions": r["instructions"], "checks": r["checks"], "queries": r["queries"], "solver_s": r["solver_s"], "wall_s": r["wall_s"],
                      "reached": r["reach"], "violations": len(r["violations"]), "incomplete": r["incomplete"][:5]} for r in done],
            "solver": "z3 " + (done[0]["z3"] if done else "?"),
            "queries": sum(r["queries"] for r in done), "sat": sum(r["sat"] for r in done), "unsat": sum(r["unsat"] for r in done),
            "unknown": sum(r["unknown"] for r in done), "query_cache_hits": sum(r["cache_hits"] for r in done),
            "solver_s": round(sum(r["solver_s"] for r in done), 3),
            "checks_decided": sum(r["checks"] for r in done), "checks_sent_to_solver": sum(r["checks_solver"] for r in done),
            "instructions": sum(r["instructions"] for r in done),
            "functions_encoded": len(funcs), "repo_functions_encoded": ours,
            "bounds": prop["bounds"], "outside_bounds": prop.get("outside", ""),
            "incomplete": incomplete, "errors": errors[:10], "known_findings": [k["text"] for k in known],
            "build_s": round(t_build, 1),
        },
        "assumptions": prop["assumptions"] + spec.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for x in incomplete[:10]:
        print("incomplete:", x)
    seen = set()
    for name, v in viol:
        print("%s: %s: %s" % (name, v["kind"], v["msg"]))
        print("   at " + " < ".join(v["stack"][:6]))
        if v["replay"] not in seen:
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        seen.add(v["replay"])
    for e in errors:
        print("ERROR:", e)
    print("%s: %d jobs, %d paths, %d queries (%.1f s solver), %d native replays, %d checks, wall %.1f s" % (
        pid, len(done), ev["coverage"]["states"], ev["coverage"]["queries"], ev["coverage"]["solver_s"],
        ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["checks_decided"], ev["wall_s"]))
    if viol:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR:", e)
        sys.exit(2)
