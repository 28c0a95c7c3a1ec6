"""Shared driver: builds the engine, the harness IR and the native replay binary from /repo's
current tree, runs the symbolic executor over the jobs of one property, replays every
counterexample natively, validates sampled paths natively, writes the evidence file."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(V, "build")
TARGET = os.path.join(BUILD, "target")
ENGINE = os.path.join(BUILD, "engine", "release", "symx")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET)
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode() + open(root, "rb").read())
            continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".x", ".in")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    try:
                        h.update(open(p, "rb").read())
                    except OSError:
                        pass
    return h.hexdigest()[:24]


def run(cmd, cwd, timeout=800, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def stamp_ok(name, key, *files):
    p = os.path.join(BUILD, "stamp." + name)
    return os.path.exists(p) and open(p).read() == key and all(f and os.path.exists(f) for f in files)


def stamp(name, key):
    with open(os.path.join(BUILD, "stamp." + name), "w") as f:
        f.write(key)


def build_engine():
    with Lock():
        e = os.path.join(V, "engine")
        key = tree_hash([e])
        if stamp_ok("engine", key, ENGINE):
            return
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "engine"))
        rc, out = run(["cargo", "build", "--release", "--offline"], e, env=env)
        if rc != 0 or not os.path.exists(ENGINE):
            raise CheckError("engine build failed:\n" + out[-3000:])
        stamp("engine", key)


def repo_hash():
    return tree_hash([os.path.join(REPO, d) for d in ("serde-xdr", "serde-xdr-derive", "serde-xdr-test", "rpcgen", "Cargo.toml")])


class BuildFailed(Exception):
    pass


def build_crate(crate, pre=None):
    """-> (path of the LLVM IR, path of the native replay binary)"""
    with Lock():
        c = os.path.join(V, crate)
        if pre:
            pre(c)
        key = tree_hash([c, os.path.join(V, "rt")]) + repo_hash()
        binp = os.path.join(BUILD, "replay", crate)
        llp = os.path.join(BUILD, "ir", crate + ".ll")
        if stamp_ok(crate, key, binp, llp):
            return llp, binp
        os.makedirs(os.path.dirname(binp), exist_ok=True)
        os.makedirs(os.path.dirname(llp), exist_ok=True)
        lock = os.path.join(c, "Cargo.lock")
        src = os.path.join(REPO, "Cargo.lock")
        if os.path.exists(src):
            shutil.copyfile(src, lock)
        # never trust mtimes of the crates under test
        for d in glob.glob(os.path.join(TARGET, "*", ".fingerprint", "*")):
            if re.match(r"(serde_xdr|rpcgen|serde-xdr|%s)" % crate, os.path.basename(d)):
                shutil.rmtree(d, ignore_errors=True)
        for f in glob.glob(os.path.join(TARGET, "release", "deps", crate + "-*")):
            os.unlink(f)
        rc, out = run(
            ["cargo", "rustc", "--offline", "--release", "--bin", crate, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "linker=/bin/true"], c
        )
        lls = glob.glob(os.path.join(TARGET, "release", "deps", crate + "-*.ll"))
        if rc != 0 or len(lls) != 1:
            raise BuildFailed("cannot build the %s harness against /repo:\n%s" % (crate, out[-6000:]))
        rc, out = run(["cargo", "build", "--offline", "--features", "replay", "--bin", crate], c)
        if rc != 0:
            raise BuildFailed("cannot build the %s replay binary against /repo:\n%s" % (crate, out[-6000:]))
        shutil.move(lls[0], llp)
        shutil.copy(os.path.join(TARGET, "debug", crate), binp)
        stamp(crate, key)
        return llp, binp


# ------------------------------------------------------------------ native replay
def tape_line(entry, choices, hexs):
    return "%s\t%s\t%s" % (entry, ",".join(map(str, choices)), hexs)


def native_batch(binp, lines, timeout):
    """run tapes natively, restarting after a crash; -> list of (status, digest, reach, fails)"""
    res = [None] * len(lines)
    i = 0
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "tape.%d.%d" % (os.getpid(), id(lines)))
    while i < len(lines):
        with open(f, "w") as h:
            h.write("\n".join(lines[i:]) + "\n")

        def lim():
            import resource

            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

        try:
            p = subprocess.run([binp, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim)
            out, how = p.stdout.decode(errors="replace"), ("exit %d" % p.returncode)
            if p.returncode < 0:
                how = "killed by signal %d" % -p.returncode
            tail = p.stderr.decode(errors="replace").strip()[-200:]
            if tail:
                how += " (" + tail.replace("\n", " ") + ")"
        except subprocess.TimeoutExpired as x:
            out, how = (x.stdout or b"").decode(errors="replace"), "no result within %d s" % timeout
        got = [l for l in out.split("\n") if l]
        for l in got:
            if i >= len(lines):
                break
            t = (l.split("\t") + ["", "", ""])[:4]
            res[i] = tuple(t)
            i += 1
        if i < len(lines):
            res[i] = ("CRASH", "", "", how)
            i += 1
    os.path.exists(f) and os.unlink(f)
    return res


# ------------------------------------------------------------------ symbolic runs
def run_job(ll, job, tier, out):
    """one symx process; job: dict(entry, shard, opts)"""
    cmd = [ENGINE, ll, job["entry"], "--out", out, "--time", str(job["time"]), "--samples", str(job["samples"]), "--mem-mb", str(job.get("mem", 3000))]
    if job["shards"] > 1:
        cmd += ["--shard", "%d/%d" % (job["shard"], job["shards"])]
    cmd += job.get("opts", [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=job["time"] + 120)
        rc, txt = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, txt = -1, "timeout"
    try:
        j = json.load(open(out))
    except Exception:
        return dict(job=job, error="symx rc=%s %s" % (rc, txt[-500:]))
    j["job"] = job
    return j


def cvc5_crosscheck(d, limit):
    """second opinion on a sample of the solver queries"""
    fs = sorted(glob.glob(os.path.join(d, "*.smt2")))
    step = max(1, len(fs) // limit) if fs else 1
    agree = dis = other = 0
    bad = []

    def one(f):
        want = "unsat" if f.endswith("_unsat.smt2") else "sat"
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30)
            got = p.stdout.decode().strip().split("\n")[0]
        except subprocess.TimeoutExpired:
            got = "timeout"
        return f, want, got

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f, want, got in ex.map(one, fs[::step][:limit]):
            if got == want:
                agree += 1
            elif got in ("sat", "unsat"):
                dis += 1
                bad.append(f)
            else:
                other += 1
    return dict(queries=agree + dis + other, agree=agree, disagree=dis, no_answer=other), bad


def load_known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def check(prop, spec, tier, seed):
    """spec: dict(crate, entries=[dict(name, quick={..}|None, thorough={..}|None, reach=[..])], bounds, assumptions, pre, build_violation)"""
    t0 = time.time()
    build_engine()
    edir = os.path.join(V, "evidence")
    os.makedirs(edir, exist_ok=True)
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*")):
        os.unlink(f)
    crates = {}
    for e in spec["entries"]:
        crates.setdefault(e.get("crate", spec["crate"]), None)
    violations = []  # (text, path)
    known_hits = []
    errors = []
    static_notes = {}
    for c in crates:
        try:
            crates[c] = build_crate(c, (spec.get("pre") or {}).get(c))
        except BuildFailed as x:
            if not spec.get("build_violation"):
                raise CheckError(str(x))
            txt = spec["build_violation"](c, str(x))
            if txt is None:
                raise CheckError(str(x))
            p = os.path.join(rdir, "%s-build.txt" % prop)
            open(p, "w").write(txt)
            violations.append((txt.split("\n")[0], p))
            crates[c] = None
    t_build = time.time() - t0
    jobs = []
    work = os.path.join(BUILD, "runs", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for e in spec["entries"]:
        o = dict(e.get("quick") or {}) if tier == "quick" else {**(e.get("quick") or {}), **(e.get("thorough") or {})}
        if (tier == "quick" and e.get("quick") is None) or crates[e.get("crate", spec["crate"])] is None:
            continue
        n = o.get("shards", 1)
        for i in range(n):
            opts = list(e.get("opts", []))
            if tier == "thorough":
                dd = os.path.join(work, "smt", "%s.%d" % (e["name"], i))
                os.makedirs(dd)
                opts += ["--dump", dd, "--dump-n", "150"]
            jobs.append(dict(entry=e["name"], shard=i, shards=n, time=o.get("time", 150 if tier == "quick" else 500), samples=o.get("samples", 24), opts=opts, crate=e.get("crate", spec["crate"])))
    # long ones first
    jobs.sort(key=lambda j: -j["time"])
    results = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fut = [ex.submit(run_job, crates[j["crate"]][0], j, tier, os.path.join(work, "%s.%d.json" % (j["entry"], j["shard"]))) for j in jobs]
        for f in fut:
            results.append(f.result())
    t_sym = time.time() - t0 - t_build
    reach, cov = {}, dict(paths=0, steps=0, forks=0, z3_queries=0, z3_sat=0, z3_unsat=0, z3_time_s=0.0, branches=0, pruned=0, unknown=0, cache_hits=0, model_hits=0, domain_decided=0, domain_confirmed_by_z3=0)
    checks, unsup, funcs, incomplete, samples_out = {}, {}, set(), [], []
    per = {}
    maxq = 0.0
    cands = []
    tapes = {}
    for r in results:
        if "error" in r:
            errors.append("%s: %s" % (r["job"]["entry"], r["error"]))
            continue
        e = r["job"]["entry"]
        for k in cov:
            cov[k] += r[k]
        maxq = max(maxq, r["max_query_s"])
        for k, v in r["reach"].items():
            reach.setdefault(e, {}).setdefault(k, 0)
            reach[e][k] += v
        for k, v in r["checks"].items():
            c = checks.setdefault(k, [0, 0])
            c[0] += v[0]
            c[1] += v[1]
        for k, v in r["unsupported"].items():
            unsup[k] = unsup.get(k, 0) + v
        funcs.update(r["functions"])
        if r["incomplete"]:
            incomplete.append("%s[%d/%d]: %s" % (e, r["job"]["shard"], r["job"]["shards"], r["incomplete"]))
        p = per.setdefault(e, dict(paths=0, pruned=0, instructions=0, queries=0, solver_s=0.0, wall_s=0.0))
        p["paths"] += r["paths"]
        p["pruned"] += r["pruned"]
        p["instructions"] += r["steps"]
        p["queries"] += r["z3_queries"]
        p["solver_s"] = round(p["solver_s"] + r["z3_time_s"], 3)
        p["wall_s"] = round(max(p["wall_s"], r["wall_s"]), 3)
        for v in r["violations"]:
            cands.append((r["job"]["crate"], e, v))
        for s in r["samples"]:
            tapes.setdefault(r["job"]["crate"], []).append((e, s))
    # ---- counterexamples: replay natively, report only what reproduces
    known = [k for k in load_known() if k["property"] == prop]
    seen = set()
    nonrep = []
    cands.sort(key=lambda c: (c[1], c[2]["id"], len(c[2]["bytes"])))
    n_replayed = 0
    for crate, e, v in cands:
        line = tape_line(e, v["choices"], v["bytes"])
        n_replayed += 1
        st, dg, rc, fails = native_batch(crates[crate][1], [line], spec.get("replay_timeout", 20))[0]
        if st in ("FAIL", "CRASH"):
            what = fails
            sig = (e, re.sub(r"\d+", "#", fails)[:120])
            k = next((k for k in known if k["entry"] == e and re.search(k["match"], fails) and ("input" not in k or re.search(k["input"], "%s|%s" % (",".join(map(str, v["choices"])), v["bytes"])))), None)
            if k:
                if k["id"] not in known_hits:
                    known_hits.append(k["id"])
                    say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                continue
            if sig in seen:
                continue
            seen.add(sig)
            p = os.path.join(rdir, "%s-%d.json" % (prop, len(violations)))
            env = dict(os.environ, VERBOSE="1")
            d = os.path.join(BUILD, "tmp", "v.tape")
            open(d, "w").write(line + "\n")
            try:
                obs = subprocess.run([crates[crate][1], d], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20).stderr.decode(errors="replace")[:4000]
            except subprocess.TimeoutExpired:
                obs = "timeout"
            json.dump(dict(property=prop, crate=crate, tape=line, symbolic=dict(kind=v["kind"], id=v["id"], stack=v["stack"]), native=dict(status=st, failure=fails), observed=obs, how="printf '%%s\\n' \"$tape\" > t; %s t" % crates[crate][1]), open(p, "w"), indent=1)
            violations.append(("%s: %s" % (e, what), p))
        else:
            nonrep.append("%s: %s %s (native: %s %s)" % (e, v["kind"], v["id"], st, line[:300]))
    # ---- translation validation: sampled paths, run natively
    validated, mism = 0, []
    for crate, ts in tapes.items():
        if crates[crate] is None:
            continue
        lines = [tape_line(e, s["choices"], s["bytes"]) for e, s in ts]
        for (e, s), got in zip(ts, native_batch(crates[crate][1], lines, 120)):
            ok = got[0] == "OK" and got[1] == s["digest"]
            if ok:
                validated += 1
                if len(samples_out) < 12 and (validated % 7 == 1):
                    samples_out.append(dict(entry=e, choices=s["choices"], input=s["bytes"][:400], digest=s["digest"]))
            else:
                mism.append("%s %s -> %s" % (e, tape_line(e, s["choices"], s["bytes"])[:300], got))
    # ---- vacuity
    for e in spec["entries"]:
        if e["name"] not in per:
            continue
        for lab in e.get("reach", []):
            if not reach.get(e["name"], {}).get(lab):
                if not violations:
                    errors.append("vacuous: %s never reached '%s'" % (e["name"], lab))
    cross = None
    if tier == "thorough":
        smt = os.path.join(work, "smt")
        flat = os.path.join(work, "flat")
        os.makedirs(flat)
        n = 0
        for f in sorted(glob.glob(os.path.join(smt, "*", "*.smt2"))):
            os.rename(f, os.path.join(flat, "%05d_%s" % (n, os.path.basename(f))))
            n += 1
        cross, bad = cvc5_crosscheck(flat, 400)
        if bad:
            errors.append("cvc5 disagrees with z3 on %s" % bad[:3])
        else:
            shutil.rmtree(flat, ignore_errors=True)
            shutil.rmtree(smt, ignore_errors=True)
    own = sorted(f for f in funcs if re.search(r"serde_xdr|rpcgen|generated|^<?h[a-z]::", f) or "serde_xdr" in f)
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=cov["paths"],
            transitions=cov["steps"],
            traces_validated_against_impl=validated,
            samples=samples_out or [dict(note="no completed path")],
            exhaustive=not incomplete and not unsup and not cov["unknown"] and not errors,
            meaning="states = completed symbolic paths (each stands for every input satisfying its path condition); transitions = LLVM instructions executed symbolically",
            bounds=spec["bounds"],
            outside=spec.get("outside", ""),
            pruned_paths=cov["pruned"],
            branch_decisions=cov["branches"],
            forks=cov["forks"],
            solver=dict(queries=cov["z3_queries"], sat=cov["z3_sat"], unsat=cov["z3_unsat"], time_s=round(cov["z3_time_s"], 3), slowest_s=maxq, unknown=cov["unknown"], decided_by_byte_domains=cov["domain_decided"], of_these_confirmed_by_z3=cov["domain_confirmed_by_z3"], model_reuse=cov["model_hits"], cache_hits=cov["cache_hits"]),
            assertions={k: dict(evaluated=v[0], symbolic=v[1]) for k, v in sorted(checks.items())},
            reached=reach,
            per_entry=per,
            functions_encoded_total=len(funcs),
            functions_encoded=own[:400],
            incomplete=incomplete,
            unsupported=unsup,
            counterexamples_replayed=n_replayed,
            replay_mismatches=mism[:20],
            known_findings_hit=known_hits,
            cvc5_crosscheck=cross,
            time_s=dict(build=round(t_build, 2), symbolic=round(t_sym, 2)),
        ),
        assumptions=spec["assumptions"],
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say("%s %s: %d paths, %d instructions, %d solver queries (%.1f s), %d paths validated natively, %.1f s%s" % (prop, tier, cov["paths"], cov["steps"], cov["z3_queries"], cov["z3_time_s"], validated, time.time() - t0, "" if not incomplete else "; incomplete: " + "; ".join(incomplete[:4])))
    for t, p in violations:
        say("  " + t[:300])
        say("VIOLATION property=%s replay=%s" % (prop, p))
    if violations:
        return 1
    for m in mism[:5]:
        errors.append("native replay of a sampled path differs: " + m)
    for m in nonrep[:5]:
        errors.append("counterexample does not reproduce natively: " + m)
    if unsup:
        say("note: constructs outside the engine: %s" % unsup)
    if errors:
        for x in errors:
            say("ERROR: " + x)
        return 2
    return 0
