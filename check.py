#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep]

Decides one property by symbolic execution of the compiled Rust code of /repo:
 1. builds the executor, the harness bitcode (from /repo's current sources) and the native replay binary,
 2. runs every harness of the property to completion within its stated bounds,
 3. replays every counterexample (and a sample of ordinary paths) against the natively compiled code,
 4. writes evidence/<PROPERTY>.json.
exit 0: held on everything within the bounds; exit 1: VIOLATION; exit 2: no answer (incomplete / internal error).
"""
import sys, os, json, time, hashlib, subprocess, shutil, fcntl, glob, random, resource, threading, select, re
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LINKSPACE_REPO", "/repo")
sys.path.insert(0, V)
import specs

T0 = time.time()
NPROC = min(8, os.cpu_count() or 8)
LIMIT = 840.0 if os.environ.get("VERIF_TIER", "quick") == "quick" else 6 * 3600.0


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


def die(msg):
    print("NO-ANSWER:", msg, flush=True)
    sys.exit(2)


def sh(cmd, cwd=None, env=None, timeout=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def tree_hash(paths, exts=None):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build", "evidence", "seeded", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if exts and not f.endswith(exts):
                continue
            try:
                h.update(f.encode() + b"\0" + hashlib.sha256(open(f, "rb").read()).digest())
            except OSError:
                pass
    return h.hexdigest()[:20]


BUILD = os.path.join(V, "build")


def build_engine(out):
    dst = os.path.join(BUILD, "symex-" + tree_hash([os.path.join(V, "engine")], (".cpp", ".h", ".inc", ".sh")))
    if not os.path.exists(dst):
        for old in glob.glob(os.path.join(BUILD, "symex-*")):
            os.unlink(old)
        rc, o = sh([os.path.join(V, "engine", "build.sh"), dst])
        if rc:
            out["err"] = "engine build failed:\n" + o[-3000:]
            return
    out["symex"] = dst


def cargo_env(target):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    e.update(RUSTUP_TOOLCHAIN="nightly-2023-11-04", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0")
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    if "RUSTUP_HOME" in os.environ:
        e["RUSTUP_HOME"] = os.environ["RUSTUP_HOME"]
    return e


def build_crate(crate, kind, out):
    """kind: bc (bitcode for the executor) or native (replay binary)"""
    src = os.path.join(V, "harness", crate)
    if kind == "native" and os.path.isdir(src + "_native"):
        src = src + "_native"
    key = tree_hash([os.path.join(V, "harness", crate), src, os.path.join(V, "rt"), os.path.join(V, "models")]) + tree_hash([os.path.join(REPO, "crates"), os.path.join(REPO, "Cargo.toml")])
    dst = os.path.join(BUILD, f"{crate}-{kind}-" + hashlib.sha256(key.encode()).hexdigest()[:16])
    if not os.path.exists(dst):
        for old in glob.glob(os.path.join(BUILD, f"{crate}-{kind}-*")):
            os.unlink(old)
        target = os.path.join(BUILD, f"t-{crate}-{kind}")
        env = cargo_env(target)
        lock_before = open(os.path.join(src, "Cargo.lock")).read()
        if kind == "bc":
            # cargo's fingerprint looks at mtimes; make sure the harness itself is always re-emitted
            for f in glob.glob(os.path.join(target, "release", "deps", f"h_{crate}-*.bc")):
                os.unlink(f)
            main = os.path.join(src, "src", "main.rs")
            rc, o = sh(["cargo", "rustc", "--release", "--bin", f"h_{crate}", "--", "--emit=llvm-bc", "-C", "link-args=-nostartfiles -Wl,--unresolved-symbols=ignore-all", "--cfg", f'build_id="{key}"'], cwd=src, env=env)
            bcs = glob.glob(os.path.join(target, "release", "deps", f"h_{crate}-*.bc"))
            if not bcs:
                out["err"] = f"{crate} bitcode build failed:\n" + o[-6000:]
                return
            shutil.copy(max(bcs, key=os.path.getmtime), dst + ".tmp")
        else:
            rc, o = sh(["cargo", "rustc", "--bin", f"h_{crate}", "--features", "native", "--", "--cfg", f'build_id="{key}"'], cwd=src, env=env)
            b = os.path.join(target, "debug", f"h_{crate}")
            if rc or not os.path.exists(b):
                out["err"] = f"{crate} native build failed:\n" + o[-6000:]
                return
            shutil.copy(b, dst + ".tmp")
            os.chmod(dst + ".tmp", 0o755)
        if open(os.path.join(src, "Cargo.lock")).read() != lock_before:
            open(os.path.join(src, "Cargo.lock"), "w").write(lock_before)
        os.rename(dst + ".tmp", dst)
    out[f"{crate}-{kind}"] = dst


class Native:
    """batch replay of concrete inputs on the natively compiled code"""

    def __init__(self, path, scratch, timeout=15.0):
        self.path, self.timeout, self.scratch = path, timeout, scratch
        self.p = None

    def start(self):
        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim, cwd=self.scratch)
        os.set_blocking(self.p.stderr.fileno(), False)

    def run(self, harness, hexs):
        """-> (obs, reached, outcome) ; outcome: OK | END | ASSUME | CHECK n | PANIC msg | CRASH sig | TIMEOUT"""
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(f"{harness} {hexs}\n".encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        r, _, _ = select.select([self.p.stdout], [], [], self.timeout)
        if not r:
            self.p.kill()
            self.p.wait()
            self.p = None
            return None, None, "TIMEOUT"
        line = self.p.stdout.readline().decode(errors="replace").rstrip("\n")
        if not line:
            rc = self.p.wait()
            self.p = None
            return None, None, f"CRASH {rc}"
        m = re.match(r"(\d+) ([01]) (\[.*?\]) (.*)", line)
        if not m:
            return None, None, "CRASH output:" + line
        return int(m.group(1)), m.group(3), m.group(4)

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


def run_harness(symex, bc, run, resdir, budget, seed, jobs=NPROC):
    shutil.rmtree(resdir, ignore_errors=True)
    os.makedirs(resdir)
    cmd = [symex, bc, "--harness", run["h"], "--time", str(int(budget)), "--jobs", str(jobs), "--res", resdir, "--seed", str(seed), "--audit", "2000"] + run.get("opts", [])
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + 30, preexec_fn=lim)
        rc, o = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, o = 99, "executor timed out"
    R = dict(rc=rc, out=o, wall=time.time() - t, V=[], VC={}, S=[], E={}, R={}, C={}, I={}, N={}, T={}, M={}, F=set(), unfinished=0)
    for f in glob.glob(os.path.join(resdir, "r*")):
        ended = False
        for line in open(f, errors="replace"):
            c = line.rstrip("\n").split("\t")
            k = c[0]
            if k == "V":
                R["V"].append(dict(kind=c[1], key=c[2], msg=c[3], input=c[4] if len(c) > 4 else "", stack=c[5] if len(c) > 5 else ""))
            elif k == "S":
                R["S"].append((c[1], int(c[2]), c[3] if len(c) > 3 else ""))
            elif k in ("VC", "E", "R", "C", "I", "N"):
                R[k][c[1]] = R[k].get(c[1], 0) + int(c[2])
            elif k == "T":
                R[k][c[1]] = R[k].get(c[1], 0.0) + float(c[2])
            elif k == "M":
                R[k][c[1]] = max(R[k].get(c[1], 0), int(c[2]))
            elif k == "F":
                R["F"].add(c[1])
            elif k == "END":
                ended = True
        if not ended:
            R["unfinished"] += 1
    shutil.rmtree(resdir, ignore_errors=True)
    return R


def expected(kind, outcome):
    """does the native outcome confirm an engine violation of this kind?"""
    if kind.startswith("check"):
        return outcome.startswith("CHECK") or outcome.startswith(("PANIC", "CRASH", "TIMEOUT"))
    if kind in ("steps", "depth", "oom", "memory-limit"):
        return outcome.startswith(("TIMEOUT", "CRASH", "PANIC"))
    return outcome.startswith(("PANIC", "CRASH", "TIMEOUT", "CHECK"))


def load_known():
    r = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                d = dict(re.findall(r"(\w+)=(\S+)", l.split("::")[0]))
                d["what"] = l.split("::", 1)[1].strip() if "::" in l else l
                r.append(d)
    return r


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    global LIMIT
    LIMIT = 840.0 if tier == "quick" else 4 * 3600.0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    spec = specs.SPECS[pid]
    runs = [r for r in spec["runs"] if tier == "thorough" or r.get("tier", "q") == "q"]
    if tier == "thorough":
        runs = [r for r in runs if not r.get("quick_only")]
    if only:
        runs = [r for r in spec["runs"] if r["h"] in only]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev_path = os.path.join(V, "evidence", pid + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    # ---- build
    out = {}
    crates = sorted({r.get("crate", spec.get("crate")) for r in runs})
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = [threading.Thread(target=build_engine, args=(out,))]
        for c in crates:
            th += [threading.Thread(target=build_crate, args=(c, k, out)) for k in ("bc", "native")]
        [t.start() for t in th]
        [t.join() for t in th]
        if "err" in out:
            die(out["err"])
        # take private copies: another check may rebuild while we run
    log("built", " ".join(os.path.basename(v) for v in out.values()))
    tmp = os.path.join(BUILD, f"run-{pid}-{os.getpid()}")
    os.makedirs(tmp)
    try:
        code = decide(pid, tier, seed, spec, runs, out, tmp, ev_path)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(pid, tier, seed, spec, runs, out, tmp, ev_path):
    rnd = random.Random(seed)
    known = [k for k in load_known() if k.get("property") == pid]
    tot = dict(paths=0, instr=0, forks=0, validated=0, z3=0, z3_time=0.0, z3_checks=0, table=0, interval=0, checks_sym=0, checks_conc=0, audits=0)
    fns, samples, harnesses, problems, violations, knownhit = set(), [], [], [], [], {}
    nat = {}
    for r in runs:
        crate = r.get("crate", spec.get("crate"))
        left = LIMIT - (time.time() - T0)
        if left < 15:
            problems.append(f"{r['h']}: no time left")
            continue
        R = run_harness(out["symex"], out[crate + "-bc"], r, os.path.join(tmp, "res"), min(left - 10, r.get("time", 1e9)), seed)
        if crate not in nat:
            sc = os.path.join(tmp, "native-" + crate)
            os.makedirs(sc)
            nat[crate] = Native(out[crate + "-native"], sc)
        n = nat[crate]
        # ---- counterexamples
        bykey = {}
        for v in R["V"]:
            bykey.setdefault((v["kind"], v["key"]), []).append(v)
        for (kind, key), vs in sorted(bykey.items()):
            confirmed = None
            for v in sorted(vs, key=lambda v: (len(v["input"]), v["input"]))[:6]:
                obs, reached, outcome = n.run(r["h"], v["input"])
                if expected(kind, outcome):
                    confirmed = (v, outcome)
                    break
                last = (v, outcome)
            if not confirmed:
                problems.append(f"{r['h']}: counterexample ({kind} {key}: {last[0]['msg']}; input {last[0]['input']}) does not reproduce natively: {last[1]}")
                continue
            v, outcome = confirmed
            kn = [k for k in known if k.get("harness") == r["h"] and k.get("kind") == kind and k.get("key") == key.replace(" ", "_")]
            if kn:
                knownhit[kn[0]["what"]] = v["input"]
                continue
            violations.append(dict(harness=r["h"], crate=crate, kind=kind, key=key, msg=v["msg"], input=v["input"], outcome=outcome, stack=v["stack"]))
        # ---- conformance of the executor with the native code on sampled paths
        ss = R["S"]
        rnd.shuffle(ss)
        val = 0
        tv = time.time()
        for kind, obs, inp in ss[: r.get("validate", 150)]:
            if kind not in ("done", "end", "assume", "panic-ok"):
                continue
            if time.time() - tv > 30:
                break
            o2, reached, outcome = n.run(r["h"], inp)
            want = {"done": "OK", "end": "END", "assume": "ASSUME", "panic-ok": "PANIC"}[kind]
            if r.get("loose"):  # the model crates are replaced by the real ones natively: only the verdict is comparable
                ok = outcome in ("OK", "END", "ASSUME") or outcome.startswith("PANIC") == (kind == "panic-ok")
            else:
                ok = (outcome == want and (o2 == obs or kind == "assume")) or (kind == "panic-ok" and outcome.startswith("PANIC"))
            if not ok:
                problems.append(f"{r['h']}: executor and native code disagree on input {inp}: {kind}/{obs} vs {outcome}/{o2}")
                break
            val += 1
            if len(samples) < 8 and val <= 2:
                samples.append(dict(harness=r["h"], input_bytes=inp, path_end=kind, native="agrees"))
        # ---- completeness
        if R["rc"] not in (0,) or R["unfinished"]:
            problems.append(f"{r['h']}: executor rc={R['rc']} unfinished={R['unfinished']}: {R['out'][-400:]}")
        for k, c in R["I"].items():
            problems.append(f"{r['h']}: incomplete: {k} x{c}")
        for k in R["E"]:
            if k not in ("done", "end", "assume", "panic-ok", "check-failed") and not R["V"]:
                problems.append(f"{r['h']}: path end {k} x{R['E'][k]}")
        for rid in r.get("reach", []):
            if not R["R"].get(str(rid)):
                problems.append(f"{r['h']}: required situation {rid} never reached (vacuous)")
        if R["C"] == {} and not r.get("nochecks") and not R["V"]:
            problems.append(f"{r['h']}: no check executed (vacuous)")
        N = R["N"]
        tot["paths"] += N.get("paths", 0); tot["instr"] += N.get("instructions", 0); tot["forks"] += N.get("forks", 0)
        tot["validated"] += val; tot["z3"] += N.get("z3_queries", 0); tot["z3_time"] += R["T"].get("z3_time", 0.0)
        tot["z3_checks"] += N.get("checks_z3", 0); tot["table"] += N.get("table_decisions", 0); tot["interval"] += N.get("interval_decisions", 0)
        tot["checks_sym"] += N.get("checks_symbolic", 0); tot["checks_conc"] += N.get("checks_concrete", 0); tot["audits"] += N.get("z3_audits", 0)
        fns |= R["F"]
        harnesses.append(dict(harness=r["h"], bound=r.get("bound", ""), paths=N.get("paths", 0), path_ends=R["E"], witnesses=R["R"], checks=R["C"], instructions=N.get("instructions", 0),
                              z3_queries=N.get("z3_queries", 0), z3_unsat=N.get("z3_unsat", 0), z3_sat=N.get("z3_sat", 0), z3_time_s=round(R["T"].get("z3_time", 0.0), 2),
                              table_decisions=N.get("table_decisions", 0), max_steps_per_path=R["M"].get("max_steps", 0), wall_s=round(R["wall"], 2), validated=val))
        log(f"{r['h']}: {N.get('paths',0)} paths, {R['wall']:.1f}s, z3 {N.get('z3_queries',0)}, validated {val}, violations {len(bykey)}")
        if violations and tier == "quick" and not known:
            break
    for n in nat.values():
        n.close()
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["paths"], transitions=tot["instr"], traces_validated_against_impl=tot["validated"], samples=samples or [h["harness"] for h in harnesses],
                            method="symbolic execution of the LLVM IR that rustc emits for /repo's current sources; each feasible path is a state, each interpreted IR instruction a transition",
                            harnesses=harnesses, repo_functions_encoded=sorted(fns), branch_forks=tot["forks"],
                            solver=dict(z3_queries=tot["z3"], z3_time_s=round(tot["z3_time"], 2), checks_confirmed_by_z3=tot["z3_checks"], finite_domain_table_decisions=tot["table"], interval_decisions=tot["interval"],
                                        audits_of_table_decisions_by_z3=tot["audits"], checks_on_symbolic_conditions=tot["checks_sym"], checks_on_constant_conditions=tot["checks_conc"]),
                            problems=problems[:20], known_findings=sorted(knownhit)),
              assumptions=specs.COMMON_ASSUMPTIONS + spec.get("assumptions", []) + (["harnesses " + ", ".join(r["h"] for r in runs if "--stubfmt" in r.get("opts", [])) + ": formatting of messages (core::fmt) is assumed to return normally and its text is not compared"] if any("--stubfmt" in r.get("opts", []) for r in runs) else []), wall_s=round(time.time() - T0, 2), violations=len(violations))
    json.dump(ev, open(ev_path, "w"), indent=1)
    for w in sorted(knownhit):
        print(f"KNOWN-FINDING: property={pid} {w}")
    if violations:
        rp = os.path.join(V, "evidence", f"{pid}-replay.txt")
        with open(rp, "w") as f:
            for v in violations:
                f.write(json.dumps(v) + "\n")
            f.write(f"# replay natively:  python3 check.py --replay {rp}\n")
        for v in violations[:10]:
            print(f"  {v['harness']} {v['kind']} {v['key']}: {v['msg']} | input={v['input']} | native: {v['outcome']}")
        print(f"VIOLATION property={pid} replay={rp}", flush=True)
        return 1
    if problems:
        for p in problems[:20]:
            print("PROBLEM:", p[:600])
        print("NO-ANSWER: the exploration is not complete", flush=True)
        return 2
    log(f"{pid} holds within the stated bounds: {tot['paths']} paths, {tot['validated']} replayed natively")
    return 0


def replay(path):
    out = {}
    os.makedirs(BUILD, exist_ok=True)
    bad = 0
    for l in open(path):
        if not l.startswith("{"):
            continue
        v = json.loads(l)
        if v["crate"] + "-native" not in out:
            build_crate(v["crate"], "native", out)
            if "err" in out:
                die(out["err"])
        n = Native(out[v["crate"] + "-native"], BUILD)
        o = n.run(v["harness"], v["input"])
        print(v["harness"], v["input"], "->", o[2])
        bad |= expected(v["kind"], o[2])
        n.close()
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        replay(sys.argv[2])
    if sys.argv[1] == "--setup":
        out = {}
        os.makedirs(BUILD, exist_ok=True)
        build_engine(out)
        if "err" in out:
            die(out["err"])
        sys.exit(0)
    main()
