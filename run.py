#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decide one property of /repo's working tree.

Builds the symbolic executor, the whole-program LLVM IR of the property's harness (with /repo's
current sources inside) and the native replay of the same harness against the real crate; explores
every entry; replays each counterexample natively before reporting it; replays sampled paths
natively and compares what they observed; writes evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION.  Exit 2: the check itself failed (nothing built, or no path completed)."""
import fcntl, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
from spec import PROPS
REPO = "/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"): ENV.pop(k, None)

class Broken(Exception): pass

def sh(cmd, cwd, log, env=ENV, timeout=800):
    with open(log, "wb") as f:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise Broken("%s failed\n%s" % (" ".join(cmd), open(log, errors="replace").read()[-4000:]))

def start(cmd, cwd, log):
    return (cmd, log, subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=open(log, "wb"), stderr=subprocess.STDOUT))
def finish(p):
    if p[2].wait(timeout=800) != 0: raise Broken("%s failed\n%s" % (" ".join(p[0]), open(p[1], errors="replace").read()[-4000:]))

def lock_file(dir_):
    dst = os.path.join(dir_, "Cargo.lock")
    if not os.path.exists(dst) and os.path.exists(REPO + "/Cargo.lock"): shutil.copy(REPO + "/Cargo.lock", dst)

def build(prop, bin_, work):
    """engine + IR + native binary, from what is on disk now"""
    for d in ("hsym", "hnat"): lock_file(os.path.join(V, d))
    t = time.time()
    if PROPS[prop].get("lexgen"):
        # the lexer generated from /repo's template is part of the code under check
        lock_file(V + "/lexgen")
        sh(["cargo", "build", "--offline"], V + "/lexgen", work + "/lexgen.log")
        os.makedirs(work + "/cwd", exist_ok=True); os.symlink(REPO + "/src", work + "/cwd/src")
        sh([V + "/lexgen/target/debug/lexgen", work + "/generated_lexer.rs"], work + "/cwd", work + "/lexgen-run.log")
    ENV["LEXGEN"] = work + "/generated_lexer.rs"
    ps = [start(["cargo", "build", "--release", "--offline"], V + "/engine", work + "/engine.log"),
          start(["cargo", "build", "--offline", "--bin", bin_], V + "/hnat", work + "/native.log")]
    try:
        ir = work + "/" + bin_ + ".ll"
        sh(["bash", V + "/build_ir.sh", bin_, ir], V, work + "/ir.log")
    finally:
        err = None
        for p in ps:
            try: finish(p)
            except Broken as e: err = err or e
    if err: raise err
    return V + "/engine/target/release/symll", ir, V + "/hnat/target/debug/" + bin_, time.time() - t

def explore(eng, ir, entry, e, work, dump):
    out = work + "/" + entry + ".json"
    cmd = [eng, ir, "--entry", entry, "--jobs", str(os.cpu_count() or 8), "--max-time", str(e["time"]), "--max-steps", str(e.get("steps", 20000000)),
           "--samples", str(e.get("samples", 3)), "--per-tag", "2", "--frontier", str(e.get("frontier", 1500)), "--out", out]
    if dump: cmd += ["--dump", dump, "--dump-max", "60"]
    log = work + "/" + entry + ".log"
    with open(log, "wb") as f:
        try: r = subprocess.run(cmd, cwd=V, env=dict(ENV, SYMLL_TMP=work), stdout=f, stderr=subprocess.STDOUT, timeout=e["time"] + 120)
        except subprocess.TimeoutExpired: raise Broken("engine did not stop on " + entry)
    if r.returncode != 0: raise Broken("engine failed on %s (%s)\n%s" % (entry, r.returncode, open(log, errors="replace").read()[-3000:]))
    o = json.load(open(out))
    m = dict(entry=entry, z3=o["z3"], wall_s=o["wall_s"], errors=[], violations=[], samples=[], tags={}, ends={}, functions={}, timed_out=False)
    for p in o["parts"]:
        m["errors"] += p.get("errors", []); m["violations"] += p.get("violations", []); m["samples"] += p.get("samples", [])
        m["timed_out"] |= p.get("timed_out", False)
        for k in ("paths", "instrs", "forks", "checks", "checks_sym", "assumed_out", "panics_ok", "concretized", "queries", "sat", "unsat", "unknown", "cache_hits", "solver_s"):
            m[k] = m.get(k, 0) + p.get(k, 0)
        for k in ("max_vars", "max_path_steps"): m[k] = max(m.get(k, 0), p.get(k, 0))
        for k, v in p.get("tags", {}).items():
            a = m["tags"].setdefault(k, [0, 0]); a[0] += v[0]; a[1] += v[1]
        for k, v in p.get("ends", {}).items(): m["ends"][k] = m["ends"].get(k, 0) + v
        for n, c, b in p.get("functions", []):
            a = m["functions"].setdefault(n, [0, b]); a[0] = max(a[0], c)
    return m

def native(exe, entry, vals, work, timeout=20):
    """one native run: (kind, info) with kind in done, fail, panic, crash, hang, assume, more"""
    vf = work + "/vals-%d" % os.getpid()
    open(vf, "w").write(" ".join(str(v) for v in vals))
    cwd = work + "/cwd"; os.makedirs(cwd, exist_ok=True)
    # ASTDrawer looks its template up relative to the working directory
    if not os.path.islink(cwd + "/src"): os.symlink(REPO + "/src", cwd + "/src")
    try: r = subprocess.run([exe, entry, vf], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(ENV, RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired: return "hang", "no answer within %d s" % timeout, None, None
    out = r.stdout.decode(errors="replace").splitlines()
    last = lambda k: next((l[len(k) + 1:] for l in reversed(out) if l.startswith(k + " ")), "")
    obs, end = last("OBS"), last("END")
    if r.returncode == 0: return "done", "", obs, end
    if r.returncode == 10: return "fail", last("FAIL"), obs, end
    if r.returncode == 12: return "panic", last("PANIC"), obs, end
    if r.returncode == 11: return "assume", "", obs, end
    if r.returncode == 13: return "more", "", obs, end
    return "crash", "exit %s %s" % (r.returncode, r.stderr.decode(errors="replace")[-300:].strip()), obs, end

CONFIRM = ("fail", "panic", "crash", "hang")
def confirm(exe, entry, v, work):
    n = 60
    if v["tag"] in ("step-limit", "stack-depth"): n = 3
    for i in range(n):
        k, info, _, _ = native(exe, entry, v["inputs"], work, 10)
        if k in CONFIRM: return k, info, i + 1
    return None

def known(prop):
    r = []
    for l in open(V + "/known-findings.txt", encoding="utf-8"):
        l = l.strip()
        if l.startswith("finding: property=%s " % prop):
            d = dict(x.split("=", 1) for x in l.split(" ")[1:] if "=" in x and x.split("=")[0] in ("property", "tag"))
            r.append((d["tag"], l.split(" ", 1)[1]))
    return r

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    t0 = time.time()
    work = V + "/work/" + prop
    if os.path.isdir(work): shutil.rmtree(work)
    os.makedirs(work)
    os.makedirs(V + "/evidence", exist_ok=True)
    entries = [(n, e) for n, e in spec["entries"].items() if tier == "thorough" or e.get("tier", "quick") == "quick"]
    if "--only" in sys.argv: o = sys.argv[sys.argv.index("--only") + 1].split(","); entries = [x for x in spec["entries"].items() if x[0] in o]   # for work on one entry
    with open(V + "/work/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        eng, ir, exe, build_s = build(prop, spec["bin"], work)
        print("built engine, IR (%d KB) and native replay in %.0f s" % (os.path.getsize(ir) // 1024, build_s), flush=True)
        kf = known(prop)
        done, viol, notes, broken, findings = [], [], [], [], set()
        validated = 0
        sample_out = []
        limit = 780 if tier == "quick" else 3600 * 6
        for n, e in entries:
            e = dict(e)
            left = limit - (time.time() - t0)
            if left < 20: notes.append("%s: not run, out of time" % n); continue
            e["time"] = min(e.get("time", 300), left)
            dump = None
            if tier == "thorough": dump = work + "/dump-" + n; os.makedirs(dump)
            m = explore(eng, ir, n, e, work, dump)
            done.append(m)
            print("%s: %d paths, %d instructions, %d checks (%d symbolic), %d queries (%.1f s solver), %.1f s%s" % (n, m["paths"], m["instrs"], m["checks"], m["checks_sym"], m["queries"], m["solver_s"], m["wall_s"], " TIMED OUT" if m["timed_out"] else ""), flush=True)
            if m["timed_out"]: notes.append("%s: time budget of %d s used up before the bound was exhausted" % (n, e["time"]))
            for x in sorted(set(m["errors"])): notes.append("%s: engine: %s" % (n, x))
            if m["unknown"]: notes.append("%s: %d solver queries undecided" % (n, m["unknown"]))
            ktags = {t: d for t, d in kf}
            tried = {}
            for v in m["violations"]:
                if v["tag"] in ktags:
                    if v["tag"] not in findings:
                        c = confirm(exe, n, v, work)
                        if c: findings.add(v["tag"])
                        else: broken.append("%s: known finding %s does not replay" % (n, v["tag"]))
                    continue
                if tried.get(v["tag"], 0) >= 6 or any(x["tag"] == v["tag"] and x["entry"] == n for x in viol): continue
                tried[v["tag"]] = tried.get(v["tag"], 0) + 1
                c = confirm(exe, n, v, work)
                if c:
                    rp = "%s/replays/%s-%s-%d.json" % (V, prop, n, len(viol))
                    os.makedirs(V + "/replays", exist_ok=True)
                    d = dict(property=prop, entry=n, tag=v["tag"], detail=v["detail"], stack=v["stack"], inputs=v["inputs"], native=dict(outcome=c[0], info=c[1], runs=c[2]),
                             how="cd %s/hnat && cargo build --offline --bin %s; write the inputs, space separated, to FILE; from a directory with a link src -> /repo/src run target/debug/%s %s FILE" % (V, spec["bin"], spec["bin"], n))
                    json.dump(d, open(rp, "w"), indent=1)
                    viol.append(dict(d, path=rp))
                    print("  %s: %s (%s) inputs=%s native: %s %s" % (n, v["tag"], v["detail"], v["inputs"], c[0], c[1]), flush=True)
                else:
                    broken.append("%s: counterexample for %s (%s; at %s) does not replay natively: inputs %s" % (n, v["tag"], v["detail"], v["stack"][:300], v["inputs"]))
            if any(x["entry"] == n for x in viol): break
            # sampled paths, replayed against the real crate
            for s in m["samples"][: e.get("replay", 24)]:
                if s["end"] in ("step-limit", "stack-depth"): continue
                bad = None
                for _ in range(3):
                    k, info, obs, end = native(exe, n, s["inputs"], work)
                    want = "[" + ",".join(str(x) for x in s["obs"]) + "]"
                    if k in CONFIRM:
                        rp = "%s/replays/%s-%s-s.json" % (V, prop, n); os.makedirs(V + "/replays", exist_ok=True)
                        d = dict(property=prop, entry=n, tag="native-" + k, detail=info, inputs=s["inputs"], native=dict(outcome=k, info=info))
                        if k == "fail" and info in ktags: bad = None; break
                        json.dump(d, open(rp, "w"), indent=1); viol.append(dict(d, path=rp)); bad = None
                        print("  %s: native replay of a sampled path: %s %s inputs=%s" % (n, k, info, s["inputs"])); break
                    bad = None if k == "done" and obs == want else "%s: sampled path inputs=%s observed %s symbolically, %s %s natively" % (n, s["inputs"], want, k, obs)
                    if not bad: validated += 1; break
                if bad: broken.append(bad)
                if len(sample_out) < 12: sample_out.append(dict(entry=n, inputs=s["inputs"], observed=s["obs"], end=s["end"]))
            # vacuity: the assertions must have been reached, the paths must end
            for tag in e.get("tags", []):
                if m["tags"].get(tag, [0])[0] == 0: notes.append("%s: assertion %s was never reached" % (n, tag))
        for tag, desc in kf:
            if tag in findings: print("KNOWN-FINDING: " + desc)
    # a counterexample that does not replay against the real code is the machinery's fault, not a violation: it is printed and recorded, and the run no longer counts as exhaustive
    hard = []
    if not viol and done and all(m["paths"] == 0 for m in done): hard.append("no path was completed")
    vac = [x for x in notes if "never reached" in x]
    exhaustive = not notes and not broken and not viol
    cross = None
    if tier == "thorough": cross = crosscheck(work)
    if cross and cross["disagree"]: hard.append("cvc5 disagrees with z3 on %s" % cross["disagree"][:3])
    fn = {}
    for m in done:
        for k, a in m["functions"].items():
            if k.startswith("syntaxis::") or "syntaxis::" in k: x = fn.setdefault(k, [0, a[1]]); x[0] = max(x[0], a[0])
    tot = lambda k: sum(m.get(k, 0) for m in done)
    cov = dict(states=tot("paths"), transitions=tot("instrs"), traces_validated_against_impl=validated, samples=sample_out, exhaustive=exhaustive,
        what="states = execution paths completed symbolically (each stands for every input that takes it); transitions = LLVM instructions executed symbolically; traces_validated = sampled paths whose solver-chosen inputs were run against the real crate with the same observations",
        entries=[dict(entry=m["entry"], bounds=spec["entries"][m["entry"]]["bounds"], paths=m["paths"], instructions=m["instrs"], assertions=m["checks"], assertions_symbolic=m["checks_sym"], forks=m["forks"], assumed_out=m["assumed_out"], allowed_panics=m["panics_ok"], queries=m["queries"], sat=m["sat"], unsat=m["unsat"], unknown=m["unknown"], cache_hits=m["cache_hits"], solver_s=round(m["solver_s"], 2), wall_s=m["wall_s"], symbolic_variables_max=m["max_vars"], longest_path=m["max_path_steps"], timed_out=m["timed_out"], assertion_tags={k: a[0] for k, a in m["tags"].items()}, path_ends=m["ends"]) for m in done],
        queries=tot("queries"), solver_s=round(tot("solver_s"), 2), solver=done[0]["z3"] if done else "", functions_encoded=[[k, "%d/%d blocks" % (a[0], a[1])] for k, a in sorted(fn.items())], build_s=round(build_s, 1), notes=notes, problems=broken)
    if cross: cov["cvc5_crosscheck"] = cross
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(viol), assumptions=spec.get("assumptions", []) + COMMON)
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1, ensure_ascii=False)
    for x in notes: print("NOTE " + x)
    for x in broken: print("PROBLEM " + x)
    if viol:
        for v in viol: print("VIOLATION property=%s replay=%s" % (prop, v["path"]))
        return 1
    if hard: return 2
    print("%s: held on everything explored (%d paths, %d queries, %d paths replayed natively, %.0f s)" % (prop, cov["states"], cov["queries"], validated, time.time() - t0))
    return 0

def crosscheck(work):
    """a second solver on queries dumped by the run"""
    r = dict(queries=0, agree=0, undecided=0, disagree=[])
    import glob
    fs = sorted(glob.glob(work + "/dump-*/*.smt2"))
    step = max(1, len(fs) // 150)
    for f in fs[::step]:
        want = "unsat" if f.endswith(".unsat.smt2") else "sat" if f.endswith(".sat.smt2") else None
        if not want: continue
        try: o = subprocess.run(["cvc5", "--tlimit=10000", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=30).stdout.decode().split()
        except Exception: o = []
        r["queries"] += 1
        if o and o[0] == want: r["agree"] += 1
        elif o and o[0] in ("sat", "unsat"): r["disagree"].append(os.path.basename(f))
        else: r["undecided"] += 1
    return r

COMMON = [
    "rustc's LLVM IR (opt-level 1, whole program, overflow checks on) means what the native build does",
    "std's HashMap and HashSet are replaced by insertion-ordered stand-ins with the same contract (Eq-based membership; iteration order explored forwards, and reversed where an entry says so)",
    "the symbolic executor (/verif/engine) and z3 are trusted; every counterexample and a sample of paths are replayed against the real crate with real std, regex and tera",
]

if __name__ == "__main__":
    try: rc = main()
    except Broken as e: print("CHECK ERROR: %s" % e); rc = 2
    sys.exit(rc)
