#!/usr/bin/env python3
"""check.py ID: builds the harness against /repo's working tree, runs the check of one property and
writes evidence/ID.json.  Exit 0: held; 1: violated (with a VIOLATION line); 2: no answer."""
import json, os, re, resource, signal, subprocess, sys, time, glob, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan

ID = sys.argv[1]
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
TARGET = os.path.join(ROOT, "target")
OUT = os.path.join(ROOT, "target", "out", ID)
T0 = time.time()
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}

def log(*a):
    text = " ".join(str(x) for x in a)
    text = "".join(c if c == "\n" or 32 <= ord(c) < 127 else "\\x%02x" % ord(c) for c in text)
    print("[%6.1fs]" % (time.time() - T0), text, flush=True)

def no_answer(msg):
    log("ERROR:", msg)
    sys.exit(2)

def build(kind, binary, step={}):
    env = dict(os.environ)
    gen = None
    if "gen" in step:
        # sources made for this run; the environment variable names the file
        import importlib
        gen = os.path.join(TARGET, "gen", binary + ".rs")
        importlib.import_module(step["gen"]).prepare(gen, SEED, TIER)
        env[binary.upper() + "_RS"] = gen
    env.pop("RUSTC_WRAPPER", None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    flags = "--cfg undine_verif -Awarnings"
    cmd = ["cargo"]
    tdir = os.path.join(TARGET, kind)
    extra = []
    if kind == "plain":
        sub = "release"
    elif kind == "asan":
        cmd.append("+nightly")
        flags += " -Zsanitizer=address"
        extra = ["--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/release"
    elif kind == "tsan":
        cmd.append("+nightly")
        flags += " -Zsanitizer=thread"
        extra = ["--target", "x86_64-unknown-linux-gnu", "-Zbuild-std"]
        sub = "x86_64-unknown-linux-gnu/release"
    elif kind == "msan":
        cmd.append("+nightly")
        flags += " -Zsanitizer=memory"
        extra = ["--target", "x86_64-unknown-linux-gnu", "-Zbuild-std"]
        sub = "x86_64-unknown-linux-gnu/release"
    else:
        no_answer("unknown build " + kind)
    env["RUSTFLAGS"] = flags
    env["CARGO_TARGET_DIR"] = tdir
    cmd += ["build", "-q", "--offline", "--locked", "--release", "--bin", binary] + extra
    t = time.time()
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        if gen and re.search(r"-->\s*" + re.escape(gen), r.stdout) and step.get("gen_violation"):
            violations.append(dict(stage="build", case=0, msg=step["gen_violation"] + ": " + r.stdout[:3000], cmd=cmd))
            return None
        no_answer("the harness does not build (%s %s):\n%s" % (kind, binary, r.stdout[-6000:]))
    log("built %s %s in %.1fs" % (kind, binary, time.time() - t))
    return os.path.join(tdir, sub, binary)

def limits(step):
    def f():
        os.setsid()
        if "cpu" in step:
            k = step["cpu"] * (15 if TIER == "thorough" else 1)
            resource.setrlimit(resource.RLIMIT_CPU, (k, k + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if "mem" in step:
            resource.setrlimit(resource.RLIMIT_AS, (step["mem"], step["mem"]))
    return f

def run(cmd, env, step, timeout, errfile, cwd=None):
    with open(errfile, "wb") as ef, open(errfile + ".out", "wb") as of:
        p = subprocess.Popen(cmd, env=env, stdout=of, stderr=ef, preexec_fn=limits(step), cwd=cwd)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    err = open(errfile, errors="replace").read()
    return rc, err

def crumbs(out):
    r = []
    for f in sorted(glob.glob(os.path.join(out, "crumb.*"))):
        w = open(f).read().split()
        if len(w) >= 2 and w[0] != "-":
            r.append((w[0], int(w[1])))
    return r

violations = []   # dicts: stage, case, msg, cmd
known_hits = []
merged = dict(evaluations=0, distinct=0, rule=[], samples=[], counters={}, assumptions=[])

def known():
    r = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    for line in open(p):
        m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", line)
        if m and m.group(1) == ID:
            r.append((m.group(2), m.group(3)))
    return r

def absorb(name, out, exe, args):
    p = os.path.join(out, "result.json")
    if not os.path.exists(p):
        return None
    j = json.load(open(p))
    merged["evaluations"] += j["evaluations"]
    merged["distinct"] += j["distinct_nontrivial"]
    if j["rule"] not in merged["rule"]:
        merged["rule"].append(j["rule"])
    merged["samples"] += [("%s: " % name if name else "") + s for s in j["samples"]]
    for k, v in j["counters"].items():
        merged["counters"][(name + "." if name else "") + k] = v
    for a in j["assumptions"]:
        if a not in merged["assumptions"]:
            merged["assumptions"].append(a)
    for v in j["violations"]:
        violations.append(dict(stage=v["stage"], case=v["case"], msg=v["msg"], cmd=[exe] + args))
    return j

def do_step(step):
    kind = step.get("build", "plain")
    exe = build(kind, step["bin"], step)
    if exe is None:
        return
    name = step.get("name", "")
    out = os.path.join(OUT, name or "main")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER, RUST_BACKTRACE="0")
    env.update(step.get("env", {}))
    if kind == "asan":
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=0"
    if kind == "msan":
        env["MSAN_OPTIONS"] = "exitcode=77"
    if kind == "tsan":
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:second_deadlock_stack=1"
    args = [ID, out] + step.get("args", [])
    if TIER == "quick" and "scale" in step:
        args += ["--scale", str(step["scale"])]
    timeout = step.get("timeout", 600) * (12 if TIER == "thorough" else 1)
    t = time.time()
    rc, err = run([exe] + args, env, step, timeout, os.path.join(out, "stderr"))
    log("%s %s: exit %s in %.1fs" % (step["bin"], name, rc, time.time() - t))
    if rc is None:
        no_answer("%s did not finish in %d s" % (step["bin"], timeout))
    if rc in (0, 1):
        j = absorb(name, out, exe, args)
        if j is None:
            no_answer("no result file; " + err[-2000:])
        if rc == 1 and not j["violations"]:
            no_answer("inconsistent result")
        return
    cs = crumbs(out)
    if rc == 77 or (rc < 0 and -rc in CRASH and not ("memory allocation of" in err and not step.get("oom_violation"))):
        absorb(name, out, exe, args)
        what = "sanitizer report" if rc == 77 else "killed by signal %d" % -rc
        head = "\n".join(err.splitlines()[:40])
        # find the case that reproduces it on its own
        found = False
        t_replay = time.time()
        for st, case in cs:
            if time.time() - t_replay > 120:
                break
            o2 = out + ".replay"
            os.makedirs(o2, exist_ok=True)
            rc2, err2 = run([exe, ID, o2] + step.get("args", []) + ["--replay", st, str(case)], env, step, 60,
                            os.path.join(o2, "stderr"))
            if rc2 not in (0, None):
                violations.append(dict(stage=st, case=case, msg=what + ": " + "\n".join(err2.splitlines()[:40]), cmd=[exe] + args))
                found = True
                break
        if not found:
            st, case = cs[0] if cs else ("?", 0)
            violations.append(dict(stage=st, case=case, msg=what + " (running cases %r): %s" % (cs, head), cmd=[exe] + args))
        return
    if rc < 0 and -rc == signal.SIGXCPU and step.get("cpu_violation"):
        st, case = cs[0] if cs else ("?", 0)
        violations.append(dict(stage=st, case=case, msg="exceeded %d s of processor time" % step["cpu"], cmd=[exe] + args))
        return
    no_answer("%s ended with %s; running %r; %s" % (step["bin"], rc, cs, err[-3000:]))

def main():
    cfg = plan.PLAN[ID]
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT, exist_ok=True)
    ev = os.path.join(ROOT, "evidence", ID + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    for step in cfg["steps"]:
        if TIER not in step.get("tiers", ("quick", "thorough")):
            continue
        if "custom" in step:
            import importlib
            m = importlib.import_module(step["custom"])
            m.run(sys.modules[__name__], step)
        else:
            do_step(step)
        if violations:
            break
    new = []
    kf = known()
    for v in violations:
        hit = [d for s, d in kf if s in v["msg"]]
        if hit:
            known_hits.append(hit[0])
        else:
            new.append(v)
    cov = dict(evaluations=merged["evaluations"], distinct_nontrivial=merged["distinct"],
               rule="; ".join(merged["rule"]), samples=merged["samples"][:20], observed=merged["counters"])
    json.dump(dict(property=ID, tier=TIER, seed=SEED, level=cfg.get("level", "exploration"), coverage=cov,
                   assumptions=merged["assumptions"], wall_s=round(time.time() - T0, 2), violations=len(new)),
              open(ev, "w"), indent=1)
    for d in sorted(set(known_hits)):
        print("KNOWN-FINDING: property=%s %s" % (ID, d))
    if new:
        rd = os.path.join(ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        for v in new[:3]:
            p = os.path.join(rd, "%s-%s-%s.json" % (ID, re.sub(r"\W", "_", v["stage"]), v["case"]))
            json.dump(dict(property=ID, seed=SEED, tier=TIER, stage=v["stage"], case=v["case"], message=v["msg"],
                           replay="python3 tools/check.py %s (rebuilds), then: VERIF_SEED=%d VERIF_TIER=%s %s --replay %s %s" % (
                               ID, SEED, TIER, " ".join(v["cmd"]), v["stage"], v["case"])), open(p, "w"), indent=1)
            log("violation in %s case %s: %s" % (v["stage"], v["case"], v["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (ID, p), flush=True)
        sys.exit(1)
    log("held: %d evaluations, %d distinct" % (merged["evaluations"], merged["distinct"]))
    sys.exit(0)

if __name__ == "__main__":
    sys.modules["check"] = sys.modules[__name__]
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
