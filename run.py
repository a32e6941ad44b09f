#!/usr/bin/env python3
"""run.py <PROPERTY> <quick|thorough> [--only CFG] [--keep]

Builds the harness configurations of one property from /repo's working tree,
explores every one of them exhaustively with mcvm, matches what they report
against known_findings.txt, writes evidence/<PROPERTY>.json.
"""
import fnmatch, json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RTM_REPO", "/repo")
sys.path.insert(0, HERE)
BUILD = os.path.join(HERE, "build")
WRAP = """sched_yield pthread_yield clock_gettime gettimeofday time nanosleep clock_nanosleep usleep sleep
pthread_create pthread_join pthread_exit pthread_detach pthread_self pthread_mutex_init pthread_mutex_destroy
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy
pthread_attr_init pthread_setschedparam pthread_getschedparam pthread_setschedprio
pthread_cond_timedwait pthread_cond_clockwait pthread_cond_wait pthread_cond_signal pthread_cond_broadcast
timespec_get select pthread_mutex_timedlock pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock
pthread_spin_unlock sem_init sem_destroy sem_wait sem_timedwait sem_clockwait sem_trywait sem_getvalue sem_post
_ZNSt18condition_variable10notify_oneEv _ZNSt18condition_variable10notify_allEv
_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE
_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv""".split()
BASE = ["-std=c++11", "-mcx16", "-O0", "-g", "-w", "-fPIC", "-fno-threadsafe-statics", "-fno-stack-protector",
        "-fcf-protection=none", "-I" + HERE + "/engine", "-I" + HERE + "/harness", "-I" + REPO + "/src"]
MODES = {
    # concurrent harnesses: every shared access is a transition
    "conc": (["-fsanitize=thread", "-ftrivial-auto-var-init=zero"], ["memcpy", "memmove", "memset"]),
    # sequential harnesses: out-of-range indexing and null dereference trap
    "seq": (["-ftrivial-auto-var-init=pattern", "-fsanitize=bounds,null,object-size", "-fsanitize-undefined-trap-on-error"], []),
    # the optimiser's view of the same code
    "seqO2": (["-ftrivial-auto-var-init=pattern", "-O2"], []),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_vm():
    os.makedirs(BUILD, exist_ok=True)
    out, src = BUILD + "/mcvm", HERE + "/engine/vm.cpp"
    if os.path.exists(out) and os.path.getmtime(out) > max(os.path.getmtime(src), os.path.getmtime(HERE + "/engine/mc.h")):
        return out
    tmp = out + ".%d" % os.getpid()
    r = sh(["g++", "-std=c++17", "-O2", "-g", "-w", "-mcx16", "-rdynamic", "-o", tmp, src, "-ldl", "-latomic"])
    if r.returncode:
        print(r.stdout)
        sys.exit(2)
    os.rename(tmp, out)
    return out


def compile_cfg(cfg, outdir):
    out = os.path.join(outdir, cfg["name"] + ".so")
    flags, wraps = MODES[cfg.get("mode", "seq")]
    cmd = ["g++"] + BASE + flags + cfg.get("defs", []) + ["-c", os.path.join(HERE, "harness", cfg["src"]), "-o", out + ".o"]
    r = sh(cmd)
    if r.returncode:
        return None, " ".join(cmd) + "\n" + r.stdout
    # rename the wrapped functions in the object (ld --wrap would clash with libgcc's split-stack __wrap_pthread_create)
    r = sh(["objcopy"] + ["--redefine-sym=%s=mcw_%s" % (w, w) for w in WRAP + wraps] + [out + ".o"])
    if r.returncode:
        return None, r.stdout
    r = sh(["g++", "-shared", "-o", out, out + ".o", "-Wl,-z,now", "-Wl,-z,relro", "-latomic"] + cfg.get("ld", []))
    os.unlink(out + ".o")
    return (out, "") if r.returncode == 0 else (None, r.stdout)


def load_known(prop):
    """known: property=ID cfg=GLOB key=KEY text   |   fixed: property=ID commit text"""
    res = []
    f = HERE + "/known_findings.txt"
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) cfg=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append(dict(cfg=m.group(2), key=m.group(3), text=m.group(4), seen=False))
    return res


def run_cfg(vm, cfg, so, outdir, maxsec, known=()):
    out = os.path.join(outdir, cfg["name"] + ".json")
    args = [so, "--out", out, "--max-sec", str(cfg.get("max_sec", maxsec)), "--max-states", str(cfg.get("max_states", 30000000))]
    if "preempt" in cfg:
        args += ["--preempt", str(cfg["preempt"])]
    if cfg.get("graph"):
        args += ["--graph"]
    if cfg.get("tso"):
        args += ["--tso"]
    if cfg.get("solo"):
        args += ["--solo"]
    for k in known:
        if fnmatch.fnmatchcase(cfg["name"], k["cfg"]):
            args += ["--known", k["key"]]
    args += ["%s=%d" % kv for kv in cfg.get("params", {}).items()]
    cmd = [vm] + args
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=outdir, timeout=cfg.get("max_sec", maxsec) * 3 + 120)
    except subprocess.TimeoutExpired:
        return dict(error="explorer did not stop", cmd=cmd)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        return dict(error="explorer exit %d: %s" % (r.returncode, r.stderr[-400:]), cmd=cmd)
    d = json.load(open(out))
    d["cmd"] = cmd
    d["wall"] = time.time() - t
    return d


def main():
    if "--setup" in sys.argv:
        build_vm()
        return 0
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    import checks
    t0 = time.time()
    spec = checks.CHECKS[prop]
    cfgs = [dict(c) for c in spec["quick"]]
    if tier == "thorough":
        over = {c["name"]: c for c in spec.get("thorough", [])}
        cfgs = [c for c in cfgs if c["name"] not in over] + [dict(c) for c in spec.get("thorough", [])]
    if only:
        cfgs = [c for c in cfgs if re.search(only, c["name"])]
    maxsec = spec.get("max_sec", 150) if tier == "quick" else spec.get("max_sec_thorough", 1500)
    vm = build_vm()
    outdir = os.path.join(BUILD, prop + ("" if tier == "quick" else "-thorough"))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    broken = []
    known = load_known(prop)

    def one(c):
        so, err = compile_cfg(c, outdir)
        if not so:
            return c, dict(error="does not compile: " + err[-1500:], compile=True)
        return c, run_cfg(vm, c, so, outdir, maxsec, known)

    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8" if tier == "quick" else "4"))) as ex:
        results = list(ex.map(one, sorted(cfgs, key=lambda c: -c.get("cost", 1))))

    viol, per, samples, notes = [], [], [], []
    tot = dict(states=0, transitions=0, ops=0, outcomes=0, terminal=0)
    exhaustive = True
    for c, d in sorted(results, key=lambda x: x[0]["name"]):
        if "error" in d:
            broken.append((c["name"], d["error"]))
            continue
        tot["states"] += d["states"]; tot["transitions"] += d["transitions"]; tot["terminal"] += d["terminal"]
        tot["ops"] += d["stats"].get("ops", 0); tot["outcomes"] += d["outcomes"]
        exhaustive &= d["exhaustive"]
        per.append(dict(config=c["name"], what=c.get("what", ""), states=d["states"], transitions=d["transitions"], terminal=d["terminal"],
                        max_depth=d["max_depth"], distinct_outcomes=d["outcomes"], exhaustive=d["exhaustive"], cap=d["cap"],
                        preemption_bound=c.get("preempt"), stats=d["stats"], secs=round(d["wall"], 2)))
        if len(samples) < 12:
            samples += [c["name"] + ": " + s for s in (d["samples"][:2] or d["outcome_list"][:2])]
        for v in d["violations"]:
            if not v["reproduced"]:
                notes.append("%s: %s did not reproduce on replay; not reported" % (c["name"], v["key"]))
                continue
            if spec.get("keys") and not re.fullmatch(spec["keys"], v["key"]):
                notes.append("%s: saw %s (%s), which is about another property; not reported here" % (c["name"], v["key"], v["msg"]))
                continue
            k = next((k for k in known if fnmatch.fnmatchcase(c["name"], k["cfg"]) and fnmatch.fnmatchcase(v["key"], k["key"])), None)
            if k:
                k["seen"] = True
                k.setdefault("where", c["name"])
                continue
            viol.append((c, d, v))
    for k in known:
        if k["seen"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    rdir = HERE + "/replays"
    for c, d, v in viol:
        os.makedirs(rdir, exist_ok=True)
        f = "%s/%s-%s-%s.txt" % (rdir, prop, c["name"], re.sub(r"[^A-Za-z0-9_.-]", "_", v["key"])[:60])
        with open(f + ".path", "w") as h:
            h.write(v["path"] + "\n")
        with open(f, "w") as h:
            h.write("property %s, configuration %s (%s)\nviolation %s: %s\nseen %d times; shortest schedule found has %d steps\n" % (prop, c["name"], c.get("what", ""), v["key"], v["msg"], v["count"], v["len"]))
            h.write("replay: python3 run.py %s %s --only '^%s$' ; build/mcvm %s --replay %s\n\n" % (prop, tier, c["name"], " ".join(x for x in d["cmd"][1:]), f + ".path"))
            h.write(v["steps"])
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("  %s [%s] %s" % (c["name"], v["key"], v["msg"]))
    for n, e in broken:
        print("note: configuration %s gave no answer: %s" % (n, e))
    for n in notes:
        print("note: " + n)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"],
                            traces_validated_against_impl=tot["ops"] + tot["terminal"],
                            rule="the explored transitions are executions of the compiled repository code itself; traces_validated_against_impl counts the operations and complete executions whose results were compared with the reference oracle in this run",
                            samples=samples or ["(no sample)"], exhaustive=exhaustive and not broken, distinct_outcomes=tot["outcomes"], configurations=per,
                            known_findings_seen=[k["text"] for k in known if k["seen"]], not_answered=[n for n, _ in broken]),
              assumptions=spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: %d configurations, %d states, %d transitions, %s, %.1f s" % (prop, tier, len(per), tot["states"], tot["transitions"], "exhaustive" if exhaustive else "NOT exhaustive (capped)", time.time() - t0))
    if viol:
        return 1
    return 2 if broken and not per else 0


if __name__ == "__main__":
    sys.exit(main())
