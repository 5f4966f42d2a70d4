#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation of the real code in /repo.

usage: check.py PROPERTY [--tier quick|thorough] [--secs N] [--seed N]    (or: check.py --build-all)
exit 0: held on everything explored; exit 1: VIOLATION line printed; anything else: error of the check.
"""
import sys, os, json, time, subprocess, hashlib, fcntl, glob, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
LIBSRC = sorted(os.path.relpath(f, REPO) for d in ("src", "rx") for f in glob.glob(os.path.join(REPO, d, "*.cpp")))
REDEF = "memcpy memmove memset memcmp memchr strlen strcmp strncmp strchr strrchr strcpy strncpy strcat malloc free calloc realloc strdup".split()

REDEF_LIB = "printf fprintf puts fputs putchar putc fputc fwrite".split()	# what the library prints

from props import PROPS, BINARIES  # noqa


def log(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d, pats in ((REPO, ["include/*", "src/*", "rx/*.cpp", "rx/*.h", "rx/*.c"]), (SIM, ["*.cpp", "*.h"])):
        for p in pats:
            files += [f for f in glob.glob(os.path.join(d, p)) if os.path.isfile(f)]
    for f in sorted(files):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:20]


def run(cmds):
    """Runs commands in parallel; returns the output of the first that fails."""
    ps = [(c, subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cmds]
    bad = None
    for c, p in ps:
        out = p.communicate()[0]
        if p.returncode and not bad:
            bad = "%s\n%s" % (c, out)
    return bad


def build(names):
    """Builds the named simulator binaries from REPO's working tree; returns their directory."""
    root = os.path.join(HERE, "build")
    os.makedirs(root, exist_ok=True)
    with open(os.path.join(root, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(root, tree_hash())
        if not os.path.isdir(out):
            for d in sorted(glob.glob(os.path.join(root, "*/")), key=os.path.getmtime)[:-3]:
                shutil.rmtree(d, ignore_errors=True)
            os.makedirs(out)
        else:
            os.utime(out)
        need = [n for n in names if not os.path.exists(os.path.join(out, n))]
        if not need:
            return out
        redef = " ".join("--redefine-sym %s=sim_%s" % (f, f) for f in REDEF)
        inc = "-I%s/include -I%s/src -I%s/rx -I%s" % (REPO, REPO, REPO, SIM)
        instr = "-O1 -g1 -U_FORTIFY_SOURCE -std=c++11 -DHAVE_PTHREADS -fsanitize=thread -fno-builtin -fno-strict-aliasing -fno-pie -fno-omit-frame-pointer -w " + inc
        def comp(src, obj, more=()):
            return "g++ %s -c %s -o %s/%s.tmp.o && objcopy %s %s/%s.tmp.o %s/%s" % (instr, src, out, obj, redef + "".join(" --redefine-sym %s=sim_%s" % (f, f) for f in more), out, obj, out, obj)
        cmds = []
        if not os.path.exists(out + "/libsim.a"):
            for s in LIBSRC:
                cmds.append(comp(os.path.join(REPO, s), "lib_" + os.path.basename(s).replace(".cpp", ".o"), REDEF_LIB))
            for s in ("core", "runner"):
                cmds.append("g++ -O2 -g1 -std=c++11 -fno-builtin -fno-pie -w -c %s/%s.cpp -o %s/%s.o" % (SIM, s, out, s))
        for n in need:
            cmds.append(comp("%s/h_%s.cpp" % (SIM, n), "h_%s.o" % n))
        bad = run(cmds)
        if not bad and not os.path.exists(out + "/libsim.a"):
            bad = run(["rm -f {0}/lib.tmp.a {0}/*.tmp.o; ar cr {0}/lib.tmp.a {0}/lib_*.o && mv {0}/lib.tmp.a {0}/libsim.a".format(out)])
        if not bad:
            bad = run(["g++ -no-pie -o {0}/{1}.tmp {0}/h_{1}.o {0}/libsim.a {0}/core.o {0}/runner.o -lpthread && mv {0}/{1}.tmp {0}/{1}".format(out, n) for n in need])
        if bad:
            log("ERROR: build failed:\n" + bad[:6000])
            shutil.rmtree(out, ignore_errors=True)
            sys.exit(2)
        return out


def main():
    args = sys.argv[1:]
    if "--build-all" in args:
        build(BINARIES)
        return 0
    if args and args[0] == "--replay":	# check.py --replay FILE: reproduce a recorded violation
        pid = [l.split()[1] for l in open(args[1]) if l.startswith("prop ")][0]
        out = build([PROPS[pid]["bin"]])
        return subprocess.run([os.path.join(out, PROPS[pid]["bin"]), "--replay", args[1]]).returncode
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    secs = None
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i+1]
        elif args[i] == "--secs": secs = float(args[i+1])
        elif args[i] == "--seed": seed = int(args[i+1])
        i += 2
    p = PROPS[pid]
    if secs is None:
        secs = p.get("thorough_secs", 420) if tier == "thorough" else p.get("quick_secs", 20)
    t0 = time.time()
    out = build([p["bin"]])
    binary = os.path.join(out, p["bin"])
    evdir = os.path.join(HERE, "evidence"); os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    known = os.path.join(HERE, "known-findings.txt")
    raw = os.path.join(out, "%s.%d.json" % (pid, os.getpid()))
    base = [binary, "--prop", pid, "--seed", str(seed)] + (["--thorough"] if tier == "thorough" else [])
    # The simulator itself: one seed must be one exactly repeatable execution
    ds = [subprocess.Popen(base + ["--determinism", "16"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for _ in range(2)]
    do = [(x.communicate()[0], x.returncode) for x in ds]
    undetermined = do[0] != do[1] or do[0][1] != 0
    r = subprocess.run(base + ["--secs", str(secs), "--jobs", str(os.cpu_count() or 4), "--out", raw, "--replaydir", rdir, "--known", known],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sys.stdout.write(r.stdout); sys.stdout.flush()
    if r.returncode not in (0, 1) or not os.path.exists(raw):
        log("ERROR: simulator ended with %d" % r.returncode)
        return 2
    s = json.load(open(raw)); os.unlink(raw)
    # known findings of this property (recorded in the committed file; nothing is added here)
    hits = s.get("known_hits", [])
    kf = []
    if os.path.exists(known):
        for l in open(known):
            if l.startswith("known: property=%s " % pid):
                kf.append(l[len("known: "):].strip())
    for n, l in enumerate(kf):
        log("KNOWN-FINDING: %s" % l)
    viol = r.returncode == 1
    cov = {
        "evaluations": s["runs"],
        "distinct_nontrivial": s["distinct_traces"],
        "rule": "one evaluation = one simulated run (one seed): a generated workload under a seeded schedule and fault plan. "
                "Non-trivial: at least two workload operations were executed. Distinct: a different 64-bit hash of the complete trace "
                "(every scheduling point with thread, code address and memory address, every atomic value read, every operation). " + p["rule"],
        "samples": s["samples"],
        "simulated_runs_per_hour": int(s["runs_per_hour"]),
        "seeds_per_hour": int(s["runs_per_hour"]),
        "simulated_seconds": s["sim_seconds"],
        "simulated_steps": s["steps"],
        "context_switches": s["switches"],
        "operations_executed": s["ops"],
        "allocations_simulated": s["allocations"],
        "distinct_switch_site_pairs": s["switch_site_pairs"],
        "distinct_switch_site_pairs_rule": "pairs (code address the running thread was preempted or blocked at, code address the next thread resumes from), hashed to 2^20 buckets",
        "runs_given_up_without_verdict": s["abandoned"],
        "max_simulated_threads_in_a_run": s["max_threads"],
        "faults_injected": s["faults"],
        "schedulers_used": s["schedulers"],
        "situations_reached": s["probes"],
        "oracle": p["oracle"],
        "real_components": p["real"],
        "stub_components": p["stub"],
        "determinism_self_check": "FAILED" if undetermined else "16 cases, each run twice from the seed and once from its recorded choices, in each of two processes: identical trace hashes",
        "known_findings_hit": hits,
    }
    if viol:
        cov["violation"] = {"kind": s["violation"], "message": s["violation_msg"], "replay": s["replay"]}
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": p["assumptions"], "wall_s": round(time.time() - t0, 3), "violations": 1 if viol else 0}
    tmp = os.path.join(evdir, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, pid + ".json"))
    if viol:
        log("VIOLATION property=%s replay=%s" % (pid, s["replay"]))
        return 1
    if undetermined:	# the code under test (or the simulator) depends on something outside the simulation
        log("ERROR: the simulation is not deterministic\n" + do[0][0][-1500:] + do[1][0][-500:])
        return 2
    return 0


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.exit(main())
