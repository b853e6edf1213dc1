#!/usr/bin/env python3
"""Deterministic simulation of pooya: decides one property.

  check.py PROP                 search (tier and seed from VERIF_TIER and VERIF_SEED), write evidence/PROP.json
  check.py PROP --replay FILE   execute one replay file against /repo's current tree
  check.py --build              only build the simulator

exit 0: held on everything explored; 1: VIOLATION; 2: error of the check.
"""
import glob, hashlib, json, os, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("POOYA_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
LIB = """src/block/block src/block/leaf src/block/submodel src/block/extra/bus_block_builder src/block/extra/bus_memory
src/block/extra/bus_pipe src/helper/trace src/helper/util src/shared/named_object src/solver/euler
src/solver/fast_simulator src/solver/history src/solver/rk4 src/solver/rkf45 src/solver/simulator
src/solver/simulator_base""".split()
# for these some or (C23) all runs are made in the build without debug checks
TWIN = ("C14", "C15", "C16", "C18", "C22", "C23")
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=pthread_once,--wrap=pthread_mutex_lock,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_wrlock,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort -ldl -lpthread"

# runs of the two tiers; a wall-clock limit only protects against slow machines
RUNS = {p: (60000, 1500000) for p in ["C%02d" % k for k in range(1, 24)]}
RUNS.update(json.load(open(os.path.join(HERE, "tools", "runs.json"))) if os.path.exists(os.path.join(HERE, "tools", "runs.json")) else {})
WALL = (240, 5400)

REAL = ("Real code, compiled from /repo's working tree: every block type, submodels, signals and buses, Simulator, "
        "FastSimulator, Euler, Rk4, Rkf45, History, tracing and verification helpers.")
STUB = ("Simulated: user code (input callbacks, block functions, custom blocks), the stepping-method wrapper that "
        "records and (where stated) replaces step-size proposals, the heap (placement, fill, poison, guard bytes, "
        "failing allocations), file-system calls under CSV export, the choice of the thread that runs.")


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def lib_sources():
    """the library's translation units: the known ones plus any added later"""
    known = [p + ".cpp" for p in LIB]
    found = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if f.endswith(".cpp"):
                p = os.path.relpath(os.path.join(root, f), REPO)
                found.append(p)
    # optional integrations the harness does not use
    return sorted(p for p in found if p in known or not uses_missing_header(p))


def uses_missing_header(p):
    import re
    txt = open(os.path.join(REPO, p), errors="replace").read()
    for inc in re.findall(r'#\s*include\s*[<"]([^>"]+)[>"]', txt):
        cand = [os.path.join(REPO, inc), os.path.join(REPO, os.path.dirname(p), inc), os.path.join(REPO, "3rdparty", inc),
                os.path.join("/usr/include/eigen3", inc), os.path.join("/usr/include", inc)]
        if "." in inc and not any(os.path.exists(c) for c in cand):
            return True
    return "/misc/" in p


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "3rdparty"), os.path.join(HERE, "sim")):
        for root, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                if os.path.isfile(p):
                    h.update(os.path.relpath(p, base).encode() + b"\0")
                    h.update(open(p, "rb").read() + b"\0")
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:16]


def build(prop=None):
    """C17 has a build of its own: accesses of the library to static data are scheduling points there.
    those of TWIN have a second one: without debug checks (NDEBUG) and optimised further"""
    points, release = prop == "C17", prop == "release"
    d = os.path.join(BUILD, tree_hash() + ("-points" if points else "-release" if release else ""))
    sim = os.path.join(d, "sim")
    if os.path.exists(sim):
        return sim
    os.makedirs(d, exist_ok=True)
    flags = ("-std=c++17 -O1 -g1 -DEIGEN_MPL_ONLY -DEIGEN_NO_DEBUG -iquote %s -isystem %s/3rdparty "
             "-isystem /usr/include/eigen3 -I%s/sim" % (REPO, REPO, HERE))
    if release:
        flags = flags.replace(" -O1 ", " -O2 -DNDEBUG ")
    out = ["rule cc", "  command = g++ %s -c $in -o $out" % flags,
           "rule cp", "  command = g++ %s -fsanitize=thread -c $in -o $out" % flags, "rule ld",
           "  command = g++ $in -o $out.tmp %s && mv $out.tmp $out" % WRAP]
    objs = []
    srcs = [os.path.join(HERE, "sim", f) for f in os.listdir(os.path.join(HERE, "sim")) if f.endswith(".cpp")]
    srcs.sort(key=lambda f: -os.path.getsize(f))
    for f in srcs + [os.path.join(REPO, p) for p in lib_sources()]:
        o = os.path.join(d, ("h_" if f.startswith(HERE + "/sim") else "l_") + os.path.relpath(f, "/").replace("/", "_") + ".o")
        own = points and (not f.startswith(HERE + "/sim") or f.endswith("/model.cpp"))
        out.append("build %s: %s %s" % (o, "cp" if own else "cc", f))
        # of a template instantiated in several objects, the linker takes the first
        objs.insert(0, o) if own else objs.append(o)
    out.append("build %s: ld %s" % (sim, " ".join(objs)))
    with open(os.path.join(d, "build.ninja"), "w") as f:
        f.write("\n".join(out) + "\n")
    r = subprocess.run(["ninja", "-C", d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("the simulator does not build from /repo's tree:\n" + r.stdout[-6000:])
    for o in objs:
        os.unlink(o)
    keep = {os.path.basename(d)}
    old = sorted((os.path.getmtime(p), p) for p in glob.glob(os.path.join(BUILD, "*")) if os.path.exists(os.path.join(p, "build.ninja")))
    for _, p in old[:-6]:
        if os.path.basename(p) not in keep and len(os.path.basename(p).split("-")[0]) == 16:
            shutil.rmtree(p, ignore_errors=True)
    return sim


def execute(sim, prop, path):
    r = subprocess.run([sim, "exec", prop, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    # the code under test may print, too: the report starts at the last "status=" line
    k = r.stdout.rfind("\nstatus=") + 1
    first = r.stdout[k:].split("\n", 1)
    return r.returncode, first[0], first[1] if len(first) > 1 else ""


def main():
    if "--build" in sys.argv:
        print(build())
        print(build("C17"))
        print(build("release"))
        return 0
    prop = sys.argv[1]
    sim = build(prop)
    if prop in TWIN:
        os.environ["SIM_TWIN"] = build("release")
    if "--replay" in sys.argv:
        path = sys.argv[sys.argv.index("--replay") + 1]
        rc, head, msg = execute(sim, prop, path)
        print(head + "\n" + msg.rstrip())
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return rc if rc in (0, 1) else 2

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = 1 if os.environ.get("VERIF_TIER", "quick") == "thorough" else 0
    nw = os.cpu_count() or 4
    runs = int(os.environ.get("SIM_RUNS", RUNS[prop][tier]))
    wall = float(os.environ.get("SIM_WALL", WALL[tier]))
    work = os.path.join(BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    # regression plans first: minimised histories of defects found earlier
    suspects = []
    regress = sorted(glob.glob(os.path.join(HERE, "regress", prop + "-*.plan")))
    for path in regress:
        rc, head, msg = execute(sim, prop, path)
        if rc == 1:
            suspects.append({"run": -1, "class": head.split("class=")[1].split()[0], "path": path, "msg": msg,
                             "hash": head.split("hash=")[1].split()[0]})
        elif rc != 0:
            die("regression plan %s: %s %s" % (path, head, msg))

    procs = [subprocess.Popen([sim, "batch", prop, str(seed), str(w), str(nw), str(runs), str(tier), str(wall), work],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
             for w in range(nw)]
    codes = [p.wait() for p in procs]
    if any(codes):
        die("a worker ended with %s" % codes)
    tot = dict(runs=0, violations=0, harness_errors=0, invalid=0, repeated=0, diverged=0, simtime=0.0)
    ctr, err, sample = {}, [], ""
    for w in range(nw):
        r = json.load(open(os.path.join(work, "r-%d.json" % w)))
        for k in tot:
            tot[k] += r[k]
        for k, v in r["counters"].items():
            ctr[k] = ctr.get(k, 0) + v
        suspects += r["viol"]
        sample = sample or r["sample"]
        if r["error"]:
            err.append(r["error"])

    def distinct(kind):
        s = set()
        for w in range(nw):
            b = open(os.path.join(work, "%s-%d.bin" % (kind, w)), "rb").read()
            s.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        return len(s)

    nh, ns = distinct("h"), distinct("s")
    search_s = time.time() - t0

    # violations: reproduce each class in fresh processes, minimise, reproduce again
    out, seen, flaky = [], set(), []
    rdir = os.path.join(HERE, "evidence", "replays")
    for v in sorted(suspects, key=lambda v: v["run"]):
        if v["class"] in seen or (out and time.time() - t0 > 300):
            continue
        a, b = execute(sim, prop, v["path"]), execute(sim, prop, v["path"])
        if a != b or a[0] != 1 or ("class=%s " % v["class"]) not in a[1]:
            flaky.append((v, a, b))
            continue
        seen.add(v["class"])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-seed%d-run%s.plan" % (prop, v["class"], seed, v["run"] if v["run"] >= 0 else "regress"))
        r = subprocess.run([sim, "minimise", prop, v["path"], path, "45"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        c, d = execute(sim, prop, path), execute(sim, prop, path)
        if r.returncode or c != d or c[0] != 1:
            shutil.copy(v["path"], path)
            c = a
        out.append((v, path, c[2].strip(), r.stdout.strip().split("\n")[-1]))

    evidence(prop, tier, seed, tot, ctr, nh, ns, sample, search_s, time.time() - t0, len(out), len(regress), nw)
    if flaky and not out:
        v, a, b = flaky[0]
        die("run %s (%s) does not reproduce: %s / %s" % (v["run"], v["path"], a[1:], b[1:]))
    if not out and (tot["harness_errors"] or tot["invalid"] or tot["diverged"]):
        die("%s" % (err[:3],))
    for v, path, msg, m in out:
        print("class %s, seed %d, run %s (%s)\n  %s" % (v["class"], seed, v["run"], m, msg.replace("\n", "\n  ")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s: %d runs, %d distinct non-trivial, %d distinct event orders, %.0f simulated s, %.1f s" %
          (prop, tot["runs"], nh, ns, tot["simtime"], time.time() - t0))
    return 1 if out else 0


def evidence(prop, tier, seed, tot, ctr, nh, ns, sample, search_s, wall_s, nviol, nreg, nw):
    info = json.load(open(os.path.join(HERE, "tools", "rules.json"))).get(prop, {})
    faults = {k: v for k, v in sorted(ctr.items()) if v and (k.startswith("fault: ") or k.startswith("write") or k in ("open failed", "close failed"))}
    ev = {
        "property": prop, "tier": "thorough" if tier else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": nh,
            "rule": info.get("rule", ""),
            "samples": [sample],
            "regression_plans": nreg,
            "runs_repeated_in_a_second_process": tot["repeated"],
            "of_those_diverged": tot["diverged"],
            "runs_per_hour": round(tot["runs"] * 3600 / max(search_s, 0.01)),
            "seeds_per_hour": round(tot["runs"] * 3600 / max(search_s, 0.01)),
            "seeds_note": "every run has its own seed, derived from VERIF_SEED, the property and the run number",
            "simulated_seconds": tot["simtime"],
            "distinct_event_orders": ns,
            "event_order_measure": "hash of the sequence of user-code events (kind, block) and faults of a run",
            "faults_injected": faults,
            "probes": {k: v for k, v in sorted(ctr.items()) if k not in faults},
            "real_code": REAL, "stubs": STUB, "workers": nw,
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(wall_s, 1),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
