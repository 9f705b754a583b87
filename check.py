"""Checks of pySOT by deterministic simulation; see DESIGN.md.

  check.py run C01 [--tier quick|thorough] [--runs N] [--seconds S] [--procs N] [--seed N]
  check.py replay FILE
  check.py selftest [--runs N]
"""
import argparse
import collections
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIMSOT_REPO", "/repo")


def load():
    """Import pySOT from the working tree, never from a cache of compiled code."""
    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    import dill  # noqa: F401
    import numpy  # noqa: F401
    import poap.controller  # noqa: F401
    import scipy.linalg  # noqa: F401
    import scipy.stats  # noqa: F401
    import sklearn.gaussian_process  # noqa: F401
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "simsot-no-such-directory")
    import pySOT
    if not os.path.abspath(pySOT.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit("pySOT was imported from %s" % pySOT.__file__)
    from simsot import engine
    return engine


# -- what is simulated for which property --------------------------------------------------------

ADAPTIVE = ["srbf", "dycors", "sop", "ei", "lcb", "srbf"]
RADIUS = ["srbf", "dycors", "srbf", "dycors", "srbf", "dycors"]
SAMPLED = ["srbf", "dycors", "sop", "srbf", "dycors", "sop"]
MIDWAY = ["event", "situation", "event", "interrupt", "situation", "situation"]
GP = ["ei", "lcb", "ei", "lcb", "ei", "lcb"]
SURE = {"strategies": ["srbf", "dycors", "sop", "srbf", "dycors", "sop"]}  # without the slow GP strategies

# property -> [(scenario, options, runs of the quick tier)]
PLAN = {
    "C01": [("general", {}, 900), ("general", {"bweights": [6, 2, 0], **SURE}, 400), ("crashing", {}, 150)],
    "C02": [("general", {}, 1000), ("general", {"faultw": [0, 1, 2, 3, 3]}, 400), ("stopping", {}, 200)],
    "C03": [("general", {}, 900), ("general", {"extraw": [1, 2, 2, 1]}, 300), ("crashing", {}, 150)],
    "C04": [("general", {}, 900), ("general", {"faultw": [0, 1, 2, 3, 3], **SURE}, 500)],
    "C05": [("general", {"intsw": [1, 2, 2, 2, 2]}, 900), ("general", {}, 500), ("crashing", {}, 60)],
    "C06": [("general", {"bweights": [3, 4, 1]}, 900), ("general", {"faultw": [0, 1, 2, 3, 3], "bweights": [4, 1, 0]},
                                                       500), ("crashing", {}, 100)],
    "C07": [("general", {"strategies": ADAPTIVE}, 900), ("general", {"strategies": RADIUS, "bweights": [0, 1, 3]}, 250),
            ("crashing", {}, 120)],
    "C08": [("general", {"asyncs": False, "strategies": ADAPTIVE}, 1200), ("crashing", {"asyncs": False}, 150)],
    "C09": [("general", {"asyncs": True, "strategies": ADAPTIVE}, 1200), ("crashing", {"asyncs": True}, 150)],
    "C10": [("crashing", {"ends": ["io", "io", "event", "iofail", "finish"]}, 450),
            ("crashing", {"strategies": ["srbf"] * 6}, 250)],
    "C11": [("crashing", {"ends": ["event", "interrupt", "io", "iofail", "finish"]}, 450),
            ("crashing", {"strategies": ["srbf", "dycors", "sop"] * 2}, 250)],
    "C12": [("crashing", {}, 450), ("crashing", {"ends": ["event", "event", "event", "interrupt", "io"], **SURE}, 250),
            ("crashing", {"ends": ["situation"], "bweights": [0, 3, 4], "strategies": RADIUS}, 350)],
    "C13": [("guarded", {}, 1600)],
    "C14": [("reproducible", {}, 500), ("reproducible", {"sweights": [1, 1, 4, 1, 1, 1], "bweights": [2, 5, 0]}, 100),
            ("reproducible", {"processes": True}, 40)],
    "C15": [("general", {"strategies": RADIUS, "bweights": [0, 2, 3]}, 600),
            ("general", {"strategies": RADIUS, "bweights": [0, 1, 3], "faultw": [0, 0, 1, 2, 2]}, 250),
            ("general", {"strategies": RADIUS, "bweights": [0, 0, 1, 1], "dims": [7, 8, 11, 15]}, 100),
            ("crashing", {"strategies": RADIUS, "asyncs": False, "bweights": [0, 2, 3], "ends": MIDWAY}, 200),
            ("crashing", {"strategies": RADIUS, "bweights": [0, 2, 1]}, 60)],
    "C16": [("general", {"strategies": GP}, 800), ("general", {"strategies": GP, "bweights": [0, 1, 4]}, 150)],
    "C17": [("general", {"strategies": ADAPTIVE, "extraw": [1, 3, 3, 2]}, 1100), ("crashing", {"extraw": [1, 3, 3, 2]},
                                                                               120)],
    "C18": [("surrogate_life", {}, 2600)],
    "C19": [("isolated", {}, 500)],
    "C20": [("general", {"strategies": RADIUS}, 700), ("general", {"strategies": RADIUS, "faultw": [1, 0, 0, 0, 0]},
                                                      300),
            ("general", {"strategies": ["sop"] * 6, "distinct": True}, 250),
            ("crashing", {"strategies": SAMPLED, "distinct": True, "bweights": [0, 2, 1]}, 120)],
    "C21": [("stopping", {}, 1300), ("stopping", {"when": ["converged", "new run", "stale in flight"], "strategies": RADIUS,
                                                  "bweights": [0, 0, 1], "faultw": [3, 1, 1, 0, 0]}, 200),
            ("crashing", {"ends": ["finish", "finish", "event"], "stopw": [0, 1]}, 80)],
    "C22": [("general", {"strategies": SAMPLED, "ncand": [40, 80, 160, None], "intsw": [9, 1, 1, 0, 1]}, 700),
            ("general", {"strategies": RADIUS, "bweights": [0, 1, 3], "ncand": [40, 80]}, 120),
            ("general", {"strategies": ["srbf", "dycors", "sop", "dycors", "dycors", "sop"], "dims": [22, 26, 32],
                         "ncand": [40, 80], "intsw": [9, 0, 0, 0, 1], "distinct": True}, 80),
            ("crashing", {"strategies": SAMPLED, "ncand": [40, 80], "intsw": [9, 1, 1, 0, 1], "distinct": True}, 100)],
    "C23": [("general", {"strategies": ["sop"] * 6, "distinct": True, "bweights": [1, 3, 3], "intsw": [9, 1, 1, 0, 1]},
             500),
            ("general", {"strategies": ["sop"] * 6, "distinct": True, "bweights": [0, 2, 3], "intsw": [1, 0, 0, 0, 0],
                         "asyncs": False, "faultw": [0, 0, 1, 1, 1]}, 200),
            ("general", {"strategies": ["sop"] * 6, "distinct": True, "bweights": [0, 0, 0, 1]}, 24),
            ("crashing", {"strategies": ["sop"] * 6, "distinct": True, "asyncs": False, "bweights": [0, 2, 3],
                          "ends": MIDWAY}, 90),
            ("crashing", {"strategies": ["sop"] * 6, "distinct": True}, 40)],
    "C24": [("general", {"strategies": GP}, 900), ("general", {"strategies": GP, "bweights": [0, 1, 4]}, 200),
            ("crashing", {"strategies": GP}, 60)],
    "C25": [("general", {"strategies": ADAPTIVE, "bweights": [2, 2, 3]}, 700),
            ("general", {"strategies": RADIUS, "bweights": [0, 0, 1, 2]}, 60),
            ("general", {"strategies": ["srbf", "srbf", "dycors", "lcb", "srbf", "sop"], "dims": [3, 3, 3, 2, 4],
                         "bweights": [1, 0, 0], "intsw": [1, 0, 0, 0, 0], "controllers": ["serial"],
                         "designw": [3, 1, 0]}, 400),
            ("general", {"strategies": ADAPTIVE, "dims": [7, 8, 11, 15]}, 60), ("crashing", {}, 80)],
    "C26": [("general", {"strategies": ["random"] * 6, "sample": [60, 400]}, 250),
            ("general", {"strategies": ["random"] * 6, "faultw": [0, 1, 2, 3, 3]}, 500)],
}

REAL = ["pySOT: strategies, surrogates, experimental designs, candidate generation, CheckpointController",
        "POAP: SerialController, ThreadController, SimTeamController and the strategy base classes (real code under a "
        "simulated queue and clock)", "numpy, scipy, scikit-learn, dill"]
STUB = ["workers and the objective function (simulated, deterministic)", "time and the message queue of POAP's "
        "ThreadController (simulated)", "file system calls of CheckpointController (simulated disk: page cache, "
        "durability, short writes, errors, crashes)",
        "population size and generations of the genetic algorithm (capped at 20 and 5)"]


def make_jobs(prop, tier, seed, runs=None):
    plan = PLAN[prop]
    factor = 1.0 if tier == "quick" else 40.0
    if runs:
        factor = runs / float(sum(n for _, _, n in plan))
    lists = []
    for k, (scenario, options, n) in enumerate(plan):
        n = max(1, int(round(n * factor)))
        h = int(hashlib.sha1(("%s/%d/%s" % (prop, k, scenario)).encode()).hexdigest()[:8], 16)
        lists.append([{"property": prop, "props": (prop,), "scenario": scenario, "options": options,
                       "seed": "%d/%s/%d/%d" % (seed, prop, k, i), "part": k, "salt": h} for i in range(n)])
    # interleave the parts evenly, so that a run that is cut short has covered all of them
    out = []
    for k, l in enumerate(lists):
        out += [((i + 0.5) / len(l), k, j) for i, j in enumerate(l)]
    out.sort(key=lambda t: t[:2])
    return [j for _, _, j in out]


# -- known findings --------------------------------------------------------------------------------

def known_findings(prop):
    """Lines 'known: {json}' of known_findings.txt for this property."""
    found = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                e = json.loads(line[7:])
                if e["property"] == prop:
                    found.append(e)
    return found


def matches(entry, job, verdict):
    return entry["scenario"] == job["scenario"] and entry["code"] == verdict["code"] and \
        entry.get("message_part", "") in verdict["message"]


# -- commands --------------------------------------------------------------------------------------

def cmd_run(a):
    t0 = time.monotonic()
    engine = load()
    prop = a.property
    jobs = make_jobs(prop, a.tier, a.seed, a.runs)
    print("simulating %s: tier %s, VERIF_SEED %d, %d runs on %d processes" % (prop, a.tier, a.seed, len(jobs), a.procs))
    sys.stdout.flush()
    listed = known_findings(prop)
    seconds = a.seconds or (420 if a.tier == "quick" else 6 * 3600)
    results, late = engine.sweep(jobs, a.procs, t0 + seconds, stop=not listed)
    sweep_s = time.monotonic() - t0

    order = sorted(results)
    viols, died, harness, known = [], [], [], []
    for i in order:
        v = results[i]["verdict"]
        if v is None:
            continue
        hit = [e for e in listed if matches(e, jobs[i], v)]
        if hit:
            known.append((i, hit[0]))
            continue
        {"violation": viols, "run-died": died, "harness": harness}[v["class"]].append(i)
    for e in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    # a run that dies leaves the property undecided at best: the code is broken, say so
    broken = viols[:1] or died[:1]
    replay = None
    if broken:
        replay = report(engine, jobs[broken[0]], results[broken[0]], a)
    evidence(prop, a, jobs, results, order, sweep_s, time.monotonic() - t0, len(viols) or len(died), late, known)
    if broken:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if harness:
        i = harness[0]
        print("ERROR: the harness failed in %d runs; first: seed %s\n%s"
              % (len(harness), jobs[i]["seed"], results[i]["verdict"]["message"]))
        return 3
    done = len(results)
    if done == 0 or (late and done < len(jobs) / 20):
        print("ERROR: only %d of %d runs in %g s" % (done, len(jobs), seconds))
        return 4
    print("%s held in %d runs (%.0f per hour)%s" % (prop, done, 3600 * done / sweep_s,
                                                    ", cut short" if late else ""))
    return 0


def report(engine, job, res, a):
    """Minimise, write the replay file and replay it in a fresh process."""
    v = res["verdict"]
    print("seed %s, scenario %s: %s: %s" % (job["seed"], job["scenario"], v["code"], v["message"]))
    sys.stdout.flush()
    want = (v["class"], v["code"])
    original = res["decisions"]
    mini = None
    if not a.no_minimise and v["code"] not in ("died:Hang@?", "died:MemoryError@?"):
        mini = engine.in_child(lambda: engine.minimise(job, original, want), 150)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s.json" % (
        job["property"], hashlib.sha1(job["seed"].encode()).hexdigest()[:10]))
    ok = False
    for what, dec in ([("minimised", mini[0])] if mini else []) + [("as found", original)]:
        res2 = engine.in_child(lambda: summary(engine, job, dec), 200)
        if res2 is None or (res2["class"], res2["code"]) != want:
            continue
        doc = {"property": job["property"], "scenario": job["scenario"], "options": job["options"],
               "seed": job["seed"], "form": what, "class": v["class"], "code": v["code"], "message": res2["message"],
               "cfg": dec["cfg"], "ev": dec["ev"], "digest": res2["digest"], "trace": res2["log"],
               "original_decisions": len(original["ev"]) + sum(1 for x in original["cfg"].values() if x),
               "decisions": sum(1 for x in dec["ev"] if x) + sum(1 for x in dec["cfg"].values() if x),
               "minimisation_runs": mini[1] if mini else 0}
        write_json(path, doc)
        env = dict(os.environ, PYTHONHASHSEED="4321")
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "replay", path], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        ok = p.returncode == 1 and b"exactly" in p.stdout
        if ok:
            print("%s: %d decisions (as found: %d), reproduced exactly in a fresh process: %s"
                  % (what, doc["decisions"], doc["original_decisions"], res2["message"]))
            return path
    if not os.path.exists(path):
        write_json(path, {"property": job["property"], "scenario": job["scenario"], "options": job["options"],
                          "seed": job["seed"], "form": "as found", "class": v["class"], "code": v["code"],
                          "message": v["message"], "cfg": original["cfg"], "ev": original["ev"], "digest": None,
                          "trace": []})
    print("the violation does not replay exactly: the code under test does not depend on the seed alone")
    return path


def summary(engine, job, dec):
    out, v = engine.judged(job, dec["cfg"], dec["ev"])
    v = v or {"class": "held", "code": "", "message": ""}
    return dict(v, digest=out.digest, log=[" ".join(str(y) for y in x) if isinstance(x, tuple) and
                                           not (x and isinstance(x[0], (tuple, list))) else
                                           [" ".join(str(z) for z in y) if isinstance(y, tuple) else str(y) for y in x]
                                           if isinstance(x, (tuple, list)) else str(x) for x in out.log])


def write_json(path, doc):
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, default=str)
        f.write("\n")


def cmd_replay(a):
    engine = load()
    with open(a.file) as f:
        doc = json.load(f)
    job = {"property": doc["property"], "props": (doc["property"],), "scenario": doc["scenario"],
           "options": doc["options"], "seed": doc["seed"]}
    sys.unraisablehook = engine._quiet_unraisable
    got = summary(engine, job, doc)
    if (got["class"], got["code"]) != (doc["class"], doc["code"]):
        print("not reproduced: %s %s %s" % (got["class"], got["code"], got["message"]))
        return 0
    print("%s: %s" % (got["code"], got["message"]))
    for line in got["log"]:
        if isinstance(line, list):
            print("  process:")
            for l in line:
                print("    " + l)
        else:
            print("  " + line)
    print("reproduced exactly" if got["digest"] == doc["digest"] else "reproduced, but the run is not the same")
    print("VIOLATION property=%s replay=%s" % (doc["property"], a.file))
    return 1


def evidence(prop, a, jobs, results, order, sweep_s, wall, nviol, late, known):
    stats, saw, parts = collections.Counter(), collections.Counter(), collections.Counter()
    seen, nontrivial = set(), set()
    simtime = nevals = steps = skipped = 0
    samples = []
    for i in order:
        r = results[i]
        stats.update(r["stats"])
        saw.update(r["saw"])
        parts["%s %s" % (jobs[i]["scenario"], json.dumps(jobs[i]["options"], sort_keys=True))] += 1
        simtime += r["simtime"]
        nevals += r["nevals"]
        steps += r["steps"]
        skipped += 1 if r["skipped"] else 0
        seen.add(r["trace"])
        if sum(r["stats"].values()) or r["saw"]:
            nontrivial.add(r["trace"])
            if len(samples) < 3:
                samples.append({"seed": jobs[i]["seed"], "scenario": jobs[i]["scenario"], "injected": r["stats"],
                                "situations": r["saw"], "evaluations": r["nevals"], "simulator_events": r["steps"],
                                "interleaving": r["trace"]})
    n = len(order)
    doc = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(nontrivial),
            "rule": "Each case is one simulated run: its configuration, schedule and faults are drawn from a seed. Two "
                    "runs are distinct if the sequence of simulator events (proposals, replies, starts, updates, "
                    "completions, faults, crashes, with the evaluation concerned) differs; a run is non-trivial if at "
                    "least one fault, reordering or probed situation occurred in it.",
            "samples": samples,
            "distinct_interleavings": len(seen),
            "runs_per_hour": round(3600.0 * n / max(sweep_s, 1e-9)),
            "seeds_per_hour": round(3600.0 * n / max(sweep_s, 1e-9)),
            "simulated_time_units": round(simtime, 1),
            "function_evaluations_simulated": nevals,
            "simulator_events": steps,
            "faults_injected": dict(sorted(stats.items())),
            "situations_reached_in_runs": dict(sorted(saw.items())),
            "runs_by_scenario": dict(parts),
            "runs_skipped_outside_preconditions": skipped,
            "cut_short_by_wall_clock": late,
            "known_findings_hit": len(known),
            "real_components": REAL,
            "stub_components": STUB,
        },
        "assumptions": [
            "sampled executions: a clean batch is evidence, not proof",
            "the objective is deterministic given the point and the number of evaluations",
            "configurations satisfy pySOT's documented preconditions (see simsot/specs.py)",
        ],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    write_json(os.path.join(HERE, "evidence", prop + ".json"), doc)


def cmd_selftest(a):
    """The same seeds give the same runs with another number of processes and another hash seed."""
    engine = load()
    if a.digests:
        res, _ = engine.sweep(selftest_jobs(a.runs), a.procs, stop=False)
        print(json.dumps([[res[i]["digest"], res[i]["trace"], res[i]["verdict"]] for i in sorted(res)]))
        return 0
    outs = []
    for procs, hashseed in ((8, "0"), (3, "17"), (5, "99")):
        env = dict(os.environ, PYTHONHASHSEED=hashseed)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "selftest", "--digests", "--runs", str(a.runs),
                            "--procs", str(procs)], env=env, stdout=subprocess.PIPE)
        outs.append(json.loads(p.stdout.decode().splitlines()[-1]))
    bad = [i for i in range(len(outs[0])) if len({json.dumps(o[i]) for o in outs}) > 1]
    jobs = selftest_jobs(a.runs)
    for i in bad[:10]:
        print("differs:", jobs[i]["seed"], jobs[i]["scenario"], jobs[i]["options"])
    print("%d runs, three times each: %d differ" % (len(jobs), len(bad)))
    return 1 if bad else 0


def cmd_setup(a):
    """Nothing has to be built; see that everything can be imported and one run of each scenario works."""
    engine = load()
    jobs = {j["scenario"]: j for p in sorted(PLAN) for j in make_jobs(p, "quick", 0, 3)}
    for name in sorted(jobs):
        out = engine.execute(jobs[name])
        print("%s: %s" % (name, out.harness or "runs"))
    return 0


def selftest_jobs(runs):
    out = []
    for prop in sorted(PLAN):
        out += make_jobs(prop, "quick", 777, max(1, runs // len(PLAN)))
    return out


def main():
    p = argparse.ArgumentParser()
    sub = p.add_subparsers(dest="cmd", required=True)
    r = sub.add_parser("run")
    r.add_argument("property", choices=sorted(PLAN))
    r.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    r.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    r.add_argument("--runs", type=int)
    r.add_argument("--seconds", type=float)
    r.add_argument("--procs", type=int, default=os.cpu_count() or 4)
    r.add_argument("--no-minimise", action="store_true")
    r = sub.add_parser("replay")
    r.add_argument("file")
    sub.add_parser("setup")
    r = sub.add_parser("selftest")
    r.add_argument("--runs", type=int, default=420)
    r.add_argument("--procs", type=int, default=8)
    r.add_argument("--digests", action="store_true")
    a = p.parse_args()
    sys.exit({"run": cmd_run, "replay": cmd_replay, "selftest": cmd_selftest, "setup": cmd_setup}[a.cmd](a))


if __name__ == "__main__":
    main()
