#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]
   check.py --replay FILE

Builds the simulator from /repo's working tree, runs the seeded batch of
simulated executions of one property and writes evidence/<PROPERTY>.json.
Exit 0: held on every run.  Exit 1 with "VIOLATION property=.. replay=..": a
violation that two fresh processes reproduced with the same event trace.
Exit 2: the check itself could not give an answer.
"""
import argparse
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "driver"))
import build as B  # noqa: E402
from plan import PLAN, REAL, STUB, RULES, ASSUME  # noqa: E402

WORK = os.path.join(HERE, "build", "work")
REPLAYS = os.path.join(HERE, "replays")
JOBS = 8


class Broken(Exception):
    pass


def known_findings(prop):
    """lines: known: property=<id> class=<class> match=<regex on the message> what=<text>"""
    r = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) what=(.*)$", l.strip())
                if m and m.group(1) == prop:
                    r.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError:
        pass
    return r


def run_batch(exe, tag, prop, seed, n, deadline, extra_hashes=False, stride=JOBS, upto=None):
    out = os.path.join(WORK, "%s-%s-%d" % (prop, tag, os.getpid()))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    ps = []
    for k in range(stride):
        cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--from", str(k), "--to", str(n), "--stride", str(stride),
               "--out", out, "--id", str(k), "--deadline", "%.1f" % deadline, "--maxviol", "4"]
        if extra_hashes:
            cmd += ["--hashes", os.path.join(out, "hash-%d" % k)]
        log = open(os.path.join(out, "log-%d" % k), "w")
        ps.append((k, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL), log))
    res, bad = [], []
    end = time.time() + deadline + 120
    for k, p, log in ps:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        log.close()
        f = os.path.join(out, "res-%d.json" % k)
        if rc != 0 or not os.path.exists(f):
            bad.append((k, rc, open(os.path.join(out, "log-%d" % k)).read()[-2000:]))
            continue
        with open(f) as h:
            res.append(json.load(h))
    return out, res, bad


def add(a, b):
    for k, v in b.items():
        if isinstance(v, bool):
            a[k] = a.get(k, False) or v
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, dict):
            add(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)


def u64s(path):
    with open(path, "rb") as f:
        d = f.read()
    return set(struct.unpack("<%dQ" % (len(d) // 8), d))


def call(exe, args, timeout):
    p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
    out = p.stdout.decode("latin-1").strip()
    return p.returncode, out.splitlines()[-1] if out else ""


def parse_line(l):
    """violation CLASS HASH MESSAGE"""
    m = re.match(r"violation (\S+) ([0-9a-f]{16}) ?(.*)$", l)
    return m.groups() if m else None


def confirm(exe, path):
    """two fresh processes must agree in class and event trace"""
    r = []
    for _ in range(2):
        rc, l = call(exe, ["replay", path], 120)
        r.append(parse_line(l))
    if r[0] and r[1] and r[0][:2] == r[1][:2]:
        return r[0]
    return None


def report(exe, prog, prop, v, seed):
    """gate, minimise, gate again; returns (replay path, class, message)"""
    os.makedirs(REPLAYS, exist_ok=True)
    got = confirm(exe, v["file"])
    if not got or got[0] != v["class"]:
        raise Broken("the violation %s of scenario %d did not reproduce in a fresh process: %s" % (v["class"], v["index"], got))
    if got[0] == "harness":
        raise Broken("scenario %d: %s" % (v["index"], got[2]))
    dst = os.path.join(REPLAYS, "%s-%d-%d.scn" % (prop, seed, v["index"]))
    tmp = dst + ".tmp"
    best = v["file"]
    try:
        call(exe, ["minimise", v["file"], tmp, "--budget", "300"], 90)
        if os.path.exists(tmp):
            g = confirm(exe, tmp)
            if g and g[0] == got[0]:
                got, best = g, tmp
    except subprocess.TimeoutExpired:
        pass
    with open(best) as f:
        text = f.read()
    with open(dst, "w") as f:
        f.write("# program %s\n# seed %d scenario %d\n# %s: %s\n# event trace %s\n" % (prog, seed, v["index"], got[0], got[2].replace("\n", " "), got[1]))
        f.write(text)
    if os.path.exists(tmp):
        os.unlink(tmp)
    return dst, got[0], got[2]


def check(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop][tier]
    total, exes = {}, {}
    traces, nontriv = set(), set()
    found, problems = [], []
    parts = []
    sim_s = 0.0
    rechecked = mismatched = 0
    for prog, variant, n, dead in plan:
        exe = B.build(prog, variant)
        exes[prog + "-" + variant] = exe
        t1 = time.time()
        out, res, bad = run_batch(exe, variant, prop, seed, n, dead)
        dt = time.time() - t1
        sim_s += dt
        if bad:
            problems += ["worker %s of %s-%s ended with %s: %s" % (k, prog, variant, rc, l) for k, rc, l in bad]
        part = {}
        for r in res:
            add(part, r)
        for v in part.get("violations", []):
            v["prog"] = prog + "-" + variant
            found.append(v)
        for k in range(JOBS):
            for nm, st in (("trc", traces), ("non", nontriv)):
                p = os.path.join(out, "%s-%d.bin" % (nm, k))
                if os.path.exists(p):
                    st |= u64s(p)
        parts.append({"program": prog + "-" + variant, "scenarios": part.get("done", 0), "planned": n, "seconds": round(dt, 1)})
        # the same seeds again, in other processes and another split over them
        m = min(n, 48)
        o1, _, b1 = run_batch(exe, variant + "-d1", prop, seed, m, 120, True, 3)
        o2, _, b2 = run_batch(exe, variant + "-d2", prop, seed, m, 120, True, 5)

        def hashes(o, w):
            h = {}
            for k in range(w):
                p = os.path.join(o, "hash-%d" % k)
                if os.path.exists(p):
                    for l in open(p):
                        i, x, c = l.split()
                        h[int(i)] = (x, c)
            return h
        h1, h2 = hashes(o1, 3), hashes(o2, 5)
        for i in h1:
            if i in h2:
                rechecked += 1
                mismatched += h1[i] != h2[i]
        for o in (o1, o2):
            shutil.rmtree(o, ignore_errors=True)
        add(total, part)
    known = known_findings(prop)
    found.sort(key=lambda v: (v["index"], v["prog"]))
    reported, hushed, seen = [], {}, {}
    for v in found:
        hit = next((t for c, rx, t in known if c == v["class"] and rx.search(v["msg"])), None)
        if hit:
            hushed[hit] = hushed.get(hit, 0) + 1
            continue
        if seen.get(v["class"], 0) >= 1 or len(reported) >= 3:
            continue
        try:
            dst, cls, msg = report(exes[v["prog"]], v["prog"], prop, v, seed)
        except (Broken, subprocess.TimeoutExpired) as e:
            problems.append(str(e))
            continue
        seen[v["class"]] = seen.get(v["class"], 0) + 1
        reported.append({"replay": dst, "class": cls, "message": msg, "index": v["index"], "program": v["prog"]})
    runs = total.get("runs", 0)
    faults = {"call " + k: v for k, v in total.get("faults_fired", {}).items()}
    faults.update({"short transfer": total.get("short_transfers", 0), "interrupted call (EINTR)": total.get("eintrs", 0),
                   "file system change while running": total.get("fs_events", 0)})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.get("done", 0),
            "distinct_nontrivial": len(nontriv),
            "rule": RULES[prop],
            "samples": total.get("samples", [])[:3],
            "simulated_runs": runs,
            "simulated_runs_per_hour": int(runs * 3600 / max(sim_s, 1e-3)),
            "seeds_per_hour": int(total.get("done", 0) * 3600 / max(sim_s, 1e-3)),
            "simulated_time_steps": total.get("steps", 0),
            "simulated_time_measure": "function entries and exits of the code under test, plus intercepted calls",
            "intercepted_calls": total.get("vfs_ops", 0),
            "simulated_allocations": total.get("allocs", 0),
            "task_switches": total.get("switches", 0),
            "accesses_to_shared_memory": total.get("shared_accesses", 0),
            "faults_fired": faults,
            "scenario_kinds": total.get("kinds", {}),
            "outcomes": total.get("status", {}),
            "rare_conditions_hit": total.get("probes", {}),
            "distinct_event_traces": len(traces),
            "distinct_measure": "hash over the sequence of intercepted calls with their arguments, results and injected faults, task switches and delivered output",
            "replayed_for_determinism": rechecked,
            "replayed_with_another_trace": mismatched,
            "parts": parts,
            "ran_real": REAL, "ran_stub": STUB,
            "cut_by_deadline": bool(total.get("cut", False)),
            "known_findings_hit": hushed,
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for d in os.listdir(WORK):
        if d.startswith(prop + "-") and d.endswith("-%d" % os.getpid()):
            shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
    for t, c in hushed.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    print("%s %s seed %d: %d scenarios, %d simulated runs, %d distinct non-trivial traces, %d steps, %.0f s"
          % (prop, tier, seed, total.get("done", 0), runs, len(nontriv), total.get("steps", 0), time.time() - t0))
    if mismatched:
        print("note: %d of %d replayed scenarios had another event trace" % (mismatched, rechecked))
    for r in reported:
        print("%s: %s (%s, scenario %d)" % (r["class"], r["message"], r["program"], r["index"]))
        print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
    if reported:
        return 1
    if problems:
        for p in problems[:5]:
            print("check error: " + p)
        return 2
    return 0


def replay(path):
    prog = None
    with open(path) as f:
        for l in f:
            m = re.match(r"# program (\w+)-(\w+)", l)
            if m:
                prog = m.groups()
    if not prog:
        print("no program named in " + path)
        return 2
    exe = B.build(*prog)
    got = confirm(exe, path)
    if got:
        print("violation %s (event trace %s): %s" % got)
        return 1
    print(call(exe, ["replay", path], 120)[1])
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.makedirs(WORK, exist_ok=True)
    try:
        if a.replay:
            return replay(a.replay)
        if a.property not in PLAN:
            print("unknown property")
            return 2
        return check(a.property, "thorough" if a.tier == "thorough" else "quick", a.seed)
    except B.BuildError as e:
        print("build failed:\n" + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
