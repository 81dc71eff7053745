#!/usr/bin/env python3
"""Run one property's simulation check, or replay a violation file.

  check.py quick C01 | thorough C01      run a check (VERIF_SEED, default 1)
  check.py replay FILE                   re-execute a replay file
  check.py setup                         build every variant
  check.py all [quick|thorough]          every registered check in turn
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import build as B
from checks import CHECKS, STUBS
KNOWN = os.path.join(VERIF, "known_findings.txt")
NCPU = min(8, os.cpu_count() or 8)

class Err(Exception): pass

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)

def result_line(out):
    m = re.search(r"^RESULT status=(-?\d+) hash=(\d+) points=(\d+) key=(.*)$", out, re.M)
    return m.groups() if m else None

def parse_stats(path):
    d = dict(counter={}, known={}, world={}, key={}, esig=set(), ilv=set(), edges=set())
    for l in open(path):
        p = l.rstrip("\n").split(" ")
        if p[0] in ("esig", "ilv", "edges"): d[p[0]] = set(p[1:])
        elif p[0] in ("counter", "world"): d[p[0]][p[1]] = int(p[2])
        elif p[0] in ("known", "key"): d[p[0]][" ".join(p[2:])] = int(p[1])
        else: d[p[0]] = float(p[1])
    return d

def read_replay(path):
    return open(path, errors="replace").read()

def replay(binp, f, tmp):
    p = sh([binp, "replay", "--file", f, "--quiet", "1", "--stderr", os.path.join(tmp, "re.err")], timeout=400)
    return result_line(p.stdout)

OFFICIAL = ("ossl", "mbed")     # the two configurations the repository's own build makes

def run_check(prop, tier, seed):
    t0 = time.time()
    c = CHECKS[prop]
    runs, tl = (c["runs"], c.get("time", 30)) if tier == "quick" else (1 << 40, int(os.environ.get("VERIF_THOROUGH_S", c.get("thorough_time", 600))))
    variants = c["variants"]
    unbuilt = []
    def build(v):
        try: return B.build(v)
        except (Exception, SystemExit) as e:      # the library no longer compiles this way: said in the evidence, decided on the other builds
            if v == variants[0] or v in OFFICIAL: raise
            unbuilt.append(v); print(f"note: variant {v} does not build: {str(e)[-300:]}"); return None
    with cf.ThreadPoolExecutor(len(variants)) as ex: bins = dict(zip(variants, ex.map(build, variants)))
    variants = [v for v in variants if bins[v]]
    build_s = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="sim-" + prop + "-")
    try:
        jobs = []
        share = max(1, NCPU // len(variants))
        t1 = time.time()
        for v in variants:
            vs = seed * 1000 + list(B.VARIANTS).index(v)
            for w in range(share):
                out = os.path.join(tmp, f"{v}.{w}")
                cmd = [bins[v], "explore", "--prop", prop, "--seed", str(vs), "--runs", str(runs if len(variants) == 1 else max(8, runs // len(variants))), "--worker", str(w), "--workers", str(share),
                       "--time", str(tl), "--out", out, "--hashes", out + ".h", "--known", KNOWN, "--stderr", out + ".err"]
                jobs.append((v, w, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".log", "w"))))
        errs = []
        for v, w, out, p in jobs:
            rc = p.wait()
            if rc: errs.append(f"{v}/{w} rc={rc}: " + open(out + ".log").read()[-500:])
        if errs: raise Err("; ".join(errs))
        explore_s = time.time() - t1
        # determinism gate: the first runs again, other process, other worker count, event-log hashes must agree
        gate, gate_bad = 0, None
        for v in variants:
            vs = seed * 1000 + list(B.VARIANTS).index(v)
            want = {}
            for vv, w, out, _ in jobs:
                if vv == v:
                    for l in open(out + ".h"): i, h, st, pt = l.split(); want[int(i)] = (h, st, pt)
            n = min(c.get("gate", 24), runs)
            out = os.path.join(tmp, f"gate.{v}")
            nr = str(runs if len(variants) == 1 else max(8, runs // len(variants)))
            p = sh([bins[v], "explore", "--prop", prop, "--seed", str(vs), "--runs", str(min(int(nr), n)), "--worker", "0", "--workers", "1", "--time", "60", "--out", out, "--hashes", out + ".h",
                    "--known", KNOWN, "--stderr", out + ".err", "--max-violations", "1000000"])
            for l in open(out + ".h"):
                i, h, st, pt = l.split()
                if int(i) in want:
                    gate += 1
                    if want[int(i)] != (h, st, pt): gate_bad = gate_bad or f"determinism gate: {v} run {i} gave {want[int(i)]} then {(h, st, pt)}"
        stats = [parse_stats(out) for _, _, out, _ in jobs]
        # violations
        viols = []
        for v, w, out, _ in jobs:
            i = 0
            while os.path.exists(f"{out}.viol{i}"):
                viols.append((v, f"{out}.viol{i}")); i += 1
        report = None
        problems = []
        seen = set()
        for v, f in viols:
            key = re.search(r"^key (.*)$", read_replay(f), re.M).group(1)
            if key in seen and report: continue
            seen.add(key)
            r1, r2 = replay(bins[v], f, tmp), replay(bins[v], f, tmp)
            if not r1 or r1 != r2 or r1[0] not in ("2", "4") or r1[3] != key:
                problems.append(f"violation {key} did not replay identically: {r1} {r2}"); continue
            odir = os.path.join(VERIF, "out"); os.makedirs(odir, exist_ok=True)
            final = os.path.join(odir, f"{prop}-{hashlib.sha256((key + v).encode()).hexdigest()[:10]}.replay")
            p = sh([bins[v], "minimise", "--file", f, "--out", final + ".tmp", "--budget", "25" if tier == "quick" else "120", "--header", f"variant {v}", "--stderr", os.path.join(tmp, "min.err")], timeout=600)
            ok = False
            if os.path.exists(final + ".tmp"):
                a, b2 = replay(bins[v], final + ".tmp", tmp), replay(bins[v], final + ".tmp", tmp)
                want = re.search(r"^hash (\d+)$", read_replay(final + ".tmp"), re.M)
                ok = a and a == b2 and a[3] == key and want and want.group(1) == a[1]
                if ok: os.replace(final + ".tmp", final)
                else: os.remove(final + ".tmp")
            if not ok:
                txt = read_replay(f); open(final, "w").write(f"# replay file (not minimised)\nvariant {v}\n" + txt)
            msg = [l[2:] for l in read_replay(final).splitlines() if l.startswith("# ")]
            report = report or (final, key, v, msg)
            break
        # a run that does not repeat (the code reads memory it never wrote, say) leaves no verdict unless a violation replays exactly
        if gate_bad and not report: raise Err("; ".join([gate_bad] + problems))
        if viols and not report: raise Err("; ".join(problems))
        tot = lambda k: sum(s.get(k, 0) for s in stats)
        cnt = {}
        for s in stats:
            for k, n in s["counter"].items(): cnt[k] = max(cnt.get(k, 0), n) if k.startswith("max.") else cnt.get(k, 0) + n
        esig, ilv, edges, known, wd = set(), set(), set(), {}, {}
        for (v, _, _, _), s in zip(jobs, stats):
            esig |= {v + x for x in s["esig"]}; ilv |= {v + x for x in s["ilv"]}; edges |= {v + x for x in s["edges"]}
            for k, n in s["known"].items(): known[k] = known.get(k, 0) + n
            for k, n in s["world"].items(): wd[k] = wd.get(k, 0) + n
        hours = max(explore_s, 0.001) / 3600
        # a sample: one run written out with its choices
        samples = []
        for v in variants[:1]:
            for wname in list(wd)[:3]:
                p = sh([bins[v], "seed", "--prop", prop, "--world", wname, "--seed", str(seed * 7919 + 11), "--stderr", os.path.join(tmp, "s.err")], timeout=300)
                ls = p.stdout.splitlines()
                samples.append({"variant": v, "world": wname, "seed": seed * 7919 + 11, "event_log_head": ls[:25], "result": next((l for l in ls if l.startswith("RESULT")), "")})
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": 1 if report else 0,
              "coverage": {"evaluations": int(tot("runs")), "distinct_nontrivial": len(ilv),
                  "rule": "One evaluation is one seeded simulated run in a fresh process. " + c["rule"] + " Two runs are counted as distinct when the set of library edges executed, the sequence of thread switches or the recorded event log differs; every run drives the workload, so none is trivial.",
                  "samples": samples, "runs_per_hour": int(tot("runs") / hours), "seeds_per_hour": int(tot("runs") / hours), "runs_per_world": wd,
                  "simulated_seconds": round(tot("sim_us") / 1e6, 3), "simulation_points": int(tot("points")), "thread_switches": int(tot("switches")),
                  "faults_injected": {k[6:]: n for k, n in sorted(cnt.items()) if k.startswith("fault.")}, "runs_with_a_fault": int(tot("withfault")),
                  "probes": {k: n for k, n in sorted(cnt.items()) if not k.startswith("fault.")},
                  "distinct_edge_signatures": len(esig), "distinct_runs_by_schedule_edges_and_log": len(ilv), "library_edges_reached": {v: len([e for e in edges if e.startswith(v)]) for v in variants},
                  "library_edges_total": int(max(s["edges_total"] for s in stats)), "variants": variants, "variants_not_built": unbuilt, "determinism_gate_runs_repeated": gate, "known_findings_hit": known,
                  "real_components": c["real"], "stub_components": [STUBS[s] for s in c["stub"]], "explore_wall_s": round(explore_s, 2), "build_wall_s": round(build_s, 2), "slowest_run_s": max(s["maxrun"] for s in stats)},
              "assumptions": c.get("assume", [])}
        if report: ev["coverage"]["violation"] = {"key": report[1], "variant": report[2], "replay": report[0], "message": report[3][:12]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k, n in sorted(known.items()):
            print(f"KNOWN-FINDING: property={prop} {k} ({n} runs)")
        print(f"{prop} {tier}: {int(tot('runs'))} runs, {len(ilv)} distinct, {int(tot('points'))} points, faults {sum(n for k, n in cnt.items() if k.startswith('fault.'))}, {explore_s:.1f}s explore, {build_s:.1f}s build, gate {gate}")
        if report:
            print(f"  key={report[1]} variant={report[2]}")
            for m in report[3][:8]: print("  " + m)
            print(f"VIOLATION property={prop} replay={report[0]}")
            return 1
        for p in problems: print("note: " + p)
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    m = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if m == "setup":
            def build(v):
                try: return B.build(v)
                except (Exception, SystemExit) as e:
                    if v in OFFICIAL: raise
                    return f"note: variant {v} does not build: {str(e)[-300:]}"
            with cf.ThreadPoolExecutor(3) as ex: print("\n".join(ex.map(build, B.VARIANTS)))
            return 0
        if m == "replay":
            t = read_replay(sys.argv[2]); v = (re.search(r"^variant (\w+)$", t, re.M) or [None, "ossl"])[1]
            b = B.build(v); p = sh([b, "replay", "--file", sys.argv[2], "--stderr", "/dev/null"]); print(p.stdout)
            r = result_line(p.stdout)
            if r and r[0] in ("2", "4"): print(f"VIOLATION property={re.search(r'^property (.*)$', t, re.M).group(1)} replay={os.path.abspath(sys.argv[2])}"); return 1
            return 0 if r else 2
        if m == "all":
            tier = sys.argv[2] if len(sys.argv) > 2 else "quick"; bad = 0
            for p in CHECKS:
                try: r = run_check(p, tier, seed)
                except Err as e: print(f"ERROR {p}: {e}"); r = 2
                bad |= r; sys.stdout.flush()
            return bad
        if m in ("quick", "thorough"): return run_check(sys.argv[2], m, seed)
    except Err as e:
        print("CHECK ERROR: " + str(e)); return 2
    print(__doc__); return 2
if __name__ == "__main__": sys.exit(main())
