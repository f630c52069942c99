#!/usr/bin/env python3
"""check.py <property>: builds the harness from /repo's working tree, runs the seeded search,
writes evidence/<property>.json. Exit 0 held, 1 violation, anything else an error of the check."""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B  # noqa: E402

CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))

def known_for(prop):
    """known_findings.txt: lines 'known: property=<id> key=<harness violation key> <text>'."""
    keys = {}
    try:
        for ln in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", ln)
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return keys

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[prop]
    t0 = time.time()
    names = sorted({p["harness"] for p in spec["parts"]})
    res = B.build(names)
    for n, (ok, what) in res.items():
        if not ok:
            print(f"BUILD FAILED for harness {n}:\n{what}", file=sys.stderr)
            return 2
    build_s = time.time() - t0
    known = known_for(prop)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    nproc = max(1, min(8, os.cpu_count() or 1))
    tot = {}
    counters, faults, others, knowns, known_seed = {}, {}, {}, {}, {}
    hashes, nt, states, samples, violations = set(), set(), set(), [], []
    rule, search_s, parts_info = "", 0.0, []
    sums = ("runs", "nontrivial", "decisions", "nonzero_decisions", "context_switches", "steps", "sim_us", "determinism_rechecks", "other_stops")
    for pi, part in enumerate(spec["parts"]):
        count = part["thorough"] if tier == "thorough" else part["quick"]
        cap = part.get("cap_s", 240 if tier == "quick" else 3000)
        binary = res[part["harness"]][1]
        ts = time.time()
        procs = []
        for w in range(nproc):
            out = os.path.join(rdir, f"{prop}-{part.get('profile') or 'main'}-w{w}.replay")
            if os.path.exists(out):
                os.remove(out)
            cmd = [binary, "--prop", prop, "--profile", part.get("profile", ""), "--search", "--base", str(seed * 1000 + pi), "--first", str(w),
                   "--stride", str(nproc), "--count", str(count), "--max-seconds", str(cap), "--out", out, "--known", ",".join(known)]
            if "cpu_limit" in part:
                cmd += ["--cpu-limit", str(part["cpu_limit"])]
            procs.append((w, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=VERIF)))
        pruns, failed = 0, False
        for w, out, p in procs:
            so, se = p.communicate()
            if p.returncode not in (0, 1):
                print(f"harness {part['harness']} ended with {p.returncode}:\n{se[-4000:]}", file=sys.stderr)
                failed = True
                continue
            r = json.loads(so)
            for k in sums:
                tot[k] = tot.get(k, 0) + r[k]
            pruns += r["runs"]
            for name, dst in (("counters", counters), ("faults", faults), ("others", others), ("known", knowns)):
                for k, v in r[name].items():
                    dst[k] = dst.get(k, 0) + v
            for k, v in r["known_seed"].items():
                known_seed.setdefault(k, v)
            hashes.update((pi, h) for h in r["hashes"])
            nt.update((pi, h) for h in r["nt_hashes"])
            states.update((pi, h) for h in r["state_hashes"])
            if len(samples) < 4 and r["samples"]:
                samples.append(r["samples"][0][:1500])
            rule = r["rule"]
            if "violation" in r:
                v = r["violation"]
                # the replay file must reproduce in a fresh process
                rp = subprocess.run([binary, "--prop", prop, "--profile", part.get("profile", ""), "--replay", out], capture_output=True, text=True, cwd=VERIF)
                if rp.returncode != 1:
                    print(f"replay of {out} in a fresh process did not reproduce:\n{rp.stdout}{rp.stderr}", file=sys.stderr)
                v["inexact"] = rp.returncode != 1
                v["replay"] = os.path.relpath(out, VERIF)
                violations.append(v)
        search_s += time.time() - ts
        parts_info.append({"harness": part["harness"], "profile": part.get("profile", ""), "runs": pruns, "requested": count, "wall_s": round(time.time() - ts, 2)})
        if violations:
            break
        if failed:
            return 3
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": tot.get("runs", 0),
            "distinct_nontrivial": len(nt),
            "rule": rule + (" | " + spec["rule"] if spec.get("rule") else ""),
            "samples": samples or ["(no non-trivial run logged)"],
            "runs_and_seeds_per_hour": int(tot.get("runs", 0) / search_s * 3600) if search_s > 0 else 0,
            "simulated_seconds": round(tot.get("sim_us", 0) / 1e6, 6),
            "decisions": tot.get("decisions", 0), "non_default_decisions": tot.get("nonzero_decisions", 0),
            "scheduling_steps": tot.get("steps", 0), "context_switches": tot.get("context_switches", 0),
            "faults_injected": faults, "fault_kinds": len(faults), "counters": counters,
            "distinct_executions": len(hashes), "distinct_executions_measure": "hash of the event log with simulated times plus every context switch",
            "distinct_histories": len(states), "distinct_histories_measure": "hash of the event sequence without times",
            "determinism_rechecks": tot.get("determinism_rechecks", 0),
            "runs_ended_by_other_properties": others, "known_findings_met": knowns, "known_finding_seeds": known_seed,
            "parts": parts_info, "build_s": round(build_s, 2), "search_s": round(search_s, 2),
            "components_real": spec["real"], "components_stub": spec["stub"],
        },
        "wall_s": round(time.time() - t0, 3),
        "assumptions": spec.get("assumptions", []),
        "violations": len(violations),
    }
    ev["coverage"]["violations_found"] = [{k: v[k] for k in ("key", "seed", "msg", "replay", "decisions", "minimised", "inexact")} for v in violations]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))
    for k in sorted(knowns):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    if violations:
        v = min(violations, key=lambda x: (x["inexact"], x["minimised"]))
        print(f"{prop}: {v['key']}: {v['msg'][:600]}")
        print(f"seed {v['seed']}, {v['decisions']} non-default decisions minimised to {v['minimised']}")
        if v["inexact"]:
            print("this violation did not repeat exactly: its replay file did not reproduce it in a fresh process")
        print(f"VIOLATION property={prop} replay={v['replay']}")
        return 1
    print(f"{prop}: held in {tot.get('runs', 0)} runs ({len(hashes)} distinct executions), {sum(faults.values())} faults injected, {search_s:.1f}s")
    return 0

if __name__ == "__main__":
    sys.exit(main())
