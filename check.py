#!/usr/bin/env python3
"""Decide one property: check.py ID [--thorough] [--keep]

Builds the harness (with /repo's current sources) to LLVM IR, executes its
entry points symbolically with engine/, replays what it finds natively, and
writes evidence/ID.json. Exit 0: held; 1: violated; 2: no answer."""
import fcntl, glob, json, os, shutil, subprocess, sys, time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from config import CHECKS

def sh(cmd, **kw):
    return subprocess.run(cmd, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def must(cmd, what):
    r = sh(cmd)
    if r.returncode:
        print(r.stdout[-6000:])
        print(f"cannot {what}")
        sys.exit(2)

def build(variant):
    must(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", "engine/Cargo.toml"], "build the engine")
    must(["./build.sh", variant], "build the harness with /repo")
    must(["native/mk.sh", variant], "build the native replay")

def write_replay(path, entry, tier, v):
    with open(path, "w") as f:
        f.write(f"entry {entry}\ntier {tier}\ninput {','.join(map(str, v['input']))}\nsched {','.join(map(str, v['sched']))}\n")

def native(variant, path):
    try:
        r = subprocess.run([f"{HERE}/target/{variant}/replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired:
        return 124, ""
    return r.returncode, r.stdout.decode("utf-8", "replace")

def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = int(thorough)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = [a[8:] for a in sys.argv if a.startswith("--entry=")]
    t0 = time.time()
    groups = CHECKS[pid]
    if isinstance(groups, tuple):
        groups = [groups]
    os.makedirs(f"{HERE}/replays", exist_ok=True)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    os.makedirs(f"{HERE}/target", exist_ok=True)
    lock = open(f"{HERE}/target/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    known = json.load(open(f"{HERE}/known_findings.json"))["findings"]
    for old in glob.glob(f"{HERE}/replays/{pid}-*"):
        os.remove(old)
    total = Counter()
    funcs, errors, per_entry, samples = set(), Counter(), [], []
    found, known_hit, unconfirmed = [], [], []
    validated = 0
    all_complete = True
    nreplay = 0
    for variant, entries in groups:
        build(variant)
        for entry, tq, tt, bounds in entries:
            if only and entry not in only:
                continue
            out = f"{HERE}/target/run-{pid}"
            shutil.rmtree(out, ignore_errors=True)
            e0 = time.time()
            limit = tt if thorough else tq
            try:
                r = subprocess.run([f"{HERE}/engine/target/release/lisym", "--ll", f"{HERE}/target/{variant}/h.ll",
                    "--entry", entry, "--jobs", "8", "--out", out, "--time", str(limit), "--tier", str(tier),
                    "--seed", str(seed), "--sample", "7", "--audit", "0.02" if thorough else "0.002"],
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit + 240, cwd=HERE)
                rc, log = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                subprocess.run(["pkill", "-9", "-f", out])
                rc, log = 0, "stopped: a single path exceeded the time limit"
            t = Counter()
            viols, smp = {}, []
            complete = rc == 0
            parts = glob.glob(out + "/part*")
            for p in parts:
                d = json.load(open(p))
                complete &= d["complete"] and not d["errors"]
                for k, x in d.items():
                    if isinstance(x, (int, float)) and not isinstance(x, bool) and k not in ("max_path", "called_total", "left"):
                        t[k] += x
                for v in d["viols"]:
                    key = (v["kind"], v["msg"], " < ".join(v["stack"][:3]))
                    if key not in viols or len(v["input"]) < len(viols[key]["input"]):
                        viols[key] = v
                smp += d["samples"]
                funcs.update(d["called"])
                for e in d["errors"]:
                    errors[f"{entry}: {e}"] += 1
            if "stopped:" in log or not parts:
                complete = False
            if rc not in (0,) or not parts:
                print(log[-3000:])
                errors[f"{entry}: engine ended with {rc}"] += 1
            shutil.rmtree(out, ignore_errors=True)
            total.update(t)
            all_complete &= complete
            # the engine's account against native execution of the same code
            tmp = f"{HERE}/target/sample-{pid}.txt"
            for s in smp[: (40 if thorough else 10)]:
                write_replay(tmp, entry, tier, s)
                rc, text = native(variant, tmp)
                obs = [int(l[4:]) for l in text.splitlines() if l.startswith("OBS ")]
                want = [x for x in s["obs"]]
                if rc == 0 and obs == want:
                    validated += 1
                    if len(samples) < 6:
                        samples.append({"entry": entry, "input": s["input"], "schedule": s["sched"], "observed": obs[:24]})
                else:
                    errors[f"{entry}: native execution of input {s['input']} sched {s['sched']} differs: {text[-300:]} want {want[:20]}"] += 1
            if os.path.exists(tmp):
                os.remove(tmp)
            for key, v in sorted(viols.items(), key=lambda kv: len(kv[1]["input"])):
                nreplay += 1
                path = f"{HERE}/replays/{pid}-{nreplay}.txt"
                write_replay(path, entry, tier, v)
                rc, text = native(variant, path)
                with open(path, "a") as f:
                    f.write(f"# run: target/{variant}/replay {path}   (built by: ./build.sh {variant} && native/mk.sh {variant})\n")
                    f.write(f"# engine: {key[0]}: {key[1]}\n# at: {' < '.join(v['stack'][:12])}\n")
                    for l in text.splitlines()[-40:]:
                        f.write("# native: " + l + "\n")
                k = [x for x in known if x["property"] == pid and x["entry"] == entry and x["msg"] == key[1]
                     and all(v["input"][int(i)] == b for i, b in x.get("when", {}).items() if int(i) < len(v["input"]))]
                if rc != 1:
                    unconfirmed.append((entry, key, path, text[-300:]))
                elif k:
                    known_hit.append(k[0])
                else:
                    found.append((entry, key, path, text))
            per_entry.append({"entry": entry, "variant": variant, "bounds": bounds, "complete": complete, "paths": t["paths"],
                "infeasible": t["infeasible"], "instructions": t["insts"], "branch_decisions": t["forks"] + t["pruned"],
                "assertions": t["checks_sym"] + t["checks_conc"], "solver_queries": t["queries"],
                "solver_s": round(t["solver_s"], 2), "wall_s": round(time.time() - e0, 1)})
            print(f"{entry}: {'complete' if complete else 'NOT complete within its limits'}, {t['paths']} paths, "
                  f"{t['queries']} queries, {t['solver_s']:.1f} s in the solver, {time.time() - e0:.1f} s")
    cov = {
        "states": total["paths"] + total["infeasible"],
        "transitions": total["forks"] + total["pruned"],
        "traces_validated_against_impl": validated,
        "samples": samples,
        "exhaustive": bool(all_complete),
        "explanation": "states = paths explored symbolically (each stands for all inputs satisfying its path condition); transitions = branch decisions taken on symbolic conditions; traces validated = solver models of completed paths executed natively with identical observations",
        "functions_encoded": sorted(funcs),
        "entries": per_entry,
        "solver_queries": total["queries"],
        "solver_time_s": round(total["solver_s"], 2),
        "assertions_decided": total["checks_sym"] + total["checks_conc"],
        "instructions_executed_symbolically": total["insts"],
        "not_decided": [f"{n}x {e[:300]}" for e, n in errors.most_common(20)],
    }
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": ["bounds: " + e["entry"] + ": " + e["bounds"] for e in per_entry]
            + ["the environment model in harness/src/env.rs and harness/src/screen.rs; rustc's LLVM IR at opt-level 1; z3"],
        "wall_s": round(time.time() - t0, 1), "violations": len(found),
    }
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    for e, n in errors.most_common(10):
        print(f"note: not decided ({n}x): {e[:400]}")
    seen = set()
    for k in known_hit:
        if k["what"] not in seen:
            seen.add(k["what"])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for entry, key, path, text in found:
        print(f"{entry}: {key[0]}: {key[1]} at {key[2]}")
        print(f"VIOLATION property={pid} replay={path}")
    if found:
        sys.exit(1)
    for u in unconfirmed:
        print("UNCONFIRMED", u)
    if unconfirmed or total["paths"] == 0 or any("differs" in e for e in errors):
        sys.exit(2)
    print(f"{pid} held on everything explored ({total['paths']} paths, {time.time() - t0:.0f} s)")

main()
