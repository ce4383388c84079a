#!/usr/bin/env python3
"""check.py <property> — decide one property on /repo's current tree.

Runs the contract verifier (engine/govc) on every security level, in parallel,
for the contracts and lemmas of the property and everything they rely on.
Exit 0: every obligation discharged (or only undecided ones, whose bounded
stand-in passed).  Exit 1 with a VIOLATION line: an obligation failed.
"""
import json, os, shutil, subprocess, sys, threading, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
LEVELS = ["Security128Bit", "Security80Bit", "Security110Bit"] + ["SecurityUint%d" % i for i in (8, 7, 6, 5, 4, 3, 2, 1)]
ONE_LEVEL = {"C09", "C14"}   # level is a symbolic input (C09) or not read at all (C14)
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
ENV.setdefault("HOME", "/root")


def build_engine():
    bin_ = os.path.join(HERE, "engine", "govc")
    src = [os.path.join(HERE, "engine", f) for f in os.listdir(os.path.join(HERE, "engine")) if f.endswith(".go")]
    if os.path.exists(bin_) and all(os.path.getmtime(bin_) >= os.path.getmtime(f) for f in src):
        return bin_
    env = dict(ENV, GOFLAGS="-mod=vendor")
    subprocess.run(["go", "build", "-o", "govc.new", "."], cwd=os.path.join(HERE, "engine"), env=env, check=True)
    os.replace(os.path.join(HERE, "engine", "govc.new"), bin_)
    return bin_


RACE = {"C02", "C12", "C17"}


def build_harness(work, race=False):
    """The replay harness, linked against /repo's current tree."""
    out = os.path.join(work, "replay-race" if race else "replay")
    mod = os.path.join(work, "go.mod")
    with open(os.path.join(HERE, "harness", "go.mod.in")) as f:
        txt = f.read().replace("@REPO@", REPO)
    with open(mod, "w") as f:
        f.write(txt)
    r = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-modfile", mod, "-o", out, "."], cwd=os.path.join(HERE, "harness"),
                       env=ENV, capture_output=True, text=True)
    return (out, None) if r.returncode == 0 else (None, r.stdout + r.stderr)


# A quick check has 900 s: verification stops at VERIFY_BY, the replay at REPLAY_BY.
VERIFY_BY, REPLAY_BY = (560, 850) if TIER == "quick" else (1e9, 1e9)


STOP = threading.Event()


def run_level(govc, prop, level, work, limit, t0):
    out = os.path.join(work, level + ".json")
    t = time.time()
    limit = max(20, min(limit, VERIFY_BY - (t - t0)))
    if STOP.is_set():
        return {"level": level, "functions": [], "skipped": True, "wall": 0}
    p = subprocess.Popen([govc, "-repo", REPO, "-contracts", os.path.join(HERE, "contracts"), "-level", level,
                          "-prop", prop, "-json", out, "-budget", "120"],
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=ENV)
    end, grace, skipped = t + limit, None, False
    while True:
        try:
            err = p.communicate(timeout=0.5)[1][-2000:]
            break
        except subprocess.TimeoutExpired:
            now = time.time()
            if STOP.is_set() and grace is None:
                grace = now + 20
            if now > end or (grace and now > grace):
                skipped = now <= end
                p.kill()
                p.communicate()
                err = "time limit of %d s for one level" % limit
                break
    try:
        with open(out) as f:
            rep = json.load(f)
    except Exception:
        if skipped:
            return {"level": level, "functions": [], "skipped": True, "wall": time.time() - t}
        rep = {"level": level, "functions": [], "error": "verifier gave no report: " + err}
    if not rep.get("functions"):
        rep["functions"] = []
    rep["wall"] = time.time() - t
    known = known_findings(prop)
    if TIER == "quick" and any(x["status"] == "failed" and not any(k in x["name"] for k, _ in known)
                               for f in rep["functions"] for x in f.get("failed") or []):
        STOP.set()   # decided: the remaining levels would only repeat the violation
    return rep


def known_findings(prop):
    known = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                pat, _, what = line[len("known: property=%s " % prop):].partition(" :: ")
                known.append((pat, what))
    return known


def main():
    prop = sys.argv[1]
    t0 = time.time()
    work = os.path.join(HERE, "evidence", "work", prop)
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(work):
        if f.endswith(".json") or f == "replay.txt":
            os.unlink(os.path.join(work, f))
    govc = build_engine()
    levels = LEVELS[:1] if prop in ONE_LEVEL else LEVELS
    limit = 400 if TIER == "quick" else 3000
    with cf.ThreadPoolExecutor(8) as ex:
        reps = list(ex.map(lambda l: run_level(govc, prop, l, work, limit, t0), levels))
    failed, undecided, obl, dis, how, fns, exts, smt, smt_ms, vac = [], [], 0, 0, {}, {}, set(), {}, 0, 0
    for r in reps:
        if r.get("error"):
            undecided.append({"name": "verifier@" + r["level"], "status": "unknown", "detail": r["error"]})
        for f in r["functions"]:
            obl += f["obligations"]
            dis += f["discharged"]
            for k, n in (f.get("how") or {}).items():
                how[k] = how.get(k, 0) + n
            d = fns.setdefault(f["key"], {"kind": f["kind"], "obligations": 0, "discharged": 0, "instances": 0, "ms": 0, "levels": 0})
            d["obligations"] += f["obligations"]
            d["discharged"] += f["discharged"]
            d["instances"] += f["instances"]
            d["ms"] += f["ms"]
            d["levels"] += 1
            for x in f.get("failed") or []:
                (failed if x["status"] == "failed" else undecided).append(x)
        exts.update(r.get("externals") or [])
        for k, n in (r.get("smt") or {}).items():
            smt[k] = smt.get(k, 0) + n
        smt_ms += r.get("smt_ms", 0)
        vac += r.get("satisfiable_preconditions", 0)
    if not failed and not undecided and dis == 0:
        undecided.append({"name": "vacuity", "status": "unknown", "detail": "no obligation was generated"})
    # known findings are matched by obligation name
    known, rest = known_findings(prop), []
    for x in failed:
        hit = [w for p, w in known if p in x["name"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
        else:
            rest.append(x)
    failed = rest
    # a failed or undecided obligation: look for a failing input on the real code
    bounded, replay_txt, found = None, "", False
    if failed or undecided:
        bin_, err = build_harness(work)
        if bin_ is None:
            bounded = {"ran": False, "why": err[-2000:]}
        else:
            secs = "100" if TIER == "quick" else "600"
            if prop in RACE and TIER == "quick":
                secs = "60"
            clipped = False
            cmds = [[bin_]]
            if prop in RACE:
                rb, _ = build_harness(work, True)
                if rb:
                    # three processors: work split over the processor count leaves a rest
                    few = ["taskset", "-c", ",".join(map(str, sorted(os.sched_getaffinity(0))[:3]))] if shutil.which("taskset") else []
                    cmds.append(few + [rb, "-few"])
            try:
              for cmd in cmds:
                left = REPLAY_BY - (time.time() - t0)
                clipped = left < float(secs) + 120
                if left < 20:
                    break
                p = subprocess.run(cmd + ["-prop", prop, "-seed", str(SEED), "-secs", secs], capture_output=True, text=True,
                                   timeout=min(left, float(secs) + 150), env=ENV, cwd=work)
                txt = p.stdout + p.stderr
                if p.returncode == 0:
                    bounded = {"ran": True, "cases": txt.strip().splitlines()[-1] if txt.strip() else ""}
                else:
                    found = True
                    replay_txt = txt[:6000]
                    break
            except subprocess.TimeoutExpired as ex:
                # a replay that hangs is a violation; one cut off by the check's own deadline is not
                found = not clipped
                bounded = bounded or {"ran": False, "why": "cut off by the time limit of the check"}
                replay_txt = "the real code did not finish the replay cases:\n" + ((ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or ""))[-4000:]
    violation = bool(failed) or found
    if violation:
        path = os.path.join(work, "replay.txt")
        with open(path, "w") as f:
            f.write("property %s\n" % prop)
            if found:
                f.write("\nFAILING INPUT on the real code (rerun: %s -prop %s -seed %d):\n%s\n" % (os.path.join(work, "replay"), prop, SEED, replay_txt))
            else:
                f.write("\nno failing input was found by the replay harness: %s\n" % json.dumps(bounded))
            for x in failed + undecided:
                f.write("\nobligation %s: %s\n  %s\n" % (x["status"].upper(), x["name"], (x.get("detail") or "").replace("\n", "\n  ")))
                if x.get("model"):
                    f.write("  counterexample:\n  %s\n" % x["model"].replace("\n", "\n  "))
        print("first failed obligation: %s" % (failed + undecided)[0]["name"])
        print("VIOLATION property=%s replay=%s%s" % (prop, os.path.relpath(path, HERE), "" if found else " no-failing-input-found"))
    elif undecided:
        print("UNDECIDED: %d obligations outside the verifier's reach; bounded stand-in passed: %s" % (len(undecided), json.dumps(bounded)))
        for x in undecided[:5]:
            print("   ", x["name"], "--", (x.get("detail") or "")[:300])
    meta = json.load(open(os.path.join(HERE, "meta.json"))) if os.path.exists(os.path.join(HERE, "meta.json")) else {}
    assumptions = list(meta.get("assumptions", [])) + list(meta.get(prop, {}).get("assumptions", []))
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "python3 check.py %s" % prop,
        "trusted_base": meta.get("trusted_base", []),
        "discharged_by": how,
        "solver": {"queries": smt, "seconds": round(smt_ms / 1000, 2)},
        "levels": [r["level"] for r in reps if not r.get("skipped")],
        "levels_not_run_after_a_violation": [r["level"] for r in reps if r.get("skipped")],
        "functions_under_contract": fns,
        "satisfiable_preconditions_checked": vac,
        "external_functions_modelled": sorted(exts),
        "undecided": [x["name"] for x in undecided][:40],
    }
    if bounded is not None:
        cov["bounded_stand_in"] = bounded
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof",
          "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(failed) + (1 if found and not failed else 0)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged over %d levels, %d functions under contract, %.1f s" % (prop, dis, obl, sum(not r.get("skipped") for r in reps), len(fns), time.time() - t0))
    sys.exit(1 if violation else 0)


if __name__ == "__main__":
    main()
