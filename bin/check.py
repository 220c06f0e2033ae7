#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]      decide one property on /repo's current tree
   check.py replay <file>                    run one recorded counterexample again
   check.py build [quick|thorough]           build everything (nothing else)

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Exit 2: the check could not be carried out (never used to report a violation)."""
import json, os, re, subprocess, sys, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from targets import TARGETS, CHECKS

VERIF = vlib.VERIF
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVID, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")
ENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=5",
           UBSAN_OPTIONS="print_stacktrace=0:abort_on_error=1", GLOG_minloglevel="3")


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known:\s+property=(\S+)\s+sig=(\S+)\s+(.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2) + r"\Z"), m.group(3)))
    return out


def build(t):
    T = TARGETS[t]
    return vlib.build(t, T["flavour"], [os.path.join(VERIF, "harness", h) for h in T["src"]], T["dyn"], T["mcrt"], T.get("extra", ()))


def run_target(prop, t, thorough, budget):
    T = TARGETS[t]
    exe = build(t)
    out = os.path.join(EVID, f".{prop}.{t}.json")
    rdir = os.path.join(REPLAYS, prop)
    os.makedirs(rdir, exist_ok=True)
    cmd = [exe, "--out", out, "--replay-dir", rdir, "--jobs", str(os.cpu_count() or 8), "--budget", str(budget), "--max-viol", "6"]
    if thorough:
        cmd.append("--thorough")
    cmd += T.get("args", [])
    for attempt in (0, 1):
        if os.path.exists(out):
            os.unlink(out)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV, cwd=VERIF)
        if r.returncode in (0, 1) and os.path.exists(out):
            d = json.load(open(out))
            os.unlink(out)
            return exe, d
        sys.stderr.write(f"{t}: exit {r.returncode}\n{r.stdout[-1500:]}\n{r.stderr[-1500:]}\n")
        if os.path.exists(out):
            try:
                sys.stderr.write(str(json.load(open(out)).get("error", "")) + "\n")
            except ValueError:
                pass
    raise RuntimeError(f"target {t} gave no answer")


def confirm_enumr(prop, t, exe, v, thorough, n):
    path = os.path.join(REPLAYS, prop, f"{t}-{n}.json")
    json.dump({"property": prop, "target": t, "index": v["index"], "thorough": thorough, "sig": v["sig"], "message": v["msg"], "case": v["case"],
               "how": "bin/check.py replay <this file>"}, open(path, "w"), indent=1)
    try:
        r = subprocess.run([exe, "--replay", path] + TARGETS[t].get("args", []), capture_output=True, text=True, errors="replace", env=ENV, timeout=240)
        return path, r.returncode == 1
    except subprocess.TimeoutExpired:
        return path, v["sig"].endswith("/hang")


def check(prop, thorough):
    t0 = time.time()
    C = CHECKS[prop]
    os.makedirs(REPLAYS, exist_ok=True)
    shutil.rmtree(os.path.join(REPLAYS, prop), ignore_errors=True)
    kf = known_findings(prop)
    parts, viol, known = {}, [], {}
    errors = []
    for t, qb, tb in C["targets"]:
        try:
            exe, d = run_target(prop, t, thorough, tb if thorough else qb)
        except (RuntimeError, vlib.BuildError) as e:
            errors.append(f"{t}: {e}")
            continue
        parts[t] = d
        if not d.get("executions"):
            errors.append(f"{t}: nothing was executed")
        again = None
        for n, v in enumerate(d["violations"]):
            k = next((w for rx, w in kf if rx.match(t + ":" + v["sig"])), None)
            if k is not None:
                known.setdefault(k, v)
                continue
            if d["engine"] == "enumr":
                path, ok = confirm_enumr(prop, t, exe, v, thorough, n)
                if not ok:      # depends on what ran before it in the same process: must show up again in a full run
                    if again is None:
                        again = {x["sig"] for x in run_target(prop, t, thorough, tb if thorough else qb)[1]["violations"]}
                    if v["sig"] not in again:
                        errors.append(f"{t}: not reproduced: {v['sig']} {v['msg']}")
                        continue
                v = dict(v, replay=path)
            viol.append((t, v))
    tot = lambda k: sum(d.get(k, 0) for d in parts.values())
    cov = {
        "states": tot("distinct_outcomes") if not any(d["engine"] == "sched" for d in parts.values()) else
                  sum(d.get("distinct_schedules", d.get("distinct_outcomes", 0)) for d in parts.values()),
        "transitions": sum(d.get("choice_points", 0) + d.get("transitions", 0) for d in parts.values()),
        "traces_validated_against_impl": tot("executions"),
        "oracle_checks": tot("oracle_checks"),
        "exhausted_within_bounds": bool(parts) and all(d.get("exhausted") for d in parts.values()),
        "rule": C["rule"],
        "bounds": C["bounds"],
        "samples": [s for d in parts.values() for s in d.get("samples", [])][:12],
        "targets": {t: {k: v for k, v in d.items() if k not in ("violations", "samples", "property")} for t, d in parts.items()},
        "violations_found": [dict(target=t, sig=v["sig"], message=v["msg"]) for t, v in viol],
        "known_findings_seen": sorted(known),
    }
    if not cov["samples"]:
        cov["samples"] = ["none recorded"]
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    tmp = os.path.join(EVID, f".{prop}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    for k, v in known.items():
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop}: {cov['traces_validated_against_impl']} executions, {cov['states']} states, {cov['transitions']} transitions, "
          f"{cov['oracle_checks']} oracle checks, exhausted={cov['exhausted_within_bounds']}, {ev['wall_s']} s")
    for e in errors:
        print("ERROR " + e)
    if viol:
        for t, v in viol[:6]:
            print(f"  {t}:{v['sig']}: {v['msg']}")
        print(f"VIOLATION property={prop} replay={viol[0][1].get('replay', '-')}")
        return 1
    return 2 if errors else 0


def replay(path):
    text = open(path).read()
    if text.startswith("{"):
        t = json.loads(text)["target"]
    else:           # written by an explorer binary
        t = os.path.basename(re.search(r"^binary (\S+)", text, re.M).group(1)).split(".")[0]
    r = subprocess.run([build(t), "--replay", path] + TARGETS[t].get("args", []), env=ENV)
    return r.returncode


def main():
    a = sys.argv[1:]
    if a and a[0] == "replay":
        return replay(a[1])
    if a and a[0] == "build":
        for t in TARGETS:
            build(t)
        return 0
    if not a or a[0] not in CHECKS:
        sys.stderr.write(__doc__)
        return 2
    thorough = (a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")) == "thorough"
    try:
        return check(a[0], thorough)
    except vlib.BuildError as e:
        print("ERROR " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
