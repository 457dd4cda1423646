#!/opt/venv/bin/python
"""Decide one property by runtime monitoring of /repo's current tree.

    check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N]

exit 0: every observation was allowed by the property
exit 1: a violation was observed (VIOLATION line, replay file)
exit 2: the check could not observe what it needs (no verdict)
"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    """Fix the environment before anything is imported"""
    want = {
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "MPLBACKEND": "Agg",
        "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
    }
    py = "/opt/venv/bin/python"
    if os.environ.get("_RV_CHILD") != "1":
        env = dict(os.environ, _RV_CHILD="1", **want)
        env.setdefault("MPLCONFIGDIR", "/tmp/rv-mpl")
        env["PYTHONPATH"] = os.environ.get("VERIF_REPO", "/repo")
        os.execve(py, [py] + [os.path.abspath(sys.argv[0])] + sys.argv[1:], env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--only", help="only cases with this kind")
    ap.add_argument("--selftest", action="store_true", help="check the oracles against each other")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    reexec()

    sys.path.insert(0, HERE)
    from rv import core

    t0 = time.time()
    import freegs

    if not os.path.realpath(freegs.__file__).startswith(os.path.realpath(core.REPO) + "/"):
        print("ERROR: freegs imported from", freegs.__file__)
        return 2

    if args.selftest:
        from rv import selftest

        return selftest.main()
    module = importlib.import_module("props." + args.prop.lower())
    if args.replay:
        cases = [json.load(open(args.replay))["case"]]
    else:
        cases = module.cases(args.tier, args.seed)
        if args.only:
            cases = [c for c in cases if c.get("kind") == args.only]

    results = core.run_cases(module, args.prop, cases, args.jobs)

    known = core.known_findings(args.prop)
    events, states, skips, margins, samples = {}, set(), {}, {}, []
    lines = set()
    violations, found = [], {}
    for case, res in zip(cases, results):
        for k, v in res["events"].items():
            events[k] = events.get(k, 0) + v
        states.update(res["states"])
        lines.update(tuple(v) for v in res.get("lines", ()))
        for s in res["skips"]:
            skips[s] = skips.get(s, 0) + 1
        for k, v in res["margins"].items():
            margins[k] = max(margins.get(k, 0.0), v)
        if res["samples"] and len(samples) < 4:
            samples.append({"case": core._plain(case), "observed": res["samples"][0]})
        for v in res["violations"]:
            key = "%s|%s" % (v["rule"], case.get("key", case.get("kind", "")))
            if key in known:
                found[key] = found.get(key, 0) + 1
            else:
                violations.append((case, v))

    for key in sorted(found):
        print("KNOWN-FINDING: property=%s %s (observed %d times)" % (args.prop, known[key], found[key]))

    wall = time.time() - t0
    nontrivial = sum(1 for r in results if r["states"])
    evidence = {
        "property": args.prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(cases),
            "distinct_nontrivial": len(states),
            "rule": module.RULE,
            "samples": samples,
            "cases_judged": nontrivial,
            "cases_by_kind": {
                k: sum(1 for c in cases if c.get("kind", "") == k)
                for k in sorted({c.get("kind", "") for c in cases})
            },
            "oracle_evaluations": sum(events.values()),
            "events": dict(sorted(events.items())),
            "inconclusive": skips,
            "largest_error_over_tolerance": {
                k: float("%.3g" % v) for k, v in sorted(margins.items())
            },
            "code_executed": core.cover.report(core.REPO, lines),
            "violations": len(violations),
            "known_findings_observed": found,
            "slowest_case_s": round(max([r["seconds"] for r in results] or [0]), 2),
        },
        "wall_s": round(wall, 2),
    }
    if not args.replay and not args.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", args.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

    if os.environ.get("VERIF_LINES"):
        json.dump(sorted(lines), open(os.path.join(os.environ["VERIF_LINES"], args.prop + ".json"), "w"))

    print(
        "%s %s seed=%d: %d cases (%d judged, %d distinct states), %d observations, %d violations, %.1fs"
        % (args.prop, args.tier, args.seed, len(cases), nontrivial, len(states),
           sum(events.values()), len(violations), wall)
    )
    if args.verbose:
        brief = {k: v for k, v in evidence["coverage"].items() if k not in ("samples", "rule")}
        print("\n".join("%s: %s" % kv for kv in brief.items()))
        slow = sorted(zip([r["seconds"] for r in results], range(len(cases))), reverse=True)[:5]
        print("slow:", [(round(s, 1), cases[i]) for s, i in slow])

    if violations:
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        shown = {}
        for n, (case, v) in enumerate(violations):
            if shown.get(v["rule"], 0) >= 2 or len(shown) > 12:
                continue
            shown[v["rule"]] = shown.get(v["rule"], 0) + 1
            path = os.path.join(d, "%s-%d.json" % (args.prop, n))
            with open(path, "w") as f:
                json.dump({"property": args.prop, "case": core._plain(case), "violation": v}, f, indent=1)
            print("  rule %s: %s" % (v["rule"], json.dumps(v["detail"])[:700]))
            print("VIOLATION property=%s replay=%s" % (args.prop, path))
        return 1
    need = getattr(module, "REQUIRED_EVENTS", ())
    missing = [k for k in need if not events.get(k)]
    if (missing or not states) and not args.replay and not args.only:
        print("NO VERDICT: nothing observed for", missing or "any rule")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
