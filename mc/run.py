"""Entry point:  python -m mc.run C01 [--tier quick|thorough] | python -m mc.run --replay FILE"""
import argparse
import importlib
import json
import os
import sys
import time
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.json")


def load(prop):
    import torch

    torch.set_num_threads(1)
    warnings.simplefilter("ignore")
    return importlib.import_module(f"mc.checks.{prop.lower()}")


def known_findings(prop):
    with open(FINDINGS) as f:
        data = json.load(f)
    return [e for e in data["findings"] if e["property"] == prop]


def matches(entry, v):
    """a finding is identified by the exact choices that fail and the observable that fails"""
    return all(v["cfg"].get(k) == val for k, val in entry["cfg"].items()) and entry["message_has"] in v["message"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from mc import engine

    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        mod = load(d["property"])
        r1 = engine.execute(mod.run, d["cfg"])
        r2 = engine.execute(mod.run, d["cfg"])
        print(json.dumps(dict(cfg=d["cfg"], violations=r1["viol"], error=r1["error"]), indent=1))
        if r1["viol"] != r2["viol"]:
            print("replay is not deterministic")
            return 2
        return 1 if r1["viol"] else (2 if r1["error"] else 0)

    prop, tier = a.prop, a.tier
    mod = load(prop)
    findings = known_findings(prop)
    budget = float(os.environ.get("VERIF_BUDGET", "800" if tier == "quick" else "20000"))
    deadline = t0 + budget
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    R = engine.explore(lambda ch: mod.gen(ch, tier), mod.run, deadline, jobs=a.jobs,
                       chunk=getattr(mod, "CHUNK", 4), progress=500 if a.verbose else None,
                       ignore=lambda v: any(matches(e, v) for e in findings))
    if R["errors"]:
        for cfg, e in R["errors"][:2]:
            print("HARNESS ERROR", json.dumps(cfg), "\n", e)

    # a counterexample only counts when it fails again
    shown, news = [], []
    for v in R["viol"]:
        hit = next((e for e in findings if matches(e, v)), None)
        if hit is not None:
            if hit not in shown:
                shown.append(hit)
        else:
            news.append(v)
    for e in shown:
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    rdir = os.path.join(VERIF, "evidence", "replay")
    for v in news[:10]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{engine.cfg_hash(v['cfg'])}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, choices=v["trail"], cfg=v["cfg"], message=v["message"],
                           replay_cmd=f"bash /verif/check.sh --replay {path}"), f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"   {v['message']}   at {json.dumps(v['cfg'])[:400]}")

    cov = dict(
        states=R["nodes"],
        transitions=R["calls"],
        traces_validated_against_impl=R["executed"],
        evaluations=R["comparisons"],
        distinct_nontrivial=len(R["outcomes"]),
        rule=mod.RULE + "  states: nodes of the choice tree visited; transitions: calls of the real API executed; "
        "traces_validated_against_impl: complete choice sequences executed on the implementation and compared "
        "with the reference model; evaluations: scalar comparisons; distinct_nontrivial: distinct expected outcomes "
        "(5 significant digits) among them.",
        samples=R["samples"],
        exhaustive=bool(R["complete"]),
        leaves_of_choice_tree=R["leaves"],
        choice_sequences_pruned_as_outside_the_space=R["pruned"],
        worst_error_over_tolerance=dict(ratio=R["maxratio"], where=R["worst"], cfg=R["worst_cfg"]),
        bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        **R["notes"],
    )
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=mod.LEVEL, coverage=cov,
        wall_s=round(time.time() - t0, 2), violations=len(news), assumptions=mod.ASSUMPTIONS,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {R['executed']}/{R['leaves']} executions, {R['nodes']} states, {R['calls']} API calls, "
          f"{R['comparisons']} comparisons, {len(R['outcomes'])} distinct outcomes, exhaustive={R['complete']}, "
          f"worst error/tolerance {R['maxratio']:.3g} ({R['worst']}), {time.time() - t0:.1f} s")
    if news:
        return 1
    if R["errors"]:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
