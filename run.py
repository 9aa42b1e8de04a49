#!/usr/bin/env python3
"""Decide one property:  python3-vt run.py C01 [--tier quick|thorough] [--case REGEX]

exit 0  no violation found        (obligations the analysis cannot decide are counted, never reported as violations)
exit 1  VIOLATION lines printed
exit 2  the analysis could not be carried out (nothing could be decided)
"""
import argparse
import collections
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "ana"))
sys.dont_write_bytecode = True
CASES = []


def work(i):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    c = CASES[i]
    try:
        return i, c.run()
    except BaseException as e:  # noqa
        return i, ([{"status": "internal", "label": "case", "detail": f"{type(e).__name__}: {e}", "loc": "",
                     "case": c.name, "rule": None, "path": [], "subst": {}}],
                   {"partitions": 0, "visited": [], "case": c.name, "time": 0})


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) construct=(\S+) label=(\S+) (.*)", line)
            if m and m[1] == prop:
                out.append({"construct": m[2], "label": m[3], "text": m[4]})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    budget = 480 if a.tier == "quick" else 820
    mod = importlib.import_module("spec." + a.prop.lower())
    for c in mod.CASES:
        if c.tier == "thorough" and a.tier != "thorough":
            continue
        if a.case and not re.search(a.case, c.name):
            continue
        CASES.append(c)
    recs, infos = [], []
    pool = mp.get_context("fork").Pool(a.jobs, maxtasksperchild=40)
    left = set(range(len(CASES)))
    try:
        it = pool.imap_unordered(work, range(len(CASES)))
        while left:
            try:
                i, (r, info) = it.next(timeout=max(1, budget - (time.time() - t0)))
            except mp.TimeoutError:
                break
            left.discard(i)
            recs += r
            infos.append(info)
    finally:
        pool.terminate()
        pool.join()
    for i in left:
        recs.append({"status": "undet", "label": "case", "detail": "time budget exhausted", "loc": "",
                     "case": CASES[i].name, "rule": None, "path": [], "subst": {}})
    order = {c.name: k for k, c in enumerate(CASES)}
    recs.sort(key=lambda r: order.get(r["case"], 0))

    cnt = collections.Counter(r["status"] for r in recs)
    functions = sorted({f for i in infos for f in i["visited"]})
    known = known_findings(a.prop)
    viol, found = [], collections.OrderedDict()
    for r in recs:
        if r["status"] != "violation":
            continue
        k = next((k for k in known if k["construct"] in (r["loc"] or "") and re.search(k["label"], r["label"])), None)
        if k:
            found.setdefault(k["text"], r)
        else:
            viol.append(r)
    for text in found:
        print(f"KNOWN-FINDING: property={a.prop} {text}")

    evdir = os.path.join(ROOT, "evidence")
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(a.prop + "-"):
            os.remove(os.path.join(rdir, f))
    # one line per violated construct
    groups = collections.OrderedDict()
    for r in viol:
        groups.setdefault((r["loc"], re.sub(r"[\[\]0-9]+", "", r["label"])), []).append(r)
    for n, ((loc, _), rs) in enumerate(groups.items()):
        if n >= 12:
            print(f"... and {len(groups) - n} more violated constructs")
            break
        r = rs[0]
        path = os.path.join(rdir, f"{a.prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": a.prop, "construct": loc, "obligation": r["label"], "detail": r["detail"],
                       "scenario": r["case"], "partition": r["path"], "substitution": r["subst"],
                       "rule": r["rule"], "also_in": sorted({x["case"] for x in rs})[:40],
                       "replay": f"python3-vt run.py {a.prop} --tier {a.tier} --case '^{re.escape(r['case'])}$'"}, f, indent=1)
        print(f"VIOLATION property={a.prop} replay={path}")
        print(f"  construct: {loc or '(result of the scenario)'}")
        print(f"  scenario {r['case']}, obligation {r['label']}: {r['detail'][:1500]}")
        if r["path"]:
            print(f"  path: {'; '.join(r['path'][-6:])}")

    und = [r for r in recs if r["status"] in ("undet", "internal", "anchor")]
    if und:
        why = collections.Counter(re.sub(r"\d+", "#", r["detail"][:110]) for r in und)
        print(f"undetermined: {len(und)} obligations in {len({r['case'] for r in und})} scenarios (not decided, not alarms)")
        for k, v in why.most_common(10 if a.v else 3):
            print(f"  {v} x {k}")
        if a.v:
            for r in und[:40]:
                print("   ", r["case"], r["label"], r["detail"][:400], r["loc"])
    decided_cases = {r["case"] for r in recs if r["status"] in ("ok", "violation")}
    rules = sorted({(r["rule"] or "") for r in recs} - {""})
    oks = [r for r in recs if r["status"] == "ok"]
    samples = [{"scenario": r["case"], "obligation": r["label"], "result": r["status"], "construct": r["loc"]}
               for r in (oks[::max(1, len(oks) // 6)] + viol[:4])[:12]]
    distinct = len({(r["case"], r["label"]) for r in recs if r["status"] in ("ok", "violation")})
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": getattr(mod, "RULE", (mod.__doc__ or "").strip()) + (
                "  Each scenario is the abstract interpretation of library source over symbolic sizes, ranks, seeds and "
                "array contents; an obligation is one comparison of an inferred value with its specification in one "
                "trace partition."),
            "scenarios": len(CASES), "scenarios_decided": len(decided_cases),
            "trace_partitions": sum(i["partitions"] for i in infos),
            "obligations": len(recs), "discharged": cnt["ok"], "violated": cnt["violation"],
            "undetermined": len(und), "distinct_obligations": distinct,
            "functions_analysed": functions, "rules": rules,
            "undetermined_reasons": dict(collections.Counter(re.sub(r"\d+", "#", r["detail"][:120]) for r in und).most_common(8)),
            "samples": samples,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "the models of numpy/scipy in ana/ describe exact (real) arithmetic",
            "tensor orders are those instantiated by the scenarios; sizes, ranks, seeds and contents are arbitrary"],
        "wall_s": round(time.time() - t0, 2), "violations": len(groups),
    }
    with open(os.path.join(evdir, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.prop}: {len(CASES)} scenarios, {sum(i['partitions'] for i in infos)} partitions, {len(recs)} obligations: "
          f"{cnt['ok']} hold, {cnt['violation']} violated, {len(und)} undetermined; "
          f"{len(functions)} functions analysed in {time.time() - t0:.1f}s")
    if groups:
        return 1
    if CASES and not decided_cases:
        print("nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
