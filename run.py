#!/opt/venv/bin/python
"""One check: discharges every proof obligation of a property against /repo's current source, replays
each counterexample on the unmodified code, cross-checks every program on CPython, writes evidence.

  run.py PROPERTY [quick|thorough]      exit 0 held, 1 VIOLATION, 2 the check itself is broken
  run.py --replay FILE                  runs a recorded violation again
"""
from __future__ import annotations
import collections, json, os, subprocess, sys, tempfile, time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
JOBS = max(2, min(8, os.cpu_count() or 8))
TIERS = {
    # sym budget s, native budget s, native runs per item, extra runs for undecided / refuted items
    "quick": dict(sym=420, nat=420, runs=6, extra=120, hard=780),
    "thorough": dict(sym=1500, nat=1500, runs=150, extra=1500, hard=5400),
}


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="", PYTHONWARNINGS="ignore")
    e.setdefault("VC_REPO", "/repo")
    return e


def spawn(args, out):
    return subprocess.Popen([PY, "-s", os.path.join(HERE, "worker.py"), *map(str, args)], stdout=out,
                            stderr=subprocess.PIPE, env=env(), cwd=HERE)


def gather(procs, deadline):
    """-> (rows by item id, final rows, errors)"""
    rows, final, errors = {}, [], []
    for p, f in procs:
        try:
            _, err = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
        f.seek(0)
        done = False
        for line in f.read().decode().splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("done"):
                done = True
                final.append(d)
            else:
                rows[d["id"]] = d
        if not done:
            errors.append((err or b"").decode(errors="replace")[-1500:])
        f.close()
    return rows, final, errors


def replay_jobs(jobs, deadline):
    """Runs the jobs on the unmodified code, in parallel."""
    out = {}
    if not jobs:
        return out
    procs = []
    for k in range(JOBS):
        part = jobs[k::JOBS]
        if not part:
            continue
        f = tempfile.TemporaryFile()
        p = subprocess.Popen([PY, "-s", os.path.join(HERE, "worker.py"), "replay"], stdin=subprocess.PIPE, stdout=f,
                             stderr=subprocess.PIPE, env=env(), cwd=HERE)
        p.stdin.write(json.dumps(part).encode())
        p.stdin.close()
        p.stdin = None
        procs.append((p, f))
    for p, f in procs:
        try:
            p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        f.seek(0)
        for line in f.read().decode().splitlines():
            d = json.loads(line)
            out[d["id"]] = d
        f.close()
    return out


def known(pid):
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            k = json.load(f)
    except FileNotFoundError:
        return []
    return [x for x in k.get("findings", []) if x["property"] == pid]


def write_replay(pid, tier, n, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{n}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, **v), f, indent=1)
    return path


def main():
    if sys.argv[1] == "--setup":
        # nothing is compiled: every check instruments /repo's source when it is imported
        sys.exit(subprocess.call([PY, "-s", os.path.join(HERE, "worker.py"), "setup"], env=env(), cwd=HERE))
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            v = json.load(f)
        r = replay_jobs([dict(prop=v["property"], tier=v["tier"], id=v["item"], inputs=v.get("inputs"), seeds=0)],
                        time.time() + 300)
        print(json.dumps(r.get(v["item"]), indent=1))
        sys.exit(1 if r.get(v["item"], {}).get("status") in ("mismatch", "error") else 0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    T = TIERS[tier]
    t0 = time.time()
    hard = t0 + T["hard"]
    symp, natp = [], []
    for k in range(JOBS):
        f = tempfile.TemporaryFile()
        symp.append((spawn(["sym", pid, tier, k, JOBS, T["sym"]], f), f))
    for k in range(JOBS):
        f = tempfile.TemporaryFile()
        natp.append((spawn(["nat", pid, tier, k, JOBS, seed, T["runs"], T["nat"]], f), f))
    sym, sfinal, serr = gather(symp, hard)
    nat, nfinal, nerr = gather(natp, hard)

    for e in serr + nerr:
        print("worker problem:", e, file=sys.stderr)
    if not nat:
        print(f"{pid}: no item could be run on the unmodified code")
        sys.exit(2)

    violations, undecided, spurious = [], [], []
    canary_ok = None
    # concrete cross-check
    for iid, d in nat.items():
        if iid.startswith("canary/"):
            continue
        if d["status"] in ("mismatch", "error"):
            violations.append(dict(item=iid, label=d.get("label"), detail=d.get("detail"), inputs=d.get("inputs"),
                                   show=d.get("show"), how="concrete run", found=True,
                                   program=d.get("program")))
    hit = {v["item"] for v in violations}
    # refuted obligations
    jobs = []
    for iid, d in sym.items():
        if iid.startswith("canary/"):
            canary_ok = d["status"] == "refuted"
            continue
        if d["status"] == "refuted" and iid not in hit:
            jobs.append(dict(prop=pid, tier=tier, id=iid, inputs=d.get("inputs"), seeds=T["extra"] * 3))
        elif d["status"] in ("undecided", "error"):
            undecided.append(iid)
            if iid not in hit:
                jobs.append(dict(prop=pid, tier=tier, id=iid, inputs=None, seeds=T["extra"]))
    for iid in nat:
        if iid not in sym and not iid.startswith("canary/"):
            undecided.append(iid)
            if iid not in hit:
                jobs.append(dict(prop=pid, tier=tier, id=iid, inputs=None, seeds=T["extra"]))
    # the undecided ones share what is left of the time
    rep = replay_jobs(jobs, hard)
    for j in jobs:
        iid = j["id"]
        r = rep.get(iid, {"status": "none"})
        d = sym.get(iid, {})
        if r["status"] in ("mismatch", "error"):
            violations.append(dict(item=iid, label=r.get("label") or d.get("label"), detail=r.get("detail"),
                                   inputs=r.get("inputs"), show=r.get("show"), how=r.get("how"), found=True,
                                   obligation=d.get("label"), verifier=d.get("detail")))
        elif d.get("status") == "refuted":
            if j.get("inputs") and r["status"] in ("ok", "discard"):
                # the verifier's counterexample does not fail on the real code: over-approximation
                spurious.append(iid)
                undecided.append(iid)
            elif "raised" in (d.get("detail") or "") and "Error" in (d.get("detail") or ""):
                spurious.append(iid)
                undecided.append(iid)
            else:
                violations.append(dict(item=iid, label=d.get("label"), detail=d.get("detail"), inputs=None,
                                       show=d.get("show"), how="verifier", found=False, obligation=d.get("label"),
                                       verifier=d.get("detail")))

    # verdict
    kf = known(pid)
    out, knownhits = [], []
    for v in violations:
        m = [k for k in kf if v["item"] == k["item"] and (k.get("match") or "") in
             f"{v.get('label')} {v.get('detail')}"]
        if m:
            knownhits.append(m[0])
        else:
            out.append(v)
    for k in {k["item"]: k for k in knownhits}.values():
        print(f"KNOWN-FINDING: property={pid} {k['text']}")

    proved = [d for d in sym.values() if d["status"] == "proved"]
    und = sorted(set(undecided))
    obligations = sum(d.get("obls", 0) for d in sym.values() if not d["id"].startswith("canary/")) + len(und) + len(
        {v["item"] for v in violations})
    discharged = sum(d.get("obls", 0) for d in proved)
    trusted = sorted({t for f in sfinal for t in f.get("trusted", [])})
    stats = collections.Counter()
    files, entered = set(), set()
    for f in sfinal:
        stats["functions"] = max(stats["functions"], f["stats"]["functions"])
        stats["generated"] += f["stats"]["generated"]
        files.update(f["stats"]["files"])
        entered.update(f["stats"]["entered"])
    labels = collections.Counter()
    for d in proved:
        labels.update(d.get("labels", {}))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obligations,
            "discharged": discharged,
            "checker_cmd": f"{PY} run.py {pid} {tier}",
            "trusted_base": trusted + [
                "CPython semantics of the statements and expressions the instrumentation leaves as they are",
                "z3 4.x (python bindings) as the SMT back end",
                "jinja2 rendering, dataclasses, typing, enum and beartype decorators run as they are, on concrete types",
            ],
            "programs_under_contract": len({d["id"].split("/")[0] for d in sym.values()}),
            "contract_instances": len(sym),
            "contract_instances_proved": len(proved),
            "paths": sum(d.get("paths", 0) for d in sym.values()),
            "discharged_by": {
                "z3": sum(d.get("z3", 0) for d in proved),
                "z3 simplifier": sum(d.get("rewr", 0) for d in proved),
                "syntactic identity / evaluation": sum(d.get("ground", 0) for d in proved),
            },
            "obligations_by_clause": dict(labels.most_common(40)),
            "solver_s": round(sum(d.get("solver_s", 0) for d in sym.values()), 2),
            "feasibility_queries": sum(d.get("checks", 0) for d in sym.values()),
            "functions_instrumented": stats["functions"],
            "generated_functions_instrumented": stats["generated"],
            "source_files": sorted(files),
            "functions_under_contract": sorted(entered),
            "bounded_not_proved": [
                {"item": i, "why": (sym.get(i, {}).get("reason") or "counterexample did not replay"
                                    if i in spurious or i in sym else "worker died")[:160],
                 "bound": f"{nat.get(i, {}).get('ran', 0)} + up to {T['extra']} random concrete inputs"} for i in und[:200]],
            "bounded_not_proved_count": len(und),
            "concrete_cross_check": {
                "items": len(nat), "runs": sum(d.get("ran", 0) for d in nat.values()),
                "discarded": sum(d.get("discarded", 0) for d in nat.values()),
                "interpreter": "CPython, unmodified /repo, real format libraries"},
            "canary_refuted": canary_ok,
        },
        "assumptions": [
            "machine floats are an uninterpreted ordered sort; ints are unbounded (as in Python); strings are z3 sequences",
            "programs (classes) are a covering catalogue; every input value of each program is symbolic",
            "unbounded collections are reasoned about through an arbitrary element; equal elements need not be considered "
            "separately because no operation of the verified code compares elements of one collection",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(out),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    print(f"{pid} {tier}: {len(proved)}/{len(sym)} contract instances proved, {discharged}/{obligations} obligations, "
          f"{len(und)} bounded, {ev['coverage']['concrete_cross_check']['runs']} concrete runs, {ev['wall_s']} s")
    for i in und[:10]:
        print(f"  bounded: {i}: {(sym.get(i, {}).get('reason') or sym.get(i, {}).get('detail') or '')[:200]}")
    seen = collections.Counter()
    for n, v in enumerate(sorted(out, key=lambda v: not v["found"])):
        if n < 5:
            path = write_replay(pid, tier, n, v)
            print(f"  {v['item']}: {v['label']}: {(v['detail'] or '')[:300]}")
            print(f"    inputs: {(v['show'] or '')[:300]}")
            print(f"VIOLATION property={pid} replay={path}" + ("" if v["found"] else " no-failing-input-found"))
    if out:
        sys.exit(1)
    if canary_ok is not True:
        print(f"{pid}: the canary obligation was not refuted ({canary_ok}): the check is broken")
        sys.exit(2)
    if not proved:
        print(f"{pid}: nothing proved: the check is broken")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
