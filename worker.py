"""Runs the items of one property: `worker.py sym|nat|replay PROP ...`, one JSON line per item."""
from __future__ import annotations
import base64, json, os, pickle, sys, time, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
sys.setrecursionlimit(5000)


def emit(d):
    sys.stdout.write(json.dumps(d) + "\n")
    sys.stdout.flush()


def setup(sym):
    import warnings
    warnings.simplefilter("ignore")
    from vc import instr
    if sym:
        instr.install()
        import serde  # noqa
        from vc import fmt
        fmt.install()
    else:
        instr.install_native()
        import serde  # noqa
        assert serde.__file__.startswith(instr.REPO + "/"), serde.__file__


def pick_items(prop, tier, part, n):
    """The items of one worker: whole cases, dealt round robin."""
    from vc.items import items
    groups, order = {}, []
    for it in items(prop, tier):
        k = id(it.case)
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append(it)
    out = []
    for j, k in enumerate(order):
        if j % n == part:
            out.append(groups[k])
    return out


def pack(inputs):
    try:
        return base64.b64encode(pickle.dumps(inputs)).decode()
    except Exception:
        return None


def show(x):
    try:
        return repr(x)[:2000]
    except Exception as e:
        return f"<unprintable: {e!r}>"


def watch_functions():
    """Records which functions of the package run while obligations are generated (on symbolic inputs)."""
    from vc import instr
    from vc.engine import Ctx
    seen, mon = set(), sys.monitoring
    root = os.path.join(instr.REPO, "serde") + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            if Ctx.cur is None:
                return None
            if not code.co_qualname.startswith("<"):
                seen.add(f"{code.co_filename[len(root):-3]}.{code.co_qualname}")
        return mon.DISABLE
    mon.use_tool_id(3, "vc")
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    return seen


def sym_item(it, budget, max_paths):
    from vc import engine, env
    t0 = time.time()
    d = {"id": it.id}
    try:
        if it.case is not None:
            it.case.module()

        def go():
            h = env.SymEnv(it.case)
            it.run(h)
            h.cover("end")
        r = engine.prove_all(go, budget_s=budget, max_paths=max_paths)
        d.update(status=r.status, reason=r.reason, label=r.label, detail=r.detail, paths=r.paths,
                 obls=sum(r.obls.values()), labels=r.obls, z3=r.z3, rewr=r.rewr, ground=r.ground,
                 checks=r.checks, solver_s=r.solver_s)
        if r.status == "proved" and ("end" not in r.covers or not r.obls):
            d.update(status="undecided", reason="vacuous: no execution reaches the postcondition")
        if r.status == "refuted":
            d["inputs"] = None if r.inputs is None else pack(r.inputs)
            d["show"] = None if r.inputs is None else show(r.inputs)
    except Exception as e:
        d.update(status="error", reason=f"{type(e).__name__}: {e}"[:600],
                 trace=traceback.format_exc(limit=-6)[-2500:])
    d["s"] = round(time.time() - t0, 3)
    return d


def run_sym(prop, tier, part, n, deadline):
    from vc import engine, env, instr, models
    entered = watch_functions()
    again, t_start = [], time.time()
    for group in pick_items(prop, tier, part, n):
        for it in group:
            if it.bounded:
                emit({"id": it.id, "status": "undecided", "reason": it.bounded})
                continue
            if time.time() > deadline:
                emit({"id": it.id, "status": "undecided", "reason": "time budget of the check exhausted"})
                continue
            d = sym_item(it, it.budget, it.max_paths)
            emit(d)
            if d["status"] == "undecided" and "budget" in (d.get("reason") or ""):
                again.append(it)
    # a second, longer attempt for those that ran out of time, as long as the check is not late
    late = min(deadline, t_start + (150 if tier == "quick" else 1200))
    for it in again:
        if time.time() < late:
            emit(sym_item(it, 6 * it.budget, 10 * it.max_paths))
    emit({"done": 1, "trusted": sorted(models.TRUSTED_USED), "stats": {
        "functions": instr.STATS["functions"], "generated": instr.STATS["generated"],
        "files": [os.path.basename(f) for f in instr.STATS["files"]], "entered": sorted(entered)}})


def one_native(it, seed=None, replay=None):
    """-> (status, label, detail, inputs) ; status: ok | discard | mismatch | error"""
    from vc import env
    h = None
    try:
        h = env.NatEnv(it.case, seed=seed or 0, replay=replay)
        it.run(h)
        return "ok", "", "", h.inputs
    except env.Discard:
        return "discard", "", "", None
    except env.Mismatch as e:
        return "mismatch", e.label, e.detail, h.inputs if h else None
    except Exception as e:
        return "error", f"{type(e).__name__}", f"{e}"[:500] + " || " + traceback.format_exc(limit=-4)[-1200:], \
            h.inputs if h else None


def run_nat(prop, tier, part, n, seed, count, deadline):
    for group in pick_items(prop, tier, part, n):
        for it in group:
            d = {"id": it.id, "ran": 0, "discarded": 0}
            k = it.seeds or count
            for s in range(k):
                if time.time() > deadline and s >= 1:
                    break
                st, label, detail, inputs = one_native(it, seed=seed * 1000003 + s)
                if st == "discard":
                    d["discarded"] += 1
                    continue
                d["ran"] += 1
                if st != "ok":
                    d.update(status=st, label=label, detail=detail, inputs=pack(inputs) if inputs is not None else None,
                             show=show(inputs), seed=seed * 1000003 + s)
                    break
            else:
                d["status"] = "ok"
            d.setdefault("status", "ok")
            emit(d)
    emit({"done": 1})


def find(prop, tier, iid):
    from vc.items import items
    for it in items(prop, tier):
        if it.id == iid:
            return it
    raise SystemExit(f"no item {iid}")


def replay(jobs):
    """jobs: [{prop, tier, id, inputs|None, seeds}] -> one line each."""
    for j in jobs:
        it = find(j["prop"], j["tier"], j["id"])
        d = {"id": j["id"]}
        if j.get("inputs"):
            try:
                it.case and it.case.module()
                inputs = pickle.loads(base64.b64decode(j["inputs"]))
                st, label, detail, _ = one_native(it, replay=inputs)
                d.update(status=st, label=label, detail=detail, how="counterexample", inputs=j["inputs"], show=show(inputs))
            except Exception as e:
                d.update(status="unreplayable", detail=f"{type(e).__name__}: {e}"[:300])
        else:
            d["status"] = "none"
        if d["status"] not in ("mismatch", "error"):
            for s in range(j.get("seeds", 0)):
                st, label, detail, inputs = one_native(it, seed=77000000 + s)
                if st in ("mismatch", "error"):
                    d.update(status=st, label=label, detail=detail, how="random search", seed=77000000 + s,
                             inputs=pack(inputs) if inputs is not None else None, show=show(inputs))
                    break
        emit(d)


if __name__ == "__main__":
    mode = sys.argv[1]
    if mode == "setup":
        setup(True)
    elif mode == "sym":
        setup(True)
        run_sym(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), time.time() + float(sys.argv[6]))
    elif mode == "nat":
        setup(False)
        run_nat(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7]),
                time.time() + float(sys.argv[8]))
    elif mode == "replay":
        setup(False)
        replay(json.load(sys.stdin))
