"""Proof items: one contract harness on one program (a module of classes)."""
from __future__ import annotations


class Item:
    def __init__(self, prop, id, case, run, budget=10.0, bounded=None, max_paths=3000, seeds=None, vacuous_ok=False):
        self.prop, self.id, self.case, self.run = prop, id, case, run
        self.budget = budget
        self.max_paths = max_paths
        self.bounded = bounded            # reason: only a bounded native check is attempted
        self.seeds = seeds

    def __repr__(self):
        return f"{self.prop}:{self.id}"


REGISTRY: dict = {}


def prop(pid):
    def reg(fn):
        REGISTRY[pid] = fn
        return fn
    return reg


def items(pid, tier="quick"):
    from . import props, props2, props3, props4, props5, props6, props7, props8     # noqa: registers
    out = [props.canary(pid)]
    seen = set()
    for it in REGISTRY[pid](tier):
        assert it.id not in seen, f"duplicate item {it.id}"
        seen.add(it.id)
        out.append(it)
    return out
