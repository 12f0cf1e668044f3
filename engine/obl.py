"""Obligations: collected per contract over all paths."""
from __future__ import annotations
import time, traceback
import z3
from .core import *
from . import core
from . import spec


class Obs:
    def __init__(self):
        self.d = {}          # label -> {"status", "detail", "paths"}
        self.log = []

    def add(self, label, status, detail=None):
        o = self.d.setdefault(label, {"status": "discharged", "detail": None, "paths": 0})
        o["paths"] += 1
        rank = {"discharged": 0, "undecided": 1, "refuted": 2}
        if rank[status] > rank[o["status"]]:
            o["status"], o["detail"] = status, detail


OBS = Obs()
CUR = {"prefix": "", "timeout": 12000}


def ensure(label, goal, hyps=()):
    """one proof obligation on the current path"""
    goal = bex(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
    CTX.solver.push()
    npc = len(CTX.pc)
    t = time.time()
    try:
        for h in hyps:
            CTX.assume(h)
        st, det = CTX.prove(goal, timeout=CUR["timeout"] if CUR.get("failed", 0) < 2 else 2500)
        if st != "discharged" and det and det.startswith(("counter-model on a path with abstracted", "solver: out of resources")):
            OBS.add(label, "undecided", det)
        elif st != "discharged":
            if CTX.infeasible():
                st = "discharged"
                OBS.add(label, st)
            else:
                CUR["failed"] = CUR.get("failed", 0) + 1
                OBS.add(label, "refuted", (det or "") + "\ngoal: " + str(z3.simplify(goal))[:600])
        else:
            OBS.add(label, "discharged")
    finally:
        CTX.solver.pop()
        del CTX.pc[npc:]
    if CUR.get("verbose"):
        print("   ", label, st, f"{time.time() - t:.2f}s", flush=True)
    return st == "discharged"


def key_hints(goal, *ks):
    """ground terms (position of the key of element k) that make the solver use the definition of a grouping"""
    out, seen, todo = [], set(), [bex(goal)]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e):
            inv = CTX.groups.get(e.decl().name())
            if inv is not None and not any(z3.is_var(a) for a in e.children()):
                for k in ks:
                    out.append(z3.Int(CTX.name("hint")) == inv(*e.children(), k))
            todo += e.children()
    return out


def ensure_same(label, got, want, hyps=()):
    gs = spec.goals(got, want, label, hyps)
    if not gs:
        OBS.add(label, "discharged")
    for h, g, l in gs:
        ensure(l, g, h)


def ensure_all(label, gs):
    for h, g, l in gs:
        ensure(label + ": " + l, g, h)


def require(e):
    CTX.assume(bex(e))


def frame_start(allow=()):
    """from here on every write to an object of the caller is an obligation to show that the path cannot happen"""
    def hook(obj, field):
        f = field[1] if isinstance(field, tuple) else field
        d = f"{type(obj).__name__}.{f}"
        if (obj.owner, f) in allow or any(obj is a for a in allow):
            return
        CTX.frame.append(d)
        ensure("changes nothing of the caller's objects", False)
    CTX.hooks["frame"] = hook


def frame_end():
    if not CTX.frame:
        OBS.add("changes nothing of the caller's objects", "discharged")
    CTX.hooks.pop("frame", None)


from contextlib import contextmanager


@contextmanager
def given(*hyps):
    """a part of the contract under extra hypotheses; the body is skipped by the caller if they are contradictory"""
    CTX.solver.push()
    npc = len(CTX.pc)
    try:
        for h in hyps:
            CTX.assume(bex(h))
        yield not CTX.infeasible()
    finally:
        CTX.solver.pop()
        del CTX.pc[npc:]
        CTX.distinct_done = 0
        CTX.tab_done = set()
        CTX.pred_done = set()


def each(sq):
    """(position, element, hypotheses) for every element of a sequence"""
    from .seq import Items, loopvar, prefix_sum
    off = z3.IntVal(0)
    for s in sq.segs:
        if isinstance(s, Items):
            for i, x in enumerate(s.xs):
                yield z3.simplify(off + i), x, []
        elif s.flat:
            raise Unsupported("elements of a nested sequence")
        else:
            k = z3.Int(CTX.name("pos0"))
            h = [z3.And(0 <= k, k < s.n)]
            p = k
            if s.cond is not None:
                j = loopvar("c")
                p = prefix_sum(j, z3.If(s.cond(j), z3.IntVal(1), z3.IntVal(0)), k)
                h.append(s.cond(k))
            yield z3.simplify(off + p), s.fn(k), h
        off = z3.simplify(off + s.count())
