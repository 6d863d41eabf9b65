"""Contracts and the driver: explore a function, collect obligations, discharge them."""
import hashlib
import os
import subprocess
import tempfile
import time
import traceback
import z3

from .core import *
from . import interp as I
from .program import Program


class Out(object):
    def __init__(self, kind, value=None, exc=None):
        self.kind, self.value, self.exc = kind, value, exc


class Contract(object):
    """One function of /repo under contract.

    setup(v)               -> (args, kwargs); states the precondition with v.assume
    post(v, a, old, out)   states the postcondition with v.check (out: Out of the function)
    invariants(v, L)       -> [(name, condition)] of the loop L
    """
    qual = None
    # exceptions the function may raise under its precondition; anything else fails "no exception"
    raises = ()

    def __init__(self, qual=None):
        if qual:
            self.qual = qual
        self.name = self.qual

    def setup(self, v):
        raise NotImplementedError

    def post(self, v, a, old, out):
        raise NotImplementedError

    def invariants(self, v, L):
        return ()

    def candidates(self, v, L):
        return ()

    def apply(self, v, f, args, kwargs):
        raise Unsupported("no call rule for %s" % self.qual)


def old_state(v, store):
    """context manager: read the state as it was"""
    class C(object):
        def __enter__(s):
            s.cur = v.store
            v.store = dict(store)

        def __exit__(s, *a):
            v.store = s.cur
    return C()


class Result(object):
    def __init__(self, qual):
        self.qual = qual
        self.status = "proved"
        self.obligations = []      # dicts: name, where, status, backend, time, detail
        self.reason = ""
        self.paths = 0
        self.terminal = 0
        self.time = 0.0
        self.inlined, self.models, self.used, self.assumptions = [], [], [], []

    @property
    def n(self):
        return len(self.obligations)

    @property
    def discharged(self):
        return sum(1 for o in self.obligations if o["status"] == "proved")


def strip_pcs(pcs):
    seen, out = set(), []
    for c in pcs:
        if c.get_id() not in seen:
            seen.add(c.get_id())
            out.append(c)
    return out


def mentions_comp(c):
    todo, seen = [c], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x) and "#comp" in x.decl().name():
            return True
        todo.extend(x.children())
    return False


def cvc5_check(smt, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n(set-option :strings-exp true)\n" + smt)
        name = f.name
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % (timeout * 1000), name], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=timeout + 5)
        out = p.stdout.decode("utf8", "replace").strip().split("\n")[0]
        return out
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(name)


def discharge(ob, axioms, timeout=20000, use_cvc5=True):
    t0 = time.time()
    goal = z3.simplify(ob.goal)
    if z3.is_true(goal):
        return dict(status="proved", backend="simplifier", time=0.0)
    pcs = strip_pcs(ob.pcs)
    saturated = False
    reason = ""
    smt = None
    # e-matching alone first: it either proves, or stops (saturation), or runs away
    if not mentions_comp(ob.goal):
        # the definitions of built lists say nothing about anything else
        few = [c for c in pcs if not mentions_comp(c)]
        if len(few) < len(pcs):
            for opts, tm in (({"smt.mbqi": False}, 2000), ({}, 2000)):
                s = z3.Solver()
                s.set("timeout", tm)
                for k, val in opts.items():
                    s.set(k, val)
                for c in axioms + few:
                    s.add(c)
                s.add(z3.Not(ob.goal))
                if s.check() == z3.unsat:
                    return dict(status="proved", backend="z3", time=time.time() - t0)
    A, B, C = {"smt.mbqi": False}, {}, {"smt.mbqi": False, "smt.random_seed": 7, "smt.relevancy": 0}
    for opts, tm in ((A, 1000), (C, 1000), (B, 1500), (A, timeout // 2), (C, timeout // 4), (B, 4000)):
        if saturated and tm > 1500 and opts is not B:
            continue
        s = z3.Solver()
        s.set("timeout", tm)
        for k, val in opts.items():
            s.set(k, val)
        for c in axioms + pcs:
            s.add(c)
        s.add(z3.Not(ob.goal))
        r = s.check()
        if r == z3.unsat:
            return dict(status="proved", backend="z3", time=time.time() - t0)
        if r == z3.sat:
            return dict(status="refuted", backend="z3", time=time.time() - t0, detail=model_text(s.model()))
        rs = s.reason_unknown()
        reason = (reason + "; " if reason else "") + rs
        if "incomplete" in rs:
            saturated = True
    if use_cvc5:
        try:
            smt = s.to_smt2()
            out = cvc5_check(smt, 6 if saturated else max(8, timeout // 1000))
            if out == "unsat":
                return dict(status="proved", backend="cvc5", time=time.time() - t0)
            if out == "sat":
                return dict(status="refuted", backend="cvc5", time=time.time() - t0, detail="cvc5: sat")
        except Exception:
            pass
    return dict(status="unproved" if saturated else "timeout", backend="z3", time=time.time() - t0,
                detail="solver: unknown (%s)" % reason)


def model_text(m):
    out = []
    try:
        for d in list(m.decls())[:400]:
            if d.arity() == 0:
                s = "%s = %s" % (d.name(), m[d])
                if len(s) < 300:
                    out.append(s)
    except Exception:
        pass
    return "\n".join(sorted(out)[:120])


def verify(contract, repo=None, overrides=None, contracts=None, schemas=None, ext=None, timeout=20000,
           budget=300, use_cvc5=True, debug=False):
    res = Result(contract.qual)
    t0 = time.time()
    prog = Program(repo, overrides)
    found = prog.find(contract.qual)
    if found is None:
        res.status = "undecided"
        res.reason = "function not found in the current source"
        return res
    mod, cls, node = found
    v = I.Interp(prog, contracts or {}, schemas or {}, ext or {})
    v.target = contract
    v.deadline = t0 + budget
    fv = I.FuncV(mod, node, contract.qual,
                 cls=(contract.qual.rsplit(".", 1)[0] if cls is not None else None))
    for d in node.decorator_list:
        if isinstance(d, I.ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
            fv.kind = d.id
    terminal = [0]

    def one():
        a, kw = contract.setup(v)
        old = dict(v.store)
        v.pre_pcs = len(v.pcs)
        v.old_store = old
        try:
            r = v.inline(fv, list(a), dict(kw))
            out = Out("return", r)
        except I.RaiseEx as e:
            out = Out("raise", exc=e)
        terminal[0] += 1
        contract.post(v, a, old, out)

    try:
        res.paths = v.explore(one)
    except Unsupported as e:
        res.status = "undecided"
        res.reason = "outside the verified subset: %s (near %s)" % (e, v.where())
        if debug:
            print("".join(traceback.format_exc().splitlines(True)[-7:]))
    except RecursionError:
        res.status = "undecided"
        res.reason = "recursion limit"
    except z3.Z3Exception as e:
        res.status = "undecided"
        res.reason = "z3: %s" % e
        if debug:
            print("".join(traceback.format_exc().splitlines(True)[-7:]))
    except Exception as e:
        res.status = "undecided"
        res.reason = "verifier error: %s: %s" % (type(e).__name__, e)
        if debug:
            print("".join(traceback.format_exc().splitlines(True)[-7:]))
    res.terminal = terminal[0]
    res.inlined = sorted(x for x in v.inlined if x != contract.qual and not x.startswith("spec:"))
    res.models = sorted(v.used_models)
    res.used = sorted(v.used_contracts)
    res.assumptions = sorted(v.assumptions)
    seen = {}
    if res.status != "undecided":
        bad = []
        for ob in v.obls:
            key = (ob.name, ob.goal.get_id(), tuple(c.get_id() for c in ob.pcs))
            if key in seen:
                continue
            seen[key] = True
            if len(bad) >= 3:
                d = dict(status="skipped", backend="-", time=0.0, detail="after three failed obligations")
            elif time.time() - t0 > budget:
                d = dict(status="timeout", backend="-", time=0.0, detail="function budget used up")
            else:
                d = discharge(ob, v.axioms, timeout, use_cvc5)
            d.update(name=ob.name, where=str(ob.where))
            res.obligations.append(d)
            if d["status"] not in ("proved", "skipped"):
                bad.append(d)
                if debug:
                    print("FAILED", ob.name, ob.where, d["status"], d.get("detail", "")[:3000])
                    if debug == 2:
                        for c in ob.pcs:
                            print("   pc:", c)
                        print("   goal:", ob.goal)
        # vacuity: the precondition is satisfiable and some path reaches the postcondition
        if not res.obligations or not res.terminal:
            res.status = "vacuous"
            res.reason = "no obligation or no terminating path"
        elif bad:
            if any(d["status"] in ("refuted", "unproved") for d in bad):
                res.status = "failed"
            else:
                res.status = "undecided"
                res.reason = "solver timeout on %s" % bad[0]["name"]
        else:
            feas = False
            for pcs in {tuple(c.get_id() for c in ob.pcs): ob.pcs for ob in v.obls}.values():
                s = z3.Solver()
                s.set("timeout", 2000)
                for c in pcs:
                    s.add(c)
                if s.check() != z3.unsat:
                    feas = True
                    break
            if not feas:
                res.status = "vacuous"
                res.reason = "every path is infeasible"
    res.time = time.time() - t0
    return res
