"""Statements, expressions, calls and loops of the interpreter (mixed into Interp)."""
import ast
import z3

from . import core
from .core import *


def _I():
    from . import interp
    return interp


# ---------------------------------------------------------------- environments
def lookup(self, name):
    eid = self.env
    while eid is not None:
        e = self.store[eid]
        if name in e.vars:
            v = e.vars[name]
            if isinstance(v, Poison):
                raise Unsupported("use of %s after a loop" % name)
            if v is None:
                raise self.exc("UnboundLocalError", Const(name))
            return v
        if "__module__" in e.vars:
            mod = e.vars["__module__"]
            if mod is not None and name in mod.bind:
                return self.global_value(mod, name)
        eid = e.parent
    import builtins
    if hasattr(builtins, name):
        return self.builtin(name)
    raise Unsupported("name %s" % name)


def setvar(self, name, v):
    e = self.store[self.env]
    nl = e.vars.get("__nonlocal__")
    if nl and name in nl:
        eid = e.parent
        while eid is not None:
            p = self.store[eid]
            if name in p.vars:
                d = dict(p.vars)
                d[name] = v
                self.store[eid] = EnvRec(d, p.parent)
                self.writes.add((eid, name))
                return
            eid = p.parent
    d = dict(e.vars)
    d[name] = v
    self.store[self.env] = EnvRec(d, e.parent)


def module_of_env(self):
    eid = self.env
    while eid is not None:
        e = self.store[eid]
        if "__module__" in e.vars:
            return e.vars["__module__"]
        eid = e.parent
    return None


# ---------------------------------------------------------------- statements
def exec_block(self, body):
    for st in body:
        self.exec(st)


def exec(self, st):
    self.line = getattr(st, "lineno", 0)
    m = getattr(self, "st_" + type(st).__name__, None)
    if m is None:
        raise Unsupported("statement %s" % type(st).__name__)
    m(st)


def st_Pass(self, st):
    pass


def st_Expr(self, st):
    if isinstance(st.value, ast.Constant):
        return
    self.eval(st.value)


def st_Import(self, st):
    for a in st.names:
        if a.asname:
            self.setvar(a.asname, self.module_value(a.name))
        else:
            r = a.name.split(".")[0]
            self.setvar(r, self.module_value(r))


def st_ImportFrom(self, st):
    for a in st.names:
        base = st.module
        if base and base.split(".")[0] == "oa":
            m = self.prog.module(base)
            if m is not None and a.name in m.bind:
                v = self.global_value(m, a.name)
            else:
                v = ModV(base + "." + a.name)
        else:
            v = self.ext_attr(base, a.name)
        self.setvar(a.asname or a.name, v)


def st_Global(self, st):
    raise Unsupported("global statement")


def st_Nonlocal(self, st):
    e = self.store[self.env]
    d = dict(e.vars)
    d["__nonlocal__"] = tuple(d.get("__nonlocal__", ())) + tuple(st.names)
    self.store[self.env] = EnvRec(d, e.parent)


def st_Return(self, st):
    raise _I().ReturnEx(self.eval(st.value) if st.value is not None else NONE)


def st_Break(self, st):
    raise _I().BreakEx()


def st_Continue(self, st):
    raise _I().ContinueEx()


def st_If(self, st):
    if self.is_true(self.eval(st.test)):
        self.exec_block(st.body)
    else:
        self.exec_block(st.orelse)


def st_Assert(self, st):
    if not self.is_true(self.eval(st.test)):
        raise self.exc("AssertionError")


def st_Delete(self, st):
    for t in st.targets:
        if isinstance(t, ast.Subscript):
            self.delitem(self.eval(t.value), self.eval(t.slice))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            if isinstance(o, Ref) and isinstance(self.rec(o), ObjRec):
                r = self.rec(o)
                self.put(o, r.without(t.attr), t.attr)
            else:
                raise Unsupported("del attribute")
        elif isinstance(t, ast.Name):
            self.setvar(t.id, None)
        else:
            raise Unsupported("del")


def st_Assign(self, st):
    v = self.eval(st.value)
    for t in st.targets:
        self.assign(t, v)


def st_AnnAssign(self, st):
    if st.value is not None:
        self.assign(st.target, self.eval(st.value))


def st_AugAssign(self, st):
    t = st.target
    if isinstance(t, ast.Name):
        cur = self.lookup(t.id)
        self.assign(t, self.inplace(st.op, cur, self.eval(st.value)))
    elif isinstance(t, ast.Attribute):
        o = self.eval(t.value)
        cur = self.getattr(o, t.attr)
        self.setattr(o, t.attr, self.inplace(st.op, cur, self.eval(st.value)))
    elif isinstance(t, ast.Subscript):
        o = self.eval(t.value)
        k = self.eval(t.slice)
        cur = self.index(o, k)
        self.setitem(o, k, self.inplace(st.op, cur, self.eval(st.value)))
    else:
        raise Unsupported("augmented assignment")


def inplace(self, op, cur, v):
    if isinstance(cur, Ref) and not isinstance(self.rec(cur), ObjRec):
        if isinstance(op, ast.Add) and isinstance(self.rec(cur), (ListRec, SymList)):
            self.call_method(cur, "extend", [v])
            return cur
        if isinstance(op, ast.BitOr):
            self.call_method(cur, "update", [v])
            return cur
    return self.binop(op, cur, v)


def assign(self, t, v):
    if isinstance(t, ast.Name):
        self.setvar(t.id, v)
    elif isinstance(t, ast.Attribute):
        self.setattr(self.eval(t.value), t.attr, v)
    elif isinstance(t, ast.Subscript):
        if isinstance(t.slice, ast.Slice):
            raise Unsupported("slice assignment")
        self.setitem(self.eval(t.value), self.eval(t.slice), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
        items = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
        for e, x in zip(t.elts, items):
            self.assign(e, x)
    else:
        raise Unsupported("assignment target")


def unpack(self, v, n, star=False):
    if star:
        raise Unsupported("starred unpacking")
    if isinstance(v, AnyV):
        v = self.narrow(v, "obj")
    if isinstance(v, Const) and v.v is None:
        raise self.exc("TypeError")
    if isinstance(v, Tup):
        if len(v.items) != n:
            raise self.exc("ValueError")
        return v.items
    if isinstance(v, Ref):
        r = self.rec(v)
        if isinstance(r, ListRec):
            if len(r.items) != n:
                raise self.exc("ValueError")
            return r.items
        if isinstance(r, SymList):
            if not self.decide(r.n == n):
                raise self.exc("ValueError")
            return [self.from_term(self.k(z3.simplify(z3.Select(r.arr, j))), r.et) for j in range(n)]
    raise Unsupported("unpack %r" % (v,))


def st_FunctionDef(self, st):
    mod = self.module_of_env()
    f = FuncV(mod, st, "%s.<locals>.%s" % (self.stack[-1][0] if self.stack else "?", st.name), env=self.env)
    self.setvar(st.name, f)


def st_Raise(self, st):
    I = _I()
    if st.exc is None:
        cur = self.cur_exc[-1] if getattr(self, "cur_exc", None) else None
        if cur is None:
            raise self.exc("RuntimeError")
        raise I.RaiseEx(cur.cls, cur.ref, cur.site)
    v = self.eval(st.exc)
    if isinstance(v, (ClassV, ExtV)):
        v = self.call(v, [], {})
    if isinstance(v, AnyV):
        v = self.narrow(v, "obj")
    if isinstance(v, Ref):
        cls = self.rec(v).cls
        if cls.startswith("exc:"):
            cls = cls[4:]
        raise I.RaiseEx(cls, v, self.where())
    raise Unsupported("raise %r" % (v,))


def st_Try(self, st):
    I = _I()
    if not hasattr(self, "cur_exc"):
        self.cur_exc = []

    def inner():
        try:
            self.exec_block(st.body)
        except I.RaiseEx as e:
            for h in st.handlers:
                if self.handler_matches(e, h):
                    if h.name:
                        self.setvar(h.name, e.ref if e.ref is not None else self.exc(e.cls).ref)
                    depth = len(self.cur_exc)
                    self.cur_exc.append(e)
                    try:
                        self.exec_block(h.body)
                    finally:
                        del self.cur_exc[depth:]
                    return
            raise
        self.exec_block(st.orelse)
    if st.finalbody:
        try:
            inner()
        except (I.RaiseEx, I.ReturnEx, I.BreakEx, I.ContinueEx):
            self.exec_block(st.finalbody)
            raise
        self.exec_block(st.finalbody)
    else:
        inner()


def handler_matches(self, e, h):
    if h.type is None:
        return True
    hv = self.eval(h.type)
    hs = list(hv.items) if isinstance(hv, Tup) else [hv]
    for x in hs:
        m = self.exc_matches(e.cls, x)
        if m is None:
            m = self.decide(self.uf("exc_isa_" + self.exc_name(x),
                                    self.rec(e.ref).term, z3.BoolSort()))
        if m:
            return True
    return False


def st_With(self, st):
    self.with_items(st.items, st.body)


def with_items(self, items, body):
    I = _I()
    if not items:
        self.exec_block(body)
        return
    it = items[0]
    if isinstance(it.context_expr, ast.Call):
        f = self.eval(it.context_expr.func)
        fn = f.func if isinstance(f, BoundV) else f
        if isinstance(fn, FuncV) and any(
                (isinstance(d, ast.Attribute) and d.attr == "contextmanager") or
                (isinstance(d, ast.Name) and d.id == "contextmanager")
                for d in fn.node.decorator_list):
            args, kwargs = self.eval_args(it.context_expr)
            if isinstance(f, BoundV):
                args = [f.self_] + args
            env = self.env

            def hook(v):
                save, sy = self.env, self.yield_hook
                self.env, self.yield_hook = env, outer
                try:
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v)
                    try:
                        self.with_items(items[1:], body)
                    except (I.ReturnEx, I.BreakEx, I.ContinueEx) as e:
                        pending.append(e)
                finally:
                    self.env, self.yield_hook = save, sy
            pending = []
            outer = getattr(self, "yield_hook", None)
            self.yield_hook = hook
            try:
                self.inline(fn, args, kwargs, generator_ok=True)
            finally:
                self.yield_hook = outer
            if pending:
                raise pending[0]
            return
    v = self.eval(it.context_expr)
    enter = self.ext.get("with", None)
    r = enter(self, v) if enter else v
    if it.optional_vars is not None:
        self.assign(it.optional_vars, r)
    self.with_items(items[1:], body)


# ---------------------------------------------------------------- loops
class LoopInfo(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class LoopRes(object):
    pass


def assigned_names(body):
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp,
                          ast.DictComp, ast.GeneratorExp)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    return out


def st_For(self, st):
    I = _I()
    seq = self.iterate(self.eval(st.iter))
    key = ("for", id(st))
    if isinstance(seq, list):
        for x in seq:
            self.assign(st.target, x)
            try:
                self.exec_block(st.body)
            except I.ContinueEx:
                continue
            except I.BreakEx:
                return
        self.exec_block(st.orelse)
        return
    names = assigned_names(st.body) | assigned_names([st.target])
    r = self.loop(key, seq, lambda x: self.assign(st.target, x),
                  lambda: self.exec_block(st.body), names)
    if r != "break":
        self.exec_block(st.orelse)


def st_While(self, st):
    names = assigned_names(st.body) | assigned_names([ast.Expr(st.test)])
    r = self.loop(("while", id(st)), None, None, lambda: self.exec_block(st.body), names,
                  cond=lambda: self.is_true(self.eval(st.test)))
    if r != "break":
        self.exec_block(st.orelse)


def valid(self, cond, timeout=1500):
    if isinstance(cond, bool):
        return cond
    s = z3.Solver()
    s.set("timeout", timeout)
    for c in self.axioms + self.pcs:
        s.add(c)
    s.add(z3.Not(cond))
    return s.check() == z3.unsat


def hv_value(self, tag, key, t, idxterm, entry):
    if t.k in ("other", "poison"):
        return Poison(str(key))
    if t.k == "emptylist":
        return self.alloc(ListRec(()))
    if t.k == "emptydict":
        return self.alloc(DictRec((), getattr(self.rec(entry), "default", None)))
    if t.k == "emptyset":
        return self.alloc(SetRec(()))
    if t.k == "none":
        return NONE
    idx = self.idx[:-1] if self.idx and self.idx[-1] is idxterm else self.idx
    args = list(idx) + [idxterm]
    f = z3.Function("hv!%s!%s" % (tag, "_".join(str(x) for x in key)),
                    *([z3.IntSort()] * len(args) + [sort_of(t)]))
    return self.from_term(self.k(f(*args)), t, snap=False)


def havoc(self, mods, tag, idxterm, entry_vars):
    for key in sorted(mods, key=str):
        t = mods[key]
        if key[0] == "L":
            name = key[1]
            if name not in entry_vars or entry_vars[name] is None or isinstance(entry_vars[name], Poison):
                self.setvar(name, Poison(name))
            elif t.k == "same":
                continue
            else:
                self.setvar(name, self.hv_value(tag, key, t, idxterm, entry_vars[name]))
        elif key[0] == "S":
            i, field = key[1], key[2]
            rec = self.store[i] if i in self.store else None
            if isinstance(rec, EnvRec):
                d = dict(rec.vars)
                d[field] = self.hv_value(tag, key, t, idxterm, rec.vars.get(field))
                self.store[i] = EnvRec(d, rec.parent)
                self.writes.add((i, field))
                continue
            if isinstance(rec, ObjRec):
                v = self.hv_value(tag, key, t, idxterm, rec.fields.get(field, NONE))
                if isinstance(v, Poison):
                    raise Unsupported("loop-modified field %s of unknown type" % field)
                self.put(Ref(i), self.store[i].with_field(field, v), field)
            elif isinstance(i, tuple):
                v = self.hv_value(tag, key, t, idxterm, self.store[i])
                self.store[i] = v
                self.writes.add((i, None))
            else:
                tmp = self.hv_value(tag, key, t, idxterm, Ref(i))
                if isinstance(tmp, Poison):
                    raise Unsupported("loop-modified container of unknown type")
                nr = self.rec(tmp)
                if isinstance(nr, SymDict):
                    nr = nr.replace(default=getattr(rec, "default", None))
                self.put(Ref(i), nr)
        elif key[0] == "C":
            _, cls, field = key
            e = self.k(self.store.get(("epoch", cls, field), 0))if False else None
            self.store[("epoch", cls, field)] = "%s_%s" % (tag, idxterm)
            for i, r in list(self.store.items()):
                if isinstance(r, ObjRec) and r.cls == cls and not r.fresh and field in r.fields:
                    self.store[i] = r.without(field)
            self.writes.add((("epoch", cls, field), None))


def cur_value(self, key):
    if key[0] == "L":
        return self.store[self.env].vars.get(key[1])
    if key[0] == "S":
        i, field = key[1], key[2]
        r = self.store[i]
        if isinstance(r, ObjRec):
            return r.fields.get(field)
        if isinstance(r, EnvRec):
            return r.vars.get(field)
        if isinstance(i, tuple):
            return r
        return Ref(i)
    return None


def safe_type(self, v):
    if v is None or isinstance(v, Poison):
        return T("poison")
    return self.typeof(v)


def loop(self, key, seq, bind, body, names, cond=None):
    """Cut a loop by its invariants.  Returns None when it ends normally, 'break' after a break;
    raises what escapes from the body."""
    I = _I()
    tgt = self.target
    ck = (self.prefix, tuple(self.dec[:self.dpos]), key, self.nid, self.cnt)
    entry_env = self.store[self.env].vars
    info = dict(seq=seq, kind="for" if seq is not None else "while",
                origin=getattr(seq, "origin", None), n=seq.n if seq is not None else None,
                func=self.stack[-1][0] if self.stack else "?")
    # the elements are read through the state: a loop over a list it changes is out of reach
    res = self.loop_cache.get(ck)
    if res is not None:
        for (oid, f) in res.forced:
            self.getattr(Ref(oid), f)
    entry_store = dict(self.store)
    entry_vars = dict(entry_env)
    # entry: declared invariants hold for index 0
    if tgt is not None:
        L = LoopInfo(i=z3.IntVal(0), phase="entry", entry=entry_store, entry_vars=entry_vars, **info)
        for nm, c in tgt.invariants(self, L):
            self.check("invariant on entry: %s" % nm, c)
    if res is None:
        res = self.analyse_loop(ck, seq, bind, body, names, cond, info)
        self.loop_cache[ck] = res
        entry_store = res.entry_store
    self.obls.extend(res.obls)
    self.nid, self.cnt = max(self.nid, res.nid), max(self.cnt, res.cnt)
    tag = res.tag
    nexits = 1 if seq is not None else 0
    ch = self.fork(len(res.escapes) + nexits)

    def unroll(upto):
        """what every completed iteration j < upto established"""
        if res.D is None:
            return
        j = z3.Int("j!%s" % tag)
        d = z3.substitute(res.D, (res.i, j))
        ps = [p for p in (seq.pats(j) if seq is not None and seq.pats else [])]
        rng = z3.And(j >= 0, j < upto)
        kw = {"patterns": ps} if ps else {}
        try:
            self.assume(forall_([j], z3.Implies(rng, d), **kw))
        except z3.Z3Exception:
            self.assume(forall_([j], z3.Implies(rng, d)))
    applog = list(self.applog)
    bads = [("bad", mk[1], None) for mk in sorted(res.mods, key=str) if mk[0] == "S" and mk[2] is None]
    if ch < nexits:
        self.havoc(res.mods, tag, seq.n, entry_vars)
        applog += [b for b in bads if b[1] not in res.appends]
        for lid in sorted(res.appends):
            try:
                c = self.summary_list(seq, res.i, "%s_%s" % (tag, lid), res.appends[lid])
            except Unsupported:
                applog.append(("bad", lid, None))
                continue
            e = self.alloc(entry_store[lid])
            self.store[lid] = self.rec(self.list_concat(e, c))
            applog.append(("ext", lid, c))
        self.applog = applog
        if tgt is not None:
            L = LoopInfo(i=seq.n, phase="exit", entry=entry_store, entry_vars=entry_vars, **info)
            for nm, c in tgt.invariants(self, L):
                self.assume(c if not isinstance(c, bool) else z3.BoolVal(c))
            for nm, c in self.loop_candidates(tgt, L):
                if nm in res.alive:
                    self.assume(c if not isinstance(c, bool) else z3.BoolVal(c))
        unroll(seq.n)
        return None
    esc = res.escapes[ch - nexits]
    idx, w = list(self.idx), set(self.writes)
    trace = self.trace
    nid, cnt = self.nid, self.cnt
    self.restore(esc["snap"])
    self.nid, self.cnt = max(self.nid, nid), max(self.cnt, cnt)
    self.idx = idx
    self.writes = w | esc["writes"]
    done = {}
    if seq is not None:
        unroll(res.i)
        done = self.prefix_lists(res, seq, esc, tag, entry_store)
    self.applog = applog + [b for b in bads if b[1] not in done] + [("ext", l, c) for l, c in sorted(done.items())] \
        + esc["log"]
    if esc["kind"] == "break":
        return "break"
    if esc["kind"] == "exit":
        return None
    raise esc["exc"]


def prefix_lists(self, res, seq, esc, tag, entry_store):
    """at a leaving iteration i, the lists the loop only appends to: what they were at the start, what the
    iterations before i appended, then what iteration i did"""
    done = {}
    n1 = None
    for lid in sorted(res.appends):
        mine = [x for x in esc["log"] if x[1] == lid]
        if any(x[0] == "bad" for x in mine) or lid not in self.store:
            continue
        if n1 is None:
            self.cnt += 1
            n1 = self.k(z3.Int("esc!%s!%d" % (tag, self.cnt)))
            self.assume(n1 == res.i)
        try:
            c = self.summary_list(SeqV(n1, seq.at, seq.origin, seq.pats), res.i, "%s_%s_esc" % (tag, lid),
                                  res.appends[lid])
        except Unsupported:
            continue
        save = self.applog
        self.store[lid] = self.rec(self.list_concat(self.alloc(entry_store[lid]), c))
        for x in mine:
            if x[0] == "app":
                self.call_method(Ref(lid), "append", [x[2]])
            else:
                self.store[lid] = self.rec(self.list_concat(self.alloc(self.store[lid]), x[2]))
        self.applog = save
        done[lid] = c
    return done


def loop_candidates(self, tgt, L):
    for p in tgt.candidates(self, L):
        yield p
    # generic candidates: a scalar local or field keeps its sign of change
    cur = self.store[self.env].vars
    for name in sorted(L.entry_vars):
        a, b = L.entry_vars.get(name), cur.get(name)
        if isinstance(b, (Sym, Const)) and self.typeof(b).k in ("int", "real") and isinstance(a, (Sym, Const)) \
                and self.typeof(a).k in ("int", "real", "bool"):
            kind = "real" if "real" in (self.typeof(a).k, self.typeof(b).k) else "int"
            ta, tb = self.term(a, T(kind)), self.term(b, T(kind))
            yield "grow:" + name, tb >= ta
            yield "shrink:" + name, tb <= ta
        if isinstance(b, (Sym, Const)) and self.typeof(b).k == "bool" and isinstance(a, Const) and isinstance(a.v, bool):
            yield "keep:" + name, self.term(b) == z3.BoolVal(a.v)


def analyse_loop(self, ck, seq, bind, body, names, cond, info):
    I = _I()
    tgt = self.target
    self.loopno = getattr(self, "loopno", 0) + 1
    tag = "%d" % self.loopno
    res = LoopRes()
    res.tag = tag
    res.forced = []
    mods = {}
    entry_vars = dict(self.store[self.env].vars)
    for nme in names:
        v = entry_vars.get(nme)
        mods[("L", nme)] = self.safe_type(v)
    alive = None
    save_obls = self.obls
    outer_prefix = self.prefix
    rounds = 0
    while True:
        rounds += 1
        if rounds > 40:
            raise Unsupported("loop analysis does not converge")
        entry_store = dict(self.store)
        entry_vars = dict(self.store[self.env].vars)
        info2 = dict(info, entry=entry_store, entry_vars=entry_vars)
        itname = "i!%s" % tag
        if self.idx:
            i = z3.Function(itname, *([z3.IntSort()] * (len(self.idx) + 1)))(*self.idx)
        else:
            i = z3.Int(itname)
        self.k(i)
        escapes, nexts, logs = [], [], []
        newmods, forced, failed = {}, [], set()
        state = {"changed": False, "nid": self.nid, "cnt": self.cnt, "alive0": None}
        self.obls = []
        if tgt is not None and alive is None:
            L = LoopInfo(i=z3.IntVal(0), phase="entry", **info2)
            alive = set()
            for nm, c in self.loop_candidates(tgt, L):
                if self.valid(c):
                    alive.add(nm)
            # generic candidates appear only once the state is havocked; their entry is trivial
            alive.add("*generic*")
        base_writes = set(self.writes)
        nbase = [0]
        env_id = self.env
        self.prefix = (outer_prefix, tuple(self.dec[:self.dpos]), tag, rounds)

        def one():
            assumed, used = set(), set()
            self.idx = self.idx + [i]
            self.assume(i >= 0)
            if seq is not None:
                self.assume(i < seq.n)
            self.havoc(mods, tag, i, entry_vars)
            hv_writes = set(self.writes)
            if tgt is not None:
                L = LoopInfo(i=i, phase="assume", **info2)
                for nm, c in tgt.invariants(self, L):
                    assumed.add(nm)
                    self.assume(c if not isinstance(c, bool) else z3.BoolVal(c))
                for nm, c in self.loop_candidates(tgt, L):
                    if nm not in seen_cands:
                        seen_cands.add(nm)
                        if nm.split(":")[0] in ("grow", "shrink", "keep"):
                            alive.add(nm)
                    if nm in alive:
                        used.add(nm)
                        self.assume(c if not isinstance(c, bool) else z3.BoolVal(c))
            nb = len(self.pcs)
            nbase[0] = nb
            self.writes = set()
            self.applog = []
            self.forked = False
            kind, exc = "next", None
            try:
                if cond is not None and not cond():
                    kind = "exit"
                else:
                    if seq is not None:
                        bind(seq.at(i))
                    body()
            except I.ContinueEx:
                pass
            except I.BreakEx:
                kind = "break"
            except I.ReturnEx as e:
                kind, exc = "return", e
            except I.RaiseEx as e:
                kind, exc = "raise", e
            w = set(self.writes)
            self.env = env_id
            state["nid"] = max(state["nid"], self.nid)
            state["cnt"] = max(state["cnt"], self.cnt)
            # what did the body write that existed before?
            for (wid, field) in w:
                if wid in entry_store:
                    if kind != "next" and entry_store[wid] is not None and not isinstance(wid, tuple) \
                            and not (isinstance(entry_store[wid], ObjRec) and field is not None
                                     and not entry_store[wid].fresh):
                        continue      # what a leaving iteration writes is in its own state
                    mk = ("S", wid, field)
                    if isinstance(wid, tuple) and wid[0] == "epoch":
                        mk = ("C", wid[1], wid[2])
                    if isinstance(entry_store[wid], EnvRec) and wid == env_id:
                        continue
                    if mk not in mods and mk not in newmods:
                        save = self.store
                        self.store = entry_store
                        newmods[mk] = T("class") if mk[0] == "C" else self.safe_type(self.cur_value(mk))
                        self.store = save
                        if mk[0] == "S" and field is not None and isinstance(entry_store[wid], ObjRec) \
                                and newmods[mk].k == "poison":
                            # a field never read before: make its entry value explicit
                            if not entry_store[wid].fresh:
                                forced.append((wid, field))
                            del newmods[mk]
                elif wid in self.lazy:
                    o, f = self.lazy[wid]
                    while o not in entry_store and o in self.lazy:
                        o, f = self.lazy[o]
                    if o in entry_store:
                        if (o, f) not in forced:
                            forced.append((o, f))
                    else:
                        raise Unsupported("loop writes into a container of a loop element")
                elif isinstance(wid, tuple) and wid[0] in ("classattr", "global"):
                    raise Unsupported("loop writes a class attribute or global first used in it")
                elif isinstance(wid, tuple) and wid[0] == "epoch":
                    mk = ("C", wid[1], wid[2])
                    if mk not in mods:
                        newmods[mk] = T("class")
                elif wid in self.store and isinstance(self.store[wid], ObjRec) and not self.store[wid].fresh:
                    mk = ("C", self.store[wid].cls, field)
                    if mk not in mods:
                        newmods[mk] = T("class")
            if newmods or forced:
                raise I.PathEnd()
            if kind == "next":
                for mk in mods:
                    if mk[0] == "C":
                        continue
                    nt = self.safe_type(self.cur_value(mk))
                    if mk[0] == "L" and (mk[1] not in entry_vars or entry_vars[mk[1]] is None):
                        continue
                    j = nt if mods[mk].k == "poison" and False else self.join_mod(mods[mk], nt)
                    if j != mods[mk]:
                        mods[mk] = j
                        state["changed"] = True
                if state["changed"]:
                    raise I.PathEnd()
                delta = [c for c in self.pcs[nb:] if not self.quantified(c)]
                nexts.append(list(delta))
                logs.append((list(self.pcs[nb:]), list(self.applog), dict(self.store), self.forked))
                if tgt is not None:
                    L = LoopInfo(i=i + 1, phase="check", **info2)
                    kept = {"*generic*"}
                    for nm, c in self.loop_candidates(tgt, L):
                        kept.add(nm)
                        if nm in alive and not self.valid(c, 2000):
                            failed.add(nm)
                    failed.update(nm for nm in alive if nm in used and nm not in kept)
                    if not failed:
                        kept = set()
                        for nm, c in tgt.invariants(self, L):
                            kept.add(nm)
                            self.check("invariant preserved: %s" % nm, c)
                        if assumed - kept:
                            raise Unsupported("an invariant is not stated at the end of the iteration: %s" % sorted(assumed - kept))
            else:
                escapes.append(dict(kind=kind, exc=exc, snap=self.snapshot(), log=list(self.applog),
                                    writes=hv_writes | w, n=nb))
        seen_cands = set() if rounds == 1 or True else None
        seen_cands = getattr(res, "seen", set())
        res.seen = seen_cands
        self.explore(one)
        self.prefix = outer_prefix
        if forced:
            for (o, f) in forced:
                if (o, f) not in res.forced:
                    res.forced.append((o, f))
                    self.getattr(Ref(o), f)
                else:
                    raise Unsupported("cannot materialise %s" % f)
            continue
        if newmods:
            mods.update(newmods)
            continue
        if state["changed"]:
            continue
        if failed:
            alive -= failed
            continue
        break
    for mk, t in mods.items():
        if seq is not None and seq.origin is not None and mk[0] == "S" and mk[1] == seq.origin:
            self.obls = save_obls
            raise Unsupported("loop modifies the sequence it iterates over")
    res.obls = self.obls
    self.obls = save_obls
    res.mods, res.escapes, res.alive, res.i = mods, escapes, alive or set(), i
    res.nid, res.cnt = state["nid"], state["cnt"]
    res.entry_store = entry_store
    res.appends = {}
    if seq is not None:
        for mk in mods:
            if mk[0] == "S" and mk[2] is None and not isinstance(mk[1], tuple) \
                    and isinstance(entry_store.get(mk[1]), (ListRec, SymList)) \
                    and not getattr(entry_store[mk[1]], "snap", False):
                per = [(p, [x for x in lg if x[1] == mk[1]], st, fk) for p, lg, st, fk in logs]
                if all(x[0] != "bad" for p, lg, st, fk in per for x in lg):
                    res.appends[mk[1]] = per
    res.D = None
    if nexts and all(nexts):
        res.D = self.k(z3.Or(*[z3.And(*d) if len(d) > 1 else d[0] for d in nexts]) if len(nexts) > 1
                       else (z3.And(*nexts[0]) if len(nexts[0]) > 1 else nexts[0][0]))
    elif not nexts:
        res.D = z3.BoolVal(False)
    return res


def join_mod(self, a, b):
    if a.k == "poison" or b.k == "poison":
        return T("other") if a.k != b.k else a
    return self.join(a, b)


# ---------------------------------------------------------------- expressions
def eval(self, e):
    m = getattr(self, "ex_" + type(e).__name__, None)
    if m is None:
        raise Unsupported("expression %s" % type(e).__name__)
    return m(e)


def ex_Constant(self, e):
    return Const(e.value)


def ex_Name(self, e):
    return self.lookup(e.id)


def ex_Attribute(self, e):
    return self.getattr(self.eval(e.value), e.attr)


def ex_Subscript(self, e):
    o = self.eval(e.value)
    if isinstance(e.slice, ast.Slice):
        lo = self.eval(e.slice.lower) if e.slice.lower is not None else NONE
        hi = self.eval(e.slice.upper) if e.slice.upper is not None else NONE
        st = self.eval(e.slice.step) if e.slice.step is not None else NONE
        return self.slice(o, lo, hi, st)
    return self.index(o, self.eval(e.slice))


def ex_Tuple(self, e):
    return Tup(self.eval_elts(e.elts))


def ex_List(self, e):
    return self.alloc(ListRec(self.eval_elts(e.elts)))


def ex_Set(self, e):
    r = self.alloc(SetRec(()))
    for x in self.eval_elts(e.elts):
        self.call_method(r, "add", [x])
    return r


def eval_elts(self, elts):
    out = []
    for x in elts:
        if isinstance(x, ast.Starred):
            s = self.iterate(self.eval(x.value))
            if not isinstance(s, list):
                raise Unsupported("starred symbolic sequence")
            out += s
        else:
            out.append(self.eval(x))
    return out


def ex_Dict(self, e):
    r = self.alloc(DictRec(()))
    for k, v in zip(e.keys, e.values):
        if k is None:
            self.call_method(r, "update", [self.eval(v)])
        else:
            kk = self.eval(k)
            self.setitem(r, kk, self.eval(v))
    return r


def ex_BoolOp(self, e):
    isand = isinstance(e.op, ast.And)
    v = None
    for i, x in enumerate(e.values):
        v = self.eval(x)
        if i == len(e.values) - 1:
            return v
        t = self.is_true(v)
        if isand and not t:
            return v
        if not isand and t:
            return v
    return v


def ex_UnaryOp(self, e):
    v = self.eval(e.operand)
    if isinstance(e.op, ast.Not):
        return self.b(self.neg(self.truth(v)))
    v = self.narrow(v, "int")
    if isinstance(e.op, ast.USub):
        if isinstance(v, Const):
            return Const(-v.v)
        if isinstance(v, Sym) and v.kind in ("int", "real"):
            return Sym(v.kind, self.k(-v.t))
    if isinstance(e.op, ast.UAdd):
        return v
    if isinstance(e.op, ast.Invert) and isinstance(v, Const):
        return Const(~v.v)
    raise Unsupported("unary op")


def ex_IfExp(self, e):
    return self.eval(e.body) if self.is_true(self.eval(e.test)) else self.eval(e.orelse)


def ex_NamedExpr(self, e):
    v = self.eval(e.value)
    self.setvar(e.target.id, v)
    return v


def ex_Lambda(self, e):
    return FuncV(self.module_of_env(), e, "<lambda>", env=self.env)


def ex_Compare(self, e):
    left = self.eval(e.left)
    conds = []
    for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
        right = self.eval(r)
        c = self.compare(op, left, right)
        if i == len(e.ops) - 1:
            if not conds:
                return self.b(c) if not isinstance(c, SV) else c
            return self.b(c)
        if not self.decide(c):
            return FALSE
        conds.append(c)
        left = right


def ex_JoinedStr(self, e):
    parts = []
    for v in e.values:
        if isinstance(v, ast.Constant):
            parts.append(z3.StringVal(v.value))
        else:
            spec = None
            if v.format_spec is not None:
                s = self.eval(v.format_spec)
                if not isinstance(s, Const):
                    raise Unsupported("dynamic format spec")
                spec = s.v
            parts.append(self.fmt_piece(self.eval(v.value), spec, chr(v.conversion) if v.conversion > 0 else "s"))
    return self.concat(parts)


def ex_ListComp(self, e):
    return self.comprehension(e.generators, lambda: self.eval(e.elt), e)


def ex_GeneratorExp(self, e):
    return self.comprehension(e.generators, lambda: self.eval(e.elt), e)


def ex_SetComp(self, e):
    l = self.comprehension(e.generators, lambda: self.eval(e.elt), e)
    return self.call(ExtV("builtins.set"), [l], {})


def ex_DictComp(self, e):
    l = self.comprehension(e.generators, lambda: Tup([self.eval(e.key), self.eval(e.value)]), e)
    r = self.alloc(DictRec(()))
    self.call_method(r, "update", [l])
    return r


def comprehension(self, gens, elt, node):
    save = self.env
    env = self.alloc(EnvRec({}, save))
    self.env = env.id
    try:
        return self.comp_gen(gens, elt, node)
    finally:
        self.env = save


def comp_gen(self, gens, elt, node):
    g = gens[0]
    src = self.iterate(self.eval(g.iter))

    def item(x):
        """None when filtered out, else the list of produced values (SV list or SV)"""
        self.assign(g.target, x)
        for c in g.ifs:
            if not self.is_true(self.eval(c)):
                return None
        if len(gens) > 1:
            return ("sub", self.comp_gen(gens[1:], elt, node))
        return ("one", elt())
    if isinstance(src, list):
        out = []
        acc = None
        for x in src:
            r = item(x)
            if r is None:
                continue
            if r[0] == "one":
                if acc is None:
                    out.append(r[1])
                else:
                    self.call_method(acc, "append", [r[1]])
            else:
                sub = self.rec(r[1])
                if isinstance(sub, ListRec) and acc is None:
                    out += list(sub.items)
                else:
                    if acc is None:
                        acc = self.alloc(ListRec(out))
                    self.call_method(acc, "extend", [r[1]])
        return acc if acc is not None else self.alloc(ListRec(out))
    return self.map_seq(src, item, node)


def map_seq(self, seq, item, node):
    """[elt for x in seq if cond] over a symbolic sequence, summarised exactly."""
    I = _I()
    ck = (self.prefix, tuple(self.dec[:self.dpos]), ("comp", id(node)), self.nid, self.cnt)
    res = self.loop_cache.get(ck)
    if res is None:
        res = LoopRes()
        self.loopno = getattr(self, "loopno", 0) + 1
        tag = res.tag = "%d" % self.loopno
        if self.idx:
            i = z3.Function("i!" + tag, *([z3.IntSort()] * (len(self.idx) + 1)))(*self.idx)
        else:
            i = z3.Int("i!" + tag)
        self.k(i)
        res.i = i
        paths, escapes = [], []
        st = {"nid": self.nid, "cnt": self.cnt}
        saved, self.obls = self.obls, []
        entry = dict(self.store)
        outer_prefix = self.prefix
        self.prefix = (outer_prefix, tuple(self.dec[:self.dpos]), tag, 0)
        env_id = self.env

        def one():
            self.idx = self.idx + [i]
            self.assume(i >= 0)
            self.assume(i < seq.n)
            nb = len(self.pcs)
            self.writes = set()
            self.forked = False
            try:
                v = item(seq.at(i))
            except I.RaiseEx as e:
                self.env = env_id
                escapes.append(dict(exc=e, snap=self.snapshot()))
                return
            for (wid, f) in self.writes:
                if wid in entry and not isinstance(entry[wid], EnvRec) or wid in self.lazy:
                    raise Unsupported("comprehension with side effects")
            st["nid"], st["cnt"] = max(st["nid"], self.nid), max(st["cnt"], self.cnt)
            log = [] if v is None else [("app" if v[0] == "one" else "ext", 0, v[1])]
            paths.append((list(self.pcs[nb:]), log, dict(self.store), self.forked))
        self.explore(one)
        self.prefix = outer_prefix
        res.obls, self.obls = self.obls, saved
        res.paths, res.escapes = paths, escapes
        res.nid, res.cnt = st["nid"], st["cnt"]
        self.loop_cache[ck] = res
    self.obls.extend(res.obls)
    self.nid, self.cnt = max(self.nid, res.nid), max(self.cnt, res.cnt)
    i, tag = res.i, res.tag
    ch = self.fork(1 + len(res.escapes))
    if ch > 0:
        esc = res.escapes[ch - 1]
        idx, w, nid, cnt = list(self.idx), set(self.writes), self.nid, self.cnt
        self.restore(esc["snap"])
        self.nid, self.cnt = max(self.nid, nid), max(self.cnt, cnt)
        self.idx, self.writes = idx, w
        raise esc["exc"]
    return self.summary_list(seq, i, tag, res.paths)


def summary_list(self, seq, i, tag, paths):
    """The list that appending, in iteration order, what each path of iteration i appends builds.
    paths: (path facts, log of appends, store, nondeterministic?)"""
    flat = any(len(lg) > 1 or any(x[0] == "ext" for x in lg) for p, lg, st, fk in paths)
    if flat:
        return self.flat_list(seq, i, tag, paths)
    et = None
    for p, lg, st, fk in paths:
        for x in lg:
            save, self.store = self.store, st
            et = self.join(et, self.typeof(x[2]))
            self.store = save
    keep = [(p, (lg[0][2], st)) for p, lg, st, fk in paths if lg]
    drop = [(p, None) for p, lg, st, fk in paths if not lg]
    if not keep:
        return self.alloc(ListRec(()))
    if et.k in ("emptylist", "emptydict", "emptyset", "other", "none"):
        raise Unsupported("comprehension element type %s" % et)
    terms = []
    for p, v in keep:
        terms.append(self.term_in(v[0], et, v[1]))
    if not drop and len(keep) == 1 and z3.is_select(terms[0]) and terms[0].arg(1).get_id() == i.get_id() \
            and not self.mentions(terms[0].arg(0), i):
        p = keep[0][0]
        if p:
            j = z3.Int("j!" + tag)
            self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < seq.n), z3.substitute(andl(p), (i, j)))))
            self.defs.add(self.pcs[-1].get_id())
        return self.alloc(SymList(seq.n, self.k(terms[0].arg(0)), et))
    if not drop and len(keep) == 1 and not keep[0][0] and (z3.is_int_value(terms[0]) or z3.is_rational_value(terms[0])):
        # the same number for every element
        return self.alloc(SymList(seq.n, z3.K(z3.IntSort(), terms[0]), et))
    nm, arr, m, old = self.comp_symbols("comp", seq, i, et, [(p, t) for (p, v), t in zip(keep, terms)],
                                        [p for p, v in drop], any(fk for p, lg, st, fk in paths))
    j = z3.Int("j!" + tag)
    np = len(self.pcs)
    outs = self.idx_args()
    if not drop:
        parts = [z3.And(andl(p), z3.Select(arr, i) == t) for (p, v), t in zip(keep, terms)]
        body = parts[0] if len(parts) == 1 else z3.Or(*parts)
        self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < seq.n), z3.substitute(body, (i, j))),
                              patterns=[z3.Select(arr, j)]))
        out = SymList(seq.n, arr, et)
    else:
        fs = [a.sort() for a in outs]
        srcf = z3.Function("src" + nm, *(fs + [z3.IntSort(), z3.IntSort()]))
        posf = z3.Function("pos" + nm, *(fs + [z3.IntSort(), z3.IntSort()]))

        def src(x):
            return srcf(*(outs + [x]))

        def pos(x):
            return posf(*(outs + [x]))
        k2 = z3.Int("k!" + tag)
        self.assume(z3.And(m >= 0, m <= seq.n))
        parts = [z3.And(andl(p), z3.Select(arr, k2) == t) for (p, v), t in zip(keep, terms)]
        body = parts[0] if len(parts) == 1 else z3.Or(*parts)
        self.assume(forall_([k2], z3.If(
            z3.And(k2 >= 0, k2 < m),
            z3.And(src(k2) >= 0, src(k2) < seq.n, pos(src(k2)) == k2, z3.substitute(body, (i, src(k2)))),
            src(k2) == -1), patterns=[z3.Select(arr, k2)]))
        self.assume(forall_([k2, j], z3.Implies(z3.And(0 <= k2, k2 < j, j < m), src(k2) < src(j)),
                              patterns=[z3.MultiPattern(src(k2), src(j))]))
        kept = [z3.And(andl(p), pos(i) >= 0, pos(i) < m, src(pos(i)) == i, z3.Select(arr, pos(i)) == t)
                for (p, v), t in zip(keep, terms)]
        dropped = [z3.And(andl(p), pos(i) == -1) for p, v in drop]
        ps = seq.pats(j) if seq.pats else []
        self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < seq.n), z3.substitute(
            z3.Or(*(kept + dropped)), (i, j))), **({"patterns": ps} if ps else {})))
        out = SymList(m, arr, et)
    for o in old:
        self.assume(z3.And(out.n == o[1], arr == o[0]))
    self.path_comps[-1][1] = out.n
    self.defs.update(c.get_id() for c in self.pcs[np:])
    return self.alloc(out)


def flat_list(self, seq, i, tag, paths):
    """iteration i appends a list of its own"""
    et = None
    for p, lg, st, fk in paths:
        save, self.store = self.store, st
        for x in lg:
            t = self.typeof(x[2])
            if x[0] == "ext":
                if t.k == "emptylist":
                    continue
                t = t.a[0]
            et = self.join(et, t)
        self.store = save
    if et is None:
        return self.alloc(ListRec(()))
    if et.k in ("emptylist", "emptydict", "emptyset", "other", "none"):
        raise Unsupported("list element type %s" % et)
    lt = ListT(et)
    terms = []
    for p, lg, st, fk in paths:
        save, self.store = self.store, dict(st)
        np = len(self.pcs)
        acc = None
        for x in lg:
            one = x[2] if x[0] == "ext" else self.alloc(ListRec((x[2],)))
            acc = one if acc is None else self.list_concat(acc, one)
        t = self.term(acc if acc is not None else self.alloc(ListRec(())), lt)
        extra = list(self.pcs[np:])
        del self.pcs[np:]
        self.store = save
        terms.append((list(p) + extra, t))
    nm, arr, m, old = self.comp_symbols("flat", seq, i, et, terms, [], any(fk for p, lg, st, fk in paths), lt)
    np = len(self.pcs)
    outs = self.idx_args()
    fs = [a.sort() for a in outs]
    I_ = z3.IntSort()
    ls = sort_of(lt)

    def fn(name, res, *dom):
        f = z3.Function(name + nm, *(fs + list(dom) + [res]))
        return lambda *a: f(*(outs + list(a)))
    sub, src, off, pos = fn("sub", ls, I_), fn("fsrc", I_, I_), fn("foff", I_, I_), fn("fpos", I_, I_, I_)
    j, k2, o2 = z3.Int("j!" + tag), z3.Int("k!" + tag), z3.Int("o!" + tag)
    body = z3.Or(*[z3.And(andl(p), sub(i) == t) for p, t in terms])
    self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < seq.n), z3.substitute(body, (i, j))),
                          patterns=[sub(j)]))
    ln = lambda x: ls.accessor(0, 0)(x)
    ar = lambda x: ls.accessor(0, 1)(x)
    self.assume(m >= 0)
    self.assume(forall_([k2], z3.Implies(z3.And(k2 >= 0, k2 < m), z3.And(
        src(k2) >= 0, src(k2) < seq.n, off(k2) >= 0, off(k2) < ln(sub(src(k2))),
        z3.Select(arr, k2) == z3.Select(ar(sub(src(k2))), off(k2)))), patterns=[z3.Select(arr, k2)]))
    self.assume(forall_([j, o2], z3.Implies(
        z3.And(j >= 0, j < seq.n, o2 >= 0, o2 < ln(sub(j))),
        z3.And(pos(j, o2) >= 0, pos(j, o2) < m, z3.Select(arr, pos(j, o2)) == z3.Select(ar(sub(j)), o2))),
        patterns=[z3.Select(ar(sub(j)), o2)]))
    for o in old:
        self.assume(z3.And(m == o[1], arr == o[0]))
    self.path_comps[-1][1] = m
    self.defs.update(c.get_id() for c in self.pcs[np:])
    return self.alloc(SymList(m, arr, et))


def mentions(self, t, x):
    todo, seen = [t], set()
    while todo:
        c = todo.pop()
        if c.get_id() == x.get_id():
            return True
        if c.get_id() not in seen:
            seen.add(c.get_id())
            todo.extend(c.children())
    return False


def idx_args(self):
    return list(self.idx)


def term_in(self, v, t, store):
    save, self.store = self.store, dict(store)
    np = len(self.pcs)
    x = self.term(v, t)
    del self.pcs[np:]
    self.store = save
    return x


def andl(p):
    return z3.And(*p) if p else z3.BoolVal(True)


def comp_symbols(self, kind, seq, i, et, keep, drop, forked, vt=None):
    """Names for the list built by the iterations: the same elements under the same conditions over
    the same sequence give the same name.  Also the earlier lists of this path that an iteration by
    iteration comparison proves equal."""
    outs = self.idx_args()
    ci = z3.Int("i!canon")
    sub = [(i, ci)] + [(o, z3.Int("o!canon%d" % n)) for n, o in enumerate(outs)]

    def conj(p):
        return frozenset(self.k(z3.substitute(c, *sub)).get_id() for c in p if c.get_id() not in self.defs)
    n = self.k(z3.substitute(z3.simplify(seq.n), *sub[1:]) if outs else z3.simplify(seq.n))
    key = (kind, et.key, n.get_id(), len(outs),
           frozenset((conj(p), self.k(z3.substitute(t, *sub)).get_id()) for p, t in keep),
           frozenset(conj(p) for p in drop))
    if not hasattr(self, "comp_memo"):
        self.comp_memo = {}
    if forked:
        key = ("unique", len(self.comp_memo))
    memo = self.comp_memo.setdefault(key, len(self.comp_memo))
    nm = "#%s%d" % (kind, memo)
    fs = [a.sort() for a in outs]
    arr = self.k(z3.Function("list" + nm, *(fs + [z3.ArraySort(z3.IntSort(), sort_of(et))]))(*outs)
                 if outs else z3.Const("list" + nm, z3.ArraySort(z3.IntSort(), sort_of(et))))
    m = self.k(z3.Function("len" + nm, *(fs + [z3.IntSort()]))(*outs) if outs else z3.Int("len" + nm))
    old = []
    s = sort_of(vt or et)
    x1, x2 = z3.Const("x!one", s), z3.Const("x!two", s)
    k1, k2 = z3.Bool("k!one"), z3.Bool("k!two")

    def rel(x, k):
        return z3.Or(*([z3.And(andl(p), x == t, k) for p, t in keep] + [z3.And(andl(p), z3.Not(k)) for p in drop]))
    if True:
        for c in self.path_comps:
            if c[2] != (kind, et.key, len(outs)) or c[3] == memo or c[1] is None:
                continue
            if c[3] in [o[3] for o in old]:
                continue
            if z3.simplify(seq.n).get_id() != c[4].get_id() and not self.valid(seq.n == c[4], 500):
                continue
            a = z3.substitute(z3.And(rel(x1, k1), i >= 0, i < seq.n), (i, ci))
            b = z3.substitute(c[5], (c[6], ci), (x1, x2), (k1, k2))
            if self.valid(z3.Implies(z3.And(a, b), z3.And(k1 == k2, z3.Implies(k1, x1 == x2))), 3000):
                old.append(c)
    self.path_comps.append([arr, None, (kind, et.key, len(outs)), memo, self.k(z3.simplify(seq.n)),
                            self.k(rel(x1, k1)), i])
    return nm, arr, m, old


def fresh_eq(self, t):
    return z3.Function("is_element:%s" % t.sort(), t.sort(), z3.BoolSort())(t)


def ex_Yield(self, e):
    v = self.eval(e.value) if e.value is not None else NONE
    hook = getattr(self, "yield_hook", None)
    if hook is not None and self.yield_hook_depth_ok():
        hook(v)
        return NONE
    if self.yields is None:
        raise Unsupported("yield")
    self.call_method(self.yields, "append", [v])
    return NONE


def yield_hook_depth_ok(self):
    return self.yields is None


def ex_YieldFrom(self, e):
    self.call_method(self.yields, "extend", [self.eval(e.value)])
    return NONE


def ex_Starred(self, e):
    raise Unsupported("starred")


def ex_BinOp(self, e):
    a = self.eval(e.left)
    return self.binop(e.op, a, self.eval(e.right))


def ex_Call(self, e):
    if isinstance(e.func, ast.Name) and e.func.id == "super":
        if e.args:
            cls = self.eval(e.args[0])
            obj = self.eval(e.args[1])
            return SuperV(cls.qual, obj)
        cls = None
        eid = self.env
        while eid is not None:
            er = self.store[eid]
            if "__class__cell" in er.vars:
                cls = er.vars["__class__cell"]
                return SuperV(cls.v, er.vars["__self__cell"])
            eid = er.parent
        raise Unsupported("super()")
    line = getattr(e, "lineno", 0)
    f = self.eval(e.func)
    args, kwargs = self.eval_args(e)
    self.line = line
    return self.call(f, args, kwargs)


def eval_args(self, e):
    args = self.eval_elts(e.args)
    kwargs = {}
    for k in e.keywords:
        if k.arg is None:
            d = self.eval(k.value)
            r = self.rec(d) if isinstance(d, Ref) else None
            if isinstance(r, DictRec):
                for a, v in r.items:
                    kwargs[a.v] = v
            elif isinstance(d, NoopV):
                pass
            else:
                kwargs["**"] = d
        else:
            kwargs[k.arg] = self.eval(k.value)
    return args, kwargs


# ---------------------------------------------------------------- calls
def has_yield(node):
    if isinstance(node, ast.Lambda):
        return False

    def visit(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return any(visit(c) for c in ast.iter_child_nodes(n))
    return any(visit(s) for s in node.body)


KNOWN_DECOS = ("property", "staticmethod", "classmethod", "contextmanager", "setter", "deleter",
               "abstractmethod")


def call(self, f, args, kwargs):
    if isinstance(f, NoopV):
        return f
    if isinstance(f, AnyV):
        t = f.t
        c = getattr(self, "callables", {})
        if z3.is_app(t) and t.decl().name() == "objv" and t.arg(0).get_id() in c:
            return self.call(c[t.arg(0).get_id()], args, kwargs)
        return self.opaque_call(f, args, kwargs)
    if isinstance(f, BoundV):
        if isinstance(f.func, FuncV) and f.func.kind == "staticmethod":
            return self.call(f.func, args, kwargs)
        return self.call(f.func, [f.self_] + list(args), kwargs)
    if isinstance(f, PyFn):
        self.used_models.add(f.name)
        return f.fn(self, args, kwargs)
    if isinstance(f, FuncV):
        return self.call_function(f, args, kwargs)
    if isinstance(f, ClassV):
        return self.instantiate(f, args, kwargs)
    if isinstance(f, ExtV):
        return self.ext_call(f.name, args, kwargs)
    if callable(f) and not isinstance(f, SV):
        return f(self, args, kwargs)
    if isinstance(f, Ref) and isinstance(self.rec(f), ObjRec):
        m = self.getattr(f, "__call__")
        return self.call(m, args, kwargs)
    raise Unsupported("call %r" % (f,))


def call_function(self, f, args, kwargs):
    c = self.contracts.get(f.qual)
    if c is None and f.cls is not None:
        # the class under the receiver's own name
        c = None
    if c is not None and not (self.target is c and not self.stack_has(f.qual)):
        self.used_contracts.add(f.qual)
        return c.apply(self, f, args, kwargs)
    return self.inline(f, args, kwargs)


def stack_has(self, qual):
    return any(q == qual for q, m, n in self.stack)


def inline(self, f, args, kwargs, generator_ok=False):
    I = _I()
    node = f.node
    if isinstance(node, ast.FunctionDef) and not getattr(f, "raw", False):
        decos = []
        for d in node.decorator_list:
            nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if nm not in KNOWN_DECOS:
                decos.append(d)
        if decos:
            raw = FuncV(f.module, f.node, f.qual, f.env, f.cls, f.kind)
            raw.raw = True
            v = raw
            for d in reversed(decos):
                if f.env is not None:
                    save, self.env = self.env, f.env
                    try:
                        dv = self.eval(d)
                    finally:
                        self.env = save
                else:
                    dv = self.eval_in_module(f.module, d)
                v = self.call(dv, [v], {})
            self.stack.append((f.qual, f.module, None))
            try:
                return self.call(v, args, kwargs)
            finally:
                self.stack.pop()
    if len(self.stack) > 40:
        raise Unsupported("call depth")
    env = self.bind_args(f, args, kwargs)
    if f.cls is not None:
        env["__class__cell"] = Const(f.cls)
        if args:
            env["__self__cell"] = args[0]
    if f.env is None:
        env["__module__"] = f.module
    isgen = has_yield(node) and not generator_ok
    save = (self.env, self.yields, getattr(self, "yield_hook", None))
    self.env = self.alloc(EnvRec(env, f.env)).id
    self.stack.append((f.qual, f.module, node))
    self.inlined.add(f.qual)
    if isgen:
        self.yields = self.alloc(ListRec(()))
        self.yield_hook = None
        ylist = self.yields
    else:
        if generator_ok:
            self.yields = None
    try:
        if isinstance(node, ast.Lambda):
            return self.eval(node.body)
        try:
            self.exec_block(node.body)
            r = NONE
        except I.ReturnEx as e:
            r = e.v
        return ylist if isgen else r
    finally:
        self.env, self.yields, self.yield_hook = save
        if self.stack and self.stack[-1][2] is node:
            self.stack.pop()


def bind_args(self, f, args, kwargs):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    args = list(args)
    kwargs = dict(kwargs)
    star2 = kwargs.pop("**", None)
    if len(args) > len(names):
        if a.vararg is None:
            raise self.exc("TypeError")
        env[a.vararg.arg] = Tup(args[len(names):])
        args = args[:len(names)]
    elif a.vararg is not None:
        env[a.vararg.arg] = Tup(())
    for n, v in zip(names, args):
        env[n] = v
    rest = {}
    for k, v in kwargs.items():
        if k in names or k in [x.arg for x in a.kwonlyargs]:
            if k in env:
                raise self.exc("TypeError")
            env[k] = v
        elif a.kwarg is not None:
            rest[k] = v
        else:
            raise self.exc("TypeError")
    if a.kwarg is not None:
        if star2 is not None and not rest:
            env[a.kwarg.arg] = star2
        else:
            env[a.kwarg.arg] = self.alloc(DictRec([(Const(k), v) for k, v in rest.items()]))
    elif star2 is not None:
        raise Unsupported("symbolic **kwargs")
    defaults = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [
        (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for n, d in defaults:
        if n not in env:
            if f.env is not None:
                save, self.env = self.env, f.env
                try:
                    env[n] = self.eval(d)
                finally:
                    self.env = save
            else:
                env[n] = self.eval_in_module(f.module, d)
    for n in names + [x.arg for x in a.kwonlyargs]:
        if n not in env:
            raise self.exc("TypeError")
    # every local of the function starts unbound
    if isinstance(f.node, ast.FunctionDef):
        for n in assigned_names(f.node.body):
            if n not in env:
                nl = False
                for st in ast.walk(f.node):
                    if isinstance(st, ast.Nonlocal) and n in st.names:
                        nl = True
                if not nl:
                    env[n] = None
    return env


def instantiate(self, f, args, kwargs):
    key = "new:" + f.qual
    if key in self.ext:
        self.used_models.add(key)
        return self.ext[key](self, args, kwargs)
    sup = self.mro(f.qual)
    ref = self.new_obj(f.qual)
    init = self.class_attr(f.qual, "__init__")
    if init is not None:
        self.call(BoundV(ref, init), args, kwargs)
    else:
        r = self.rec(ref)
        self.store[ref.id] = r.with_field("args", Tup(args))
    return ref
