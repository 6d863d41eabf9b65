"""Symbolic execution of the real functions' ast, loops cut by invariants, callees by contract.

Paths are enumerated by re-execution: every undetermined choice is recorded as a decision and the
alternatives are replayed later.  Loops explore their body in a nested enumeration from a havocked
state; mutable state lives in self.store (id -> immutable record), so snapshots are dict copies.
"""
import ast
import time as _time
import z3

from .core import *
from .program import Program, Module
import builtins as _py

MAX_PATHS = 4000


class PathEnd(Exception):
    """This path is infeasible or complete (a loop iteration that was checked)."""


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class RaiseEx(Exception):
    """An exception of the program under verification."""
    def __init__(self, cls, ref=None, site=None):
        self.cls, self.ref, self.site = cls, ref, site


class NeedMods(Exception):
    """A loop body wrote something the enclosing havoc did not cover."""


def _is_exc_name(n):
    o = getattr(_py, n, None)
    return isinstance(o, type) and issubclass(o, BaseException)


# declared hierarchy of the external exceptions the code names
EXT_EXC = {
    "re.error": "Exception", "error": "Exception",
    "socket.error": "OSError", "socket.timeout": "OSError",
    "email.errors.HeaderParseError": "Exception", "email.header.HeaderParseError": "Exception",
    "html.parser.HTMLParseError": "Exception",
    "dns.exception.DNSException": "Exception",
    "dns.exception.SyntaxError": "dns.exception.DNSException",
    "dns.resolver.YXDOMAIN": "dns.exception.DNSException",
    "dns.exception.Timeout": "dns.exception.DNSException",
    "dns.resolver.NoAnswer": "dns.exception.DNSException",
    "dns.resolver.NoNameservers": "dns.exception.DNSException",
    "dns.resolver.NXDOMAIN": "dns.exception.DNSException",
    "struct.error": "Exception", "zlib.error": "Exception",
    "ipaddress.AddressValueError": "ValueError", "ipaddress.NetmaskValueError": "ValueError",
    "pymysql.Error": "Exception", "pymysql.DatabaseError": "pymysql.Error",
    "UNKNOWN": "Exception",
}


class Obligation(object):
    def __init__(self, name, goal, pcs, where):
        self.name, self.goal, self.pcs, self.where = name, goal, list(pcs), where


class Interp(object):
    def __init__(self, program, contracts=None, schemas=None, ext=None, solver_timeout=2000):
        self.prog = program
        self.contracts = contracts or {}
        self.schemas = schemas or {}
        self.ext = ext or {}
        self.timeout = solver_timeout
        self.feas_cache = {}
        self.qcache = {}
        self.keep = []            # keep z3 terms alive so that ids stay unique
        self.obls = []            # obligations of the current (sub)exploration
        self.target = None        # contract being verified
        self.mods_memo = {}
        self.assumptions = set()
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.n_paths = 0
        self.axioms = []
        self.stack = []
        self.prefix = ()
        self.loop_cache = {}
        self.dec, self.dpos, self.work = [], 0, []
        self.models, self.symcache, self.argcache = [], {}, {}
        self.line = 0
        self.yield_hook = None
        self.reset()

    # ------------------------------------------------------------ path state
    def reset(self):
        self.store = {}
        self.nid = 1
        self.cnt = 0
        self.pcs = []
        self.writes = set()
        self.lazy = {}
        self.idx = []
        self.env = None
        self.yields = None
        self.objterms = {}
        self.trace = ()
        self.applog = []
        self.path_comps = []
        self.forked = False
        self.defs = getattr(self, "defs", set())

    def snapshot(self):
        return (dict(self.store), self.nid, self.cnt, list(self.pcs), dict(self.lazy), self.env,
                self.yields, dict(self.objterms), self.trace, list(self.applog), list(self.path_comps),
                self.forked)

    def restore(self, s):
        (st, self.nid, self.cnt, pcs, lazy, self.env, self.yields, ot, self.trace, al, pc, self.forked) = s
        self.applog, self.path_comps = list(al), list(pc)
        self.store, self.pcs, self.lazy, self.objterms = dict(st), list(pcs), dict(lazy), dict(ot)

    def k(self, t):
        self.keep.append(t)
        return t

    def assume(self, c):
        if c is True or (z3.is_expr(c) and z3.is_true(c)):
            return
        if c is False or z3.is_false(c):
            raise PathEnd()
        self.pcs.append(self.k(c))

    def feasible(self, extra):
        cs = self.pcs + extra
        key = tuple(c.get_id() for c in cs)
        if key in self.feas_cache:
            return self.feas_cache[key]
        if len(self.stack) and getattr(self, "deadline", None) and _time.time() > self.deadline:
            raise Unsupported("time budget used up while exploring paths")
        r = self.feasible_qf(cs, extra)
        if r:
            have = set()
            for c in extra:
                have |= self.symbols(c)
            if any(self.quantified(c) and self.symbols(c) & have for c in self.pcs):
                sl = self.slice_(self.pcs, extra)
                s = z3.Solver()
                s.set("timeout", 80)
                s.set("smt.mbqi", False)
                for c in self.axioms:
                    s.add(c)
                for c in sl + extra:
                    s.add(c)
                r = s.check() != z3.unsat
        self.feas_cache[key] = r
        return r

    def feasible_qf(self, cs, extra):
        """the quantifier-free part; a model of an earlier check that still fits answers at once"""
        ids = {c.get_id() for c in cs}
        for c in extra:
            n = self.k(z3.simplify(z3.Not(c)))
            if n.get_id() in ids:
                return False
        qf = [c for c in cs if not self.quantified(c)]
        for m in self.models:
            try:
                if all(z3.is_true(m.eval(c, model_completion=True)) for c in reversed(qf)):
                    return True
            except z3.Z3Exception:
                pass
        near = set()
        for c in extra:
            near |= self.atom_args(c)
        small = [c for c in qf if self.atom_args(c) & near]
        if len(small) < len(qf):
            s = z3.SimpleSolver()
            s.set("timeout", 100)
            for c in small:
                s.add(c)
            if s.check() == z3.unsat:
                return False
        s = z3.SimpleSolver()
        s.set("timeout", 500)
        for c in qf:
            s.add(c)
        r = s.check()
        if r == z3.sat:
            self.models = [s.model()] + self.models[:3]
        return r != z3.unsat

    def atom_args(self, c):
        """the terms the atoms of a formula are about"""
        i = c.get_id()
        q = self.argcache.get(i)
        if q is None:
            q, todo, seen = set(), [c], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                for y in x.children():
                    if z3.is_bool(y):
                        todo.append(y)
                    elif not z3.is_const(y) or y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        q.add(y.get_id())
                if z3.is_bool(x) and not x.children():
                    q.add(x.get_id())
            q = frozenset(q)
            self.argcache[i] = q
            self.keep.append(c)
        return q

    def slice_(self, pcs, extra):
        """the facts connected to the question through the symbols they mention (leaving facts out only
        lets more paths through)"""
        todo = [(c, self.symbols(c)) for c in pcs]
        have = set()
        for c in extra:
            have |= self.symbols(c)
        out, changed = [], True
        while changed:
            changed = False
            rest = []
            for c, ss in todo:
                if ss & have or not ss:
                    out.append(c)
                    if not ss <= have:
                        have |= ss
                        changed = True
                else:
                    rest.append((c, ss))
            todo = rest
        return out

    def symbols(self, c):
        i = c.get_id()
        q = self.symcache.get(i)
        if q is None:
            q, todo, seen = set(), [c], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    todo.append(x.body())
                    continue
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                        (not x.children() or "!" in x.decl().name()):
                    q.add(x.decl().name())
                todo.extend(x.children())
            q = frozenset(q)
            self.symcache[i] = q
            self.keep.append(c)
        return q

    def quantified(self, c):
        i = c.get_id()
        q = self.qcache.get(i)
        if q is None:
            q = self._hasq(c)
            self.qcache[i] = q
        return q

    def _hasq(self, c):
        todo, seen = [c], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                return True
            todo.extend(x.children())
        return False

    # ------------------------------------------------------------ decisions
    def decide(self, c):
        """Fork on a z3 Bool (or return a Python bool unchanged)."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.k(c)
        n = self.k(z3.Not(c))
        if self.dpos < len(self.dec):
            ch = self.dec[self.dpos]
            self.dpos += 1
            self.assume(c if ch else n)
            return bool(ch)
        ft = self.feasible([c])
        ff = self.feasible([n])
        if not ft and not ff:
            raise PathEnd()
        if ft and ff:
            self.work.append(self.dec[:self.dpos] + [0])
            ch = 1
        else:
            ch = 1 if ft else 0
        self.dec = self.dec[:self.dpos] + [ch]
        self.dpos += 1
        self.assume(c if ch else n)
        return bool(ch)

    def fork(self, n):
        """Nondeterministic choice among n alternatives."""
        if n == 1:
            return 0
        if n == 0:
            raise PathEnd()
        self.forked = True
        if self.dpos < len(self.dec):
            ch = self.dec[self.dpos]
            self.dpos += 1
            return ch
        for j in range(n - 1, 0, -1):
            self.work.append(self.dec[:self.dpos] + [j])
        self.dec = self.dec[:self.dpos] + [0]
        self.dpos += 1
        return 0

    def explore(self, thunk):
        """Run thunk on every path from the current state; thunk must leave results by side effect."""
        saved_dec = (getattr(self, "dec", None), getattr(self, "dpos", 0), getattr(self, "work", None))
        base = self.snapshot()
        base_writes = set(self.writes)
        base_depth = len(self.stack)
        base_idx = list(self.idx)
        work = [[]]
        paths = 0
        try:
            while work:
                self.dec, self.dpos, self.work = work.pop(), 0, work
                self.restore(base)
                self.writes = set(base_writes)
                self.idx = list(base_idx)
                del self.stack[base_depth:]
                paths += 1
                self.n_paths += 1
                if paths > MAX_PATHS or self.n_paths > 20 * MAX_PATHS:
                    raise Unsupported("too many paths")
                try:
                    thunk()
                except PathEnd:
                    pass
        finally:
            self.dec, self.dpos, self.work = saved_dec
            self.restore(base)
            self.writes = base_writes
            self.idx = base_idx
            del self.stack[base_depth:]
        return paths

    # ------------------------------------------------------------ fresh symbols
    def fresh_term(self, name, sort):
        self.cnt += 1
        nm = "%s!%d" % (name, self.cnt)
        if self.idx:
            f = z3.Function(nm, *([z3.IntSort()] * len(self.idx) + [sort]))
            return self.k(f(*self.idx))
        return self.k(z3.Const(nm, sort))

    def uf(self, name, *args):
        """uf(name, arg terms..., result sort)"""
        sort = args[-1]
        ts = args[:-1]
        if not ts:
            return self.k(z3.Const(name, sort))
        f = z3.Function(name, *([t.sort() for t in ts] + [sort]))
        return self.k(f(*ts))

    def fresh(self, t, name="v"):
        if t.k == "none":
            return NONE
        return self.from_term(self.fresh_term(name, sort_of(t)), t)

    def from_term(self, x, t, snap=True):
        """Wrap a z3 term of the sort of t as a value (forks for optional types)."""
        k = t.k
        if k in ("int", "bool", "real", "str", "bytes"):
            return Sym(k, x)
        if k == "any":
            return self.any_of(x)
        if k == "none":
            return NONE
        if k == "obj":
            return self.obj_ref(x, t.a[0])
        s = sort_of(t)
        if k == "opt":
            if self.decide(s.recognizer(0)(x)):
                return NONE
            return self.from_term(self.k(z3.simplify(s.accessor(1, 0)(x))), t.a[0], snap)
        if k == "tup":
            return Tup([self.from_term(self.k(z3.simplify(s.accessor(0, i)(x))), e, snap)
                        for i, e in enumerate(t.a)])
        if k == "list":
            n = self.k(z3.simplify(s.accessor(0, 0)(x)))
            self.assume(n >= 0)
            return self.alloc(SymList(n, self.k(z3.simplify(s.accessor(0, 1)(x))), t.a[0], snap))
        if k == "set":
            n = self.k(z3.simplify(s.accessor(0, 1)(x)))
            self.assume(n >= 0)
            return self.alloc(SymSet(t.a[0], z3.simplify(s.accessor(0, 0)(x)), n,
                                     z3.simplify(s.accessor(0, 2)(x)), snap))
        if k == "dict":
            n = self.k(z3.simplify(s.accessor(0, 2)(x)))
            self.assume(n >= 0)
            return self.alloc(SymDict(t.a[0], t.a[1], z3.simplify(s.accessor(0, 0)(x)),
                                      z3.simplify(s.accessor(0, 1)(x)), n,
                                      z3.simplify(s.accessor(0, 3)(x)), None, snap))
        raise Unsupported("from_term %s" % t)

    def any_of(self, x):
        x = self.k(z3.simplify(x))
        d = x.decl().name() if z3.is_app(x) else ""
        if d == "none" and x.sort() == Val:
            return NONE
        if d in ("boolv", "intv", "realv", "strv", "bytesv") and x.sort() == Val:
            return self.norm(Sym(d[:-1], x.arg(0)))
        if d == "objv" and x.sort() == Val:
            a = x.arg(0)
            if a.get_id() in self.objterms:
                return Ref(self.objterms[a.get_id()])
        return AnyV(x)

    def norm(self, sv):
        return sv

    def obj_ref(self, x, cls):
        x = self.k(z3.simplify(x))
        i = self.objterms.get(x.get_id())
        if i is not None and i in self.store:
            return Ref(i)
        r = self.alloc(ObjRec(cls, x))
        self.objterms[x.get_id()] = r.id
        return r

    def alloc(self, rec):
        i = self.nid
        self.nid += 1
        self.store[i] = rec
        return Ref(i)

    def new_obj(self, cls, **fields):
        t = self.fresh_term("obj_" + cls.split(":")[-1], OBJ)
        r = self.alloc(ObjRec(cls, t, dict(fields), fresh=True))
        self.objterms[t.get_id()] = r.id
        return r

    def rec(self, ref):
        return self.store[ref.id]

    def put(self, ref, rec, field=None):
        self.writes.add((ref.id, field))
        self.store[ref.id] = rec
        if field is None:
            self.applog.append(("bad", ref.id, None))

    # ------------------------------------------------------------ terms
    def typeof(self, sv):
        if isinstance(sv, Const):
            v = sv.v
            if v is None:
                return NoneT
            if isinstance(v, bool):
                return Bool
            if isinstance(v, int):
                return Int
            if isinstance(v, float):
                return Real
            if isinstance(v, str):
                return Str
            if isinstance(v, bytes):
                return Bytes
            return Any
        if isinstance(sv, Sym):
            return T(sv.kind)
        if isinstance(sv, AnyV):
            return Any
        if isinstance(sv, Tup):
            return TupT(*[self.typeof(x) for x in sv.items])
        if isinstance(sv, Ref):
            r = self.rec(sv)
            if isinstance(r, ObjRec):
                return ObjT(r.cls)
            if isinstance(r, SymList):
                return ListT(r.et)
            if isinstance(r, ListRec):
                t = None
                for x in r.items:
                    t = self.join(t, self.typeof(x))
                return ListT(t or Any) if t is not None else T("emptylist")
            if isinstance(r, SymDict):
                return DictT(r.kt, r.vt)
            if isinstance(r, DictRec):
                kt = vt = None
                for a, b in r.items:
                    kt = self.join(kt, self.typeof(a))
                    vt = self.join(vt, self.typeof(b))
                return DictT(kt, vt) if kt is not None else T("emptydict")
            if isinstance(r, SymSet):
                return SetT(r.kt)
            if isinstance(r, SetRec):
                t = None
                for x in r.items:
                    t = self.join(t, self.typeof(x))
                return SetT(t) if t is not None else T("emptyset")
        return T("other")

    def join(self, a, b):
        if a is None or a == b:
            return b
        if b is None:
            return a
        if a.k == "none":
            return Opt(b)
        if b.k == "none":
            return Opt(a)
        if a.k == "opt":
            j = self.join(a.a[0], b.a[0] if b.k == "opt" else b)
            return Opt(j)
        if b.k == "opt":
            return self.join(b, a)
        if set((a.k, b.k)) == set(("int", "real")):
            return Real
        for e, f in (("emptylist", "list"), ("emptydict", "dict"), ("emptyset", "set")):
            if a.k == e and b.k == f:
                return b
            if b.k == e and a.k == f:
                return a
        if a.k == b.k == "list":
            return ListT(self.join(a.a[0], b.a[0]))
        if a.k == b.k == "tup" and len(a.a) == len(b.a):
            return TupT(*[self.join(x, y) for x, y in zip(a.a, b.a)])
        if a.k == b.k == "dict":
            return DictT(self.join(a.a[0], b.a[0]), self.join(a.a[1], b.a[1]))
        if a.k in ("other", "poison") or b.k in ("other", "poison"):
            return T("other")
        return Any

    def const_term(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                raise Unsupported("non-finite float")
            return z3.RealVal(repr(v))
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, bytes):
            return z3.StringVal(v.decode("latin1"))
        raise Unsupported("constant %r" % (v,))

    def term(self, sv, t=None):
        """The z3 term of a value, coerced to type t when given."""
        if t is None:
            t = self.typeof(sv)
        k = t.k
        if k in ("any", "none"):
            return self.box(sv)
        if k == "opt":
            s = sort_of(t)
            if isinstance(sv, Const) and sv.v is None:
                return s.constructor(0)()
            if isinstance(sv, AnyV):
                if self.decide(Val.is_none(sv.t)):
                    return s.constructor(0)()
            return s.constructor(1)(self.term(sv, t.a[0]))
        if isinstance(sv, AnyV):
            sv = self.narrow(sv, k)
        if k in ("int", "bool", "real", "str", "bytes"):
            if isinstance(sv, Const):
                if k == "real" and isinstance(sv.v, (int, float)):
                    return self.const_term(float(sv.v)) if not isinstance(sv.v, int) else z3.RealVal(int(sv.v))
                if k == "int" and isinstance(sv.v, (bool, int)):
                    return z3.IntVal(int(sv.v))
                if self.typeof(sv).k != k:
                    raise Unsupported("coerce %r to %s" % (sv, k))
                return self.const_term(sv.v)
            if isinstance(sv, Sym):
                if sv.kind == k:
                    return sv.t
                if k == "real" and sv.kind == "int":
                    return z3.ToReal(sv.t)
                if k == "real" and sv.kind == "bool":
                    return z3.If(sv.t, z3.RealVal(1), z3.RealVal(0))
                if k == "int" and sv.kind == "bool":
                    return z3.If(sv.t, z3.IntVal(1), z3.IntVal(0))
            raise Unsupported("coerce %r to %s" % (sv, k))
        if k == "obj":
            if isinstance(sv, Ref) and isinstance(self.rec(sv), ObjRec):
                return self.rec(sv).term
            raise Unsupported("coerce %r to %s" % (sv, t))
        s = sort_of(t)
        if k == "tup":
            if isinstance(sv, Tup) and len(sv.items) == len(t.a):
                return s.constructor(0)(*[self.term(x, y) for x, y in zip(sv.items, t.a)])
        if k == "list" and isinstance(sv, Ref):
            r = self.as_symlist(self.rec(sv), t.a[0])
            return s.constructor(0)(r.n, r.arr)
        if k == "dict" and isinstance(sv, Ref):
            r = self.as_symdict(self.rec(sv), t)
            return s.constructor(0)(r.has, r.val, r.n, r.keys)
        if k == "set" and isinstance(sv, Ref):
            r = self.as_symset(self.rec(sv), t.a[0])
            return s.constructor(0)(r.has, r.n, r.keys)
        raise Unsupported("coerce %r to %s" % (sv, t))

    def as_symlist(self, r, et):
        if isinstance(r, SymList):
            if r.et == et:
                return r
            raise Unsupported("list element type %s vs %s" % (r.et, et))
        if isinstance(r, ListRec):
            arr = z3.K(z3.IntSort(), self.default_term(et))
            for i, x in enumerate(r.items):
                arr = z3.Store(arr, i, self.term(x, et))
            return SymList(z3.IntVal(len(r.items)), arr, et)
        raise Unsupported("not a list")

    def as_symdict(self, r, t):
        if isinstance(r, SymDict):
            if r.kt == t.a[0] and r.vt == t.a[1]:
                return r
            raise Unsupported("dict type (%s,%s) vs %s" % (r.kt, r.vt, t))
        if isinstance(r, DictRec):
            kt, vt = t.a
            has = z3.K(sort_of(kt), z3.BoolVal(False))
            val = z3.K(sort_of(kt), self.default_term(vt))
            keys = z3.K(z3.IntSort(), self.default_term(kt))
            for i, (a, b) in enumerate(r.items):
                ka = self.term(a, kt)
                has = z3.Store(has, ka, True)
                val = z3.Store(val, ka, self.term(b, vt))
                keys = z3.Store(keys, i, ka)
            return SymDict(kt, vt, has, val, z3.IntVal(len(r.items)), keys, r.default)
        raise Unsupported("not a dict")

    def as_symset(self, r, kt):
        if isinstance(r, SymSet):
            if r.kt == kt:
                if r.n is None:
                    n = self.fresh_term("setlen", z3.IntSort())
                    self.assume(n >= 0)
                    return SymSet(kt, r.has, n, self.fresh_term(
                        "setkeys", z3.ArraySort(z3.IntSort(), sort_of(kt))))
                return r
        if isinstance(r, SetRec):
            has = z3.K(sort_of(kt), z3.BoolVal(False))
            keys = z3.K(z3.IntSort(), self.default_term(kt))
            for i, x in enumerate(r.items):
                has = z3.Store(has, self.term(x, kt), True)
                keys = z3.Store(keys, i, self.term(x, kt))
            return SymSet(kt, has, z3.IntVal(len(r.items)), keys)
        raise Unsupported("not a set")

    def default_term(self, t):
        return self.uf("default_" + t.key, sort_of(t))

    def box(self, sv):
        if isinstance(sv, AnyV):
            return sv.t
        if isinstance(sv, Const) and sv.v is None:
            return Val.none
        t = self.typeof(sv)
        if t.k == "bool":
            return Val.boolv(self.term(sv))
        if t.k == "int":
            return Val.intv(self.term(sv))
        if t.k == "real":
            return Val.realv(self.term(sv))
        if t.k == "str":
            return Val.strv(self.term(sv))
        if t.k == "bytes":
            return Val.bytesv(self.term(sv))
        if t.k == "obj":
            return Val.objv(self.term(sv))
        if isinstance(sv, Tup):
            return Val.objv(self.uf("tuple%d" % len(sv.items), *([self.box(x) for x in sv.items] + [OBJ])))
        if isinstance(sv, Ref):
            # a container stored in a dynamically typed place: an object identified by its id
            o = self.uf("container!%d" % sv.id, OBJ)
            self.objterms[o.get_id()] = sv.id
            return Val.objv(o)
        if isinstance(sv, (FuncV, BoundV, ClassV, ExtV, PyFn, ModV)):
            nm = getattr(sv, "qual", None) or getattr(sv, "name", None) or str(id(sv))
            if isinstance(sv, BoundV):
                return Val.objv(self.uf("bound_" + getattr(sv.func, "qual", getattr(sv.func, "name", "?")),
                                        self.box(sv.self_), OBJ))
            o = self.uf("callable_" + nm, OBJ)
            self.callables = getattr(self, "callables", {})
            self.callables[o.get_id()] = sv
            return Val.objv(o)
        if isinstance(sv, NoopV):
            return Val.objv(self.uf("noop", OBJ))
        raise Unsupported("box %r" % (sv,))

    KINDS = (("str", 4), ("int", 2), ("real", 3), ("bool", 1), ("none", 0), ("bytes", 5), ("obj", 6))

    def narrow(self, sv, want=None):
        """Fork an AnyV on its kind and return a typed value."""
        if not isinstance(sv, AnyV):
            return sv
        ks = dict(self.KINDS)
        order = list(self.KINDS)
        if want in ks:
            order.sort(key=lambda p: p[0] != want)
        for name, ci in order[:-1]:
            if self.decide(Val.recognizer(ci)(sv.t)):
                if name == "none":
                    return NONE
                return Sym(name, self.k(z3.simplify(Val.accessor(ci, 0)(sv.t))))
        name, ci = order[-1]
        self.assume(Val.recognizer(ci)(sv.t))
        if name == "none":
            return NONE
        if name != "obj":
            return Sym(name, self.k(z3.simplify(Val.accessor(ci, 0)(sv.t))))
        return self.obj_of_any(sv)

    def obj_of_any(self, sv):
        return self.obj_ref(self.k(z3.simplify(Val.o(sv.t))), "object")

    # ------------------------------------------------------------ truth and equality
    def truth(self, sv):
        """Python bool or z3 Bool."""
        if isinstance(sv, Const):
            return bool(sv.v)
        if isinstance(sv, Sym):
            if sv.kind == "bool":
                return sv.t
            if sv.kind in ("int", "real"):
                return sv.t != 0
            return z3.Length(sv.t) > 0
        if isinstance(sv, AnyV):
            x = sv.t
            return z3.If(Val.is_none(x), False, z3.If(Val.is_boolv(x), Val.b(x), z3.If(
                Val.is_intv(x), Val.i(x) != 0, z3.If(Val.is_realv(x), Val.r(x) != 0, z3.If(
                    Val.is_strv(x), z3.Length(Val.s(x)) > 0, z3.If(
                        Val.is_bytesv(x), z3.Length(Val.y(x)) > 0,
                        z3.Function("truthy", OBJ, z3.BoolSort())(Val.o(x))))))))
        if isinstance(sv, Tup):
            return len(sv.items) > 0
        if isinstance(sv, SeqV):
            return sv.n > 0
        if isinstance(sv, Ref):
            r = self.rec(sv)
            if isinstance(r, (ListRec, DictRec, SetRec)):
                return len(r.items) > 0
            if isinstance(r, (SymList, SymDict)):
                return r.n > 0
            if isinstance(r, SymSet):
                return self.as_symset(r, r.kt).n > 0
            if isinstance(r, ObjRec):
                sc = self.schema(r.cls)
                if sc and sc.get("truthy") == "uf":
                    return self.uf("truthy", r.term, z3.BoolSort())
                for nm in ("__bool__", "__nonzero__", "__len__"):
                    f = (sc or {}).get("methods", {}).get(nm) or self.class_attr(r.cls, nm)
                    if f is not None:
                        return self.truth(self.call(BoundV(sv, f), [], {}))
                if r.cls == "object":
                    return self.uf("truthy", r.term, z3.BoolSort())
                return True
        if isinstance(sv, Poison):
            raise Unsupported("use of %s after a loop" % sv.name)
        return True

    def is_true(self, sv):
        return self.decide(self.truth(sv))

    def eq(self, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("use of a loop-local after the loop")
        if isinstance(a, Const) and isinstance(b, Const):
            return a.v == b.v
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            if isinstance(b, AnyV) and not isinstance(a, AnyV):
                a, b = b, a
            if isinstance(b, (Tup,)) or (isinstance(b, Ref) and not isinstance(self.rec(b), ObjRec)):
                return self.box(a) == self.box(b)
            tb = self.typeof(b)
            if tb.k in ("int", "real", "bool"):
                rb = self.term(b, Real)
                x = a.t
                return z3.Or(z3.And(Val.is_intv(x), z3.ToReal(Val.i(x)) == rb),
                             z3.And(Val.is_realv(x), Val.r(x) == rb),
                             z3.And(Val.is_boolv(x), z3.If(Val.b(x), z3.RealVal(1), z3.RealVal(0)) == rb))
            return a.t == self.box(b)
        ta, tb = self.typeof(a), self.typeof(b)
        num = ("int", "real", "bool")
        if ta.k in num and tb.k in num:
            if ta.k == tb.k:
                return self.term(a) == self.term(b)
            if "real" in (ta.k, tb.k):
                return self.term(a, Real) == self.term(b, Real)
            return self.term(a, Int) == self.term(b, Int)
        if ta.k == tb.k and ta.k in ("str", "bytes"):
            return self.term(a) == self.term(b)
        if ta.k == "none" or tb.k == "none":
            return ta.k == tb.k
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            ra, rb = self.rec(a), self.rec(b)
            if isinstance(ra, ObjRec) and isinstance(rb, ObjRec):
                f = self.class_attr(ra.cls, "__eq__")
                if f is not None:
                    return self.truth(self.call(BoundV(a, f), [b], {}))
                return ra.term == rb.term
            if isinstance(ra, ListRec) and isinstance(rb, ListRec):
                if len(ra.items) != len(rb.items):
                    return False
                return self.conj([self.eq(x, y) for x, y in zip(ra.items, rb.items)])
            if isinstance(ra, (ListRec, SymList)) and isinstance(rb, (ListRec, SymList)):
                et = ra.et if isinstance(ra, SymList) else rb.et
                x, y = self.as_symlist(ra, et), self.as_symlist(rb, et)
                j = z3.Int("eqj")
                return z3.And(x.n == y.n, forall_([j], z3.Implies(
                    z3.And(j >= 0, j < x.n), z3.Select(x.arr, j) == z3.Select(y.arr, j))))
            if type(ra).__name__.strip("SymRec") != type(rb).__name__.strip("SymRec"):
                return False
            raise Unsupported("== on containers")
        if isinstance(a, (ClassV, FuncV, ExtV)) and isinstance(b, (ClassV, FuncV, ExtV)):
            return getattr(a, "qual", getattr(a, "name", 0)) == getattr(b, "qual", getattr(b, "name", 1))
        if ta.k == "other" or tb.k == "other":
            raise Unsupported("== on %r %r" % (a, b))
        return False

    def conj(self, cs):
        out = []
        for c in cs:
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                out.append(c)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def neg(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def same(self, a, b):
        """The 'is' operator."""
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            ra, rb = self.rec(a), self.rec(b)
            if isinstance(ra, ObjRec) and isinstance(rb, ObjRec):
                return ra.term == rb.term
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and (x.v is None or isinstance(x.v, bool)):
                if isinstance(y, AnyV):
                    return y.t == self.box(x)
                if isinstance(y, Const):
                    return type(x.v) == type(y.v) and x.v == y.v
                if x.v is None:
                    return False
                if isinstance(y, Sym) and y.kind == "bool":
                    return y.t == z3.BoolVal(x.v)
                return False
        if isinstance(a, (Tup, Ref)) != isinstance(b, (Tup, Ref)) and not isinstance(a, AnyV) \
                and not isinstance(b, AnyV):
            return False
        return self.eq(a, b)

    def b(self, c):
        """z3 Bool / bool -> value"""
        if isinstance(c, bool):
            return TRUE if c else FALSE
        return Sym("bool", self.k(c))

    # ------------------------------------------------------------ schemas and attributes
    def schema(self, cls):
        if cls in self.schemas:
            return self.schemas[cls]
        if ":" in cls:
            for q in self.mro(cls)[1:]:
                for s in self.schemas.values():
                    if s.get("repo") == q:
                        return s
                if q in self.schemas:
                    return self.schemas[q]
            for s in self.schemas.values():
                if s.get("repo") == cls:
                    return s
        return None

    def repo_class(self, cls):
        if ":" in cls:
            return cls
        s = self.schemas.get(cls)
        return s.get("repo") if s else None

    def class_node(self, qual):
        m, n = qual.split(":")
        mod = self.prog.module(m)
        if mod is None:
            return None, None
        node = mod.bind.get(n)
        if not isinstance(node, ast.ClassDef):
            return None, None
        return mod, node

    def mro(self, qual):
        out = []

        def visit(q):
            if q in out:
                return
            out.append(q)
            if ":" not in q:
                return
            mod, node = self.class_node(q)
            if node is None:
                return
            for bse in node.bases:
                try:
                    v = self.eval_in_module(mod, bse)
                except (Unsupported, RaiseEx):
                    continue
                if isinstance(v, ClassV):
                    visit(v.qual)
                elif isinstance(v, ExtV):
                    visit(v.name)
        visit(qual)
        return out

    def eval_in_module(self, mod, node, names=None):
        save = self.env
        self.env = self.alloc(EnvRec(dict(names or {}, __module__=mod))).id
        self.stack.append(("<module %s>" % mod.name, mod, None))
        try:
            return self.eval(node)
        finally:
            self.env = save
            self.stack.pop()

    def class_attr(self, cls, name, after=None):
        """Look a name up in a class and its bases; FuncV, or a value."""
        q = self.repo_class(cls)
        if q is None:
            return None
        mro = self.mro(q)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if ":" not in c:
                continue
            mod, node = self.class_node(c)
            if node is None:
                continue
            found = None
            for st in node.body:
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    kind = None
                    skip = False
                    for d in st.decorator_list:
                        if isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod"):
                            kind = d.id
                        elif isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
                            skip = True
                    if not skip:
                        found = FuncV(mod, st, "%s.%s" % (c, name), cls=c, kind=kind)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            found = self.class_value(c, name, mod, st.value)
            if found is not None:
                return found
        return None

    def class_value(self, c, name, mod, node):
        key = ("classattr", c, name)
        if key not in self.store:
            if isinstance(node, ast.Name):
                # alias of another attribute of the class body
                for st in self.class_node(c)[1].body:
                    if isinstance(st, ast.FunctionDef) and st.name == node.id:
                        return FuncV(mod, st, "%s.%s" % (c, node.id), cls=c)
            # names the class body assigns before this one
            names = {}
            used = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}
            for st in self.class_node(c)[1].body:
                if isinstance(st, ast.Assign) and st.value is node:
                    break
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name) and t.id in used:
                            names[t.id] = self.class_value(c, t.id, mod, st.value)
            self.store[key] = self.eval_in_module(mod, node, names)
        return self.store[key]

    def setter(self, cls, name):
        q = self.repo_class(cls)
        if q is None:
            return None
        for c in self.mro(q):
            if ":" not in c:
                continue
            mod, node = self.class_node(c)
            if node is None:
                continue
            for st in node.body:
                if isinstance(st, ast.FunctionDef):
                    for d in st.decorator_list:
                        if isinstance(d, ast.Attribute) and d.attr == "setter":
                            if st.name == name:
                                return FuncV(mod, st, "%s.%s@setter" % (c, name), cls=c)
        return None

    LOGNAMES = ("log", "logger")

    def getattr(self, obj, name, default=None):
        if isinstance(obj, NoopV):
            return obj
        if isinstance(obj, AnyV):
            obj = self.narrow(obj, "obj")
        if isinstance(obj, ModV):
            return self.module_attr(obj.name, name)
        if isinstance(obj, ExtV):
            return self.ext_attr(obj.name, name)
        if isinstance(obj, SuperV):
            rec = self.rec(obj.obj) if isinstance(obj.obj, Ref) else None
            cls = rec.cls if rec is not None else obj.obj.qual
            f = self.class_attr(cls, name, after=obj.cls)
            if f is None:
                return PyFn(lambda it, a, k: it.ext_super(obj, name, a, k), "super." + name)
            return BoundV(obj.obj, f) if isinstance(f, FuncV) else f
        if isinstance(obj, ClassV):
            if name == "__name__":
                return Const(obj.qual.split(":")[1])
            f = self.class_attr(obj.qual, name)
            if f is None and name in ("__init__", "__init_subclass__"):
                return PyFn(lambda it, a, k: NONE, "object.__init__")
            if f is None:
                raise Unsupported("class attribute %s.%s" % (obj.qual, name))
            if isinstance(f, FuncV) and f.kind == "classmethod":
                return BoundV(obj, f)
            return f
        if isinstance(obj, Ref) and isinstance(self.rec(obj), ObjRec):
            return self.obj_attr(obj, name, default)
        return self.builtin_attr(obj, name)

    def obj_attr(self, obj, name, default=None):
        rec = self.rec(obj)
        if name in rec.fields:
            v = rec.fields[name]
            if v is not None:
                return v
        if name in self.LOGNAMES:
            return NoopV()
        sc = self.schema(rec.cls)
        if sc and name in sc.get("methods", {}):
            return BoundV(obj, sc["methods"][name])
        if sc and name in sc.get("fields", {}) and not rec.fresh:
            return self.lazy_field(obj, rec, name, sc["fields"][name])
        if name == "__class__":
            q = self.repo_class(rec.cls)
            if q:
                mod, node = self.class_node(q)
                return ClassV(mod, node, q)
        if name == "__dict__":
            raise Unsupported("__dict__")
        f = self.class_attr(rec.cls, name)
        if isinstance(f, FuncV):
            if f.kind == "property":
                return self.call(BoundV(obj, f), [], {})
            if f.kind == "staticmethod":
                return f
            if f.kind == "classmethod":
                mod, node = self.class_node(self.repo_class(rec.cls))
                return BoundV(ClassV(mod, node, self.repo_class(rec.cls)), f)
            return BoundV(obj, f)
        if f is not None:
            if isinstance(f, (BoundV,)):
                return f
            return f
        m = self.ext_method(rec.cls, name)
        if m is not None:
            return BoundV(obj, m)
        if default is not None:
            return default
        if rec.fresh:
            raise self.exc("AttributeError")
        if rec.cls == "object" or sc is None:
            return self.lazy_field(obj, rec, name, Any)
        return self.lazy_field(obj, rec, name, Any)

    def ext_method(self, cls, name):
        return self.ext.get("method:%s.%s" % (cls, name))

    def lazy_field(self, obj, rec, name, t):
        if callable(t):
            v = t(self, obj)
        else:
            epoch = self.store.get(("epoch", rec.cls, name), 0)
            nm = "%s.%s" % (rec.cls, name) + ("@%s" % epoch if epoch else "")
            # a write to the same field of another, possibly equal object?
            for (i, fld) in self.writes:
                if fld == name and i != obj.id and i in self.store and isinstance(self.store[i], ObjRec):
                    o = self.store[i]
                    if o.cls == rec.cls and not o.fresh and not rec.fresh:
                        if self.decide(o.term == rec.term):
                            return self.rec(Ref(i)).fields[name]
            x = self.uf(nm, rec.term, sort_of(t))
            v = self.from_term(x, t, snap=False)
        if isinstance(v, Ref) and not isinstance(self.rec(v), ObjRec):
            self.lazy[v.id] = (obj.id, name)
        r = self.rec(obj)
        self.store[obj.id] = r.with_field(name, v)     # a read: not recorded as a write
        return v

    def setattr(self, obj, name, v):
        if isinstance(obj, AnyV):
            obj = self.narrow(obj, "obj")
        if isinstance(obj, Ref) and isinstance(self.rec(obj), ObjRec):
            rec = self.rec(obj)
            if name in self.LOGNAMES:
                return
            st = self.setter(rec.cls, name)
            if st is not None:
                self.call(BoundV(obj, st), [v], {})
                return
            sc = self.schema(rec.cls)
            if sc and name in sc.get("setters", ()):
                sc["setters"][name](self, obj, v)
                return
            self.put(obj, rec.with_field(name, v), name)
            return
        if isinstance(obj, ClassV):
            self.store[("classattr", obj.qual, name)] = v
            self.writes.add((("classattr", obj.qual, name), None))
            return
        if isinstance(obj, NoopV):
            return
        raise Unsupported("setattr on %r" % (obj,))

    # ------------------------------------------------------------ modules
    def module_attr(self, mname, name):
        m = self.prog.module(mname)
        if m is not None and name in m.bind:
            return self.global_value(m, name)
        sub = mname + "." + name
        if self.prog.path_of(sub):
            return ModV(sub)
        if m is not None:
            raise Unsupported("module attribute %s" % sub)
        raise Unsupported("module %s" % mname)

    def module_value(self, dotted):
        root = dotted.split(".")[0]
        if root == "oa":
            return ModV(dotted)
        return ExtV(dotted)

    def global_value(self, mod, name):
        if "global:%s:%s" % (mod.name, name) in self.ext:
            # a module global the contract replaces
            return self.ext["global:%s:%s" % (mod.name, name)](self)
        b = mod.bind[name]
        if isinstance(b, ast.FunctionDef):
            f = FuncV(mod, b, "%s:%s" % (mod.name, name))
            return f
        if isinstance(b, ast.ClassDef):
            return ClassV(mod, b, "%s:%s" % (mod.name, name))
        if b[0] == "mod":
            return self.module_value(b[1])
        if b[0] == "from":
            base, nm = b[1], b[2]
            if base == "builtins":
                return self.builtin(nm)
            if base.split(".")[0] == "oa":
                m = self.prog.module(base)
                if m is not None and nm in m.bind:
                    return self.global_value(m, nm)
                if self.prog.path_of(base + "." + nm):
                    return ModV(base + "." + nm)
                raise Unsupported("import %s from %s" % (nm, base))
            return self.ext_attr(base, nm)
        key = ("global", mod.name, name)
        if key not in self.store:
            if b[0] == "expr":
                self.store[key] = self.eval_in_module(mod, b[1])
            else:
                v = self.eval_in_module(mod, b[1])
                self.store[key] = self.index(v, Const(b[2]))
        return self.store[key]

    def builtin(self, name):
        return ExtV("builtins." + name)

    def ext_attr(self, base, name):
        d = "%s.%s" % (base, name)
        if d.startswith("builtins."):
            pass
        key = "value:" + d
        if key in self.ext:
            return self.ext[key](self)
        return ExtV(d)

    # ------------------------------------------------------------ exceptions
    def exc(self, cls, *args):
        ref = self.new_obj("exc:" + cls, args=Tup(args))
        return RaiseEx(cls, ref, self.where())

    def exc_supers(self, cls):
        """All superclass names of an exception class name (repo qualname, builtin, dotted)."""
        out = [cls]
        if ":" in cls:
            for q in self.mro(cls)[1:]:
                if ":" in q:
                    out.append(q)
                else:
                    out += self.exc_supers(q.replace("builtins.", ""))
            if out == [cls]:
                out += ["Exception", "BaseException"]
            return out
        n = cls.replace("builtins.", "")
        if _is_exc_name(n):
            return [c.__name__ for c in getattr(_py, n).__mro__]
        if n in EXT_EXC:
            return [n] + self.exc_supers(EXT_EXC[n])
        return [n, "Exception", "BaseException"]

    def exc_matches(self, cls, handler):
        """bool or None when unknown."""
        h = self.exc_name(handler)
        h = {"IOError": "OSError", "EnvironmentError": "OSError"}.get(h, h)
        if h in self.exc_supers(cls):
            return True
        if cls == "UNKNOWN" and h not in ("Exception", "BaseException"):
            return None
        return False

    def exc_name(self, v):
        if isinstance(v, ClassV):
            return v.qual
        if isinstance(v, ExtV):
            # the same class under the name of a module that imports it
            return v.name.replace("builtins.", "").replace("email.header.HeaderParseError", "email.errors.HeaderParseError")
        raise Unsupported("exception class %r" % (v,))

    # ------------------------------------------------------------ where
    def where(self):
        for q, mod, node in reversed(self.stack):
            if node is not None:
                return "%s:%s" % (q, getattr(self, "line", "?"))
        return "?"

    # ------------------------------------------------------------ obligations
    def check(self, name, cond):
        """Record an obligation on the current path and assume it afterwards."""
        if cond is True:
            cond = z3.BoolVal(True)
        elif cond is False:
            cond = z3.BoolVal(False)
        self.obls.append(Obligation(name, self.k(cond), self.pcs, self.where()))
        if not z3.is_false(z3.simplify(cond)):
            self.assume(cond)


from . import stmts as _stmts      # noqa: E402
from . import models as _models    # noqa: E402

for _m in (_stmts, _models):
    for _n, _f in list(vars(_m).items()):
        if getattr(_f, "__module__", None) == _m.__name__ and callable(_f) and not isinstance(_f, type):
            setattr(Interp, _n, _f)
