"""Shared pieces of the contracts: ghost state, schemas, small helpers."""
import z3

from vc.core import *
from vc import interp as I
from vc.verify import Contract, Out, old_state

Z = z3


def sel(a, i):
    return z3.Select(a, i)


def forall(v, sorts, f, pats=None):
    """forall x1..xn. f(x1..xn) with fresh names"""
    v.cnt += 1
    xs = [z3.Const("q%d!%d" % (n, v.cnt), s) for n, s in enumerate(sorts)]
    body = f(*xs)
    if isinstance(body, bool):
        body = z3.BoolVal(body)
    kw = {}
    if pats:
        kw["patterns"] = pats(*xs)
    return forall_(xs, body, **kw)


def exists(v, sorts, f):
    v.cnt += 1
    xs = [z3.Const("e%d!%d" % (n, v.cnt), s) for n, s in enumerate(sorts)]
    return z3.Exists(xs, f(*xs))


INT, BOOL, REAL, STR = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()


def rng(lo, j, hi):
    return z3.And(lo <= j, j < hi)


def truthy(x):
    """Python truth of a Val term"""
    return z3.If(Val.is_none(x), False, z3.If(Val.is_boolv(x), Val.b(x), z3.If(
        Val.is_intv(x), Val.i(x) != 0, z3.If(Val.is_realv(x), Val.r(x) != 0, z3.If(
            Val.is_strv(x), z3.Length(Val.s(x)) > 0, z3.If(
                Val.is_bytesv(x), z3.Length(Val.y(x)) > 0,
                z3.Function("truthy", OBJ, z3.BoolSort())(Val.o(x))))))))


def new_dict(v, kt, vt, name="d", default=None):
    """an arbitrary dict"""
    t = DictT(kt, vt)
    r = v.fresh(t, name)
    rec = v.rec(r)
    v.store[r.id] = rec.replace(snap=False, default=default)
    v.wf_keys(rec.has, rec.n, rec.keys, kt)
    return r


def empty_symdict(v, kt, vt, default=None):
    s = sort_of(kt)
    return v.alloc(SymDict(kt, vt, z3.K(s, z3.BoolVal(False)), z3.K(s, v.default_term(vt)), z3.IntVal(0),
                           z3.K(z3.IntSort(), v.default_term(kt)), default))


def new_list(v, et, name="l"):
    r = v.fresh(ListT(et), name)
    rec = v.rec(r)
    v.store[r.id] = SymList(rec.n, rec.arr, rec.et)
    return r


def empty_symlist(v, et):
    return v.alloc(SymList(z3.IntVal(0), z3.K(z3.IntSort(), v.default_term(et)), et))


def ghost_list(v, et):
    """a ghost sequence, kept as a list value in the store"""
    return empty_symlist(v, et)


def log_event(v, ref, term):
    r = v.rec(ref)
    v.put(ref, SymList(v.k(z3.simplify(r.n + 1)), v.k(z3.Store(r.arr, r.n, term)), r.et))


def obj(v, cls, _name="o", **fields):
    """an arbitrary pre-existing object"""
    t = v.fresh_term(_name, OBJ)
    r = v.alloc(ObjRec(cls, t, dict(fields)))
    v.objterms[t.get_id()] = r.id
    return r


def conf_dict(v, **types):
    """a configuration with arbitrary values of the declared types"""
    return v.alloc(DictRec([(Const(k), x if isinstance(x, SV) else v.fresh(x, "conf_" + k))
                            for k, x in types.items()]))


def field(v, ref, name):
    return v.getattr(ref, name)


def fterm(v, ref, name, t=None):
    return v.term(v.getattr(ref, name), t)


def method(fn, name="model"):
    return PyFn(fn, name)


def noop_method(name="noop"):
    return PyFn(lambda v, a, k: NONE, name)


def term_of(v, x, t=None):
    return v.term(x, t)


def same_value(v, a, b):
    """the two values are equal (z3 Bool), as Any terms or typed terms"""
    c = v.eq(a, b)
    return z3.BoolVal(c) if isinstance(c, bool) else c


def no_exception(v, out):
    v.check("no exception escapes", out.kind == "return")


# ------------------------------------------------------------ specification functions in Python
_SPECS = {}


def spec_module(src):
    from vc.program import Module
    import textwrap
    src = textwrap.dedent(src)
    if src not in _SPECS:
        _SPECS[src] = Module("spec", "<spec>", src)
    return _SPECS[src]


def spec_call(v, src, args, name=None):
    """the value of a specification function (Python text) on the given values -> Out"""
    m = spec_module(src)
    if name is None:
        name = [n.name for n in m.tree.body if isinstance(n, I.ast.FunctionDef)][-1]
    f = I.FuncV(m, m.bind[name], "spec:" + name)
    save = v.target
    try:
        return Out("return", v.inline(f, list(args), {}))
    except I.RaiseEx as e:
        return Out("raise", exc=e)


def exc_class(out):
    return out.exc.cls if out.kind == "raise" else None


def same_outcome(v, out, want, name="result", value=True):
    """obligations: both end alike (return/raise the same class) with equal values"""
    if want.kind == "raise":
        v.check("%s: raises %s" % (name, want.exc.cls.split(":")[-1]),
                out.kind == "raise" and want.exc.cls in v.exc_supers(out.exc.cls))
        return False
    v.check("%s: no exception" % name, out.kind == "return")
    if out.kind != "return":
        return False
    if value:
        v.check("%s as specified" % name, equal_values(v, out.value, want.value))
    return True


def equal_values(v, a, b):
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        cs = [equal_values(v, x, y) for x, y in zip(a.items, b.items)]
        return z3.And(*cs) if cs else z3.BoolVal(True)
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return z3.BoolVal(True)
    c = v.eq(a, b)
    return z3.BoolVal(c) if isinstance(c, bool) else c


class SpecContract(Contract):
    """The function computes what a specification function (Python text) says, on every input.

    observe(v, out) -> [(name, value)] are the parts of the state compared afterwards; the
    specification runs on the state before the call.
    """
    spec = None
    result = True
    raise_state = True       # compare the state also when an exception is specified

    def observe(self, v, a):
        return []

    def spec_args(self, v, a):
        return a

    def post(self, v, a, old, out):
        got = [(n, freeze(v, x)) for n, x in self.observe(v, a)]
        after = v.store
        v.store = dict(old)
        for k in after:
            if k not in v.store:
                v.store[k] = after[k]
        want = spec_call(v, self.spec, self.spec_args(v, a))
        exp = [(n, freeze(v, x)) for n, x in self.observe(v, a)]
        spec_store = v.store
        v.store = dict(after)
        for k in spec_store:
            if k not in v.store:
                v.store[k] = spec_store[k]
        wf = freeze(v, want.value, spec_store) if want.kind == "return" else None
        if same_outcome(v, out, want, value=False) and self.result:
            v.check("result as specified", same_frozen(v, freeze(v, out.value), wf))
        if want.kind == "raise" and not self.raise_state:
            return
        names = [n for n, x in got]
        v.check("same parts of the state set", names == [n for n, x in exp])
        for (n, x), (n2, y) in zip(got, exp):
            v.check("%s as specified" % n, same_frozen(v, x, y))
        self.extra(v, a, old, out)

    def extra(self, v, a, old, out):
        pass


def freeze(v, x, store=None):
    """a value with the contents it has now: term, ("obj", id), ("seq", ...), ("map", ...)"""
    save = v.store
    if store is not None:
        v.store = store
    try:
        return _freeze(v, x)
    finally:
        v.store = save


def _freeze(v, x):
    if isinstance(x, Tup):
        return ("tup", [_freeze(v, i) for i in x.items])
    if isinstance(x, Ref):
        r = v.rec(x)
        if isinstance(r, ObjRec):
            return ("obj", r.term)
        if isinstance(r, ListRec):
            return ("list", [_freeze(v, i) for i in r.items])
        if isinstance(r, DictRec):
            return ("dict", [(k, _freeze(v, i)) for k, i in r.items], r)
        if isinstance(r, SetRec):
            return ("setrec", r)
        if isinstance(r, SymList):
            return ("symlist", r)
        if isinstance(r, SymDict):
            return ("symdict", r)
        if isinstance(r, SymSet):
            return ("symset", v.as_symset(r, r.kt))
    return ("val", x)


def _sv(v, f):
    """a frozen value as a value again (containers are re-allocated)"""
    k = f[0]
    if k == "val":
        return f[1]
    if k == "obj":
        return v.obj_ref(f[1], "object")
    if k == "tup":
        return Tup([_sv(v, i) for i in f[1]])
    if k == "list":
        return v.alloc(ListRec([_sv(v, i) for i in f[1]]))
    if k == "dict":
        return v.alloc(DictRec([(kk, _sv(v, i)) for kk, i in f[1]]))
    if k == "setrec":
        return v.alloc(f[1])
    return v.alloc(f[1])


def same_frozen(v, a, b):
    """the two frozen values are equal (objects: identical)"""
    ka, kb = a[0], b[0]
    if ka == "obj" and kb == "obj":
        return a[1] == b[1]
    if ka in ("tup", "list") and kb == ka:
        if len(a[1]) != len(b[1]):
            return z3.BoolVal(False)
        return z3.And(*([same_frozen(v, x, y) for x, y in zip(a[1], b[1])] or [z3.BoolVal(True)]))
    if ka == "dict" and kb == "dict":
        da, db = dict((kv[0].v, kv[1]) for kv in a[1]), dict((kv[0].v, kv[1]) for kv in b[1])
        if set(da) != set(db):
            return z3.BoolVal(False)
        return z3.And(*([same_frozen(v, da[x], db[x]) for x in da] or [z3.BoolVal(True)]))
    if ka == "symdict" or kb == "symdict":
        t = (a if ka == "symdict" else b)[1]
        ra, rb = v.rec(_sv(v, a)), v.rec(_sv(v, b))
        if not isinstance(ra, (DictRec, SymDict)) or not isinstance(rb, (DictRec, SymDict)):
            return z3.BoolVal(False)
        ra = v.as_symdict(ra, DictT(t.kt, t.vt)) if isinstance(ra, DictRec) else ra
        rb = v.as_symdict(rb, DictT(t.kt, t.vt)) if isinstance(rb, DictRec) else rb
        if ra.kt != rb.kt or ra.vt != rb.vt:
            raise Unsupported("dict types %s %s" % (ra.vt, rb.vt))
        return z3.And(ra.n == rb.n,
                      forall(v, [sort_of(ra.kt)], lambda x: z3.And(
                          sel(ra.has, x) == sel(rb.has, x),
                          z3.Implies(sel(ra.has, x), sel(ra.val, x) == sel(rb.val, x)))),
                      forall(v, [INT], lambda j: z3.Implies(rng(0, j, ra.n), sel(ra.keys, j) == sel(rb.keys, j))))
    if ka in ("symlist", "list") and kb in ("symlist", "list"):
        t = (a if ka == "symlist" else b)[1].et
        la = v.as_symlist(v.rec(_sv(v, a)), t)
        lb = v.as_symlist(v.rec(_sv(v, b)), t)
        return z3.And(la.n == lb.n, forall(v, [INT], lambda j: z3.Implies(
            rng(0, j, la.n), sel(la.arr, j) == sel(lb.arr, j))))
    if ka in ("symset", "setrec") or kb in ("symset", "setrec"):
        if ka not in ("symset", "setrec") or kb not in ("symset", "setrec"):
            return z3.BoolVal(False)
        if ka == "setrec" and kb == "setrec":
            return equal_values(v, _sv(v, a), _sv(v, b))
        t = (a if ka == "symset" else b)[1].kt
        sa = v.as_symset(a[1], t)
        sb = v.as_symset(b[1], t)
        return forall(v, [sort_of(t)], lambda x: sel(sa.has, x) == sel(sb.has, x))
    return equal_values(v, _sv(v, a), _sv(v, b))


class Model(Contract):
    """The behaviour a caller may assume of a function that is not entered: model(v, f, args, kwargs)."""

    def __init__(self, fn):
        self.fn = fn
        self.name = "model"

    def apply(self, v, f, args, kwargs):
        return self.fn(v, f, args, kwargs)


class TraceContract(Contract):
    """The function performs the calls a specification function (Python text) performs, in that order
    and with equal arguments, ends alike, and leaves the observed state alike.  The calls are the
    models of the contract, each of which records itself with emit()."""
    spec = None
    result = True

    def emit(self, v, tag, *vals):
        v.trace = v.trace + ((tag, tuple(freeze(v, x) for x in vals)),)

    def observe(self, v, a):
        return []

    def spec_args(self, v, a):
        return a

    def skip_trace(self, v):
        """drop what setup recorded"""
        v.trace = ()

    def post(self, v, a, old, out):
        got_trace = v.trace
        got = [(n, freeze(v, x)) for n, x in self.observe(v, a)]
        after = v.store
        v.store = dict(old)
        for k in after:
            if k not in v.store:
                v.store[k] = after[k]
        v.trace = ()
        want = spec_call(v, self.spec, self.spec_args(v, a))
        want_trace = v.trace
        exp = [(n, freeze(v, x)) for n, x in self.observe(v, a)]
        spec_store = v.store
        v.store = dict(after)
        for k in spec_store:
            if k not in v.store:
                v.store[k] = spec_store[k]
        wf = freeze(v, want.value, spec_store) if want.kind == "return" else None
        tags = [t for t, x in got_trace]
        v.check("does exactly what is specified (%s)" % (" ".join(t for t, x in want_trace) or "nothing"),
                tags == [t for t, x in want_trace])
        for (t, xs), (t2, ys) in zip(got_trace, want_trace):
            v.check("%s: as many values" % t, len(xs) == len(ys))
            for n, (x, y) in enumerate(zip(xs, ys)):
                v.check("%s: value %d" % (t, n), same_frozen(v, x, y))
        if same_outcome(v, out, want, value=False) and self.result:
            v.check("result as specified", same_frozen(v, freeze(v, out.value), wf))
        for (n, x), (n2, y) in zip(got, exp):
            v.check("%s as specified" % n, same_frozen(v, x, y))
        self.extra(v, a, old, out)

    def extra(self, v, a, old, out):
        pass
