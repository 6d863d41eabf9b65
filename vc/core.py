"""Types, sorts and symbolic values of the verifier."""
import z3

OBJ = z3.DeclareSort('Obj')


class Unsupported(Exception):
    """The construct is outside the verified subset: the function is undecided."""


class T(object):
    """A declared type: kind plus arguments."""
    def __init__(self, k, *a):
        self.k, self.a = k, a
        self.key = k + ("" if not a else "(" + ",".join(
            x.key if isinstance(x, T) else str(x) for x in a) + ")")

    def __eq__(self, o):
        return isinstance(o, T) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


Int, Bool, Real, Str, Bytes, Any, NoneT = [T(k) for k in
                                           ("int", "bool", "real", "str", "bytes", "any", "none")]


def Opt(t):
    return t if t.k in ("opt", "any", "none") else T("opt", t)


def ListT(t):
    return T("list", t)


def SetT(t):
    return T("set", t)


def DictT(k, v):
    return T("dict", k, v)


def TupT(*ts):
    return T("tup", *ts)


def ObjT(name):
    return T("obj", name)


_val = z3.Datatype('Val')
_val.declare('none')
_val.declare('boolv', ('b', z3.BoolSort()))
_val.declare('intv', ('i', z3.IntSort()))
_val.declare('realv', ('r', z3.RealSort()))
_val.declare('strv', ('s', z3.StringSort()))
_val.declare('bytesv', ('y', z3.StringSort()))
_val.declare('objv', ('o', OBJ))
Val = _val.create()

_sorts = {}


def _mk(name, ctors):
    d = z3.Datatype(name)
    for c, fs in ctors:
        d.declare(c, *fs)
    return d.create()


def sort_of(t):
    k = t.k
    if k == "int":
        return z3.IntSort()
    if k == "bool":
        return z3.BoolSort()
    if k == "real":
        return z3.RealSort()
    if k in ("str", "bytes"):
        return z3.StringSort()
    if k in ("any", "none"):
        return Val
    if k == "obj":
        return OBJ
    if t.key in _sorts:
        return _sorts[t.key]
    n = t.key
    if k == "opt":
        s = _mk(n, [("none_" + n, []), ("some_" + n, [("get_" + n, sort_of(t.a[0]))])])
    elif k == "tup":
        s = _mk(n, [("mk_" + n, [("p%d_%s" % (i, n), sort_of(x)) for i, x in enumerate(t.a)])])
    elif k == "list":
        s = _mk(n, [("mk_" + n, [("len_" + n, z3.IntSort()),
                                 ("arr_" + n, z3.ArraySort(z3.IntSort(), sort_of(t.a[0])))])])
    elif k == "set":
        s = _mk(n, [("mk_" + n, [("has_" + n, z3.ArraySort(sort_of(t.a[0]), z3.BoolSort())),
                                 ("len_" + n, z3.IntSort()),
                                 ("keys_" + n, z3.ArraySort(z3.IntSort(), sort_of(t.a[0])))])])
    elif k == "dict":
        s = _mk(n, [("mk_" + n, [("has_" + n, z3.ArraySort(sort_of(t.a[0]), z3.BoolSort())),
                                 ("val_" + n, z3.ArraySort(sort_of(t.a[0]), sort_of(t.a[1]))),
                                 ("len_" + n, z3.IntSort()),
                                 ("keys_" + n, z3.ArraySort(z3.IntSort(), sort_of(t.a[0])))])])
    else:
        raise Unsupported("sort of %s" % t)
    _sorts[t.key] = s
    return s


# ---------------------------------------------------------------- values
class SV(object):
    pass


class Const(SV):
    """A concrete immutable Python value (None, bool, int, float, str, bytes)."""
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Const(%r)" % (self.v,)


NONE, TRUE, FALSE = Const(None), Const(True), Const(False)


class Sym(SV):
    """A symbolic scalar: kind in int, bool, real, str, bytes."""
    def __init__(self, kind, t):
        self.kind, self.t = kind, t

    def __repr__(self):
        return "Sym(%s,%s)" % (self.kind, self.t)


class AnyV(SV):
    """A value of unknown type (sort Val)."""
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Any(%s)" % self.t


class Ref(SV):
    """A reference to a record in the store."""
    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return "Ref(%d)" % self.id


class Tup(SV):
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class FuncV(SV):
    def __init__(self, module, node, qual, env=None, cls=None, kind=None):
        self.module, self.node, self.qual = module, node, qual
        self.env, self.cls, self.kind = env, cls, kind


class BoundV(SV):
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class PyFn(SV):
    """A function implemented by the verifier or the contract: fn(interp, args, kwargs) -> SV."""
    def __init__(self, fn, name="?"):
        self.fn, self.name = fn, name


class ClassV(SV):
    def __init__(self, module, node, qual):
        self.module, self.node, self.qual = module, node, qual


class ModV(SV):
    def __init__(self, name):
        self.name = name


class ExtV(SV):
    """Something outside /repo, by dotted name."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class NoopV(SV):
    """Logging and the like: every use is a no-op."""


class SuperV(SV):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SeqV(SV):
    """A lazily described immutable sequence of n elements."""
    def __init__(self, n, at, origin=None, pats=None):
        self.n, self.at, self.origin, self.pats = n, at, origin, pats


class ExcV(object):
    pass


# ---------------------------------------------------------------- store records
class ObjRec(object):
    def __init__(self, cls, term, fields=None, fresh=False):
        self.cls, self.term, self.fields, self.fresh = cls, term, fields or {}, fresh

    def with_field(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return ObjRec(self.cls, self.term, f, self.fresh)

    def without(self, k):
        f = dict(self.fields)
        f.pop(k, None)
        return ObjRec(self.cls, self.term, f, self.fresh)


class ListRec(object):
    def __init__(self, items):
        self.items = tuple(items)


class SymList(object):
    def __init__(self, n, arr, et, snap=False):
        self.n, self.arr, self.et, self.snap = n, arr, et, snap


class DictRec(object):
    """Concrete shape: tuple of (Const key, value), in insertion order."""
    def __init__(self, items, default=None):
        self.items, self.default = tuple(items), default


class SymDict(object):
    def __init__(self, kt, vt, has, val, n, keys, default=None, snap=False):
        self.kt, self.vt, self.has, self.val, self.n, self.keys = kt, vt, has, val, n, keys
        self.default, self.snap = default, snap

    def replace(self, **kw):
        d = dict(kt=self.kt, vt=self.vt, has=self.has, val=self.val, n=self.n, keys=self.keys,
                 default=self.default, snap=self.snap)
        d.update(kw)
        return SymDict(**d)


class SetRec(object):
    def __init__(self, items):
        self.items = tuple(items)


class SymSet(object):
    def __init__(self, kt, has, n=None, keys=None, snap=False):
        self.kt, self.has, self.n, self.keys, self.snap = kt, has, n, keys, snap


class EnvRec(object):
    def __init__(self, vars, parent=None):
        self.vars, self.parent = vars, parent


class Poison(SV):
    """A local whose value (or being bound) is unknown after a loop."""
    def __init__(self, name):
        self.name = name


def forall_(xs, body, patterns=None):
    """a universal quantifier; a pattern z3 would refuse is dropped"""
    if patterns:
        ok = [p for p in patterns if patterns_ok(p)]
        if ok:
            try:
                return z3.ForAll(xs, body, patterns=ok)
            except z3.Z3Exception:
                pass
    return z3.ForAll(xs, body)


def patterns_ok(p):
    bad = (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_EQ)
    todo, seen = [p], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() in bad:
            return False
        todo.extend(t.children())
    return True
