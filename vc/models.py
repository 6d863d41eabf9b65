"""Models of Python's operators, builtin types and the external library calls /repo makes.

Everything here is part of the trusted base.  Pure external functions are uninterpreted functions of
their arguments (same arguments, same result), nothing more is assumed unless written here.
"""
import ast
import string as _string
import z3

from .core import *


def _I():
    from . import interp
    return interp


NUM = ("int", "real", "bool")


# ---------------------------------------------------------------- operators
def nkind(self, v):
    return self.typeof(v).k


def binop(self, op, a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("use of a loop-local after the loop")
    if isinstance(a, NoopV) or isinstance(b, NoopV):
        return NoopV()
    if isinstance(op, ast.Mod) and (nkind(self, a) in ("str", "any")):
        if isinstance(a, AnyV):
            a = self.narrow(a, "str")
        if nkind(self, a) == "str":
            return self.fmt_percent(a, b)
    if isinstance(a, AnyV):
        a = self.narrow(a, nkind(self, b) if not isinstance(b, AnyV) else "real")
    if isinstance(b, AnyV):
        b = self.narrow(b, nkind(self, a))
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return Const(self.const_binop(op, a.v, b.v))
        except ZeroDivisionError:
            raise self.exc("ZeroDivisionError")
        except TypeError:
            raise self.exc("TypeError")
    ka, kb = nkind(self, a), nkind(self, b)
    if isinstance(a, Ref) and isinstance(self.rec(a), ObjRec):
        nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__",
              ast.BitAnd: "__and__", ast.Mod: "__mod__"}.get(type(op))
        f = ((self.schema(self.rec(a).cls) or {}).get("methods", {}).get(nm) or self.class_attr(self.rec(a).cls, nm)) if nm else None
        if f is not None:
            return self.call(BoundV(a, f), [b], {})
    if isinstance(b, Ref) and isinstance(self.rec(b), ObjRec):
        nm = {ast.Add: "__radd__", ast.Mod: "__rmod__"}.get(type(op))
        f = (self.schema(self.rec(b).cls) or {}).get("methods", {}).get(nm) if nm else None
        if f is not None:
            return self.call(BoundV(b, f), [a], {})
    if ka in NUM and kb in NUM:
        return self.arith(op, a, b)
    if isinstance(op, ast.Add):
        if ka == kb and ka in ("str", "bytes"):
            r = self.concat([self.term(a), self.term(b)])
            return r if ka == "str" else (Sym("bytes", r.t) if isinstance(r, Sym) else Const(r.v.encode("latin1")))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if self.is_list(a) and self.is_list(b):
            return self.list_concat(a, b)
    if isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)) and self.is_set(a) and self.is_set(b):
        return self.call_method(a, {ast.BitOr: "union", ast.Sub: "difference",
                                    ast.BitAnd: "intersection"}[type(op)], [b])
    if isinstance(op, ast.BitOr) and isinstance(a, ExtV) and isinstance(b, ExtV) and a.name.startswith("re.") and b.name.startswith("re."):
        return ExtV("|".join(sorted(set(a.name.split("|")) | set(b.name.split("|")))))
    if isinstance(op, ast.Mult):
        if ka in ("str",) and kb == "int":
            return Sym("str", self.uf("str.repeat", self.term(a), self.term(b), z3.StringSort()))
        if self.is_list(a) and isinstance(b, Const) and isinstance(self.rec(a), ListRec):
            return self.alloc(ListRec(self.rec(a).items * b.v))
        if self.is_list(a) and isinstance(self.rec(a), ListRec) and len(self.rec(a).items) == 1 and kb == "int":
            et = self.typeof(self.rec(a).items[0])
            n = self.as_int(b)
            return self.alloc(SymList(z3.If(n > 0, n, 0), z3.K(z3.IntSort(), self.term(self.rec(a).items[0], et)), et))
        if isinstance(a, Tup) and isinstance(b, Const):
            return Tup(a.items * b.v)
    if ka in ("str", "bytes", "none") + NUM and kb in ("str", "bytes", "none") + NUM:
        raise self.exc("TypeError")
    if (ka == "none" or kb == "none") and not isinstance(a, Ref):
        raise self.exc("TypeError")
    raise Unsupported("binop %s on %s, %s" % (type(op).__name__, ka, kb))


def const_binop(self, op, x, y):
    import operator as o
    return {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
            ast.Mod: o.mod, ast.Pow: o.pow, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.BitXor: o.xor,
            ast.LShift: o.lshift, ast.RShift: o.rshift}[type(op)](x, y)


def arith(self, op, a, b):
    ka, kb = nkind(self, a), nkind(self, b)
    real = "real" in (ka, kb)
    t = Real if real else Int
    x, y = self.term(a, t), self.term(b, t)
    k = t.k
    if isinstance(op, ast.Add):
        return Sym(k, self.k(x + y))
    if isinstance(op, ast.Sub):
        return Sym(k, self.k(x - y))
    if isinstance(op, ast.Mult):
        return Sym(k, self.k(x * y))
    if isinstance(op, ast.Div):
        x, y = self.term(a, Real), self.term(b, Real)
        if self.decide(y == 0):
            raise self.exc("ZeroDivisionError")
        return Sym("real", self.k(x / y))
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
        if self.decide(y == 0):
            raise self.exc("ZeroDivisionError")
        if real:
            q = z3.ToReal(z3.ToInt(x / y))
            return Sym("real", self.k(q if isinstance(op, ast.FloorDiv) else x - y * q))
        pos = self.decide(y > 0)
        q = (x / y) if pos else ((-x) / (-y))
        return Sym("int", self.k(q if isinstance(op, ast.FloorDiv) else x - y * q))
    if isinstance(op, ast.Pow):
        if isinstance(b, Const) and isinstance(b.v, int) and 0 <= b.v <= 4:
            r = z3.RealVal(1) if real else z3.IntVal(1)
            for _ in range(b.v):
                r = r * x
            return Sym(k, self.k(r))
        return Sym("real", self.uf("pow", self.term(a, Real), self.term(b, Real), z3.RealSort()))
    nm = type(op).__name__
    if not real:
        if ka == kb == "bool" and nm in ("BitOr", "BitAnd"):
            p, q = self.term(a), self.term(b)
            return Sym("bool", self.k(z3.Or(p, q) if nm == "BitOr" else z3.And(p, q)))
        return Sym("int", self.uf("int." + nm, x, y, z3.IntSort()))
    raise Unsupported("arith %s" % nm)


def is_list(self, v):
    return isinstance(v, Ref) and isinstance(self.rec(v), (ListRec, SymList))


def is_set(self, v):
    return isinstance(v, Ref) and isinstance(self.rec(v), (SetRec, SymSet))


def is_dict(self, v):
    return isinstance(v, Ref) and isinstance(self.rec(v), (DictRec, SymDict))


def list_concat(self, a, b):
    ra, rb = self.rec(a), self.rec(b)
    if isinstance(ra, ListRec) and isinstance(rb, ListRec):
        return self.alloc(ListRec(ra.items + rb.items))
    if isinstance(rb, ListRec) and not rb.items:
        return self.alloc(SymList(ra.n, ra.arr, ra.et))
    if isinstance(ra, ListRec) and not ra.items:
        return self.alloc(SymList(rb.n, rb.arr, rb.et))
    et = self.join(self.typeof(a).a[0], self.typeof(b).a[0])
    return self.alloc(self.cat(self.conv_list(ra, et), self.conv_list(rb, et)))


def conv_list(self, r, et):
    """a SymList view with element type et (boxing elements when needed)"""
    if isinstance(r, SymList) and r.et != et:
        if et.k == "any":
            arr = self.fresh_term("boxed", z3.ArraySort(z3.IntSort(), Val))
            j = z3.Int("bj!%d" % self.cnt)
            bx = {"str": Val.strv, "int": Val.intv, "bool": Val.boolv, "real": Val.realv,
                  "bytes": Val.bytesv, "obj": Val.objv}.get(r.et.k)
            if bx is None:
                raise Unsupported("boxing list of %s" % r.et)
            self.assume(forall_([j], z3.Select(arr, j) == bx(z3.Select(r.arr, j)),
                                  patterns=[z3.Select(arr, j)]))
            return SymList(r.n, arr, et)
        if et.k == "opt" and (r.et == et.a[0] or (et.a[0].k, r.et.k) == ("real", "int")):
            arr = self.fresh_term("boxed", z3.ArraySort(z3.IntSort(), sort_of(et)))
            j = z3.Int("bj!%d" % self.cnt)
            x = self.term(self.from_term(z3.Select(r.arr, j), r.et), et)
            self.assume(forall_([j], z3.Select(arr, j) == x, patterns=[z3.Select(arr, j)]))
            return SymList(r.n, arr, et)
        raise Unsupported("list element type %s vs %s" % (r.et, et))
    return self.as_symlist(r, et)


def cat(self, x, y):
    """concatenation of two SymLists of the same type"""
    if z3.is_int_value(y.n):
        arr = x.arr
        for j in range(y.n.as_long()):
            arr = z3.Store(arr, x.n + j, z3.simplify(z3.Select(y.arr, j)))
        return SymList(self.k(z3.simplify(x.n + y.n)), self.k(arr), x.et)
    arr = self.uf("cat_" + x.et.key, x.n, x.arr, y.n, y.arr, z3.ArraySort(z3.IntSort(), sort_of(x.et)))
    j = z3.Int("cj!")
    self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < x.n), z3.Select(arr, j) == z3.Select(x.arr, j)),
                          patterns=[z3.Select(arr, j), z3.Select(x.arr, j)]))
    self.assume(forall_([j], z3.Implies(z3.And(j >= x.n, j < x.n + y.n),
                                          z3.Select(arr, j) == z3.Select(y.arr, j - x.n)),
                          patterns=[z3.Select(arr, j)]))
    self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < y.n),
                                          z3.Select(arr, j + x.n) == z3.Select(y.arr, j)),
                          patterns=[z3.Select(y.arr, j)]))
    return SymList(self.k(x.n + y.n), arr, x.et)


def compare(self, op, a, b):
    if isinstance(op, ast.Is):
        return self.same(a, b)
    if isinstance(op, ast.IsNot):
        return self.neg(self.same(a, b))
    if isinstance(op, (ast.In, ast.NotIn)):
        c = self.contains(b, a)
        return c if isinstance(op, ast.In) else self.neg(c)
    if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, Ref) and isinstance(self.rec(a), ObjRec):
        # a schema may give == a value of its own (columns of a table)
        f = (self.schema(self.rec(a).cls) or {}).get("methods", {}).get("__eq__")
        if f is not None:
            c = self.call(BoundV(a, f), [b], {})
            if isinstance(op, ast.NotEq):
                if not (isinstance(c, Sym) and c.t.sort() == z3.BoolSort()):
                    raise Unsupported("!= on %r" % (a,))
                return self.neg(c.t)
            return c
    if isinstance(op, ast.Eq):
        return self.eq(a, b)
    if isinstance(op, ast.NotEq):
        return self.neg(self.eq(a, b))
    if isinstance(a, AnyV):
        a = self.narrow(a, nkind(self, b) if not isinstance(b, AnyV) else "real")
    if isinstance(b, AnyV):
        b = self.narrow(b, nkind(self, a))
    import operator as o
    f = {ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}[type(op)]
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return f(a.v, b.v)
        except TypeError:
            raise self.exc("TypeError")
    if isinstance(a, SeqV) or isinstance(b, SeqV):
        raise Unsupported("comparison of lazy sequences")
    ka, kb = nkind(self, a), nkind(self, b)
    if ka in NUM and kb in NUM:
        for x, other in ((a, 0.0), (b, 0.0)):
            if isinstance(x, Const) and isinstance(x.v, float) and (x.v in (float("inf"), float("-inf")) or x.v != x.v):
                # the other side is a finite number (machine arithmetic is treated as mathematical)
                return f(x.v, other) if x is a else f(other, x.v)
        t = Real if "real" in (ka, kb) else Int
        return f(self.term(a, t), self.term(b, t))
    if ka == kb == "str":
        x, y = self.term(a), self.term(b)
        lt = lambda p, q: self.uf("str.lt", p, q, z3.BoolSort())
        if isinstance(op, ast.Lt):
            return lt(x, y)
        if isinstance(op, ast.Gt):
            return lt(y, x)
        if isinstance(op, ast.LtE):
            return z3.Not(lt(y, x))
        return z3.Not(lt(x, y))
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.items:
        # lexicographic
        strict = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
        n = len(a.items)
        c = self.compare(op, a.items[-1], b.items[-1])
        for x, y in list(zip(a.items, b.items))[-2::-1]:
            s, e = self.compare(strict, x, y), self.eq(x, y)
            c = z3.Or(self.zb(s), z3.And(self.zb(e), self.zb(c)))
        return c
    if isinstance(a, Ref) and isinstance(self.rec(a), ObjRec):
        nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]
        g = self.class_attr(self.rec(a).cls, nm)
        if g is not None:
            return self.truth(self.call(BoundV(a, g), [b], {}))
    prim = NUM + ("str", "bytes", "none")
    if ka in prim and kb in prim:
        raise self.exc("TypeError")
    raise Unsupported("compare %s %s" % (ka, kb))


def zb(self, c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def contains(self, c, x):
    if isinstance(c, AnyV):
        c = self.narrow(c, "obj")
    if isinstance(c, Const) and isinstance(x, Const):
        try:
            return x.v in c.v
        except TypeError:
            raise self.exc("TypeError")
    k = nkind(self, c)
    if k in ("str", "bytes"):
        if isinstance(x, AnyV):
            x = self.narrow(x, k)
        if nkind(self, x) != k:
            raise self.exc("TypeError")
        return z3.Contains(self.term(c), self.term(x))
    if k in ("none",) + NUM:
        raise self.exc("TypeError")
    if isinstance(c, Tup):
        return self.disj([self.eq(x, y) for y in c.items])
    if isinstance(c, SeqV):
        j = z3.Int("in!%d" % self.cnt)
        self.cnt += 1
        el = c.at(j)
        return z3.Exists([j], z3.And(j >= 0, j < c.n, self.zb(self.eq(el, x))))
    if isinstance(c, Ref):
        r = self.rec(c)
        if isinstance(r, (ListRec, SetRec)):
            return self.disj([self.eq(x, y) for y in r.items])
        if isinstance(r, DictRec):
            return self.disj([self.eq(x, y) for y, _ in r.items])
        if isinstance(r, (SymDict, SymSet)):
            kt = self.key_term(x, r.kt)
            return False if kt is None else z3.Select(r.has, kt)
        if isinstance(r, SymList):
            kt = self.key_term(x, r.et)
            if kt is None:
                return False
            j = z3.Int("in!%d" % self.cnt)
            self.cnt += 1
            return z3.Exists([j], z3.And(j >= 0, j < r.n, z3.Select(r.arr, j) == kt))
        if isinstance(r, ObjRec):
            f = self.class_attr(r.cls, "__contains__")
            sc = self.schema(r.cls)
            if sc and "__contains__" in sc.get("methods", {}):
                f = sc["methods"]["__contains__"]
            if f is not None:
                return self.truth(self.call(BoundV(c, f), [x], {}))
    if isinstance(c, ClassV) or isinstance(c, ExtV):
        raise Unsupported("in %r" % (c,))
    raise Unsupported("in %r" % (c,))


def key_term(self, x, kt):
    """term of x as a key of type kt; None when x cannot equal any such key"""
    if isinstance(x, AnyV) and kt.k != "any":
        if kt.k in ("str", "int", "real", "bool", "bytes"):
            x = self.narrow(x, kt.k)
    tx = self.typeof(x)
    if kt.k == "any" or tx == kt:
        return self.term(x, kt)
    if kt.k in NUM and tx.k in NUM:
        return self.term(x, kt) if not (kt.k == "int" and tx.k == "real") else None
    if kt.k == "opt":
        return self.term(x, kt)
    if kt.k == "obj" and tx.k == "obj":
        return self.term(x, kt)
    if kt.k == "tup" and tx.k == "tup" and len(kt.a) == len(tx.a):
        return self.term(x, kt)
    return None


def disj(self, cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


# ---------------------------------------------------------------- text
def concat(self, parts):
    out = []
    for p in parts:
        p = z3.simplify(p) if not z3.is_string_value(p) else p
        if z3.is_string_value(p) and p.as_string() == "":
            continue
        if out and z3.is_string_value(out[-1]) and z3.is_string_value(p):
            out[-1] = z3.simplify(z3.Concat(out[-1], p))
        else:
            out.append(p)
    if not out:
        return Const("")
    if len(out) == 1:
        if z3.is_string_value(out[0]):
            return Const(unesc(out[0]))
        return Sym("str", self.k(out[0]))
    return Sym("str", self.k(z3.Concat(*out)))


def unesc(t):
    import re
    s = t.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def str_of(self, v):
    """the term of str(v)"""
    if isinstance(v, Const):
        return z3.StringVal(str(v.v))
    if isinstance(v, Sym):
        if v.kind == "str":
            return v.t
        if v.kind == "bool":
            return z3.If(v.t, z3.StringVal("True"), z3.StringVal("False"))
        return self.uf("str_" + v.kind, v.t, z3.StringSort())
    if isinstance(v, AnyV):
        x = v.t
        s = z3.StringSort()
        return self.k(z3.If(Val.is_strv(x), Val.s(x), z3.If(
            Val.is_intv(x), self.uf("str_int", Val.i(x), s), z3.If(
                Val.is_realv(x), self.uf("str_real", Val.r(x), s), z3.If(
                    Val.is_none(x), z3.StringVal("None"), z3.If(
                        Val.is_boolv(x), z3.If(Val.b(x), z3.StringVal("True"), z3.StringVal("False")),
                        z3.If(Val.is_bytesv(x), self.uf("str_bytes", Val.y(x), s),
                              self.uf("str_obj", Val.o(x), s))))))))
    if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec):
        r = self.rec(v)
        if r.cls.startswith("exc:"):
            args = r.fields.get("args")
            if isinstance(args, Tup) and len(args.items) == 1:
                return self.str_of(args.items[0])
            return self.uf("str_obj", r.term, z3.StringSort())
        for nm in ("__str__", "__repr__"):
            f = self.class_attr(r.cls, nm)
            if f is not None:
                return self.term(self.call(BoundV(v, f), [], {}), Str)
        return self.uf("str_obj", r.term, z3.StringSort())
    if isinstance(v, (Tup, Ref)):
        t = self.typeof(v)
        if t.k.startswith("empty"):
            return z3.StringVal({"emptylist": "[]", "emptydict": "{}", "emptyset": "set()"}[t.k])
        return self.uf("str_" + t.key, self.term(v, t), z3.StringSort())
    return self.uf("str_val", self.box(v), z3.StringSort())


def fmt_piece(self, v, spec, conv="s"):
    """spec: None/'' for str(); otherwise the format text, part of the function's name"""
    if isinstance(v, NoopV):
        return self.uf("noop_str", z3.StringSort())
    if conv == "r":
        if isinstance(v, Const):
            return z3.StringVal(repr(v.v))
        return self.uf("repr_any", self.box(v), z3.StringSort())
    if not spec:
        return self.str_of(v)
    if isinstance(v, Const):
        try:
            return z3.StringVal(("%" + spec) % v.v if not spec.startswith(":") else format(v.v, spec[1:]))
        except (TypeError, ValueError):
            raise self.exc("TypeError")
    if isinstance(v, AnyV):
        v = self.narrow(v, "real" if spec[-1] in "fge" else "int")
    k = nkind(self, v)
    sp = spec.lstrip(":")
    if sp and sp[-1] in "dixXo":
        if k == "real":
            v, k = Sym("int", z3.ToInt(v.t)), "int"
        if k not in ("int", "bool"):
            raise self.exc("TypeError")
        if sp == "d" or sp == "i":
            return self.uf("str_int", self.term(v, Int), z3.StringSort())
        return self.uf("fmt_" + sp, self.term(v, Int), z3.StringSort())
    if sp and sp[-1] in "fgeFGE%":
        if k not in NUM:
            raise self.exc("TypeError")
        return self.uf("fmt_" + sp, self.term(v, Real), z3.StringSort())
    return self.uf("fmt_" + spec, self.str_of(v), z3.StringSort())


def fmt_percent(self, f, args):
    if isinstance(args, Ref) and isinstance(self.rec(args), ObjRec):
        m = (self.schema(self.rec(args).cls) or {}).get("methods", {}).get("__formats__")
        if m is not None:
            return self.call(BoundV(args, m), [f], {})
    if not isinstance(f, Const):
        return Sym("str", self.uf("percent", self.term(f, Str), self.box(args), z3.StringSort()))
    import re
    parts = []
    pos = 0
    items = None
    if isinstance(args, Tup):
        items = list(args.items)
    elif isinstance(args, AnyV):
        items = [args]
    elif self.is_dict(args):
        items = None
    else:
        items = [args]
    used = 0
    for m in re.finditer(r"%(\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])", f.v):
        parts.append(z3.StringVal(f.v[pos:m.start()]))
        pos = m.end()
        if m.group(4) == "%":
            parts.append(z3.StringVal("%"))
            continue
        if m.group(2):
            v = self.index(args, Const(m.group(2)))
        else:
            if items is None:
                items = [args]
            if used >= len(items):
                raise self.exc("TypeError")
            v = items[used]
            used += 1
        ty = m.group(4)
        if ty == "r":
            parts.append(self.fmt_piece(v, None, "r"))
        elif ty == "s":
            parts.append(self.fmt_piece(v, (m.group(3) + "s") if m.group(3) else None))
        else:
            parts.append(self.fmt_piece(v, m.group(3) + ty))
    parts.append(z3.StringVal(f.v[pos:]))
    if isinstance(args, Tup) and used < len(items):
        raise self.exc("TypeError")
    return self.concat(parts)


def fmt_format(self, f, args, kwargs):
    m = kwargs.get("**")
    if isinstance(m, Ref) and isinstance(self.rec(m), ObjRec):
        g = (self.schema(self.rec(m).cls) or {}).get("methods", {}).get("__formats__")
        if g is not None:
            return self.call(BoundV(m, g), [f], {})
    if not isinstance(f, Const):
        raise Unsupported("dynamic format string")
    parts = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(f.v):
        parts.append(z3.StringVal(lit))
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kwargs:
            v = kwargs[field]
        else:
            raise Unsupported("format field %s" % field)
        parts.append(self.fmt_piece(v, (":" + spec) if spec else None, conv or "s"))
    return self.concat(parts)


# ---------------------------------------------------------------- indexing
def as_int(self, v):
    if isinstance(v, AnyV):
        v = self.narrow(v, "int")
    return self.term(v, Int)


def index(self, o, k):
    if isinstance(o, AnyV):
        o = self.narrow(o, "obj")
    if isinstance(o, Poison):
        raise Unsupported("use of %s after a loop" % o.name)
    if isinstance(o, Const) and o.v is None:
        raise self.exc("TypeError")
    if isinstance(o, Const) and isinstance(k, Const):
        try:
            return Const(o.v[k.v])
        except IndexError:
            raise self.exc("IndexError")
        except TypeError:
            raise self.exc("TypeError")
    if isinstance(o, Tup):
        if isinstance(k, Const):
            try:
                return o.items[k.v]
            except IndexError:
                raise self.exc("IndexError")
        return self.index_concrete(o.items, k)
    if isinstance(o, SeqV):
        i = self.as_int(k)
        if not self.decide(z3.And(i >= 0, i < o.n)):
            raise Unsupported("index outside a lazy sequence")
        return o.at(i)
    kd = nkind(self, o)
    if kd in ("str", "bytes"):
        s, i = self.term(o), self.as_int(k)
        n = z3.Length(s)
        if self.decide(z3.And(i >= 0, i < n)):
            r = z3.SubString(s, i, 1)
        elif self.decide(z3.And(i < 0, n + i >= 0)):
            r = z3.SubString(s, n + i, 1)
        else:
            raise self.exc("IndexError")
        if kd == "bytes":
            return Sym("int", self.k(z3.StrToCode(r)))
        return Sym("str", self.k(z3.simplify(r)))
    if isinstance(o, Ref):
        r = self.rec(o)
        if isinstance(r, ListRec):
            if isinstance(k, Const):
                try:
                    return r.items[k.v]
                except IndexError:
                    raise self.exc("IndexError")
            return self.index_concrete(r.items, k)
        if isinstance(r, SymList):
            i = self.as_int(k)
            if self.decide(z3.And(i >= 0, i < r.n)):
                return self.elem(o, r, i)
            if self.decide(z3.And(i < 0, r.n + i >= 0)):
                return self.elem(o, r, r.n + i)
            raise self.exc("IndexError")
        if isinstance(r, DictRec):
            for a, b in r.items:
                if self.decide(self.zb(self.eq(a, k))):
                    return b
            if r.default is not None:
                v = self.call(r.default, [], {})
                self.setitem(o, k, v)
                return v
            raise self.exc("KeyError", k)
        if isinstance(r, SymDict):
            kt = self.key_term(k, r.kt)
            if kt is not None and self.decide(z3.Select(r.has, kt)):
                return self.dict_val(o, r, kt)
            if r.default is not None:
                v = self.call(r.default, [], {})
                self.setitem(o, k, v)
                return self.index(o, k)
            raise self.exc("KeyError", k)
        if isinstance(r, ObjRec):
            sc = self.schema(r.cls)
            f = (sc or {}).get("methods", {}).get("__getitem__") or self.class_attr(r.cls, "__getitem__") \
                or self.ext_method(r.cls, "__getitem__")
            if f is not None:
                return self.call(BoundV(o, f), [k], {})
    raise Unsupported("index %r" % (o,))


def index_concrete(self, items, k):
    i = self.as_int(k)
    for j in range(len(items)):
        if self.decide(z3.Or(i == j, i == j - len(items))):
            return items[j]
    raise self.exc("IndexError")


MUT = ("list", "dict", "set")


def elem(self, o, r, i):
    return self.sub_value(o, r, self.k(z3.simplify(z3.Select(r.arr, i))), r.et, ("L", self.k(i)))


def dict_val(self, o, r, kt):
    return self.sub_value(o, r, self.k(z3.simplify(z3.Select(r.val, kt))), r.vt, ("D", self.k(kt)))


def sub_value(self, o, r, t, et, path):
    if et.k in MUT:
        key = ("sub", o.id, t.get_id())
        hit = self.store.get(key)
        if hit is not None:
            return hit
        v = self.from_term(t, et)
        self.store[key] = v
        self.store[("back", v.id)] = (o, path)
        return v
    return self.from_term(t, et)


def mutate(self, o, rec):
    """store a new record for a container, writing back into the container that holds it"""
    old = self.rec(o)
    if getattr(old, "snap", False):
        back = self.store.get(("back", o.id))
        if back is None:
            raise Unsupported("write to a snapshot of a container")
        rec.snap = True
        self.put(o, rec)
        h, (kind, kt) = back
        hr = self.rec(h)
        if kind == "L":
            nv = self.term(o, hr.et)
            self.mutate(h, SymList(hr.n, self.k(z3.Store(hr.arr, kt, nv)), hr.et, hr.snap))
            nt = z3.simplify(z3.Select(self.rec(h).arr, kt))
        else:
            nv = self.term(o, hr.vt)
            self.mutate(h, hr.replace(val=self.k(z3.Store(hr.val, kt, nv))))
            nt = z3.simplify(z3.Select(self.rec(h).val, kt))
        self.k(nt)
        self.store[("sub", h.id, nt.get_id())] = o
        return
    self.put(o, rec)


def norm_bounds(self, n, lo, hi):
    def one(v, d):
        if isinstance(v, AnyV):
            v = self.narrow(v, "int")
        if isinstance(v, Const) and v.v is None:
            return d
        x = self.term(v, Int)
        return z3.If(x < 0, z3.If(x + n < 0, 0, x + n), z3.If(x > n, n, x))
    a, b = one(lo, z3.IntVal(0)), one(hi, n)
    a, b = z3.simplify(a), z3.simplify(b)
    return a, z3.simplify(z3.If(b < a, a, b))


def slice(self, o, lo, hi, st):
    if isinstance(o, AnyV):
        o = self.narrow(o, "str")
    if all(isinstance(x, Const) for x in (lo, hi, st)):
        sl = _slice(lo.v, hi.v, st.v)
        if isinstance(o, Const):
            try:
                return Const(o.v[sl])
            except TypeError:
                raise self.exc("TypeError")
        if isinstance(o, Tup):
            return Tup(o.items[sl])
        if isinstance(o, Ref) and isinstance(self.rec(o), ListRec):
            return self.alloc(ListRec(self.rec(o).items[sl]))
    if isinstance(st, Const) and st.v == -1 and lo is NONE or (isinstance(st, Const) and st.v == -1
                                                              and isinstance(lo, Const) and lo.v is None):
        if isinstance(hi, Const) and hi.v is None and self.is_list(o):
            return self.reversed_list(o)
        if isinstance(hi, Const) and hi.v is None and nkind(self, o) == "str":
            return Sym("str", self.uf("str.reverse", self.term(o), z3.StringSort()))
    if not (isinstance(st, Const) and st.v in (None, 1)):
        raise Unsupported("slice step")
    k = nkind(self, o)
    if k in ("str", "bytes"):
        s = self.term(o)
        a, b = self.norm_bounds(z3.Length(s), lo, hi)
        return Sym(k, self.k(z3.simplify(z3.SubString(s, a, b - a))))
    if self.is_list(o):
        r = self.rec(o)
        if isinstance(r, ListRec):
            r = self.as_symlist(r, self.typeof(o).a[0])
        a, b = self.norm_bounds(r.n, lo, hi)
        if z3.is_int_value(a) and a.as_long() == 0:
            return self.alloc(SymList(self.k(b), r.arr, r.et))
        arr = self.fresh_term("slice", z3.ArraySort(z3.IntSort(), sort_of(r.et)))
        j = z3.Int("sj!%d" % self.cnt)
        self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < b - a),
                                              z3.Select(arr, j) == z3.Select(r.arr, j + a)),
                              patterns=[z3.Select(arr, j)]))
        self.assume(forall_([j], z3.Implies(z3.And(j >= a, j < b),
                                              z3.Select(arr, j - a) == z3.Select(r.arr, j)),
                              patterns=[z3.Select(r.arr, j)]))
        return self.alloc(SymList(self.k(z3.simplify(b - a)), arr, r.et))
    if isinstance(o, Ref) and isinstance(self.rec(o), ObjRec):
        sc = self.schema(self.rec(o).cls)
        f = (sc or {}).get("methods", {}).get("__getslice__")
        if f is not None:
            return self.call(BoundV(o, f), [lo, hi], {})
    raise Unsupported("slice of %s" % k)


_slice = __builtins__["slice"] if isinstance(__builtins__, dict) else __builtins__.slice


def reversed_list(self, o):
    r = self.rec(o)
    if isinstance(r, ListRec):
        return self.alloc(ListRec(r.items[::-1]))
    arr = self.fresh_term("rev", z3.ArraySort(z3.IntSort(), sort_of(r.et)))
    j = z3.Int("rj!%d" % self.cnt)
    self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < r.n),
                                          z3.Select(arr, j) == z3.Select(r.arr, r.n - 1 - j)),
                          patterns=[z3.Select(arr, j)]))
    self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < r.n),
                                          z3.Select(arr, r.n - 1 - j) == z3.Select(r.arr, j)),
                          patterns=[z3.Select(r.arr, j)]))
    return self.alloc(SymList(r.n, arr, r.et))


def setitem(self, o, k, v):
    if isinstance(o, AnyV):
        o = self.narrow(o, "obj")
    if isinstance(o, NoopV):
        return
    if not isinstance(o, Ref):
        if isinstance(o, (Const, Tup)):
            raise self.exc("TypeError")
        raise Unsupported("setitem on %r" % (o,))
    r = self.rec(o)
    if isinstance(r, ListRec):
        if isinstance(k, Const):
            items = list(r.items)
            try:
                items[k.v] = v
            except IndexError:
                raise self.exc("IndexError")
            self.put(o, ListRec(items))
            return
        i = self.as_int(k)
        for j in range(len(r.items)):
            if self.decide(z3.Or(i == j, i == j - len(r.items))):
                items = list(r.items)
                items[j] = v
                self.put(o, ListRec(items))
                return
        raise self.exc("IndexError")
    if isinstance(r, SymList):
        i = self.as_int(k)
        if not self.decide(z3.And(i >= 0, i < r.n)):
            if self.decide(z3.And(i < 0, i + r.n >= 0)):
                i = i + r.n
            else:
                raise self.exc("IndexError")
        self.mutate(o, SymList(r.n, self.k(z3.Store(r.arr, i, self.term(v, r.et))), r.et, r.snap))
        return
    if isinstance(r, DictRec):
        if const_key(k) and all(const_key(a) for a, b in r.items):
            items = []
            hit = False
            for a, b in r.items:
                if self.const_eq(a, k):
                    items.append((a, v))
                    hit = True
                else:
                    items.append((a, b))
            if not hit:
                items.append((k, v))
            self.put(o, DictRec(items, r.default))
            return
        # a symbolic key: switch to the symbolic representation
        kt = self.join(self.typeof(o).a[0] if r.items else None, self.typeof(k))
        vt = self.join(self.typeof(o).a[1] if r.items else None, self.typeof(v))
        if kt.k == "other" or vt.k in ("other", "emptylist", "emptydict", "emptyset"):
            vt = {"emptylist": ListT(Any), "emptyset": SetT(Any), "emptydict": DictT(Any, Any)}.get(vt.k, vt)
            if kt.k == "other" or vt.k == "other":
                raise Unsupported("dict of unknown type")
        r = self.as_symdict(r, DictT(kt, vt))
        self.put(o, r)
    if isinstance(r, SymDict):
        if isinstance(v, AnyV) and r.vt.k in ("str", "int", "real", "bool", "bytes"):
            v = self.narrow(v, r.vt.k)
        t = self.typeof(v)
        if not self.fits(t, r.vt):
            raise Unsupported("dict value type %s into %s" % (t, r.vt))
        kt = self.key_term(k, r.kt)
        if kt is None:
            raise Unsupported("dict key type %s into %s" % (self.typeof(k), r.kt))
        vt = self.term(v, r.vt)
        self.mutate(o, self.dict_store(r, kt, vt))
        if isinstance(v, Ref) and r.vt.k in MUT:
            nt = z3.simplify(z3.Select(self.rec(o).val, kt))
            self.k(nt)
            rec = self.rec(v)
            if isinstance(rec, (SymList, SymDict, SymSet)):
                pass
            if isinstance(rec, ListRec):
                rec = self.as_symlist(rec, r.vt.a[0])
            elif isinstance(rec, SetRec):
                rec = self.as_symset(rec, r.vt.a[0])
            elif isinstance(rec, DictRec):
                rec = self.as_symdict(rec, r.vt)
            if isinstance(rec, SymList):
                rec = SymList(rec.n, rec.arr, rec.et, True)
            elif isinstance(rec, SymSet):
                rec = SymSet(rec.kt, rec.has, rec.n, rec.keys, True)
            else:
                rec = rec.replace(snap=True)
            self.store[v.id] = rec
            self.store[("sub", o.id, nt.get_id())] = v
            self.store[("back", v.id)] = (o, ("D", self.k(kt)))
        return
    if isinstance(r, ObjRec):
        f = (self.schema(r.cls) or {}).get("methods", {}).get("__setitem__") \
            or self.class_attr(r.cls, "__setitem__") or self.ext_method(r.cls, "__setitem__")
        if f is not None:
            self.call(BoundV(o, f), [k, v], {})
            return
    raise Unsupported("setitem")


def fits(self, t, want):
    if want.k == "any" or t == want:
        return True
    try:
        j = self.join(t, want)
    except Unsupported:
        return False
    return j == want


def const_key(k):
    return isinstance(k, Const) or isinstance(k, Tup) and all(isinstance(x, Const) for x in k.items)


def const_eq(self, a, b):
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(self.const_eq(x, y) for x, y in zip(a.items, b.items))
    return isinstance(a, Const) and isinstance(b, Const) and a.v == b.v


def dict_store(self, r, kt, vt):
    has = z3.Select(r.has, kt)
    return r.replace(has=self.k(z3.Store(r.has, kt, True)), val=self.k(z3.Store(r.val, kt, vt)),
                     n=self.k(z3.simplify(z3.If(has, r.n, r.n + 1))),
                     keys=self.k(z3.If(has, r.keys, z3.Store(r.keys, r.n, kt))))


def delitem(self, o, k):
    if isinstance(o, Ref):
        r = self.rec(o)
        if isinstance(r, DictRec):
            for j, (a, b) in enumerate(r.items):
                if self.decide(self.zb(self.eq(a, k))):
                    self.put(o, DictRec(r.items[:j] + r.items[j + 1:], r.default))
                    return
            raise self.exc("KeyError", k)
        if isinstance(r, SymDict):
            kt = self.key_term(k, r.kt)
            if kt is None or not self.decide(z3.Select(r.has, kt)):
                raise self.exc("KeyError", k)
            self.mutate(o, self.dict_del(r, kt))
            return
        if isinstance(r, ListRec) and isinstance(k, Const):
            items = list(r.items)
            try:
                del items[k.v]
            except IndexError:
                raise self.exc("IndexError")
            self.put(o, ListRec(items))
            return
        if isinstance(r, ObjRec):
            f = (self.schema(r.cls) or {}).get("methods", {}).get("__delitem__") \
                or self.class_attr(r.cls, "__delitem__") or self.ext_method(r.cls, "__delitem__")
            if f is not None:
                self.call(BoundV(o, f), [k], {})
                return
    raise Unsupported("delitem")


def dict_del(self, r, kt):
    return r.replace(has=self.k(z3.Store(r.has, kt, False)), n=self.k(r.n - 1),
                     keys=self.fresh_term("keys", r.keys.sort()))


def wf_keys(self, has, n, keys, kt):
    """what holds of every real dict/set: keys[0..n) enumerates exactly the members, once each"""
    ck = ("wf", has.get_id(), n.get_id(), keys.get_id())
    if ck in self.store:
        return self.store[ck]
    self.k(has), self.k(n), self.k(keys)
    self.cnt += 1
    s = sort_of(kt)
    pos = z3.Function("kpos!%d" % self.cnt, s, z3.IntSort())
    self.store[ck] = pos
    j = z3.Int("wj!%d" % self.cnt)
    x = z3.Const("wk!%d" % self.cnt, s)
    self.assume(n >= 0)
    self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < n),
                                          z3.And(z3.Select(has, z3.Select(keys, j)),
                                                 pos(z3.Select(keys, j)) == j)),
                          patterns=[z3.Select(keys, j)]))
    # an index function is -1 outside its domain: e-matching then cannot chase fresh indices
    self.assume(forall_([x], z3.If(z3.Select(has, x),
                                     z3.And(pos(x) >= 0, pos(x) < n, z3.Select(keys, pos(x)) == x),
                                     pos(x) == -1),
                          patterns=[z3.Select(has, x), pos(x)] if patternable(has) else [pos(x)]))
    return pos


def patternable(a):
    """may select(a, x) serve as a pattern?"""
    todo = [a]
    while todo:
        t = todo.pop()
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY):
            return False
        if z3.is_quantifier(t):
            return False
        todo.extend(t.children())
    return True


# ---------------------------------------------------------------- iteration
def iterate(self, v):
    if isinstance(v, AnyV):
        v = self.narrow(v, "obj")
    if isinstance(v, SeqV):
        return v
    if isinstance(v, NoopV):
        return []
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Const):
        if isinstance(v.v, (str, bytes)):
            return [Const(c) for c in v.v]
        raise self.exc("TypeError")
    if isinstance(v, Sym):
        if v.kind == "str":
            s = v.t
            return SeqV(self.k(z3.Length(s)), lambda i: Sym("str", self.k(z3.SubString(s, i, 1))))
        raise self.exc("TypeError")
    if isinstance(v, Ref):
        r = self.rec(v)
        if isinstance(r, (ListRec, SetRec)):
            return list(r.items)
        if isinstance(r, DictRec):
            return [a for a, _ in r.items]
        if isinstance(r, SymList):
            return SeqV(r.n, lambda i: self.elem(v, r, i), v.id, lambda j: [z3.Select(r.arr, j)])
        if isinstance(r, (SymDict, SymSet)):
            if isinstance(r, SymSet):
                r2 = self.as_symset(r, r.kt)
                if r2 is not r:
                    self.store[v.id] = r2
                r = r2
            self.wf_keys(r.has, r.n, r.keys, r.kt)
            return SeqV(r.n, lambda i: self.from_term(self.k(z3.simplify(z3.Select(r.keys, i))), r.kt), v.id,
                        lambda j: [z3.Select(r.keys, j)])
        if isinstance(r, ObjRec):
            f = (self.schema(r.cls) or {}).get("methods", {}).get("__iter__") \
                or self.class_attr(r.cls, "__iter__") or self.ext_method(r.cls, "__iter__")
            if f is not None:
                return self.iterate(self.call(BoundV(v, f), [], {}))
    raise Unsupported("iterate %r" % (v,))


def as_list_ref(self, v):
    """list(v)"""
    if isinstance(v, AnyV):
        v = self.narrow(v, "obj")
    if isinstance(v, Ref) and isinstance(self.rec(v), ListRec):
        return self.alloc(ListRec(self.rec(v).items))
    if isinstance(v, Ref) and isinstance(self.rec(v), SymList):
        r = self.rec(v)
        return self.alloc(SymList(r.n, r.arr, r.et))
    s = self.iterate(v)
    if isinstance(s, list):
        return self.alloc(ListRec(s))
    if isinstance(v, Ref) and isinstance(self.rec(v), (SymDict, SymSet)):
        r = self.rec(v)
        return self.alloc(SymList(r.n, r.keys, r.kt))
    return self.map_seq(s, lambda x: ("one", x), s)


# ---------------------------------------------------------------- methods of builtin values
def builtin_attr(self, o, name):
    if isinstance(o, Const) and o.v is None:
        raise self.exc("AttributeError")
    if isinstance(o, Poison):
        raise Unsupported("use of %s after a loop" % o.name)
    if isinstance(o, (FuncV, BoundV, PyFn)):
        if name in ("__name__",):
            f = o.func if isinstance(o, BoundV) else o
            q = getattr(f, "qual", None)
            return Const(q.split(".")[-1].split(":")[-1]) if q else Const(f.name)
        if name in ("__doc__",):
            return NONE
        if isinstance(o, BoundV) and name == "__self__":
            return o.self_
        if isinstance(o, FuncV):
            v = self.store.get(("fattr", o.qual, name))
            if v is not None:
                return v
            raise self.exc("AttributeError")
    k = nkind(self, o)
    import builtins
    base = {"str": str, "bytes": bytes, "int": int, "real": float, "bool": bool, "list": list, "emptylist": list,
            "dict": dict, "emptydict": dict, "set": set, "emptyset": set, "tup": tuple}.get(k)
    if base is not None and not hasattr(base, name):
        raise self.exc("AttributeError")
    return PyFn(lambda it, a, kw: it.call_method(o, name, a, kw), "%s.%s" % (k, name))


def call_method(self, o, name, args, kwargs=None):
    kwargs = kwargs or {}
    self.used_models.add("%s.%s" % (nkind(self, o), name))
    if isinstance(o, Const) and all(isinstance(a, Const) for a in args) and \
            all(isinstance(a, Const) for a in kwargs.values()) and isinstance(o.v, (str, bytes, int, float)):
        if name not in ("format", "join", "split", "splitlines", "encode", "decode", "rsplit", "partition",
                        "rpartition"):
            try:
                r = getattr(o.v, name)(*[a.v for a in args], **{k: a.v for k, a in kwargs.items()})
            except Exception as e:
                raise self.exc(type(e).__name__)
            return self.lift(r)
        if name not in ("format", "join"):
            try:
                return self.lift(getattr(o.v, name)(*[a.v for a in args],
                                                    **{k: a.v for k, a in kwargs.items()}))
            except Exception as e:
                raise self.exc(type(e).__name__)
    k = nkind(self, o)
    if k in ("str", "bytes"):
        return self.str_method(o, k, name, args, kwargs)
    if isinstance(o, Ref):
        r = self.rec(o)
        if isinstance(r, (ListRec, SymList)):
            return self.list_method(o, r, name, args, kwargs)
        if isinstance(r, (DictRec, SymDict)):
            return self.dict_method(o, r, name, args, kwargs)
        if isinstance(r, (SetRec, SymSet)):
            return self.set_method(o, r, name, args, kwargs)
    if isinstance(o, Tup):
        if name == "index":
            for i, x in enumerate(o.items):
                if self.decide(self.zb(self.eq(x, args[0]))):
                    return Const(i)
            raise self.exc("ValueError")
        if name == "count" and all(isinstance(x, Const) for x in o.items) and isinstance(args[0], Const):
            return Const(tuple(x.v for x in o.items).count(args[0].v))
    if k in ("real", "int") and name == "is_integer":
        return Sym("bool", z3.IsInt(self.term(o, Real)))
    raise Unsupported("method %s.%s" % (k, name))


def lift(self, v):
    """a concrete Python value as a value"""
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return Const(v)
    if isinstance(v, tuple):
        return Tup([self.lift(x) for x in v])
    if isinstance(v, list):
        return self.alloc(ListRec([self.lift(x) for x in v]))
    if isinstance(v, (set, frozenset)):
        return self.alloc(SetRec([self.lift(x) for x in sorted(v, key=repr)]))
    if isinstance(v, dict):
        return self.alloc(DictRec([(self.lift(a), self.lift(b)) for a, b in v.items()]))
    raise Unsupported("lift %r" % (v,))


def str_method(self, o, k, name, args, kwargs):
    S = z3.StringSort()
    s = self.term(o)
    args = [self.narrow(a, k) if isinstance(a, AnyV) and name not in ("join", "format") else a for a in args]

    def txt(a):
        if nkind(self, a) != k:
            raise self.exc("TypeError")
        return self.term(a)
    sfx = "" if k == "str" else "b"
    if name in ("startswith", "endswith"):
        f = (lambda p: z3.PrefixOf(txt(p), s)) if name == "startswith" else (lambda p: z3.SuffixOf(txt(p), s))
        if len(args) != 1:
            raise Unsupported("startswith with bounds")
        if isinstance(args[0], Tup):
            return self.b(self.disj([f(p) for p in args[0].items]))
        return Sym("bool", self.k(f(args[0])))
    if name in ("lower", "upper", "title", "capitalize", "swapcase", "casefold") and not args:
        return Sym(k, self.uf("str%s.%s" % (sfx, name), s, S))
    if name in ("strip", "lstrip", "rstrip"):
        if not args or (isinstance(args[0], Const) and args[0].v is None):
            return Sym(k, self.uf("str%s.%s" % (sfx, name), s, S))
        return Sym(k, self.uf("str%s.%s.chars" % (sfx, name), s, txt(args[0]), S))
    if name in ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isdecimal", "isnumeric",
                "istitle"):
        return Sym("bool", self.uf("str%s.%s" % (sfx, name), s, z3.BoolSort()))
    if name == "replace":
        if len(args) == 2:
            return Sym(k, self.uf("str%s.replace" % sfx, s, txt(args[0]), txt(args[1]), S))
        return Sym(k, self.uf("str%s.replacen" % sfx, s, txt(args[0]), txt(args[1]), self.term(args[2], Int), S))
    if name in ("find", "rfind", "index", "rindex", "count"):
        if name == "find" and len(args) == 1:
            return Sym("int", self.k(z3.IndexOf(s, txt(args[0]), 0)))
        if name == "find" and len(args) == 2:
            st = self.as_int(args[1])
            if self.decide(z3.And(st >= 0)):
                return Sym("int", self.k(z3.If(st > z3.Length(s), -1, z3.IndexOf(s, txt(args[0]), st))))
            raise Unsupported("find with negative start")
        if name == "index" and len(args) == 1:
            if not self.decide(z3.Contains(s, txt(args[0]))):
                raise self.exc("ValueError")
            return Sym("int", self.k(z3.IndexOf(s, txt(args[0]), 0)))
        if len(args) == 1:
            r = self.uf("str%s.%s" % (sfx, name), s, txt(args[0]), z3.IntSort())
            if name == "count":
                self.assume(r >= 0)
                self.assume(z3.Implies(z3.Length(txt(args[0])) > 0, (r > 0) == z3.Contains(s, txt(args[0]))))
                return Sym("int", r)
            if name == "rindex":
                if not self.decide(z3.Contains(s, txt(args[0]))):
                    raise self.exc("ValueError")
                r = self.uf("str%s.%s" % (sfx, "rfind"), s, txt(args[0]), z3.IntSort())
            self.assume((r >= 0) == z3.Contains(s, txt(args[0])))
            self.assume(r >= -1)
            self.assume(r <= z3.Length(s))
            return Sym("int", r)
    if name in ("split", "rsplit", "splitlines"):
        parts = [a for a in args if not (isinstance(a, Const) and a.v is None)]
        sep = None
        mx = kwargs.get("maxsplit")
        if name != "splitlines":
            if args and not (isinstance(args[0], Const) and args[0].v is None):
                sep = txt(args[0])
            if len(args) > 1:
                mx = args[1]
        nm = "str%s.%s" % (sfx, name)
        ts = [s]
        if sep is not None:
            nm += ".sep"
            ts.append(sep)
        if name == "splitlines" and args:
            nm += ".keep"
            ts.append(z3.BoolVal(True) if isinstance(args[0], Const) and args[0].v else self.term(args[0], Bool))
        if mx is not None:
            nm += ".max"
            ts.append(self.as_int(mx))
        lt = ListT(T(k))
        x = self.uf(nm, *(ts + [sort_of(lt)]))
        v = self.from_term(x, lt, snap=False)
        n = self.rec(v).n
        if sep is not None:
            self.assume(n >= 1)
            if mx is not None:
                m = ts[-1]
                self.assume(z3.Implies(m >= 0, n <= m + 1))
                self.assume(z3.Implies(m >= 1, (n >= 2) == z3.Contains(s, sep)))
            else:
                self.assume((n >= 2) == z3.Contains(s, sep))
            self.assume(z3.Implies(z3.Not(z3.Contains(s, sep)), z3.Select(self.rec(v).arr, 0) == s))
            if isinstance(mx, Const) and mx.v == 1 and name == "split":
                ix = z3.IndexOf(s, sep, 0)
                self.assume(z3.Implies(z3.Contains(s, sep), z3.And(
                    z3.Select(self.rec(v).arr, 0) == z3.SubString(s, 0, ix),
                    z3.Select(self.rec(v).arr, 1) == z3.SubString(
                        s, ix + z3.Length(sep), z3.Length(s) - ix - z3.Length(sep)))))
        elif mx is not None and name == "split":
            self.assume(z3.Implies(ts[-1] >= 0, n <= ts[-1] + 1))
        return v
    if name in ("partition", "rpartition"):
        sep = txt(args[0])
        if self.decide(z3.Contains(s, sep)):
            if name == "partition":
                ix = z3.IndexOf(s, sep, 0)
            else:
                ix = self.uf("str%s.rfind" % sfx, s, sep, z3.IntSort())
                self.assume(ix >= 0)
                self.assume(ix <= z3.Length(s) - z3.Length(sep))
            return Tup([Sym(k, self.k(z3.SubString(s, 0, ix))), args[0],
                        Sym(k, self.k(z3.SubString(s, ix + z3.Length(sep),
                                                   z3.Length(s) - ix - z3.Length(sep))))])
        e = Const("" if k == "str" else b"")
        return Tup([o, e, e]) if name == "partition" else Tup([e, e, o])
    if name == "join":
        v = args[0]
        it = self.iterate(v)
        if isinstance(it, list):
            ps = []
            for i, x in enumerate(it):
                x = self.narrow(x, k) if isinstance(x, AnyV) else x
                if i:
                    ps.append(s)
                ps.append(txt(x))
            r = self.concat(ps)
            if k == "bytes":
                return Sym("bytes", r.t) if isinstance(r, Sym) else Const(r.v.encode("latin1"))
            return r
        l = v if isinstance(v, Ref) and isinstance(self.rec(v), SymList) else self.as_list_ref(v)
        r = self.rec(l)
        if r.et.k == "any":
            raise Unsupported("join of a list of unknown elements")
        if r.et.k != k:
            raise self.exc("TypeError")
        return Sym(k, self.uf("str%s.join" % sfx, s, r.n, r.arr, S))
    if name == "format":
        return self.fmt_format(o, args, kwargs)
    if name == "encode":
        enc = self.codec(args, kwargs)
        if self.decide(self.uf("encode_ok_" + enc, s, z3.BoolSort())):
            return Sym("bytes", self.uf("encode_" + enc, s, S))
        raise self.exc("UnicodeEncodeError")
    if name == "decode":
        enc = self.codec(args, kwargs)
        # every byte string is valid latin-1
        if enc == "latin1" or self.decide(self.uf("decode_ok_" + enc, s, z3.BoolSort())):
            return Sym("str", self.uf("decode_" + enc, s, S))
        raise self.exc("UnicodeDecodeError")
    if name == "zfill" or name in ("ljust", "rjust", "center"):
        return Sym(k, self.uf("str%s.%s" % (sfx, name), s, self.as_int(args[0]), S))
    if name == "translate":
        return Sym(k, self.uf("str.translate", s, self.box(args[0]), S))
    if name == "__contains__":
        return self.b(self.contains(o, args[0]))
    if name == "__len__":
        return Sym("int", self.k(z3.Length(s)))
    raise Unsupported("str.%s" % name)


def codec(self, args, kwargs):
    a = list(args) + [kwargs[x] for x in ("encoding", "errors") if x in kwargs]
    if not all(isinstance(x, Const) for x in a):
        raise Unsupported("dynamic codec")
    nm = a[0].v.lower().replace("-", "").replace("_", "") if a else "utf8"
    if nm in ("latin1", "iso88591", "l1"):
        nm = "latin1"
    return nm + ("_" + a[1].v if len(a) > 1 else "")


def list_method(self, o, r, name, args, kwargs):
    if name in ("append", "extend"):
        # a loop that only appends to a list is summarised by what it appends
        mark = len(self.applog)
        v = self.list_method0(o, r, name, args, kwargs)
        if name == "append":
            what = ("app", o.id, args[0])
        else:
            apps = [x for x in self.applog[mark:] if x[1] == o.id]
            if apps and all(x[0] == "app" for x in apps):
                return v
            what = ("ext", o.id, self.as_list_ref(args[0]) if not apps or apps[0][0] == "bad" else None)
            if what[2] is None:
                return v
        self.applog[mark:] = [x for x in self.applog[mark:] if x[1] != o.id] + [what]
        return v
    return self.list_method0(o, r, name, args, kwargs)


def list_method0(self, o, r, name, args, kwargs):
    if name == "append":
        x = args[0]
        if isinstance(r, ListRec):
            self.put(o, ListRec(r.items + (x,)))
            return NONE
        t = self.typeof(x)
        if not self.fits(t, r.et):
            r = self.conv_list(r, self.join(r.et, t))
        self.mutate(o, SymList(self.k(z3.simplify(r.n + 1)), self.k(z3.Store(r.arr, r.n, self.term(x, r.et))),
                               r.et, r.snap))
        return NONE
    if name == "extend":
        it = args[0]
        if isinstance(it, AnyV):
            it = self.narrow(it, "obj")
        s = self.iterate(it)
        if isinstance(s, list):
            for x in s:
                self.list_method(o, self.rec(o), "append", [x], {})
            return NONE
        l = it if self.is_list(it) else self.as_list_ref(it)
        c = self.rec(self.list_concat(o, l))
        c = SymList(c.n, c.arr, c.et, getattr(r, "snap", False))
        self.mutate(o, c)
        return NONE
    if name == "insert":
        if isinstance(r, ListRec) and isinstance(args[0], Const):
            items = list(r.items)
            items.insert(args[0].v, args[1])
            self.put(o, ListRec(items))
            return NONE
        if isinstance(args[0], Const) and args[0].v == 0:
            c = self.rec(self.list_concat(self.alloc(ListRec((args[1],))), o))
            self.mutate(o, SymList(c.n, c.arr, c.et, r.snap))
            return NONE
    if name == "pop":
        if isinstance(r, ListRec) and all(isinstance(a, Const) for a in args):
            items = list(r.items)
            try:
                x = items.pop(*[a.v for a in args])
            except IndexError:
                raise self.exc("IndexError")
            self.put(o, ListRec(items))
            return x
        if isinstance(r, SymList):
            if self.decide(r.n == 0):
                raise self.exc("IndexError")
            if not args or (isinstance(args[0], Const) and args[0].v == -1):
                x = self.from_term(self.k(z3.simplify(z3.Select(r.arr, r.n - 1))), r.et)
                self.mutate(o, SymList(self.k(z3.simplify(r.n - 1)), r.arr, r.et, r.snap))
                return x
            if isinstance(args[0], Const) and args[0].v == 0:
                x = self.from_term(self.k(z3.simplify(z3.Select(r.arr, 0))), r.et)
                c = self.rec(self.slice(o, Const(1), NONE, NONE))
                self.mutate(o, SymList(c.n, c.arr, c.et, r.snap))
                return x
    if name == "copy" and not args:
        return self.as_list_ref(o)
    if name == "clear":
        self.put(o, ListRec(()))
        return NONE
    if name == "reverse":
        c = self.rec(self.reversed_list(o))
        if isinstance(c, SymList):
            c = SymList(c.n, c.arr, c.et, r.snap)
            self.mutate(o, c)
        else:
            self.put(o, c)
        return NONE
    if name == "sort":
        v = self.sorted_list(o, kwargs.get("key"), kwargs.get("reverse"))
        c = self.rec(v)
        if isinstance(c, SymList):
            c = SymList(c.n, c.arr, c.et, getattr(r, "snap", False))
            self.mutate(o, c)
        else:
            self.put(o, c)
        return NONE
    if name == "index" and isinstance(r, ListRec):
        for i, x in enumerate(r.items):
            if self.decide(self.zb(self.eq(x, args[0]))):
                return Const(i)
        raise self.exc("ValueError")
    if name == "index" and isinstance(r, SymList) and len(args) == 1:
        kt = self.key_term(args[0], r.et)
        if kt is None or not self.decide(self.zb(self.contains(o, args[0]))):
            raise self.exc("ValueError")
        i = self.fresh_term("index", z3.IntSort())
        j = z3.Int("ij!%d" % self.cnt)
        self.assume(z3.And(i >= 0, i < r.n, z3.Select(r.arr, i) == kt))
        self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < i), z3.Select(r.arr, j) != kt),
                              patterns=[z3.Select(r.arr, j)]))
        return Sym("int", i)
    if name == "remove":
        if isinstance(r, ListRec):
            for i, x in enumerate(r.items):
                if self.decide(self.zb(self.eq(x, args[0]))):
                    self.put(o, ListRec(r.items[:i] + r.items[i + 1:]))
                    return NONE
            raise self.exc("ValueError")
        i = self.list_method(o, r, "index", args, {}).t
        arr = self.fresh_term("rem", r.arr.sort())
        j = z3.Int("mj!%d" % self.cnt)
        self.assume(forall_([j], z3.Select(arr, j) == z3.If(j < i, z3.Select(r.arr, j), z3.Select(r.arr, j + 1)),
                              patterns=[z3.Select(arr, j)]))
        self.assume(forall_([j], z3.And(z3.Implies(j < i, z3.Select(arr, j) == z3.Select(r.arr, j)),
                                          z3.Implies(j > i, z3.Select(arr, j - 1) == z3.Select(r.arr, j))),
                              patterns=[z3.Select(r.arr, j)]))
        self.mutate(o, SymList(self.k(r.n - 1), arr, r.et, r.snap))
        return NONE
    if name == "count":
        if isinstance(r, ListRec):
            n = z3.IntVal(0)
            for x in r.items:
                n = n + z3.If(self.zb(self.eq(x, args[0])), 1, 0)
            return Sym("int", z3.simplify(n))
        kt = self.key_term(args[0], r.et)
        if kt is None:
            return Const(0)
        c = self.uf("list.count_" + r.et.key, r.n, r.arr, kt, z3.IntSort())
        self.assume(c >= 0)
        self.assume((c > 0) == self.zb(self.contains(o, args[0])))
        return Sym("int", c)
    if name == "__contains__":
        return self.b(self.contains(o, args[0]))
    if name == "__len__":
        return self.length(o)
    raise Unsupported("list.%s" % name)


def sorted_list(self, v, key=None, reverse=None):
    rev = bool(isinstance(reverse, Const) and reverse.v)
    if reverse is not None and not isinstance(reverse, Const):
        raise Unsupported("symbolic sort direction")
    l = v if self.is_list(v) else self.as_list_ref(v)
    if key is not None and isinstance(key, Const) and key.v is None:
        key = None
    r = self.rec(l)
    if isinstance(r, ListRec):
        ks = [self.call(key, [x], {}) if key is not None else x for x in r.items]
        if all(isinstance(x, Const) for x in ks):
            try:
                order = sorted(range(len(ks)), key=lambda i: ks[i].v, reverse=rev)
            except TypeError:
                raise self.exc("TypeError")
            return self.alloc(ListRec([r.items[i] for i in order]))
        if len(ks) <= 1:
            return self.alloc(ListRec(r.items))
        # insertion with decisions
        out = []
        for x, kx in zip(r.items, ks):
            p = len(out)
            while p > 0:
                a, b = (out[p - 1][0], kx) if rev else (kx, out[p - 1][0])
                if not self.decide(self.zb(self.compare(ast.Lt(), a, b))):
                    break
                p -= 1
            out.insert(p, (kx, x))
        return self.alloc(ListRec([x for _, x in out]))
    if key is not None:
        ksr = self.map_seq(self.iterate(l), lambda x: ("one", self.call(key, [x], {})), ("sortkey", r.arr.get_id()))
        kr = self.rec(ksr)
        kk = kr.et
        karr = kr.arr
    else:
        kk, karr = r.et, r.arr
    self.cnt += 1
    c = self.cnt
    p = z3.Function("perm!%d" % c, z3.IntSort(), z3.IntSort())
    q = z3.Function("perminv!%d" % c, z3.IntSort(), z3.IntSort())
    arr = self.fresh_term("sorted", r.arr.sort())
    j, k2 = z3.Int("pj!%d" % c), z3.Int("pk!%d" % c)
    self.assume(forall_([j], z3.If(z3.And(j >= 0, j < r.n), z3.And(
        p(j) >= 0, p(j) < r.n, q(p(j)) == j, z3.Select(arr, j) == z3.Select(r.arr, p(j))), p(j) == -1),
        patterns=[z3.Select(arr, j)]))
    self.assume(forall_([j], z3.If(z3.And(j >= 0, j < r.n), z3.And(
        q(j) >= 0, q(j) < r.n, p(q(j)) == j, z3.Select(arr, q(j)) == z3.Select(r.arr, j)), q(j) == -1),
        patterns=[z3.Select(r.arr, j)]))
    if kk.k == "opt":
        # None is not comparable: no key may be None
        t = z3.Int("sk!%d" % c)
        goal = z3.Implies(z3.And(0 <= t, t < r.n), sort_of(kk).recognizer(1)(z3.Select(karr, t)))
        if not self.valid(goal) and not self.valid(z3.Or(z3.Not(list_terms(self.pcs, t)), goal), 5000):
            raise Unsupported("sort key that may be None")
    ka, kb = z3.Select(karr, p(j)), z3.Select(karr, p(k2))
    lt = self.key_lt(kk, ka, kb) if not rev else self.key_lt(kk, kb, ka)
    self.assume(forall_([j, k2], z3.Implies(z3.And(0 <= j, j < k2, k2 < r.n),
                                              z3.Or(lt, z3.And(ka == kb, p(j) < p(k2)))),
                          patterns=[z3.MultiPattern(p(j), p(k2))]))
    out = self.alloc(SymList(r.n, arr, r.et))
    self.sortinfo = getattr(self, "sortinfo", {})
    self.sortinfo[arr.get_id()] = (p, q, r, karr, kk)
    return out


def list_terms(pcs, t):
    """a trivial condition that mentions the elements at t of all lists (so that what is known of them is used)"""
    seen, todo, out = set(), list(pcs), []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if not z3.is_app(x):
            continue
        if x.num_args() == 0 and z3.is_array(x) and x.sort().domain() == z3.IntSort() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(z3.Function("mention", x.sort().range(), z3.BoolSort())(z3.Select(x, t)))
        todo.extend(x.children())
    return z3.And(*[z3.Or(x, z3.Not(x)) if False else x for x in out]) if out else z3.BoolVal(True)


def key_lt(self, t, a, b):
    if t.k in ("int", "real"):
        return a < b
    if t.k == "str":
        return self.uf("str.lt", a, b, z3.BoolSort())
    if t.k == "bool":
        return z3.And(z3.Not(a), b)
    if t.k == "tup":
        s = sort_of(t)
        c = z3.BoolVal(False)
        for i in reversed(range(len(t.a))):
            x, y = s.accessor(0, i)(a), s.accessor(0, i)(b)
            c = z3.Or(self.key_lt(t.a[i], x, y), z3.And(x == y, c))
        return c
    if t.k == "any":
        return self.uf("val.lt", a, b, z3.BoolSort())
    if t.k == "obj":
        return self.uf("obj.lt", a, b, z3.BoolSort())
    if t.k == "opt":
        g = sort_of(t).accessor(1, 0)
        return self.key_lt(t.a[0], g(a), g(b))
    raise Unsupported("sort key of type %s" % t)


def dict_method(self, o, r, name, args, kwargs):
    args = list(args)
    if name == "get":
        d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        if isinstance(r, DictRec):
            for a, b in r.items:
                if self.decide(self.zb(self.eq(a, args[0]))):
                    return b
            return d
        kt = self.key_term(args[0], r.kt)
        if kt is not None and self.decide(z3.Select(r.has, kt)):
            return self.dict_val(o, r, kt)
        return d
    if name == "setdefault":
        if not self.decide(self.zb(self.contains(o, args[0]))):
            self.setitem(o, args[0], args[1] if len(args) > 1 else NONE)
        return self.index(o, args[0])
    if name == "pop":
        if self.decide(self.zb(self.contains(o, args[0]))):
            v = self.index(o, args[0])
            self.delitem(o, args[0])
            return v
        if len(args) > 1:
            return args[1]
        raise self.exc("KeyError", args[0])
    if name in ("keys", "iterkeys", "__iter__"):
        if isinstance(r, DictRec):
            return Tup([a for a, _ in r.items])
        return self.iterate(o)
    if name in ("values", "itervalues"):
        if isinstance(r, DictRec):
            return Tup([b for _, b in r.items])
        self.wf_keys(r.has, r.n, r.keys, r.kt)
        return SeqV(r.n, lambda i: self.dict_val(o, r, self.k(z3.simplify(z3.Select(r.keys, i)))), o.id,
                    lambda j: [z3.Select(r.keys, j)])
    if name in ("items", "iteritems"):
        if isinstance(r, DictRec):
            return Tup([Tup([a, b]) for a, b in r.items])
        self.wf_keys(r.has, r.n, r.keys, r.kt)

        def at(i):
            kt = self.k(z3.simplify(z3.Select(r.keys, i)))
            return Tup([self.from_term(kt, r.kt), self.dict_val(o, r, kt)])
        return SeqV(r.n, at, o.id, lambda j: [z3.Select(r.keys, j)])
    if name == "copy":
        if isinstance(r, DictRec):
            return self.alloc(DictRec(r.items, r.default))
        return self.alloc(r.replace(snap=False))
    if name == "clear":
        self.put(o, DictRec((), r.default))
        return NONE
    if name == "update":
        if args:
            src = args[0]
            if isinstance(src, AnyV):
                src = self.narrow(src, "obj")
            if self.is_dict(src):
                sr = self.rec(src)
                if isinstance(sr, DictRec):
                    for a, b in sr.items:
                        self.setitem(o, a, b)
                else:
                    return self.dict_update_sym(o, sr)
            else:
                it = self.iterate(src)
                if not isinstance(it, list):
                    return self.dict_from_seq(o, it)
                for x in it:
                    a, b = self.unpack(x, 2)
                    self.setitem(o, a, b)
        for kk, b in kwargs.items():
            self.setitem(o, Const(kk), b)
        return NONE
    if name == "__contains__":
        return self.b(self.contains(o, args[0]))
    if name == "__len__":
        return self.length(o)
    if name in ("__getitem__",):
        return self.index(o, args[0])
    if name in ("__setitem__",):
        self.setitem(o, args[0], args[1])
        return NONE
    if name == "has_key":
        raise self.exc("AttributeError")
    raise Unsupported("dict.%s" % name)


def dict_update_sym(self, o, sr):
    r = self.rec(o)
    if isinstance(r, DictRec):
        if not r.items:
            self.put(o, sr.replace(default=r.default, snap=False))
            return NONE
        r = self.as_symdict(r, DictT(self.join(self.typeof(o).a[0], sr.kt), self.join(self.typeof(o).a[1], sr.vt)))
    if r.kt != sr.kt or r.vt != sr.vt:
        raise Unsupported("dict update of different types")
    has = self.fresh_term("has", r.has.sort())
    val = self.fresh_term("val", r.val.sort())
    x = z3.Const("ux!%d" % self.cnt, sort_of(r.kt))
    self.assume(forall_([x], z3.And(
        z3.Select(has, x) == z3.Or(z3.Select(r.has, x), z3.Select(sr.has, x)),
        z3.Select(val, x) == z3.If(z3.Select(sr.has, x), z3.Select(sr.val, x), z3.Select(r.val, x)))))
    self.mutate(o, r.replace(has=has, val=val, n=self.fresh_term("n", z3.IntSort()),
                             keys=self.fresh_term("keys", r.keys.sort())))
    return NONE


def dict_from_seq(self, o, it):
    """dict.update over a symbolic sequence of pairs: the last pair of a key wins"""
    l = self.rec(self.map_seq(it, lambda x: ("one", x), ("pairs", self.nid)))
    if l.et.k != "tup":
        raise Unsupported("dict from sequence of %s" % l.et)
    s = sort_of(l.et)
    kt, vt = l.et.a
    r = self.rec(o)
    r = self.as_symdict(r, DictT(kt, vt)) if isinstance(r, SymDict) or r.items else \
        self.as_symdict(DictRec((), r.default), DictT(kt, vt))
    has = self.fresh_term("has", r.has.sort())
    val = self.fresh_term("val", r.val.sort())
    self.cnt += 1
    last = z3.Function("last!%d" % self.cnt, sort_of(kt), z3.IntSort())
    x, j = z3.Const("dx!%d" % self.cnt, sort_of(kt)), z3.Int("dj!%d" % self.cnt)
    K = lambda i: s.accessor(0, 0)(z3.Select(l.arr, i))
    V = lambda i: s.accessor(0, 1)(z3.Select(l.arr, i))
    self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < l.n), z3.And(
        z3.Select(has, K(j)), last(K(j)) >= j)), patterns=[z3.Select(l.arr, j)]))
    self.assume(forall_([x], z3.Implies(z3.Select(has, x), z3.Or(
        z3.And(last(x) >= 0, last(x) < l.n, K(last(x)) == x, z3.Select(val, x) == V(last(x))),
        z3.And(last(x) == -1, z3.Select(r.has, x), z3.Select(val, x) == z3.Select(r.val, x)))),
        patterns=[z3.Select(has, x), z3.Select(val, x)]))
    self.assume(forall_([x], z3.Implies(z3.Select(r.has, x), z3.Select(has, x))))
    self.mutate(o, r.replace(has=has, val=val, n=self.fresh_term("n", z3.IntSort()),
                             keys=self.fresh_term("keys", r.keys.sort())))
    return NONE


def set_method(self, o, r, name, args, kwargs):
    if name == "add":
        x = args[0]
        if isinstance(r, SetRec):
            if isinstance(x, Const) and all(isinstance(y, Const) for y in r.items):
                if not any(self.const_eq(x, y) for y in r.items):
                    self.put(o, SetRec(r.items + (x,)))
                return NONE
            kt = self.join(self.typeof(o).a[0] if r.items else None, self.typeof(x))
            r = self.as_symset(r, kt)
        kt = self.term(x, r.kt)
        r = self.as_symset(r, r.kt)
        has = z3.Select(r.has, kt)
        self.mutate(o, SymSet(r.kt, self.k(z3.Store(r.has, kt, True)), self.k(z3.If(has, r.n, r.n + 1)),
                              self.k(z3.If(has, r.keys, z3.Store(r.keys, r.n, kt))), r.snap))
        return NONE
    if name in ("discard", "remove"):
        x = args[0]
        if isinstance(r, SetRec):
            for i, y in enumerate(r.items):
                if self.decide(self.zb(self.eq(x, y))):
                    self.put(o, SetRec(r.items[:i] + r.items[i + 1:]))
                    return NONE
            if name == "remove":
                raise self.exc("KeyError", x)
            return NONE
        kt = self.key_term(x, r.kt)
        if kt is None or not self.decide(z3.Select(r.has, kt)):
            if name == "remove":
                raise self.exc("KeyError", x)
            return NONE
        self.mutate(o, SymSet(r.kt, self.k(z3.Store(r.has, kt, False)), None, None, r.snap))
        return NONE
    if name in ("update", "union", "difference", "intersection", "difference_update", "intersection_update"):
        dst = o
        if name in ("union", "difference", "intersection"):
            dst = self.alloc(SetRec(r.items) if isinstance(r, SetRec) else SymSet(r.kt, r.has, r.n, r.keys))
        base = {"update": "union", "difference_update": "difference",
                "intersection_update": "intersection"}.get(name, name)
        for a in args:
            self.set_combine(dst, base, a)
        return dst if dst is not o else NONE
    if name in ("issubset", "issuperset", "isdisjoint"):
        a = r
        b = self.rec(args[0])
        ty = self.join(self.typeof(o).a[0] if getattr(r, "items", True) else None,
                       self.typeof(args[0]).a[0] if getattr(b, "items", True) else None)
        if ty is None:
            return TRUE
        x = z3.Const("sx!%d" % self.cnt, sort_of(ty))
        A, B = self.as_symset(a, ty).has, self.as_symset(b, ty).has
        p, q = z3.Select(A, x), z3.Select(B, x)
        f = {"issubset": z3.Implies(p, q), "issuperset": z3.Implies(q, p),
             "isdisjoint": z3.Not(z3.And(p, q))}[name]
        return Sym("bool", self.k(forall_([x], f)))
    if name == "copy":
        return self.alloc(SetRec(r.items) if isinstance(r, SetRec) else SymSet(r.kt, r.has, r.n, r.keys))
    if name == "clear":
        self.put(o, SetRec(()))
        return NONE
    if name == "__contains__":
        return self.b(self.contains(o, args[0]))
    raise Unsupported("set.%s" % name)


def set_combine(self, dst, base, a):
    r = self.rec(dst)
    src = a
    if isinstance(a, AnyV):
        src = self.narrow(a, "obj")
    it = self.iterate(src)
    if isinstance(it, list):
        if base == "union":
            for x in it:
                self.call_method(dst, "add", [x])
            return
        if isinstance(r, SetRec) and all(isinstance(x, Const) for x in list(it) + list(r.items)):
            vs = [x.v for x in it]
            keep = [x for x in r.items if (x.v in vs) == (base == "intersection")]
            self.put(dst, SetRec(keep))
            return
        if base == "difference":
            for x in it:
                self.call_method(dst, "discard", [x])
            return
    # symbolic
    if isinstance(src, Ref) and isinstance(self.rec(src), (SymSet, SetRec)):
        sr = self.rec(src)
        kt = r.kt if isinstance(r, SymSet) else (sr.kt if isinstance(sr, SymSet) else self.typeof(src).a[0])
        B = self.as_symset(sr, kt).has
        inb = lambda x: z3.Select(B, x)
    elif isinstance(src, Ref) and isinstance(self.rec(src), SymDict):
        kt = self.rec(src).kt
        B = self.rec(src).has
        inb = lambda x: z3.Select(B, x)
    else:
        l = src if self.is_list(src) else self.as_list_ref(src)
        if isinstance(self.rec(l), ListRec):
            kt = self.typeof(l).a[0]
            l = self.alloc(self.as_symlist(self.rec(l), kt))
        lr = self.rec(l)
        kt = lr.et
        B = self.set_of_list(lr)
        inb = lambda x: z3.Select(B, x)
    if isinstance(r, SetRec):
        r = self.as_symset(r, kt)
    if r.kt != kt:
        raise Unsupported("set types differ")
    self.cnt += 1
    x = z3.Const("cx!%d" % self.cnt, sort_of(kt))
    p, q = z3.Select(r.has, x), inb(x)
    f = {"union": z3.Or(p, q), "difference": z3.And(p, z3.Not(q)), "intersection": z3.And(p, q)}[base]
    has = self.fresh_term("sethas", r.has.sort())
    self.assume(forall_([x], z3.Select(has, x) == f, patterns=[z3.Select(has, x)]))
    self.mutate(dst, SymSet(kt, has, None, None, r.snap))


def set_of_list(self, lr):
    """the membership array of set(list)"""
    self.cnt += 1
    has = self.fresh_term("setof", z3.ArraySort(sort_of(lr.et), z3.BoolSort()))
    w = z3.Function("setw!%d" % self.cnt, sort_of(lr.et), z3.IntSort())
    x, j = z3.Const("ox!%d" % self.cnt, sort_of(lr.et)), z3.Int("oj!%d" % self.cnt)
    self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < lr.n), z3.Select(has, z3.Select(lr.arr, j))),
                          patterns=[z3.Select(lr.arr, j)]))
    self.assume(forall_([x], z3.If(z3.Select(has, x), z3.And(w(x) >= 0, w(x) < lr.n,
                                                               z3.Select(lr.arr, w(x)) == x), w(x) == -1),
                          patterns=[z3.Select(has, x)]))
    return has


def length(self, v):
    if isinstance(v, AnyV):
        v = self.narrow(v, "obj")
    if isinstance(v, Const):
        if isinstance(v.v, (str, bytes)):
            return Const(len(v.v))
        raise self.exc("TypeError")
    if isinstance(v, Sym):
        if v.kind in ("str", "bytes"):
            return Sym("int", self.k(z3.Length(v.t)))
        raise self.exc("TypeError")
    if isinstance(v, Tup):
        return Const(len(v.items))
    if isinstance(v, SeqV):
        return Sym("int", v.n)
    if isinstance(v, Ref):
        r = self.rec(v)
        if isinstance(r, (ListRec, DictRec, SetRec)):
            return Const(len(r.items))
        if isinstance(r, (SymList, SymDict)):
            return Sym("int", r.n)
        if isinstance(r, SymSet):
            r2 = self.as_symset(r, r.kt)
            self.store[v.id] = r2
            return Sym("int", r2.n)
        if isinstance(r, ObjRec):
            f = (self.schema(r.cls) or {}).get("methods", {}).get("__len__") \
                or self.class_attr(r.cls, "__len__") or self.ext_method(r.cls, "__len__")
            if f is not None:
                return self.call(BoundV(v, f), [], {})
    raise Unsupported("len %r" % (v,))


# ---------------------------------------------------------------- external calls
def ext_super(self, sup, name, args, kwargs):
    key = "super:%s.%s" % (sup.cls, name)
    if key in self.ext:
        return self.ext[key](self, [sup.obj] + list(args), kwargs)
    if name == "__init__":
        if isinstance(sup.obj, Ref):
            r = self.rec(sup.obj)
            if "args" not in r.fields:
                self.store[sup.obj.id] = r.with_field("args", Tup(args))
        return NONE
    raise Unsupported("super().%s" % name)


def opaque_call(self, f, args, kwargs):
    if self.target is not None and hasattr(self.target, "opaque"):
        return self.target.opaque(self, f, args, kwargs)
    raise Unsupported("call of an unknown value")


def ext_call(self, name, args, kwargs):
    if name in self.ext:
        self.used_models.add(name)
        return self.ext[name](self, args, kwargs)
    b = name.replace("builtins.", "")
    f = EXT.get(b)
    if f is not None:
        self.used_models.add(b)
        return f(self, args, kwargs)
    I = _I()
    if b.startswith("logging.") or b in ("print", "warnings.warn"):
        return NoopV()
    if I._is_exc_name(b) or b in I.EXT_EXC:
        return self.exc(b, *args).ref
    raise Unsupported("external call %s" % name)


EXT = {}


def ext(name):
    def d(f):
        EXT[name] = f
        return f
    return d


@ext("len")
def x_len(self, a, k):
    return self.length(a[0])


@ext("str")
def x_str(self, a, k):
    if not a:
        return Const("")
    if len(a) > 1 or k:
        return self.call_method(a[0], "decode", a[1:], k)
    t = self.str_of(a[0])
    if z3.is_string_value(t):
        return Const(unesc(t))
    return Sym("str", t)


@ext("repr")
def x_repr(self, a, k):
    return Sym("str", self.fmt_piece(a[0], None, "r"))


@ext("ascii")
def x_ascii(self, a, k):
    return Sym("str", self.uf("ascii", self.box(a[0]), z3.StringSort()))


@ext("format")
def x_format(self, a, k):
    sp = a[1].v if len(a) > 1 else ""
    return self.concat([self.fmt_piece(a[0], (":" + sp) if sp else None)])


@ext("bool")
def x_bool(self, a, k):
    return self.b(self.truth(a[0])) if a else FALSE


@ext("int")
def x_int(self, a, k):
    if not a:
        return Const(0)
    v = a[0]
    if isinstance(v, AnyV):
        v = self.narrow(v, "str")
    base = a[1] if len(a) > 1 else k.get("base")
    if isinstance(v, Const):
        try:
            return Const(int(v.v, base.v) if base is not None else int(v.v))
        except (ValueError, TypeError, OverflowError) as e:
            raise self.exc(type(e).__name__)
    if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec) and base is None:
        return self.call(self.getattr(v, "__int__"), [], {})
    kd = nkind(self, v)
    if kd in ("int", "bool"):
        return Sym("int", self.term(v, Int))
    if kd == "real":
        x = self.term(v)
        return Sym("int", self.k(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))))
    if kd in ("str", "bytes"):
        sf = "" if base is None else "_%s" % base.v
        if self.decide(self.uf("int_ok" + sf, self.term(v), z3.BoolSort())):
            return Sym("int", self.uf("int_of" + sf, self.term(v), z3.IntSort()))
        raise self.exc("ValueError")
    raise self.exc("TypeError")


@ext("float")
def x_float(self, a, k):
    if not a:
        return Const(0.0)
    v = a[0]
    if isinstance(v, AnyV):
        v = self.narrow(v, "str")
    if isinstance(v, Const):
        try:
            return Const(float(v.v))
        except (ValueError, TypeError, OverflowError) as e:
            raise self.exc(type(e).__name__)
    kd = nkind(self, v)
    if kd in NUM:
        return Sym("real", self.term(v, Real))
    if kd in ("str", "bytes"):
        if self.decide(self.uf("float_ok", self.term(v), z3.BoolSort())):
            self.assumptions.add("float() of text yields a finite real number")
            return Sym("real", self.uf("float_of", self.term(v), z3.RealSort()))
        raise self.exc("ValueError")
    raise self.exc("TypeError")


@ext("list")
def x_list(self, a, k):
    return self.as_list_ref(a[0]) if a else self.alloc(ListRec(()))


@ext("tuple")
def x_tuple(self, a, k):
    if not a:
        return Tup(())
    s = self.iterate(a[0])
    if isinstance(s, list):
        return Tup(s)
    return self.as_list_ref(a[0])


@ext("set")
def x_set(self, a, k):
    if not a:
        return self.alloc(SetRec(()))
    r = self.alloc(SetRec(()))
    v = a[0]
    if isinstance(v, Ref) and isinstance(self.rec(v), SymSet):
        s = self.rec(v)
        return self.alloc(SymSet(s.kt, s.has, s.n, s.keys))
    self.set_combine(r, "union", v)
    return r


EXT["frozenset"] = x_set


@ext("dict")
def x_dict(self, a, k):
    r = self.alloc(DictRec(()))
    self.call_method(r, "update", a, k)
    return r


EXT["collections.OrderedDict"] = x_dict


@ext("collections.defaultdict")
def x_defaultdict(self, a, k):
    d = a[0] if a and not (isinstance(a[0], Const) and a[0].v is None) else None
    r = self.alloc(DictRec((), d))
    if len(a) > 1 or k:
        self.call_method(r, "update", a[1:], k)
    return r


@ext("collections.deque")
def x_deque(self, a, k):
    return self.as_list_ref(a[0]) if a else self.alloc(ListRec(()))


@ext("object")
def x_object(self, a, k):
    return self.new_obj("object")


TYPES = {"str": ("str",), "bytes": ("bytes",), "int": ("int", "bool"), "bool": ("bool",), "float": ("real",),
         "list": ("list", "emptylist"), "dict": ("dict", "emptydict"), "set": ("set", "emptyset"),
         "tuple": ("tup",), "collections.abc.Iterable": ("list", "emptylist", "dict", "emptydict", "set",
                                                         "emptyset", "tup", "str", "bytes"),
         "numbers.Number": NUM, "frozenset": ()}


@ext("isinstance")
def x_isinstance(self, a, k):
    v, c = a
    cs = list(c.items) if isinstance(c, Tup) else [c]
    if isinstance(v, AnyV):
        v = self.narrow(v, "str")
    kd = nkind(self, v)
    for x in cs:
        if isinstance(x, ExtV):
            n = x.name.replace("builtins.", "")
            if n == "object":
                return TRUE
            if n in TYPES and kd in TYPES[n]:
                return TRUE
            if n == "collections.defaultdict" and isinstance(v, Ref) and isinstance(self.rec(v), (DictRec, SymDict)):
                if self.rec(v).default is not None:
                    return TRUE
            if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec):
                cl = self.rec(v).cls
                cl = cl[4:] if cl.startswith("exc:") else cl
                if n in self.exc_supers(cl) if self.rec(v).cls.startswith("exc:") else n == cl:
                    return TRUE
                q = self.repo_class(cl)
                if q and n in self.mro(q):
                    return TRUE
                if n not in TYPES and (cl == "object" or (self.schema(cl) or {}).get("open")):
                    if self.decide(self.uf("isinstance_" + n, self.rec(v).term, z3.BoolSort())):
                        return TRUE
        elif isinstance(x, ClassV):
            if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec):
                cl = self.rec(v).cls
                cl = cl[4:] if cl.startswith("exc:") else cl
                q = self.repo_class(cl)
                if q and x.qual in self.mro(q):
                    return TRUE
                sc = self.schema(cl)
                if cl == "object" or (sc and sc.get("open")):
                    if self.decide(self.uf("isinstance_" + x.qual, self.rec(v).term, z3.BoolSort())):
                        return TRUE
        elif isinstance(x, Tup):
            if x_isinstance(self, [v, x], {}).v:
                return TRUE
        else:
            raise Unsupported("isinstance %r" % (x,))
    return FALSE


@ext("issubclass")
def x_issubclass(self, a, k):
    v, c = a
    cs = list(c.items) if isinstance(c, Tup) else [c]
    if not isinstance(v, ClassV):
        raise Unsupported("issubclass")
    m = self.mro(v.qual)
    return self.b(any(getattr(x, "qual", getattr(x, "name", None)) in m for x in cs))


@ext("callable")
def x_callable(self, a, k):
    v = a[0]
    if isinstance(v, (FuncV, BoundV, PyFn, ClassV, ExtV)):
        return TRUE
    if isinstance(v, (Const, Sym, Tup)):
        return FALSE
    raise Unsupported("callable")


@ext("type")
def x_type(self, a, k):
    v = a[0]
    if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec):
        q = self.repo_class(self.rec(v).cls)
        if q:
            m, n = self.class_node(q)
            return ClassV(m, n, q)
    if isinstance(v, AnyV):
        v = self.narrow(v, "str")
    kd = nkind(self, v)
    inv = {"str": "str", "bytes": "bytes", "int": "int", "bool": "bool", "real": "float", "list": "list",
           "emptylist": "list", "dict": "dict", "emptydict": "dict", "set": "set", "emptyset": "set",
           "tup": "tuple", "none": "NoneType"}
    if kd in inv:
        return ExtV("builtins." + inv[kd])
    raise Unsupported("type()")


@ext("getattr")
def x_getattr(self, a, k):
    I = _I()
    if not isinstance(a[1], Const):
        sc = None
        if isinstance(a[0], Ref):
            sc = self.schema(self.rec(a[0]).cls)
        if sc and "getattr" in sc:
            return sc["getattr"](self, a)
        raise Unsupported("getattr with a computed name")
    if len(a) == 2:
        return self.getattr(a[0], a[1].v)
    v = a[0]
    if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec):
        if self.has_attr(v, a[1].v):
            return self.getattr(v, a[1].v)
        return a[2]
    try:
        return self.getattr(v, a[1].v)
    except I.RaiseEx as e:
        if e.cls == "AttributeError":
            return a[2]
        raise


def has_attr(self, v, name):
    r = self.rec(v)
    if name in r.fields and r.fields[name] is not None:
        return True
    sc = self.schema(r.cls)
    if sc and (name in sc.get("methods", {}) or (name in sc.get("fields", {}) and not r.fresh)):
        if sc and name in sc.get("optional", ()):
            return self.decide(self.uf("has_%s.%s" % (r.cls, name), r.term, z3.BoolSort()))
        return True
    if self.class_attr(r.cls, name) is not None or self.ext_method(r.cls, name) is not None:
        return True
    if r.fresh or (sc and sc.get("closed")):
        return False
    return self.decide(self.uf("has_%s.%s" % (r.cls, name), r.term, z3.BoolSort()))


@ext("hasattr")
def x_hasattr(self, a, k):
    I = _I()
    if not isinstance(a[1], Const):
        raise Unsupported("hasattr with a computed name")
    v = a[0]
    if isinstance(v, AnyV):
        v = self.narrow(v, "obj")
    if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec):
        return self.b(self.has_attr(v, a[1].v))
    try:
        self.getattr(v, a[1].v)
        return TRUE
    except I.RaiseEx:
        return FALSE


@ext("setattr")
def x_setattr(self, a, k):
    if not isinstance(a[1], Const):
        raise Unsupported("setattr with a computed name")
    self.setattr(a[0], a[1].v, a[2])
    return NONE


@ext("enumerate")
def x_enumerate(self, a, k):
    st = a[1] if len(a) > 1 else k.get("start", Const(0))
    s = self.iterate(a[0])
    if isinstance(s, list):
        return Tup([Tup([self.binop(ast.Add(), st, Const(i)), x]) for i, x in enumerate(s)])
    s0 = self.term(st, Int)
    return SeqV(s.n, lambda i: Tup([Sym("int", self.k(z3.simplify(s0 + i))), s.at(i)]), s.origin, s.pats)


@ext("zip")
def x_zip(self, a, k):
    ss = [self.iterate(x) for x in a]
    if all(isinstance(s, list) for s in ss):
        return Tup([Tup(t) for t in zip(*ss)])
    seqs = []
    for s, v in zip(ss, a):
        if isinstance(s, list):
            if not s:
                return Tup(())
            l = self.alloc(ListRec(s))
            r = self.as_symlist(self.rec(l), self.typeof(l).a[0])
            s = self.iterate(self.alloc(r))
        seqs.append(s)
    n = seqs[0].n
    for s in seqs[1:]:
        n = z3.If(s.n < n, s.n, n)
    n = self.k(z3.simplify(n))
    return SeqV(n, lambda i: Tup([s.at(i) for s in seqs]), seqs[0].origin, seqs[0].pats)


@ext("range")
def x_range(self, a, k):
    if all(isinstance(x, Const) for x in a):
        return Tup([Const(i) for i in range(*[x.v for x in a])])
    st = Const(1)
    if len(a) == 1:
        lo, hi = Const(0), a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            st = a[2]
    if not isinstance(st, Const) or st.v not in (1, -1):
        raise Unsupported("range step")
    l, h = self.as_int(lo), self.as_int(hi)
    n = h - l if st.v == 1 else l - h
    n = self.k(z3.simplify(z3.If(n < 0, 0, n)))
    return SeqV(n, lambda i: Sym("int", self.k(z3.simplify(l + i if st.v == 1 else l - i))))


@ext("reversed")
def x_reversed(self, a, k):
    v = a[0]
    s = self.iterate(v)
    if isinstance(s, list):
        return Tup(s[::-1])
    n = s.n
    return SeqV(n, lambda i: s.at(self.k(z3.simplify(n - 1 - i))), s.origin)


@ext("sorted")
def x_sorted(self, a, k):
    return self.sorted_list(a[0], k.get("key"), k.get("reverse"))


@ext("map")
def x_map(self, a, k):
    if len(a) != 2:
        raise Unsupported("map of several sequences")
    s = self.iterate(a[1])
    if isinstance(s, list):
        return self.alloc(ListRec([self.call(a[0], [x], {}) for x in s]))
    return self.map_seq(s, lambda x: ("one", self.call(a[0], [x], {})), ("map", self.nid))


@ext("filter")
def x_filter(self, a, k):
    s = self.iterate(a[1])
    f = a[0]

    def keep(x):
        if isinstance(f, Const) and f.v is None:
            return self.is_true(x)
        return self.is_true(self.call(f, [x], {}))
    if isinstance(s, list):
        return self.alloc(ListRec([x for x in s if keep(x)]))
    return self.map_seq(s, lambda x: ("one", x) if keep(x) else None, ("filter", self.nid))


def quant(self, v, exists):
    s = self.iterate(v)
    if isinstance(s, list):
        for x in s:
            if self.is_true(x) == exists:
                return TRUE if exists else FALSE
        return FALSE if exists else TRUE
    self.cnt += 1
    j = z3.Int("q!%d" % self.cnt)
    save = list(self.pcs)
    t = self.zb(self.truth(s.at(j)))
    del self.pcs[len(save):]
    rng = z3.And(j >= 0, j < s.n)
    ps = s.pats(j) if s.pats else []
    kw = {"patterns": ps} if ps else {}
    if exists:
        return Sym("bool", self.k(z3.Not(forall_([j], z3.Implies(rng, z3.Not(t)), **kw))))
    return Sym("bool", self.k(forall_([j], z3.Implies(rng, t), **kw)))


@ext("any")
def x_any(self, a, k):
    return self.quant(a[0], True)


@ext("all")
def x_all(self, a, k):
    return self.quant(a[0], False)


@ext("sum")
def x_sum(self, a, k):
    start = a[1] if len(a) > 1 else k.get("start", Const(0))
    s = self.iterate(a[0])
    if isinstance(s, list):
        r = start
        for x in s:
            r = self.binop(ast.Add(), r, x)
        return r
    l = a[0] if self.is_list(a[0]) else self.as_list_ref(a[0])
    r = self.rec(l)
    if r.et.k not in ("int", "real", "bool"):
        raise Unsupported("sum of %s" % r.et)
    if r.et.k == "bool":
        raise Unsupported("sum of booleans")
    srt = sort_of(r.et)
    if z3.is_const_array(r.arr):
        n = z3.If(r.n > 0, r.n, 0)
        return self.binop(ast.Add(), start, Sym(r.et.k, self.k((z3.ToReal(n) if r.et.k == "real" else n) * r.arr.arg(0))))
    P = z3.Function("psum_" + r.et.key, r.arr.sort(), z3.IntSort(), srt)
    j = z3.Int("sum!%d" % self.cnt)
    self.cnt += 1
    self.assume(P(r.arr, 0) == 0)
    self.assume(forall_([j], z3.Implies(j >= 0, P(r.arr, j + 1) == P(r.arr, j) + z3.Select(r.arr, j)),
                          patterns=[P(r.arr, j + 1)]))
    return self.binop(ast.Add(), start, Sym(r.et.k, self.k(P(r.arr, r.n))))


def minmax(self, a, k, ismin):
    op = ast.Lt() if ismin else ast.Gt()
    key = k.get("key")
    if len(a) == 1:
        s = self.iterate(a[0])
        if not isinstance(s, list):
            if key is not None:
                raise Unsupported("min/max with key")
            l = a[0] if self.is_list(a[0]) else self.as_list_ref(a[0])
            r = self.rec(l)
            if self.decide(r.n == 0):
                if "default" in k:
                    return k["default"]
                raise self.exc("ValueError")
            if r.et.k not in ("int", "real"):
                raise Unsupported("min/max of %s" % r.et)
            m = self.fresh_term("mm", sort_of(r.et))
            w = self.fresh_term("mmi", z3.IntSort())
            j = z3.Int("mmj!%d" % self.cnt)
            e = z3.Select(r.arr, j)
            self.assume(z3.And(w >= 0, w < r.n, z3.Select(r.arr, w) == m))
            self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < r.n), m <= e if ismin else m >= e),
                                  patterns=[e]))
            return Sym(r.et.k, m)
        items = s
    else:
        items = list(a)
    if not items:
        if "default" in k:
            return k["default"]
        raise self.exc("ValueError")
    best = items[0]
    for x in items[1:]:
        p, q = (self.call(key, [x], {}), self.call(key, [best], {})) if key is not None else (x, best)
        if self.decide(self.zb(self.compare(op, p, q))):
            best = x
    return best


@ext("min")
def x_min(self, a, k):
    return self.minmax(a, k, True)


@ext("max")
def x_max(self, a, k):
    return self.minmax(a, k, False)


@ext("abs")
def x_abs(self, a, k):
    v = self.narrow(a[0], "real")
    if isinstance(v, Const):
        return Const(abs(v.v))
    return Sym(v.kind, self.k(z3.If(v.t >= 0, v.t, -v.t)))


@ext("round")
def x_round(self, a, k):
    v = self.narrow(a[0], "real")
    if isinstance(v, Const) and all(isinstance(x, Const) for x in a):
        return Const(round(*[x.v for x in a]))
    if len(a) > 1:
        return Sym("real", self.uf("round_n", self.term(v, Real), self.as_int(a[1]), z3.RealSort()))
    return Sym("int", self.uf("round", self.term(v, Real), z3.IntSort()))


@ext("chr")
def x_chr(self, a, k):
    return Const(chr(a[0].v)) if isinstance(a[0], Const) else Sym("str", self.k(z3.StrFromCode(self.as_int(a[0]))))


@ext("ord")
def x_ord(self, a, k):
    if isinstance(a[0], Const):
        return Const(ord(a[0].v))
    return Sym("int", self.k(z3.StrToCode(self.term(a[0]))))


@ext("id")
def x_id(self, a, k):
    return Sym("int", self.uf("id", self.box(a[0]), z3.IntSort()))


@ext("iter")
def x_iter(self, a, k):
    s = self.iterate(a[0])
    return Tup(s) if isinstance(s, list) else s


@ext("next")
def x_next(self, a, k):
    v = a[0]
    s = self.iterate(v)
    if isinstance(s, list):
        if s:
            return s[0]
    elif self.decide(s.n > 0):
        return s.at(z3.IntVal(0))
    if len(a) > 1:
        return a[1]
    raise self.exc("StopIteration")


@ext("functools.wraps")
def x_wraps(self, a, k):
    return PyFn(lambda it, b, kw: b[0], "wraps")


@ext("functools.partial")
def x_partial(self, a, k):
    f, pre = a[0], list(a[1:])
    return PyFn(lambda it, b, kw: it.call(f, pre + list(b), dict(k, **kw)), "partial")


@ext("copy.copy")
def x_copy(self, a, k):
    v = a[0]
    if isinstance(v, Ref):
        r = self.rec(v)
        if isinstance(r, ListRec):
            return self.alloc(ListRec(r.items))
        if isinstance(r, SymList):
            return self.alloc(SymList(r.n, r.arr, r.et))
        if isinstance(r, (SymDict, DictRec)):
            return self.call_method(v, "copy", [])
        if isinstance(r, (SymSet, SetRec)):
            return self.call_method(v, "copy", [])
        raise Unsupported("copy of an object")
    return v


@ext("copy.deepcopy")
def x_deepcopy(self, a, k):
    v = a[0]
    if isinstance(v, Ref) and not isinstance(self.rec(v), ObjRec):
        return EXT["copy.copy"](self, a, k)
    if isinstance(v, Ref):
        raise Unsupported("deepcopy of an object")
    return v


# ---------------------------------------------------------------- re
def re_pat(self, p, flags=None):
    """a compiled pattern, by pattern text and flags"""
    if isinstance(p, AnyV):
        p = self.narrow(p, "str")
    if isinstance(p, Ref):
        return p
    kd = nkind(self, p)
    if flags is None:
        flags = Const(0)
    if isinstance(flags, ExtV):
        flags = self.re_flag(flags)
    ft = self.as_int(flags)
    t = self.uf("re_compile" + ("" if kd == "str" else "_b"), self.term(p), ft, OBJ)
    r = self.obj_ref(t, "re.Pattern")
    rec = self.rec(r)
    if "pattern" not in rec.fields:
        self.store[r.id] = rec.with_field("pattern", p)
        self.store[r.id] = self.rec(r).with_field("flags", Sym("int", ft))
    return r


def re_flag(self, v):
    import re
    n = v.name.split(".")[-1]
    return Const(int(getattr(re, n)))


for _f in ("I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "X", "VERBOSE", "U", "UNICODE", "A", "ASCII"):
    pass


@ext("re.compile")
def x_re_compile(self, a, k):
    p = a[0]
    fl = a[1] if len(a) > 1 else k.get("flags")
    if isinstance(p, Const):
        import re
        try:
            re.compile(p.v)
        except re.error:
            raise self.exc("re.error")
        return self.re_pat(p, fl)
    if isinstance(p, AnyV):
        p = self.narrow(p, "str")
    if self.decide(self.uf("re_valid", self.term(p), self.as_int(fl if fl is not None and not isinstance(fl, ExtV)
                                                               else Const(0)), z3.BoolSort())):
        return self.re_pat(p, fl)
    raise self.exc("re.error")


def re_op(self, pat, name, args, kwargs=None):
    """pattern.search & co: pure functions of the pattern and the text"""
    s = args[0]
    if isinstance(s, AnyV):
        s = self.narrow(s, "str")
    if nkind(self, s) not in ("str", "bytes"):
        raise self.exc("TypeError")
    pt, st = self.rec(pat).term, self.term(s)
    ts = [pt, st] + [self.as_int(x) for x in args[1:]]
    sf = "" if nkind(self, s) == "str" else "b"
    if name in ("search", "match", "fullmatch"):
        if len(ts) > 2:
            raise Unsupported("regex with bounds")
        if self.decide(self.uf("re_%s?%s" % (name, sf), *(ts + [z3.BoolSort()]))):
            m = self.uf("re_%s%s" % (name, sf), *(ts + [OBJ]))
            return self.obj_ref(m, "re.Match")
        return NONE
    k = T(nkind(self, s))
    if name == "findall":
        lt = ListT(k) if not self.multi_group(pat) else ListT(TupT(*[k] * self.multi_group(pat)))
        return self.from_term(self.uf("re_findall_" + lt.key + sf, *(ts + [sort_of(lt)])), lt, snap=False)
    if name == "finditer":
        lt = ListT(ObjT("re.Match"))
        return self.from_term(self.uf("re_finditer" + sf, *(ts + [sort_of(lt)])), lt, snap=False)
    if name == "split":
        lt = ListT(k)
        return self.from_term(self.uf("re_split" + sf, *(ts + [sort_of(lt)])), lt, snap=False)
    raise Unsupported("regex.%s" % name)


def multi_group(self, pat):
    p = self.rec(pat).fields.get("pattern")
    if isinstance(p, Const):
        import re
        n = re.compile(p.v).groups
        return n if n > 1 else 0
    return 0


def re_sub(self, pat, args, kwargs):
    repl, s = args[0], args[1]
    if isinstance(s, AnyV):
        s = self.narrow(s, "str")
    kd = nkind(self, s)
    if kd not in ("str", "bytes"):
        raise self.exc("TypeError")
    rt = self.term(repl) if nkind(self, repl) in ("str", "bytes") else self.uf("repl_fn", self.box(repl), z3.StringSort())
    cnt = args[2] if len(args) > 2 else kwargs.get("count")
    extra = [self.as_int(cnt)] if cnt is not None else []
    return Sym(kd, self.uf("re_sub%d" % len(extra), self.rec(pat).term, rt, self.term(s), *(extra + [z3.StringSort()])))


def _mk_re(name):
    def f(self, a, k):
        fl = k.get("flags")
        rest = a[1:]
        if len(a) > 2 and name in ("search", "match", "findall", "finditer", "fullmatch"):
            fl = a[2]
            rest = a[1:2]
        return self.re_op(self.re_pat(a[0], fl), name, rest)
    return f


for _n in ("search", "match", "fullmatch", "findall", "finditer", "split"):
    EXT["re." + _n] = _mk_re(_n)


@ext("re.sub")
def x_re_sub(self, a, k):
    return self.re_sub(self.re_pat(a[0], k.get("flags")), a[1:4], k)


@ext("re.escape")
def x_re_escape(self, a, k):
    if isinstance(a[0], Const):
        import re
        return Const(re.escape(a[0].v))
    return Sym("str", self.uf("re_escape", self.term(self.narrow(a[0], "str"), Str), z3.StringSort()))


def ext_method(self, cls, name):
    key = "method:%s.%s" % (cls, name)
    if key in self.ext:
        f = self.ext[key]
        return f if isinstance(f, SV) else PyFn(f, key)
    if cls == "re.Pattern":
        if name in ("search", "match", "fullmatch", "findall", "finditer", "split"):
            return PyFn(lambda it, a, k: it.re_op(a[0], name, a[1:], k), "re." + name)
        if name == "sub":
            return PyFn(lambda it, a, k: it.re_sub(a[0], a[1:], k), "re.sub")
    if cls == "re.Match":
        return RE_MATCH.get(name)
    return None


def _m_group(self, a, k):
    m = self.rec(a[0]).term
    if len(a) == 1:
        return Sym("str", self.uf("re_group0", m, z3.StringSort()))
    if len(a) > 2:
        return Tup([_m_group(self, [a[0], x], k) for x in a[1:]])
    g = a[1]
    if isinstance(g, Const) and g.v == 0:
        return Sym("str", self.uf("re_group0", m, z3.StringSort()))
    t = Opt(Str)
    return self.from_term(self.uf("re_group", m, self.box(g), sort_of(t)), t)


def _m_groups(self, a, k):
    m = self.rec(a[0]).term
    lt = ListT(Opt(Str))
    return self.from_term(self.uf("re_groups", m, sort_of(lt)), lt, snap=False)


def _m_groupdict(self, a, k):
    m = self.rec(a[0]).term
    lt = DictT(Str, Opt(Str))
    return self.from_term(self.uf("re_groupdict", m, sort_of(lt)), lt, snap=False)


def _m_pos(nm):
    def f(self, a, k):
        m = self.rec(a[0]).term
        g = self.as_int(a[1]) if len(a) > 1 else z3.IntVal(0)
        return Sym("int", self.uf("re_" + nm, m, g, z3.IntSort()))
    return f


RE_MATCH = {"group": PyFn(_m_group, "Match.group"), "groups": PyFn(_m_groups, "Match.groups"),
            "groupdict": PyFn(_m_groupdict, "Match.groupdict"), "start": PyFn(_m_pos("start"), "Match.start"),
            "end": PyFn(_m_pos("end"), "Match.end"), "__getitem__": PyFn(_m_group, "Match.group")}


# ---------------------------------------------------------------- other pure library functions
def pure(name, *ret, **kw):
    """name(args...) is an uninterpreted function of its boxed arguments"""
    rt = ret[0]

    def f(self, a, k):
        ts = [self.box(x) for x in a] + [self.box(k[x]) for x in sorted(k)]
        nm = "%s/%d%s" % (name, len(a), "".join(sorted(k)))
        for e in kw.get("raises", ()):
            if self.decide(self.uf("%s raises %s" % (nm, e), *(ts + [z3.BoolSort()]))):
                raise self.exc(e)
        return self.from_term(self.uf(nm, *(ts + [sort_of(rt)])), rt, snap=False)
    EXT[name] = f
    return f


pure("os.path.join", Str)
pure("os.path.basename", Str)
pure("os.path.dirname", Str)
pure("os.path.exists", Bool)
pure("os.path.isfile", Bool)
pure("os.path.isdir", Bool)
pure("os.path.expanduser", Str)
pure("os.path.abspath", Str)
pure("os.path.getmtime", Real)
pure("math.log", Real, raises=("ValueError",))
pure("math.exp", Real)
pure("math.sqrt", Real, raises=("ValueError",))
pure("math.fabs", Real)
EXT["math.ceil"] = lambda self, a, k: Sym("int", self.k(-z3.ToInt(-self.term(a[0], Real))))
EXT["math.floor"] = lambda self, a, k: Sym("int", self.k(z3.ToInt(self.term(a[0], Real))))
EXT["contextlib.contextmanager"] = lambda self, a, k: a[0]


@ext("time.time")
def x_time(self, a, k):
    return Sym("real", self.fresh_term("now", z3.RealSort()))


@ext("itertools.chain")
def x_chain(self, a, k):
    out = self.alloc(ListRec(()))
    for x in a:
        self.call_method(out, "extend", [x])
    return out


@ext("operator.itemgetter")
def x_itemgetter(self, a, k):
    return PyFn(lambda it, b, kw: it.index(b[0], a[0]) if len(a) == 1 else Tup([it.index(b[0], x) for x in a]),
                "itemgetter")


@ext("operator.attrgetter")
def x_attrgetter(self, a, k):
    def get(it, v, path):
        for p in path.split("."):
            v = it.getattr(v, p)
        return v
    return PyFn(lambda it, b, kw: get(it, b[0], a[0].v) if len(a) == 1 else Tup([get(it, b[0], x.v) for x in a]),
                "attrgetter")
