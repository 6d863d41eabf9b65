"""C28: meta rules"""
from .common import *

PROPERTY = "C28"
META = "oa.rules.meta:MetaRule"


class PostParsing(Contract):
    """Every name of the expression is bound to the match of the rule of that name (enabled or not),
    each of which was prepared first one level deeper; an unknown name, a bad expression or too deep a
    nesting is an invalid rule."""
    qual = META + ".postparsing"
    budget = 400

    def setup(self, v):
        self.loc = new_dict(v, Str, Any, "location")
        self.loc0 = v.rec(self.loc)
        self.text = v.fresh(Str, "expression")
        self.me = obj(v, META, "rule", _location=self.loc, rule=self.text, name=v.fresh(Str, "name"))
        self.rs = obj(v, "RuleSet", "ruleset")
        self.depth = v.fresh(Int, "depth")
        v.assume(self.depth.t >= 0)
        self.names = None
        self.events = ghost_list(v, ObjT("Rule"))
        v.trace = ()
        return [self.me, self.rs, self.depth], {}

    def rule(self, x):
        return z3.Function("rule_named", STR, OBJ)(x)

    def known(self, x):
        return z3.Function("rule_known", STR, BOOL)(x)

    def bad(self, o):
        return z3.Function("rule_invalid", OBJ, BOOL)(o)

    def match_of(self, o):
        return z3.Function("Rule.match", OBJ, Val)(o)

    def schemas(self):
        def get_rule(v, a, k):
            v.check("disabled rules count too", len(a) < 3 and not k)
            x = v.term(a[1], Str)
            if not v.decide(self.known(x)):
                raise v.exc("KeyError")
            return v.obj_ref(self.rule(x), "Rule")

        def postparsing(v, a, k):
            d = a[2] if len(a) > 2 else k.get("_depth", Const(0))
            v.check("sub-rules are prepared one level deeper", v.term(d, Int) == self.depth.t + 1)
            v.check("with the rule set", isinstance(a[1], Ref) and a[1].id == self.rs.id)
            o = v.rec(a[0]).term
            log_event(v, self.events, o)
            if v.decide(self.bad(o)):
                raise v.exc("oa.errors:InvalidRule")
            return NONE
        return {"RuleSet": {"methods": {"get_rule": PyFn(get_rule, "RuleSet.get_rule")}},
                "Rule": {"fields": {"match": Any}, "methods": {"postparsing": PyFn(postparsing, "Rule.postparsing")}}}

    def uses(self):
        return {"oa.rules.base:BaseRule.postparsing": Model(lambda v, f, a, k: NONE),
                "oa.rules.meta:_convert_negations": Model(
                    lambda v, f, a, k: Sym("str", v.uf("negations_converted", v.term(a[0], Str), STR))),
                "oa.regex:Regex.findall": Model(self.findall), "oa.regex:Regex.sub": Model(self.sub)}

    def findall(self, v, f, a, k):
        t = v.uf("names_in", v.term(a[1], Str), sort_of(ListT(Str)))
        return v.from_term(t, ListT(Str), snap=False)

    def sub(self, v, f, a, k):
        return Sym("str", v.uf("called_in", v.term(a[2], Str), STR))

    def ext(self):
        def comp(v, a, k):
            if v.decide(v.uf("syntax_error", v.term(a[0], Str), BOOL)):
                raise v.exc("SyntaxError")
            self.source = a[0]
            return v.any_of(v.uf("code", v.term(a[0], Str), Val))

        def exe(v, a, k):
            v.setitem(a[1], Const("match"), v.any_of(v.uf("function_of", v.term(a[0], Any), Val)))
            return NONE
        return {"builtins.compile": comp, "builtins.exec": exe}

    def mentioned(self, v, x):
        """x occurs in the expression"""
        t = v.uf("names_in", v.term(self.text, Str), sort_of(ListT(Str)))
        s = t.sort()
        n, arr = s.accessor(0, 0)(t), s.accessor(0, 1)(t)
        return n, arr

    def invariants(self, v, L):
        if L.kind != "for" or L.origin is None:
            return
        seq = v.store.get(L.origin)
        if not isinstance(seq, SymSet) or seq.keys is None:
            return
        r = v.rec(self.loc)
        yield "bound so far", forall(v, [INT], lambda j: z3.Implies(rng(0, j, L.i), z3.And(
            self.known(sel(seq.keys, j)),
            z3.Not(self.bad(self.rule(sel(seq.keys, j)))),
            sel(r.has, sel(seq.keys, j)),
            sel(r.val, sel(seq.keys, j)) == self.match_of(self.rule(sel(seq.keys, j))))),
            lambda j: [sel(seq.keys, j)])

    def post(self, v, a, old, out):
        x0 = v.fresh_term("name", STR)
        n, arr = self.mentioned(v, x0)
        had = sel(self.loc0.has, z3.StringVal("match"))
        deep = self.depth.t > 10
        if out.kind == "raise":
            v.check("only as an invalid rule", "oa.errors:InvalidRule" in v.exc_supers(out.exc.cls))
            v.check("a rule that is ready and not too deep is left alone", z3.Or(deep, z3.Not(had)))
            return
        v.check("too deep a nesting is rejected", z3.Not(deep))
        r = v.rec(self.loc)
        j = v.fresh_term("j", INT)
        v.check("every name of the expression is known and usable, and bound to the match of its rule",
                z3.Implies(z3.And(z3.Not(had), rng(0, j, n), sel(arr, j) != z3.StringVal("match")), z3.And(
                    self.known(sel(arr, j)), z3.Not(self.bad(self.rule(sel(arr, j)))),
                    sel(r.has, sel(arr, j)), sel(r.val, sel(arr, j)) == self.match_of(self.rule(sel(arr, j))))))
        v.check("the expression is compiled", sel(r.has, z3.StringVal("match")))


class Match(SpecContract):
    """the compiled expression is evaluated on the message"""
    qual = META + ".match"
    spec = '''
def match(self, msg):
    return self._location["match"](msg)
'''

    def setup(self, v):
        def expr(v, a, k):
            return v.any_of(v.uf("value", v.rec(a[0]).term, Val))
        self.me = obj(v, META, "rule", _location=v.alloc(DictRec([(Const("A"), PyFn(expr, "A")),
                                                                    (Const("match"), PyFn(expr, "match"))])))
        return [self.me, obj(v, "Message", "msg")], {}


def contracts():
    return [PostParsing(), Match()]
