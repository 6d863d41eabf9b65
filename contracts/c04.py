"""C04: registration, lookup and removal of rules"""
from .common import *

PROPERTY = "C04"
BASE = "oa.rules.base:BaseRule"
RULESET = "oa.rules.ruleset:RuleSet"


def ruleset(v, **kw):
    return obj(v, RULESET, "ruleset", checked=new_dict(v, Str, ObjT(BASE), "checked"),
               not_checked=new_dict(v, Str, ObjT(BASE), "not_checked"), **kw)


class AddRule(SpecContract):
    """the rule is registered in exactly one group, nothing else changes"""
    qual = RULESET + ".add_rule"
    result = False
    spec = '''
def add_rule(self, rule):
    rule.preprocess(self)
    if rule.score != 0 and not rule.name.startswith("__"):
        self.checked[rule.name] = rule
    else:
        self.not_checked[rule.name] = rule
'''

    def setup(self, v):
        self.rs = ruleset(v)
        self.rule = obj(v, BASE, "rule")
        self.log = ghost_list(v, Str)
        return [self.rs, self.rule], {}

    def observe(self, v, a):
        return [("enabled rules", v.getattr(self.rs, "checked")),
                ("disabled rules", v.getattr(self.rs, "not_checked")),
                ("name", v.getattr(self.rule, "name")),
                ("score", v.getattr(self.rule, "score"))]

    def schemas(self):
        def preprocess(v, a, k):
            # the effective score, set by the rule itself (C03)
            v.setattr(a[0], "score", Sym("real", v.uf("effective_score", v.rec(a[0]).term, REAL)))
            log_event(v, self.log, z3.StringVal("preprocess"))
            v.check("preprocess gets the rule set", isinstance(a[1], Ref) and a[1].id == self.rs.id)
            return NONE

        def postprocess(v, a, k):
            log_event(v, self.log, z3.StringVal("postprocess"))
            return NONE
        return {BASE: {"fields": {"name": Str, "score": Real, "priority": Int},
                       "methods": {"preprocess": PyFn(preprocess, "BaseRule.preprocess"),
                                   "postprocess": PyFn(postprocess, "BaseRule.postprocess")}}}

    def extra(self, v, a, old, out):
        l = v.rec(self.log)
        v.check("preprocessed, then postprocessed, once", z3.And(
            l.n == 2, sel(l.arr, 0) == z3.StringVal("preprocess"), sel(l.arr, 1) == z3.StringVal("postprocess")))


class GetRule(SpecContract):
    """the enabled rule, else the disabled one, else KeyError"""
    qual = RULESET + ".get_rule"
    spec = '''
def get_rule(self, name, checked_only):
    if name in self.checked:
        return self.checked[name]
    if not checked_only and name in self.not_checked:
        return self.not_checked[name]
    raise KeyError(name)
'''

    def setup(self, v):
        self.rs = ruleset(v)
        return [self.rs, v.fresh(Str, "name"), v.fresh(Bool, "checked_only")], {}

    def observe(self, v, a):
        return [("enabled rules", v.getattr(self.rs, "checked")),
                ("disabled rules", v.getattr(self.rs, "not_checked"))]

    def schemas(self):
        return {BASE: {"fields": {"name": Str, "score": Real}}}


class ShouldCheck(SpecContract):
    """enabled iff scored and not named with two underscores"""
    qual = BASE + ".should_check"
    spec = '''
def should_check(self):
    return self.score != 0 and not self.name.startswith("__")
'''

    def setup(self, v):
        self.me = obj(v, BASE, "rule")
        return [self.me], {}

    def observe(self, v, a):
        return [(f, v.getattr(self.me, f)) for f in ("score", "name")]

    def schemas(self):
        return {BASE: {"fields": {"name": Str, "score": Real}}}


class PostParsing(Contract):
    """every rule is asked once; exactly the invalid ones are removed; strict mode raises"""
    qual = RULESET + ".call_postparsing"

    def setup(self, v):
        self.rs = ruleset(v)
        self.paranoid = v.fresh(Bool, "paranoid")
        self.ctxt = obj(v, "Ctxt", "ctxt", paranoid=self.paranoid)
        v.setattr(self.rs, "ctxt", self.ctxt)
        self.d = [v.getattr(self.rs, "checked"), v.getattr(self.rs, "not_checked")]
        self.r0 = [v.rec(x) for x in self.d]
        self.pos = [v.wf_keys(r.has, r.n, r.keys, r.kt) for r in self.r0]
        self.how = z3.Function("postparsing_outcome", OBJ, INT)    # 0 fine, 1 invalid, 2 other error
        v.assume(forall(v, [OBJ], lambda o: rng(0, self.how(o), 3), lambda o: [self.how(o)]))
        self.asked = [ghost_list(v, ObjT(BASE)), ghost_list(v, ObjT(BASE))]
        self.phase = 0
        return [self.rs], {}

    def bad(self, k, x):
        return self.how(sel(self.r0[k].val, x)) == 1

    def upto(self, v, k, i):
        """the first i rules of dictionary k were handled"""
        r = v.rec(self.d[k])
        r = r if isinstance(r, SymDict) else v.as_symdict(r, DictT(Str, ObjT(BASE)))
        yield "exactly the invalid rules are removed (%d)" % k, forall(v, [STR], lambda x: z3.And(
            sel(r.has, x) == z3.And(sel(self.r0[k].has, x), z3.Not(z3.And(self.pos[k](x) < i, self.bad(k, x)))),
            sel(r.val, x) == sel(self.r0[k].val, x)), lambda x: [self.pos[k](x)])

    def invariants(self, v, L):
        if L.kind != "for":
            return
        k = self.which(v, L)
        if k is None:
            return
        for c in self.upto(v, k, L.i):
            yield c
        o = 1 - k
        for c in self.upto(v, o, self.r0[o].n if k == 1 else 0):
            yield c
        yield "strict mode lets no invalid rule pass", z3.Implies(
            v.term(self.paranoid, Bool), forall(v, [INT], lambda j: z3.Implies(
                rng(0, j, L.i), z3.Not(self.bad(k, sel(self.r0[k].keys, j)))), lambda j: [sel(self.r0[k].keys, j)]))
        if k == 1:
            yield "strict mode let none pass before", self.none_bad(v, 0)

    def none_bad(self, v, k):
        return z3.Implies(v.term(self.paranoid, Bool), forall(v, [INT], lambda j: z3.Implies(
            rng(0, j, self.r0[k].n), z3.Not(self.bad(k, sel(self.r0[k].keys, j)))),
            lambda j: [sel(self.r0[k].keys, j)]))

    def which(self, v, L):
        for k in (0, 1):
            if z3.eq(z3.simplify(L.n), z3.simplify(self.r0[k].n)):
                return k
        for k in (0, 1):
            if v.valid(L.n == self.r0[k].n):
                return k
        return None

    def post(self, v, a, old, out):
        if out.kind == "return":
            for k in (0, 1):
                for nm, c in self.upto(v, k, self.r0[k].n):
                    v.check(nm, c)
                v.check("strict mode accepts only valid rules (%d)" % k, self.none_bad(v, k))
            return
        if out.exc.cls == "OTHER":
            return                        # an error of the rule itself, not an invalid rule
        v.check("only an invalid rule in strict mode fails", z3.And(
            "oa.errors:InvalidRule" in v.exc_supers(out.exc.cls), v.term(self.paranoid, Bool)))

    def schemas(self):
        def postparsing(v, a, k):
            o = v.rec(a[0]).term
            v.check("asked with the rule set", isinstance(a[1], Ref) and a[1].id == self.rs.id)
            if v.decide(self.how(o) == 1):
                raise v.exc("oa.errors:InvalidRule")
            if v.decide(self.how(o) == 2):
                raise v.exc("OTHER")
            return NONE
        return {BASE: {"fields": {"name": Str, "score": Real},
                       "methods": {"postparsing": PyFn(postparsing, "BaseRule.postparsing")}},
                "Ctxt": {"methods": {"err": noop_method("GlobalContext.err")}}}


def contracts():
    return [AddRule(), GetRule(), ShouldCheck(), PostParsing()]
