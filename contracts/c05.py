"""C05: short-circuited rules"""
from .common import *

PROPERTY = "C05"
SC = "oa.plugins.short_circuit:"
BASE = "oa.rules.base:BaseRule"
PLUGIN = SC + "ShortCircuit"


class Call(SpecContract):
    """the short-circuiting wrapper: nothing without a hit; with one the tags, the result and the score with the bonus once, then the stop"""
    qual = SC + "ShortCircuitRule.__call__"
    spec = '''
import oa.errors

def call(self, msg):
    result = self.match_func(msg)
    if not result:
        return result
    msg.plugin_tags["SCRULE"] = self.rule.name
    msg.plugin_tags["SCTYPE"] = self.stype
    msg.plugin_tags["SC"] = "%s (%s)" % (self.rule.name, self.stype)
    if isinstance(result, str):
        msg.rules_descriptions[self.rule.name] = result
        msg.rules_checked[self.rule.name] = True
    else:
        msg.rules_descriptions[self.rule.name] = self.rule.description
        msg.rules_checked[self.rule.name] = result
    bonus = 0
    if self.stype == "spam":
        bonus = self.spam_score
    if self.stype == "ham":
        bonus = self.ham_score
    msg.score = msg.score + self.rule.score + bonus
    raise oa.errors.StopProcessing("")
'''

    def setup(self, v):
        self.calls = 0
        self.msg = obj(v, "Message", "msg", score=v.fresh(Real, "score0"), plugin_tags=new_dict(v, Str, Str, "tags"),
                       rules_checked=new_dict(v, Str, Any, "checked"),
                       rules_descriptions=new_dict(v, Str, Str, "descriptions"))
        self.rule = obj(v, BASE, "rule", name=v.fresh(Str, "name"), score=v.fresh(Real, "rule_score"),
                        description=v.fresh(Str, "desc"))
        self.ret = v.fresh_term("returned", Val)
        self.fails = v.fresh_term("match_fails", BOOL)

        def match(v, a, k):
            v.check("the wrapped rule sees the message", isinstance(a[0], Ref) and a[0].id == self.msg.id)
            if v.decide(self.fails):
                raise v.exc("OTHER")
            return v.any_of(self.ret)
        self.me = obj(v, SC + "ShortCircuitRule", "wrapper", rule=self.rule, match_func=PyFn(match, "rule.match"),
                      stype=v.fresh(Str, "stype"), spam_score=v.fresh(Real, "spam_score"),
                      ham_score=v.fresh(Real, "ham_score"))
        return [self.me, self.msg], {}

    def observe(self, v, a):
        return [(f, v.getattr(self.msg, f)) for f in ("score", "plugin_tags", "rules_checked", "rules_descriptions")]

    def schemas(self):
        return {BASE: {}, "Message": {}}


class Init(SpecContract):
    """the wrapper keeps what it is given"""
    qual = SC + "ShortCircuitRule.__init__"
    result = False
    spec = '''
def init(self, rule, match_func, stype, spam_score, ham_score):
    self.rule, self.match_func, self.stype = rule, match_func, stype
    self.spam_score, self.ham_score = spam_score, ham_score
'''

    def setup(self, v):
        self.me = v.new_obj(SC + "ShortCircuitRule")
        return [self.me, obj(v, BASE, "rule"), v.fresh(Any, "match"), v.fresh(Str, "stype"), v.fresh(Real, "spam"),
                v.fresh(Real, "ham")], {}

    def observe(self, v, a):
        r = v.rec(self.me)
        return [(f, r.fields[f]) for f in ("rule", "match_func", "stype", "spam_score", "ham_score")
                if r.fields.get(f) is not None]


class Wrap(Contract):
    """exactly the rules configured with on, ham or spam are wrapped, in configuration order"""
    qual = PLUGIN + ".finish_parsing_end"

    def setup(self, v):
        self.lines = new_list(v, Str, "shortcircuit")
        self.l0 = v.rec(self.lines)
        self.spam, self.ham = v.fresh(Real, "spam_score"), v.fresh(Real, "ham_score")
        self.wrapped = ghost_list(v, ObjT(BASE))
        self.types = ghost_list(v, Str)
        self.ruleset = obj(v, "RuleSet", "ruleset")
        self.me = obj(v, PLUGIN, "plugin", ctxt=obj(v, "Ctxt", "ctxt"))
        self.known = z3.Function("rule_known", STR, BOOL)
        self.ruleof = z3.Function("rule_of", STR, OBJ)
        # count of wrapped rules among the first k lines
        self.W = z3.Function("wraps", INT, INT)
        v.assume(self.W(0) == 0)
        v.assume(forall(v, [INT], lambda j: z3.Implies(j >= 0, z3.And(
            self.W(j) >= 0, self.W(j) <= j,
            self.W(j + 1) == self.W(j) + z3.If(self.active(v, j), 1, 0))), lambda j: [self.W(j + 1)]))
        return [self.me, self.ruleset], {}

    def parts(self, v, j):
        lt = ListT(Str)
        x = z3.Function("str.split.max", STR, INT, sort_of(lt))(sel(self.l0.arr, j), z3.IntVal(1))
        s = sort_of(lt)
        n, arr = s.accessor(0, 0)(x), s.accessor(0, 1)(x)
        return n, sel(arr, 0), sel(arr, 1)

    def active(self, v, j):
        n, name, typ = self.parts(v, j)
        return z3.And(n == 2, self.known(name), z3.Or(*[typ == z3.StringVal(x) for x in ("on", "ham", "spam")]))

    def state(self, v, i):
        w, t = v.rec(self.wrapped), v.rec(self.types)
        yield "one wrapping per active line", z3.And(w.n == self.W(i), t.n == self.W(i))
        yield "the named rules, with their type", forall(v, [INT], lambda j: z3.Implies(
            z3.And(rng(0, j, i), self.active(v, j)),
            z3.And(sel(w.arr, self.W(j)) == self.ruleof(self.parts(v, j)[1]),
                   sel(t.arr, self.W(j)) == self.parts(v, j)[2], self.W(j) < self.W(i))), lambda j: [self.W(j)])

    def invariants(self, v, L):
        if L.kind == "for":
            yield "index", z3.And(L.i >= 0, self.W(L.i) >= 0)
            for c in self.state(v, L.i):
                yield c

    def post(self, v, a, old, out):
        no_exception(v, out)
        for nm, c in self.state(v, self.l0.n):
            v.check(nm, c)

    def schemas(self):
        def getitem(v, a, k):
            key = a[1].v if isinstance(a[1], Const) else None
            if key == "shortcircuit":
                return self.lines
            if key == "shortcircuit_spam_score":
                return self.spam
            if key == "shortcircuit_ham_score":
                return self.ham
            raise Unsupported("option %r" % key)

        def get_rule(v, a, k):
            n = v.term(a[1], Str)
            if v.decide(self.known(n)):
                return v.obj_ref(self.ruleof(n), BASE)
            raise v.exc("KeyError")

        def set_match(v, rule, w):
            r = v.rec(w)
            ok = isinstance(r, ObjRec) and r.cls == SC + "ShortCircuitRule"
            v.check("the new match step is a short-circuit wrapper", ok)
            if not ok:
                raise I.PathEnd()
            v.check("it wraps this rule", equal_values(v, v.getattr(w, "rule"), rule))
            mf = v.getattr(w, "match_func")
            v.check("it calls this rule's own match step",
                    isinstance(mf, BoundV) and isinstance(mf.self_, Ref) and mf.self_.id == rule.id)
            v.check("it adds the configured bonuses", z3.And(
                equal_values(v, v.getattr(w, "spam_score"), self.spam),
                equal_values(v, v.getattr(w, "ham_score"), self.ham)))
            log_event(v, self.wrapped, v.rec(rule).term)
            log_event(v, self.types, v.term(v.getattr(w, "stype"), Str))
        return {BASE: {"fields": {"name": Str}, "methods": {"match": noop_method("BaseRule.match")},
                       "setters": {"match": set_match}},
                "RuleSet": {"methods": {"get_rule": PyFn(get_rule, "RuleSet.get_rule")}},
                PLUGIN: {"methods": {"__getitem__": PyFn(getitem, "ShortCircuit.__getitem__"),
                                     "__setitem__": noop_method("ShortCircuit.__setitem__")},
                         "fields": {"dsn": NoneT}},
                "Ctxt": {"methods": {"err": noop_method("GlobalContext.err")}}}


def contracts():
    return [Call(), Init(), Wrap()]
