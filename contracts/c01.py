"""C01: RuleSet.match"""
from .common import *

PROPERTY = "C01"
RULESET = "oa.rules.ruleset:RuleSet"


class MatchContract(Contract):
    """each enabled rule once, in order; its result recorded; the score grows by the score of exactly those that matched; a failing rule counts as not matched; a stop ends the evaluation; the end-of-check and learning hooks always run"""
    qual = RULESET + ".match"

    def setup(self, v):
        self.checked = new_dict(v, Str, ObjT("Rule"), "checked")
        r = self.ckrec = v.rec(self.checked)
        self.pos = v.wf_keys(r.has, r.n, r.keys, r.kt)
        self.calls = ghost_list(v, ObjT("Rule"))
        self.hooks = ghost_list(v, Str)
        self.score0 = v.fresh_term("score0", REAL)
        self.res = empty_symdict(v, Str, Any)
        self.desc = new_dict(v, Str, Str, "descriptions")
        self.desc0 = v.rec(self.desc)
        self.conf = obj(v, "Conf", "conf")
        self.ctxt = obj(v, "Ctxt", "ctxt", conf=self.conf)
        self.me = obj(v, RULESET, "ruleset", checked=self.checked, ctxt=self.ctxt, conf=self.conf)
        self.msg = obj(v, "Message", "msg", score=Sym("real", self.score0), rules_checked=self.res,
                       rules_descriptions=self.desc)
        # the outcome of the k-th evaluation: how it ends and what it returns
        self.kind = z3.Function("outcome", INT, INT)      # 0 returns, 1 StopProcessing, 2 other error
        self.ret = z3.Function("returned", INT, Val)
        # ghost: sum of the scores of the rules that matched among the first k
        self.P = z3.Function("matched_sum", INT, REAL)
        v.assume(self.P(0) == 0)
        v.assume(forall(v, [INT], lambda j: z3.Implies(
            j >= 0, self.P(j + 1) == self.P(j) + z3.If(self.matched(j), self.rule_score(v, j), z3.RealVal(0))),
            lambda j: [self.P(j + 1)]))
        v.assume(forall(v, [INT], lambda j: rng(0, self.kind(j), 3), lambda j: [self.kind(j)]))
        return [self.me, self.msg], {}

    # ---- spec vocabulary
    def key(self, j):
        return sel(self.ckrec.keys, j)

    def matched(self, j):
        return z3.And(self.kind(j) == 0, z3.Or(Val.is_strv(self.ret(j)), truthy(self.ret(j))))

    def rule(self, j):
        return sel(self.ckrec.val, self.key(j))

    def rule_score(self, v, j):
        return v.uf("Rule.score", self.rule(j), REAL)

    def rule_desc(self, v, j):
        return v.uf("Rule.description", self.rule(j), STR)

    def match_model(self, v, a, k):
        rule, msg = a[0], a[1]
        v.check("rule evaluated on the message being checked",
                isinstance(msg, Ref) and msg.id == self.msg.id)
        n = v.rec(self.calls).n
        log_event(v, self.calls, v.rec(rule).term)
        if v.decide(self.kind(n) == 1):
            raise v.exc("oa.errors:StopProcessing")
        if v.decide(self.kind(n) == 2):
            raise v.exc("OTHER")
        return v.any_of(self.ret(n))

    def hook(self, name):
        def f(v, a, k):
            v.check("%s gets the rule set and the message" % name,
                    len(a) == 3 and isinstance(a[1], Ref) and a[1].id == self.me.id
                    and isinstance(a[2], Ref) and a[2].id == self.msg.id)
            log_event(v, self.hooks, z3.StringVal(name))
            return NONE
        return PyFn(f, "Ctxt." + name)

    def state(self, v, i, upto=None):
        """what holds after the rules 0..i-1 were evaluated completely"""
        res, desc, calls = v.rec(self.res), v.rec(self.desc), v.rec(self.calls)
        if not isinstance(res, SymDict):
            res = v.as_symdict(res, DictT(Str, Any))
        yield "score is the sum of the matched rules", fterm(v, self.msg, "score", Real) == self.score0 + self.P(i)
        yield "one record per evaluated rule", res.n == i
        yield "records in evaluation order", forall(v, [INT], lambda j: z3.Implies(
            rng(0, j, i), sel(res.keys, j) == self.key(j)), lambda j: [self.key(j)])
        yield "recorded outcome", forall(v, [INT], lambda j: z3.Implies(
            rng(0, j, i), z3.And(sel(res.has, self.key(j)),
                                 truthy(sel(res.val, self.key(j))) == self.matched(j))), lambda j: [self.key(j)])
        yield "nothing else recorded", forall(v, [STR], lambda x: z3.Implies(
            sel(res.has, x), z3.And(sel(self.ckrec.has, x), self.pos(x) < i)), lambda x: [self.pos(x)])
        yield "description of a match", forall(v, [INT], lambda j: z3.Implies(
            z3.And(rng(0, j, i), self.matched(j)),
            z3.And(sel(desc.has, self.key(j)), sel(desc.val, self.key(j)) == z3.If(
                Val.is_strv(self.ret(j)), Val.s(self.ret(j)), self.rule_desc(v, j)))), lambda j: [self.key(j)])
        yield "other descriptions unchanged", forall(v, [STR], lambda x: z3.Or(
            z3.And(sel(self.ckrec.has, x), self.pos(x) < i, self.matched(self.pos(x))),
            z3.And(sel(desc.has, x) == sel(self.desc0.has, x), sel(desc.val, x) == sel(self.desc0.val, x))), lambda x: [self.pos(x)])

    def evaluated(self, v, m):
        calls = v.rec(self.calls)
        yield "rules evaluated once each", calls.n == m
        yield "rules evaluated in order", forall(v, [INT], lambda j: z3.Implies(
            rng(0, j, m), sel(calls.arr, j) == self.rule(j)), lambda j: [sel(calls.arr, j)])

    def no_stop_before(self, v, m):
        return forall(v, [INT], lambda j: z3.Implies(rng(0, j, m), self.kind(j) != 1), lambda j: [self.kind(j)])

    def invariants(self, v, L):
        if L.kind != "for" or not v.valid(L.n == self.ckrec.n):
            return
        for c in self.state(v, L.i):
            yield c
        for c in self.evaluated(v, L.i):
            yield c
        yield "no stop so far", self.no_stop_before(v, L.i)
        yield "hooks wait", v.rec(self.hooks).n == 0

    def post(self, v, a, old, out):
        no_exception(v, out)
        n = self.ckrec.n
        # the witness: the number of rules that completed
        m = v.rec(self.calls).n
        stopped = z3.And(m >= 1, self.kind(m - 1) == 1)
        done = v.k(z3.If(stopped, m - 1, m))
        v.check("every rule is evaluated unless one stops", z3.Or(stopped, m == n))
        v.check("a stop ends the evaluation", self.no_stop_before(v, done))
        for nm, c in self.evaluated(v, m):
            v.check(nm, c)
        for nm, c in self.state(v, done):
            v.check(nm, c)
        h = v.rec(self.hooks)
        v.check("end of check, then learning, exactly once", z3.And(
            h.n == 2, sel(h.arr, 0) == z3.StringVal("hook_check_end"),
            sel(h.arr, 1) == z3.StringVal("hook_auto_learn")))

    def schemas(self):
        return {
            "Rule": {"fields": {"score": Real, "description": Str, "name": Str},
                     "methods": {"match": PyFn(self.match_model, "Rule.match")}},
            "Ctxt": {"fields": {}, "methods": {"hook_check_end": self.hook("hook_check_end"),
                                               "hook_auto_learn": self.hook("hook_auto_learn")}},
            "Message": {"fields": {"score": Real}},
            "Conf": {},
        }


def contracts():
    return [MatchContract()]
