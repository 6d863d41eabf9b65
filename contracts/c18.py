"""C18: auto-learning"""
from .common import *

PROPERTY = "C18"
PLUGIN = "oa.plugins.auto_learn_threshold:AutoLearnThreshold"
F = lambda f, n="f": PyFn(f, n)
RULE, FLAGS, NAME = ObjT("Rule"), ObjT("Flags"), ObjT("Name")
PAIR = TupT(Str, RULE)
LOG = {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error", "critical")}}
FLAG_TRUSTS = ("set(flags).intersection(names) is non-empty exactly when one of the names is a flag of the rule",)


def flag(v, rule, name):
    """the rule carries the flag (a rule without flags carries none)"""
    return z3.And(v.uf("truthy", v.uf("Rule.tflags", rule, OBJ), BOOL), v.uf("flag", v.uf("Rule.tflags", rule, OBJ), z3.StringVal(name), BOOL))


def flags_schema():
    def has(v, fl, name):
        if not isinstance(name, Const):
            raise Unsupported("a computed flag")
        return v.uf("flag", fl, z3.StringVal(name.v), BOOL)

    def contains(v, a, k):
        return Sym("bool", has(v, v.term(a[0], FLAGS), a[1]))

    def names(v, x):
        if isinstance(x, Tup):
            return x.items
        r = v.rec(x)
        if isinstance(r, (ListRec, SetRec)):
            return list(r.items)
        raise Unsupported("flags compared with %r" % (x,))

    def common(v, a):
        fl = v.rec(a[0]).term
        out = []
        for n in names(v, a[1]):
            if v.decide(z3.And(v.uf("truthy", fl, BOOL), has(v, fl, n))):
                out.append(n)
        return out
    return {"truthy": "uf", "methods": {"__contains__": F(contains), "intersection": F(lambda v, a, k: v.alloc(ListRec(common(v, a)))),
        "isdisjoint": F(lambda v, a, k: Const(not common(v, a))), "__and__": F(lambda v, a, k: v.alloc(ListRec(common(v, a))))}}


def x_set(v, a, k):
    from vc import models
    if a and isinstance(a[0], Ref) and isinstance(v.rec(a[0]), ObjRec):
        return a[0]
    return models.EXT["set"](v, a, k)


def rules_schema():
    return {"fields": {"score": Real, "tflags": FLAGS, "rule_type": Str}, "methods": {}}


def score(v, r):
    return v.uf("Rule.score", r, REAL)


def keeps(v, r):
    return z3.And(score(v, r) != 0, z3.Not(flag(v, r, "noautolearn")), z3.Not(flag(v, r, "userconf")))


class Valid(Contract):
    """the rules that count for learning: those with a score and without the flags noautolearn and userconf, in order"""
    qual = name = PLUGIN + ".valid_tests"
    trusts = FLAG_TRUSTS

    def setup(self, v):
        self.tests = new_dict(v, Str, RULE, "tests")
        self.T = T = v.rec(self.tests)
        v.wf_keys(T.has, T.n, T.keys, T.kt)
        self.N = N = z3.Function("kept_before", INT, INT)
        v.assume(N(0) == 0)
        v.assume(forall(v, [INT], lambda i: z3.Implies(i >= 0, N(i + 1) == N(i) + z3.If(keeps(v, self.rule(i)), 1, 0)), lambda i: [self.rule(i)]))
        return [obj(v, PLUGIN, "plugin", ctxt=obj(v, "Ctxt", "ctxt", log=obj(v, "Log", "log"))), self.tests], {}

    def key(self, i):
        return sel(self.T.keys, i)

    def rule(self, i):
        return sel(self.T.val, self.key(i))

    def schemas(self):
        return {"Rule": rules_schema(), "Flags": flags_schema(), "Ctxt": {}, "Log": LOG}

    def ext(self):
        return {"set": x_set, "builtins.set": x_set}

    def state(self, v, r, i):
        yield "as many as there are", r.n == self.N(i)
        yield "count", r.n >= 0
        pair = lambda j: v.from_term(sel(r.arr, j), PAIR, snap=False)
        yield "each in its place", forall(v, [INT], lambda j: z3.Implies(z3.And(rng(0, j, i), keeps(v, self.rule(j))), z3.And(
            rng(0, self.N(j), r.n), v.term(pair(self.N(j)).items[0], Str) == self.key(j),
            v.term(pair(self.N(j)).items[1], RULE) == self.rule(j))), lambda j: [self.rule(j)])

    def candidates(self, v, L):
        if L.kind != "for":
            return
        lists = [("yielded", v.yields)] if isinstance(v.yields, Ref) else []
        lists += [x for x in sorted(v.store[v.env].vars.items()) if isinstance(x[1], Ref)]
        for name, y in lists:
            r = v.rec(y)
            if not isinstance(r, (ListRec, SymList)) or (isinstance(r, ListRec) and r.items):
                continue
            r = v.as_symlist(r, PAIR) if isinstance(r, ListRec) else r
            if r.et == PAIR:
                for n, c in self.state(v, r, L.i):
                    yield "%s: %s" % (name, n), c

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind == "return":
            r = v.rec(out.value)
            r = v.as_symlist(r, PAIR) if isinstance(r, ListRec) else r
            for n, c in self.state(v, r, self.T.n):
                v.check(n, c)


class Local(object):
    """what the plugin has stored for the message"""
    kinds = {"autolearn_points": Real, "header_points": Real, "body_points": Real, "learned_points": Real, "min_body_points": Real,
             "min_header_points": Real, "autolearn_forced": Bool, "learner_thinks_spam": Bool, "learner_thinks_ham": Bool,
             "bayes_thinks_spam": Bool, "bayes_thinks_ham": Bool}

    def local_setup(self, v, fresh):
        self.msg = obj(v, "Message", "msg", score=v.fresh(Real, "score"), **{
            "l_" + n: (v.fresh(t, n) if fresh else NONE) for n, t in self.kinds.items()})
        self.conf = conf_dict(v, required_score=Real)
        self.plugins = v.alloc(DictRec([]))
        self.ctxt = obj(v, "Ctxt", "ctxt", log=obj(v, "Log", "log"), conf=self.conf, plugins=self.plugins)
        self.opts = {"bayes_auto_learn_threshold_spam": Real, "bayes_auto_learn_threshold_nonspam": Real, "bayes_auto_learn_on_error": Bool}
        self.me = obj(v, PLUGIN, "plugin", ctxt=self.ctxt)

    def name_of(self, x):
        if not isinstance(x, Const) or x.v not in self.kinds:
            raise Unsupported("another thing stored for the message: %r" % (x,))
        return "l_" + x.v

    def get(self, v, f, a, k):
        if not (isinstance(a[1], Ref) and a[1].id == self.msg.id):
            raise Unsupported("another message")
        return v.getattr(a[1], self.name_of(a[2]))

    def put(self, v, f, a, k):
        if not (isinstance(a[1], Ref) and a[1].id == self.msg.id):
            raise Unsupported("another message")
        v.setattr(a[1], self.name_of(a[2]), a[3])
        return NONE

    def opt(self, v, f, a, k):
        t = self.opts[a[1].v]
        return Sym(t.k, v.uf("option_" + a[1].v, z3.IntVal(0), sort_of(t)))

    def local_uses(self):
        return {"oa.conf:Conf.get_local": Model(self.get), "oa.conf:Conf.set_local": Model(self.put), "oa.conf:Conf.__getitem__": Model(self.opt)}

    def local_observe(self, v):
        return [(n, v.getattr(self.msg, "l_" + n)) for n in sorted(self.kinds)]

    def local_schemas(self):
        return {"Message": {}, "Ctxt": {}, "Log": LOG, "Rule": rules_schema(), "Flags": flags_schema()}


SHOULD = '''
def run(self, msg, env):
    spam = msg.l_learner_thinks_spam
    ham = msg.l_learner_thinks_ham
    required = self.ctxt.conf["required_score"]
    if spam:
        ok = (msg.l_header_points >= msg.l_min_header_points and msg.l_body_points >= msg.l_min_body_points
              and msg.l_learned_points >= -1 and msg.score > required)
        agrees = msg.l_bayes_thinks_spam
    elif ham:
        ok = msg.l_learned_points <= 1 and msg.score < required
        agrees = msg.l_bayes_thinks_ham
    else:
        return False
    if env.on_error() and agrees:
        return False
    return ok
'''


class Should(Local, SpecContract):
    """every safeguard of the class the message is learned as holds, and it is not learning on error while Bayes agrees"""
    qual = PLUGIN + ".should_learn"
    spec = SHOULD
    result = True

    def setup(self, v):
        self.local_setup(v, True)
        return [self.me, self.msg], {}

    def spec_args(self, v, a):
        return list(a) + [obj(v, "Env", "env")]

    def schemas(self):
        return dict(self.local_schemas(), Env={"methods": {"on_error": F(lambda v, a, k: self.opt(v, None, [None, Const(
            "bayes_auto_learn_on_error")], {}))}})

    def uses(self):
        return self.local_uses()

    def observe(self, v, a):
        return self.local_observe(v)


class Prepare(Local, Contract):
    """the points are the sums of the scores of the rules that count: by part of the message, of the learning rules, and of all others;
    the message is spam for the learner at the spam threshold or above, ham below the other one"""
    qual = name = PLUGIN + ".prepare_learning_metadata"
    trusts = ("valid_tests yields the rules of its contract",)

    def setup(self, v):
        self.local_setup(v, False)
        self.good = new_list(v, PAIR, "valid")
        G = self.G = v.rec(self.good)
        self.tests = obj(v, "Tests", "tests")
        self.S = {}
        for n in ("header", "body", "learned", "all"):
            P = self.S[n] = z3.Function(n + "_sum", INT, REAL)
            v.assume(P(0) == 0)
        Q = self.S["forced"] = z3.Function("forced_before", INT, BOOL)
        v.assume(z3.Not(Q(0)))
        return [self.me, self.msg, self.tests], {}

    def define(self, v, j):
        """the definition of the sums over the first rules, for the rule at j"""
        for n in ("header", "body", "learned", "all"):
            P = self.S[n]
            v.assume(z3.Implies(j >= 0, P(j + 1) == P(j) + z3.If(self.counts(v, n, self.rule(v, j)), score(v, self.rule(v, j)), z3.RealVal(0))))
        Q = self.S["forced"]
        v.assume(z3.Implies(j >= 0, Q(j + 1) == z3.Or(Q(j), self.counts(v, "forced", self.rule(v, j)))))

    def rule(self, v, j):
        return v.term(v.from_term(sel(self.G.arr, j), PAIR, snap=False).items[1], RULE)

    def counts(self, v, n, r):
        t = v.uf("Rule.rule_type", r, STR)
        meta = z3.And(t == z3.StringVal("meta"), z3.Not(flag(v, r, "net")))
        learn = flag(v, r, "learn")
        return {"header": z3.Or(t == z3.StringVal("header"), meta), "body": z3.Or(t == z3.StringVal("body"), t == z3.StringVal("uri"), meta),
                "learned": learn, "all": z3.Not(learn), "forced": z3.And(z3.Not(learn), flag(v, r, "autolearn_force"))}[n]

    def schemas(self):
        return dict(self.local_schemas(), Tests={"methods": {"__contains__": F(lambda v, a, k: Sym("bool", self.named(v, a[1])))}})

    def named(self, v, x):
        return v.uf("test_named", v.term(x, Str), BOOL)

    def uses(self):
        def valid(v, f, a, k):
            v.check("of the tests that are given", isinstance(a[1], Ref) and a[1].id == self.tests.id)
            return self.good
        return dict(self.local_uses(), **{PLUGIN + ".valid_tests": Model(valid)})

    def candidates(self, v, L):
        if L.kind != "for":
            return
        if not z3.is_int_value(L.i):
            self.define(v, L.i)
        for name, y in sorted(v.store[v.env].vars.items()):
            k = v.typeof(y).k if not isinstance(y, Ref) else None
            for n in ("header", "body", "learned", "all"):
                if k in ("int", "real"):
                    yield "%s is the %s sum" % (name, n), v.term(y, Real) == self.S[n](L.i)
            if k == "bool":
                yield "%s: forced" % name, v.term(y, Bool) == self.S["forced"](L.i)

    def post(self, v, a, old, out):
        no_exception(v, out)
        n = self.G.n
        g = lambda x, t=Real: v.term(v.getattr(self.msg, "l_" + x), t)
        opt = lambda x: v.term(self.opt(v, None, [None, Const(x)], {}), Real)
        if out.kind == "return":
            v.check("all points", g("autolearn_points") == self.S["all"](n))
            v.check("header points", g("header_points") == self.S["header"](n))
            v.check("body points", g("body_points") == self.S["body"](n))
            v.check("learner points", g("learned_points") == self.S["learned"](n))
            v.check("forced", g("autolearn_forced", Bool) == self.S["forced"](n))
            low = z3.If(self.S["forced"](n), z3.RealVal(-99), z3.RealVal(3))
            v.check("least body points", g("min_body_points") == low)
            v.check("least header points", g("min_header_points") == low)
            v.check("spam at the threshold or above", g("learner_thinks_spam", Bool) == (self.S["all"](n) >= opt(
                "bayes_auto_learn_threshold_spam")))
            v.check("ham below the threshold", g("learner_thinks_ham", Bool) == (self.S["all"](n) < opt(
                "bayes_auto_learn_threshold_nonspam")))
            v.check("Bayes verdict spam", g("bayes_thinks_spam", Bool) == self.named(v, Const("BAYES_99")))
            v.check("Bayes verdict ham", g("bayes_thinks_ham", Bool) == self.named(v, Const("BAYES_00")))


DISCRIMINATOR = '''
def run(self, ruleset, msg, env):
    env.prepare()
    if env.should() and env.bayes():
        if env.spam():
            env.report()
        elif env.ham():
            env.revoke()
'''


class Discriminator(Local, TraceContract):
    """the rules that matched decide; spam is reported to Bayes, ham revoked, once, and nothing else is"""
    qual = PLUGIN + ".auto_learn_discriminator"
    spec = DISCRIMINATOR

    def __init__(self, bayes):
        self.bayes = bayes
        self.name = self.qual + ("[with Bayes]" if bayes else "[without Bayes]")

    def setup(self, v):
        self.local_setup(v, False)
        if self.bayes:
            v.store[self.plugins.id] = DictRec([(Const("BayesPlugin"), obj(v, "Bayes", "bayes"))])
        self.checked = new_dict(v, NAME, RULE, "checked")
        v.setattr(self.msg, "rules_checked", new_dict(v, NAME, Bool, "rules_checked"))
        C = self.C = v.rec(self.checked)
        v.wf_keys(C.has, C.n, C.keys, C.kt)
        return [self.me, obj(v, "RuleSet", "ruleset", checked=self.checked), self.msg], {}

    def spec_args(self, v, a):
        return list(a) + [obj(v, "Env", "env")]

    def report(self, tag):
        def f(v, a, k):
            v.check("the message being checked", isinstance(a[1], Ref) and a[1].id == self.msg.id)
            self.emit(v, tag)
            return NONE
        return F(f)

    def schemas(self):
        M = lambda g: F(lambda v, a, k: g(v))
        fact = lambda n: M(lambda v: Sym("bool", v.uf(n, z3.IntVal(0), BOOL)))

        def em(tag):
            def f(v):
                self.emit(v, tag)
                return NONE
            return M(f)
        return dict(self.local_schemas(), RuleSet={}, Name={}, Bayes={"methods": {"plugin_report": self.report("report"), "plugin_revoke": self.report(
            "revoke")}}, Env={"methods": {"prepare": em("prepare"), "report": em("report"), "revoke": em("revoke"), "should": fact("should"),
                                          "spam": fact("spam"), "ham": fact("ham"), "bayes": M(lambda v: Const(self.bayes))}})

    def uses(self):
        def prepare(v, f, a, k):
            t = k.get("tests", a[2] if len(a) > 2 else None)
            r = v.rec(t)
            if isinstance(r, DictRec):
                r = v.as_symdict(r, DictT(NAME, RULE))
            M = v.rec(v.getattr(self.msg, "rules_checked"))
            C = self.C
            v.check("the rules that matched", forall(v, [OBJ], lambda x: sel(r.has, x) == z3.And(sel(C.has, x), sel(M.has, x), sel(M.val, x))))
            v.check("each under its name", forall(v, [OBJ], lambda x: z3.Implies(sel(r.has, x), sel(r.val, x) == sel(C.val, x))))
            for n in ("spam", "ham"):
                v.setattr(self.msg, "l_learner_thinks_" + n, Sym("bool", v.uf(n, z3.IntVal(0), BOOL)))
            self.emit(v, "prepare")
            return NONE

        def should(v, f, a, k):
            v.check("after the points are known", [t for t, x in v.trace][:1] == ["prepare"])
            return Sym("bool", v.uf("should", z3.IntVal(0), BOOL))
        return dict(self.local_uses(), **{PLUGIN + ".prepare_learning_metadata": Model(prepare), PLUGIN + ".should_learn": Model(should)})


def contracts():
    return [Valid(), Prepare(), Should(), Discriminator(True), Discriminator(False)]
