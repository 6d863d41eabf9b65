"""C20: the Bayesian classifier"""
import re

from .common import *

PROPERTY = "C20"
M = "oa.plugins.bayes:"
PLUGIN = M + "BayesPlugin"
F = lambda f, n="f": PyFn(f, n)
REALS = ("numbers are mathematical reals (no rounding, no underflow)",)


def numeric_vars(v, kinds=("int", "real")):
    for n, x in sorted(v.store[v.env].vars.items()):
        if isinstance(x, (Sym, Const)) and v.typeof(x).k in kinds:
            yield n, v.term(x, Real)


LN2 = z3.RealVal("0.693147180559945309417232121458")


def ln(v, x):
    if z3.eq(z3.simplify(x), z3.RealVal(2)):
        return LN2
    return v.uf("ln", x, REAL)


class ChiSquare(Contract):
    """a probability: never below 0, never above 1"""
    name = qual = M + "Chi.chi2Q"
    trusts = REALS + ("exp of any number is greater than 0",)

    def ext(self):
        return {"math.exp": self.exp}

    def exp(self, v, a, k):
        r = v.uf("exp", v.term(a[0], Real), REAL)
        v.assume(r > 0)
        return Sym("real", r)

    def setup(self, v):
        x2, halfv = v.fresh(Real, "x2"), v.fresh(Int, "halfv")
        v.assume(z3.And(v.term(x2) >= 0, v.term(halfv) >= 0))
        return [x2, halfv], {}

    def candidates(self, v, L):
        for n, t in numeric_vars(v):
            yield n + " > 0", t > 0
            yield n + " >= 0", t >= 0

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind == "return":
            r = v.term(out.value, Real)
            v.check("not below 0", r >= 0)
            v.check("not above 1", r <= 1)


class Combine(Contract):
    """a probability: never below 0, never above 1; one half without any history"""
    name = qual = M + "Chi.combine"
    trusts = REALS + ("log is monotonic with log(1) = 0; for x > 0, frexp(x) = (m, e) with 0 < m < 1 and log(m) + e * log(2) = log(x)",)

    def setup(self, v):
        ns, nn = v.fresh(Int, "ns"), v.fresh(Int, "nn")
        s, n = v.term(ns), v.term(nn)
        # both classes have been learned, or none: what scan guarantees
        v.assume(z3.Or(z3.And(s > 0, n > 0), z3.And(s == 0, n == 0)))
        self.probs = new_list(v, Real, "probs")
        cls = v.global_value(v.prog.module("oa.plugins.bayes"), "Chi")
        return [cls, ns, nn, self.probs], {}

    def ext(self):
        def log(v, a, k):
            x = v.term(a[0], Real)
            v.check("log of a number above 0", x > 0)
            return Sym("real", ln(v, x))

        def frexp(v, a, k):
            x = v.term(a[0], Real)
            m, e = v.fresh(Real, "mantissa"), v.fresh(Int, "exponent")
            ln2 = LN2
            v.assume(z3.Implies(x > 0, z3.And(0 < v.term(m), v.term(m) < 1, ln(v, v.term(m)) + z3.ToReal(v.term(e)) * ln2 == ln(v, x))))
            return Tup([m, e])
        return {"math.log": log, "math.frexp": frexp}

    def uses(self):
        def chi(v, f, a, k):
            v.check("a chi-square value", v.term(a[-2], Real) >= 0)
            r = v.uf("chi", v.term(a[-2], Real), v.term(a[-1], Int), REAL)
            v.assume(z3.And(r >= 0, r <= 1))
            return Sym("real", r)
        return {M + "Chi.chi2Q": Model(chi)}

    def candidates(self, v, L):
        ln2 = LN2
        xs = list(numeric_vars(v, ("real",)))
        ints = list(numeric_vars(v, ("int",)))
        if L.kind == "for":
            # instances of: every element is a probability other than 0 and 1; log is monotonic
            r = v.rec(self.probs)
            p = sel(r.arr, L.i)
            v.assume(z3.Implies(L.i < r.n, z3.And(0 < p, p < 1)))
            for n, t in xs:
                for q in (p, z3.RealVal(1) - p):
                    v.assume(z3.Implies(z3.And(t > 0, 0 < p, p < 1), z3.And(t * q > 0, t * q < t, ln(v, t * q) <= ln(v, t))))
                v.assume(z3.Implies(z3.And(0 < t, t <= 1), ln(v, t) <= 0))
        for n, t in xs:
            yield n + " > 0", t > 0
        for n, t in xs:
            yield "log %s <= 0" % n, ln(v, t) <= 0
            for n2, t2 in ints:
                yield "log %s and %s exponents <= 0" % (n, n2), ln(v, t) + t2 * ln2 <= 0

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        r = v.term(out.value, Real)
        v.check("not below 0", r >= 0)
        v.check("not above 1", r <= 1)
        v.check("one half without history", z3.Implies(v.term(a[1]) == 0, r == z3.RealVal("1/2")))


ROW = TupT(ObjT("Token"), Int, Int, Int)


class Plugin(object):
    def options(self, v):
        """the options of the plugin; asked for by name"""
        self.conf = {n: v.fresh(t, n) for n, t in (
            ("use_learner", Bool), ("use_bayes", Bool), ("use_bayes_rules", Bool), ("detailed_bayes_score", Bool), ("bayes_use_hapaxes", Bool),
            ("bayes_min_spam_num", Int), ("bayes_min_ham_num", Int))}
        log = obj(v, "Log", "log")
        self.ctxt = obj(v, "Ctxt", "ctxt", log=log)

    def plugin(self, v, **fields):
        self.options(v)
        self.me = obj(v, PLUGIN, "plugin", ctxt=self.ctxt, **fields)
        return self.me

    def conf_value(self, v, n):
        if not isinstance(n, Const) or n.v not in self.conf:
            raise Unsupported("another option: %r" % (n,))
        return self.conf[n.v]

    def schemas(self):
        return {"Ctxt": {}, "Token": {}, "Msg": {}, "Log": {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error")}}}

    def uses(self):
        return {"oa.conf:Conf.__getitem__": Model(lambda v, f, a, k: self.conf_value(v, a[1]))}


class Probabilities(Plugin, Contract):
    """one probability per token, strictly between 0 and 1, or none; none at all without spam or ham history"""
    name = qual = PLUGIN + "._compute_prob_for_all_tokens"
    trusts = REALS + ("the counts in the data base are not negative",)

    def setup(self, v):
        me = self.plugin(v)
        self.data = new_list(v, ROW, "tokensdata")
        ns, nn = v.fresh(Int, "ns"), v.fresh(Int, "nn")
        v.assume(z3.And(v.term(ns) >= 0, v.term(nn) >= 0))
        r = v.rec(self.data)
        self.cols = lambda j: [v.term(x, Int) for x in v.from_term(sel(r.arr, j), ROW).items[1:3]]
        v.assume(forall(v, [INT], lambda j: z3.Implies(rng(0, j, r.n), z3.And(*[x >= 0 for x in self.cols(j)])), lambda j: [sel(r.arr, j)]))
        return [me, self.data, ns, nn], {}

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        r = out.value
        if isinstance(r, Ref) and isinstance(v.rec(r), ListRec):
            r = v.as_symlist(v.rec(r), Opt(Real))
        else:
            r = v.rec(r)
        v.check("one entry for every token", r.n == v.rec(self.data).n)
        self.range(v, r, a)

    def range(self, v, r, a):
        j = v.term(v.fresh(Int, "j"))
        v.assume(rng(0, j, r.n))
        x = v.from_term(sel(r.arr, j), r.et)
        if isinstance(x, Const) and x.v is None:
            return
        v.check("history of both kinds", z3.And(v.term(a[2]) != 0, v.term(a[3]) != 0))
        v.check("above 0", v.term(x, Real) > 0)
        v.check("below 1", v.term(x, Real) < 1)


HASH = ObjT("Hash")
TOKEN = TupT(HASH, Str)


class Learning(Plugin, SpecContract):
    """The store as what it knows of the message at hand: its flag ("" = not learned), how often its tokens are
    counted as spam and as ham, and the number of messages of each kind."""
    trusts = ("the tokens of a message are those of its text (tokenise is a function of the message)",)
    mine = False

    def setup(self, v):
        self.store = obj(v, "Store", "store", flag=v.fresh(Str, "flag"), spam=v.fresh(Int, "nspam"), ham=v.fresh(Int, "nham"),
                         token_spam=v.fresh(Int, "token_spam"), token_ham=v.fresh(Int, "token_ham"), open=v.fresh(Bool, "open"))
        me = self.plugin(v, store=self.store, learn_caller_will_untie=v.fresh(Bool, "caller_unties"), learn_no_relearn=v.fresh(Bool, "no_relearn"))
        self.msgid = v.fresh(Str, "msgid")
        # Message.msgid makes up an id when there is none
        v.assume(z3.Length(v.term(self.msgid)) > 0)
        self.msg = obj(v, "Msg", "msg", msgid=self.msgid, receive_date=v.fresh(Int, "receive_date"))
        self.tokens = new_list(v, TOKEN, "tokens")
        self.can_tie = v.fresh(Bool, "can_tie")
        return [me] + self.args(v), {}

    def same_id(self, v, x):
        v.check("the id of this message", equal_values(v, x, self.msgid))

    def add(self, v, n, x):
        v.setattr(self.store, n, v.binop(I.ast.Add(), v.getattr(self.store, n), x))

    def schemas(self):
        def seen(v, a, k):
            self.same_id(v, a[1])
            flag = v.getattr(self.store, "flag")
            return NONE if v.decide(v.term(flag) == z3.StringVal("")) else flag

        def put(v, a, k):
            self.same_id(v, a[1])
            v.setattr(self.store, "flag", a[2])
            return NONE

        def delete(v, a, k):
            self.same_id(v, a[1])
            v.setattr(self.store, "flag", Const(""))
            return NONE

        def change(v, a, k):
            self.add(v, "spam", a[1])
            self.add(v, "ham", a[2])
            return NONE

        def count(v, a, k):
            self.hashes(v, a[3])
            self.add(v, "token_spam", a[1])
            self.add(v, "token_ham", a[2])
            return NONE

        def tie(v, a, k):
            v.setattr(self.store, "open", self.can_tie)
            return self.can_tie

        def untie(v, a, k):
            v.setattr(self.store, "open", FALSE)
            return NONE
        return dict(Plugin.schemas(self), Hash={}, Env={"methods": {
            "forget": F(lambda v, a, k: self.forget(v)), "can_tie": F(lambda v, a, k: self.can_tie),
            "conf": F(lambda v, a, k: self.conf_value(v, a[1]))}},
            Store={"methods": {"seen_get": F(seen), "seen_put": F(put), "seen_delete": F(delete), "nspam_nham_change": F(change),
                               "multi_tok_count_change": F(count), "cleanup": noop_method("cleanup"), "tie_db_writeable": F(tie),
                               "tie_db_readonly": F(tie), "untie_db": F(untie)}})

    def hashes(self, v, x):
        """the hashes of all tokens of the message, each once, and nothing else"""
        r, t = v.rec(x), v.rec(self.tokens)
        hash_of = lambda j: v.term(v.from_term(sel(t.arr, j), TOKEN).items[0])
        if isinstance(r, SymDict) and r.kt == HASH:
            has = lambda h: sel(r.has, h)
        elif isinstance(r, SymList) and r.et == HASH:
            has = lambda h: exists(v, [INT], lambda i: z3.And(rng(0, i, r.n), sel(r.arr, i) == h))
        else:
            raise Unsupported("the tokens as a %s" % type(r).__name__)
        j, h = v.term(v.fresh(Int, "j")), v.fresh_term("hash", OBJ)
        v.check("every token is counted", z3.Implies(rng(0, j, t.n), has(hash_of(j))))
        v.check("no other token is counted", z3.Implies(has(h), exists(v, [INT], lambda i: z3.And(rng(0, i, t.n), hash_of(i) == h))))

    def forget(self, v):
        """what _forget_trapped does, by its contract; None when the data base cannot be opened or bayes is off"""
        if not v.decide(v.truth(self.conf["use_bayes"])) or not v.decide(v.truth(self.can_tie)):
            return NONE
        flag = v.term(v.getattr(self.store, "flag"))
        for f, n in (("s", "spam"), ("h", "ham")):
            if v.decide(flag == z3.StringVal(f)):
                self.add(v, n, Const(-1))
                self.add(v, "token_" + n, Const(-1))
                v.setattr(self.store, "flag", Const(""))
                return TRUE
        return FALSE

    def uses(self):
        return dict(Plugin.uses(self), **{PLUGIN + ".tokenise": Model(lambda v, f, a, k: self.tokens)})

    def ext(self):
        return {"time.time": lambda v, a, k: v.fresh(Real, "now")}

    def observe(self, v, a):
        return [(n, v.getattr(self.store, n)) for n in ("flag", "spam", "ham", "token_spam", "token_ham")] + [
            ("untie later", v.getattr(self.me, "learn_caller_will_untie"))]

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]


class Learn(Learning):
    """learning a message again changes nothing; one learned otherwise is forgotten once, then learned"""
    name = qual = PLUGIN + "._learn_trapped"
    spec = '''
def run(self, isspam, msg, env):
    store = self.store
    flag = "s" if isspam else "h"
    if store.flag == flag:
        return False
    if store.flag in ("s", "h") and self.learn_no_relearn:
        return False
    if store.flag:
        if env.forget() is None:
            return None
    if isspam:
        store.spam = store.spam + 1
        store.token_spam = store.token_spam + 1
    else:
        store.ham = store.ham + 1
        store.token_ham = store.token_ham + 1
    store.flag = flag
    return True
'''

    def args(self, v):
        return [v.fresh(Bool, "isspam"), self.msg]

    def uses(self):
        def forget(v, f, a, k):
            self.same_id(v, a[2] if len(a) > 2 else k["msgid"])
            v.check("this message", equal_values(v, a[1], self.msg))
            v.check("the data base stays open", v.truth(v.getattr(self.me, "learn_caller_will_untie")))
            return self.forget(v)
        return dict(Learning.uses(self), **{PLUGIN + ".forget_message": Model(forget)})


class Forget(Learning):
    """a message never learned is left alone; a learned one is taken out of the counts of its kind, once"""
    name = qual = PLUGIN + "._forget_trapped"
    spec = '''
def run(self, msg, msgid, env):
    store = self.store
    if store.flag == "s":
        store.spam = store.spam - 1
        store.token_spam = store.token_spam - 1
    elif store.flag == "h":
        store.ham = store.ham - 1
        store.token_ham = store.token_ham - 1
    else:
        return False
    store.flag = ""
    return True
'''

    def args(self, v):
        return [self.msg, self.msgid if v.decide(v.fresh_term("id_given", BOOL)) else NONE]


class LearnMessage(Learning):
    """learned when bayes is on and the data base can be opened; otherwise nothing happens"""
    name = qual = PLUGIN + ".learn_message"
    spec = '''
def run(self, msg, isspam, env):
    if not env.conf("use_bayes") or not env.can_tie():
        return None
    return env.trapped(isspam)
'''

    def args(self, v):
        return [self.msg, v.fresh(Bool, "isspam")]

    def trapped(self, v, isspam):
        v.check("the data base is open", v.truth(v.getattr(self.store, "open")))
        return self.effect(v, "learn", v.term(isspam, Bool))

    def effect(self, v, what, isspam):
        """any change of the store, a function of what it was"""
        old = [v.term(v.getattr(self.store, n)) for n in ("flag", "spam", "ham", "token_spam", "token_ham")]
        for n, s in (("flag", STR), ("spam", INT), ("ham", INT), ("token_spam", INT), ("token_ham", INT)):
            v.setattr(self.store, n, Sym("str" if s == STR else "int", v.uf("%s_%s" % (what, n), isspam, *(old + [s]))))
        if v.decide(v.uf(what + "_fails", isspam, *(old + [BOOL]))):
            return NONE
        return Sym("bool", v.uf(what + "_result", isspam, *(old + [BOOL])))

    def schemas(self):
        s = Learning.schemas(self)
        s["Env"]["methods"]["trapped"] = F(lambda v, a, k: self.trapped_spec(v, a))
        return s

    def trapped_spec(self, v, a):
        return self.effect(v, "learn", v.term(a[1], Bool))

    def uses(self):
        def learn(v, f, a, k):
            v.check("this message", equal_values(v, a[2], self.msg))
            return self.trapped(v, a[1])
        return dict(Learning.uses(self), **{PLUGIN + "._learn_trapped": Model(learn)})


class ForgetMessage(LearnMessage):
    """forgotten when bayes is on and the data base can be opened; otherwise nothing happens"""
    name = qual = PLUGIN + ".forget_message"
    spec = '''
def run(self, msg, msgid, env):
    if not env.conf("use_bayes") or not env.can_tie():
        return None
    return env.trapped()
'''

    def args(self, v):
        return [self.msg, self.msgid if v.decide(v.fresh_term("id_given", BOOL)) else NONE]

    def trapped_spec(self, v, a):
        return self.effect(v, "forget", z3.BoolVal(False))

    def uses(self):
        def forget(v, f, a, k):
            v.check("the data base is open", v.truth(v.getattr(self.store, "open")))
            v.check("this message", equal_values(v, a[1], self.msg))
            if not (isinstance(a[2], Const) and a[2].v is None):
                self.same_id(v, a[2])
            return self.effect(v, "forget", z3.BoolVal(False))
        return dict(Learning.uses(self), **{PLUGIN + "._forget_trapped": Model(forget)})


class Train(Plugin, TraceContract):
    """%s"""
    def __init__(self, method, isspam, doc):
        self.name = self.qual = PLUGIN + "." + method
        self.spec = "def run(self, msg, env):\n    env.learn(msg, %s)\n" % isspam
        self.__doc__ = doc

    def setup(self, v):
        return [self.plugin(v), obj(v, "Msg", "msg")], {}

    def learn(self, v, a):
        self.emit(v, "learn", *a)
        return v.fresh(Bool, "learned")

    def schemas(self):
        return dict(Plugin.schemas(self), Env={"methods": {"learn": F(lambda v, a, k: self.learn(v, a[1:]))}})

    def uses(self):
        return {PLUGIN + ".learn_message": Model(lambda v, f, a, k: self.learn(v, a[1:]))}

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]


class Available(Learning):
    """only with bayes on, an open data base and at least the configured number of messages of both kinds"""
    name = qual = PLUGIN + ".learner_is_scan_available"
    spec = '''
def run(self, env):
    if not env.conf("use_bayes") or not env.can_tie():
        return False
    return self.store.spam >= env.conf("bayes_min_spam_num") and self.store.ham >= env.conf("bayes_min_ham_num")
'''

    def args(self, v):
        return []

    def schemas(self):
        s = Learning.schemas(self)
        s["Store"]["methods"]["nspam_nham_get"] = F(lambda v, a, k: Tup([v.getattr(self.store, "spam"), v.getattr(self.store, "ham")]))
        return s


class CheckBayes(Plugin, SpecContract):
    """hits exactly when a score was given that lies in the interval of the rule; nothing is scanned when switched off"""
    name = qual = PLUGIN + ".check_bayes"
    trusts = ("float() of an argument is the number it stands for",)
    spec = '''
def run(self, msg, low, high, env):
    if not (env.conf("use_learner") and env.conf("use_bayes") and env.conf("use_bayes_rules")):
        return False
    score = env.scan()
    if score is None:
        return False
    return score != 0 and low < score and score <= high
'''

    def setup(self, v):
        self.msg = obj(v, "Msg", "msg")
        self.has_score, self.score = v.fresh(Bool, "scored"), v.fresh(Real, "score")
        return [self.plugin(v), self.msg, v.fresh(Real, "min_score"), v.fresh(Real, "max_score")], {}

    def scan(self, v):
        return self.score if v.decide(v.term(self.has_score)) else NONE

    def schemas(self):
        return dict(Plugin.schemas(self), Env={"methods": {"scan": F(lambda v, a, k: self.scan(v)), "conf": F(lambda v, a, k: self.conf_value(v, a[1]))}})

    def uses(self):
        def scan(v, f, a, k):
            v.check("this message", equal_values(v, a[1], self.msg))
            v.check("nothing is scanned when switched off", z3.And(*[v.term(self.conf[n]) for n in ("use_learner", "use_bayes", "use_bayes_rules")]))
            return self.scan(v)
        return dict(Plugin.uses(self), **{PLUGIN + ".scan": Model(scan), "oa.conf:Conf.set_local": Model(lambda v, f, a, k: NONE)})

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]


class Scan(Plugin, Contract):
    """no verdict unless scanning is available and messages of both kinds were learned; a verdict is a probability,
    and only probabilities other than 0 and 1 are combined, with the numbers of messages of the data base"""
    name = qual = PLUGIN + ".scan"
    trusts = REALS + ("dates and the closing of the data base play no part in the verdict",)

    def setup(self, v):
        self.ns, self.nn = v.fresh(Int, "ns"), v.fresh(Int, "nn")
        v.assume(z3.And(v.term(self.ns) >= 0, v.term(self.nn) >= 0))
        self.msg = obj(v, "Msg", "msg", receive_date=Const(0))
        self.store = obj(v, "Store", "store")
        self.ignored, self.available = v.fresh(Bool, "ignored"), v.fresh(Bool, "available")
        self.tokens, self.rows = new_list(v, TupT(HASH, Str), "tokens"), new_list(v, Opt(TupT(HASH, Int, Int, Int)), "rows")
        self.score = v.fresh(Real, "score")
        v.assume(z3.And(v.term(self.score) >= 0, v.term(self.score) <= 1))
        self.combined = 0
        return [self.plugin(v, store=self.store, learn_caller_will_untie=FALSE), self.msg], {}

    def schemas(self):
        s = {"get_all": F(lambda v, a, k: self.rows), "nspam_nham_get": F(lambda v, a, k: Tup([self.ns, self.nn])),
             "tok_touch_all": F(lambda v, a, k: NONE), "cleanup": F(lambda v, a, k: NONE), "untie_db": F(lambda v, a, k: NONE)}
        s["tok_get_all"] = s.pop("get_all")
        return dict(Plugin.schemas(self), Store={"methods": s}, Hash={})

    def uses(self):
        def probabilities(v, f, a, k):
            # the contract of that function
            out = new_list(v, Opt(Real), "probs")
            r = v.rec(out)
            v.assume(r.n == v.rec(v.as_list_ref(a[1])).n)
            some = z3.And(v.term(a[2]) != 0, v.term(a[3]) != 0)
            S = sort_of(Opt(Real))
            v.assume(forall(v, [INT], lambda j: z3.Or(z3.Not(rng(0, j, r.n)), S.recognizer(0)(sel(r.arr, j)), z3.And(
                some, S.accessor(1, 0)(sel(r.arr, j)) > 0, S.accessor(1, 0)(sel(r.arr, j)) < 1)), lambda j: [sel(r.arr, j)]))
            return out
        return dict(Plugin.uses(self), **{M + "Chi.combine": Model(self.combine),
            "oa.conf:Conf.set_local": Model(lambda v, f, a, k: NONE), PLUGIN + ".ignore_message": Model(lambda v, f, a, k: self.ignored),
            PLUGIN + ".learner_is_scan_available": Model(lambda v, f, a, k: self.available), PLUGIN + ".tokenise": Model(lambda v, f, a, k: self.tokens),
            PLUGIN + "._compute_prob_for_all_tokens": Model(probabilities)})

    def ext(self):
        return {"time.time": lambda v, a, k: Const(1), "builtins.bytes": lambda v, a, k: a[0]}

    def candidates(self, v, L):
        some = z3.And(v.term(self.ns) > 0, v.term(self.nn) > 0)
        ok = lambda x: z3.And(some, 0 < x, x < 1)
        for name, x in sorted(v.store[v.env].vars.items()):
            r = v.rec(x) if isinstance(x, Ref) else None
            if isinstance(r, DictRec) and not r.items:
                yield name + ": probabilities other than 0 and 1", z3.BoolVal(True)
            elif isinstance(r, SymDict) and r.kt == HASH and r.vt.k == "dict" and r.vt.a[1] == Real:
                def prob(h):
                    return sel(v.rec(v.from_term(sel(r.val, h), r.vt)).val, z3.StringVal("prob"))
                yield name + ": probabilities other than 0 and 1", forall(
                    v, [OBJ], lambda h: z3.Implies(sel(r.has, h), ok(prob(h))), lambda h: [sel(r.has, h)])
            elif isinstance(r, SymDict) and r.kt == HASH and r.vt == Real:
                yield name + ": probabilities other than 0 and 1", forall(
                    v, [OBJ], lambda h: z3.Implies(sel(r.has, h), ok(sel(r.val, h))), lambda h: [sel(r.has, h)])

    def combine(self, v, f, a, k):
        v.check("the number of spam messages", equal_values(v, a[-3], self.ns))
        v.check("the number of ham messages", equal_values(v, a[-2], self.nn))
        v.check("history of both kinds", z3.And(v.term(self.ns) > 0, v.term(self.nn) > 0))
        r = v.rec(a[-1])
        if isinstance(r, ListRec):
            raise Unsupported("a list of known length is combined")
        j = v.term(v.fresh(Int, "j"))
        v.check("only probabilities other than 0 and 1 are combined", z3.Implies(rng(0, j, r.n), z3.And(0 < sel(r.arr, j), sel(r.arr, j) < 1)))
        self.combined += 1
        return self.score

    def post(self, v, a, old, out):
        # an exception is no verdict either: the rule misses
        if out.kind == "return" and not (isinstance(out.value, Const) and out.value.v is None):
            v.check("what the combination gave", self.combined == 1 and equal_values(v, out.value, self.score))
            v.check("scanning was available", z3.And(v.truth(self.available), z3.Not(v.truth(self.ignored)), v.truth(self.conf["use_learner"])))


# ------------------------------------------------------------ the stores
COUNTS = TupT(Int, Int)


class Store(Contract):
    """The tables as seen by one message: its flag ("" = no row), the counts of messages (one row, or none yet), and the
    counts of every token.  The statements are read from their text."""
    trusts = ("the SQL statements the stores use do what SQL says; every statement succeeds",
              "bayes_seen has at most one row per message id, bayes_token one per token, bayes_vars one row")
    method, changes = None, False

    def __init__(self, dialect):
        self.dialect = dialect
        self.name = self.qual = "oa.db.bayes.%s:Store.%s" % (dialect, self.method)

    def setup(self, v):
        self.msgid = v.fresh(Str, "msgid")
        self.db = obj(v, "Db", "db", flag=v.fresh(Str, "flag"), counted=v.fresh(Bool, "counted"), spam=v.fresh(Int, "nspam"), ham=v.fresh(Int, "nham"),
                      pending=FALSE)
        self.tokens = new_dict(v, HASH, COUNTS, "rows")
        self.before = v.rec(self.tokens)
        v.assume(z3.And(v.term(v.getattr(self.db, "spam")) >= 0, v.term(v.getattr(self.db, "ham")) >= 0))
        self.cnt = lambda r, h: [v.term(x, Int) for x in v.from_term(sel(r.val, h), COUNTS).items]
        v.assume(forall(v, [OBJ], lambda h: z3.And(*[x >= 0 for x in self.cnt(self.before, h)]), lambda h: [sel(self.before.val, h)]))
        self.conn = obj(v, "Conn", "conn")
        return [obj(v, self.qual.rsplit(".", 1)[0], "store", conn=self.conn)] + self.args(v), {}

    def ext(self):
        return {"builtins.bytes": lambda v, a, k: a[0]}

    def schemas(self):
        commit = F(lambda v, a, k: v.setattr(self.db, "pending", FALSE) or NONE)
        one = {"fetchone": F(lambda v, a, k: v.getattr(a[0], "row")), "close": noop_method("close"),
               "first": F(lambda v, a, k: v.getattr(a[0], "row"))}

        def result(v, a, k):
            row = self.execute(v, a)
            return v.alloc(ObjRec("Result", v.fresh_term("result", OBJ), {"row": row}))

        def on_cursor(v, a, k):
            row = self.execute(v, a)
            v.setattr(a[0], "row", row)
            return NONE
        cursor = F(lambda v, a, k: v.alloc(ObjRec("Cursor", v.fresh_term("cursor", OBJ), {"row": NONE})))
        return {"Db": {}, "Hash": {}, "Result": {"methods": one}, "Cursor": {"methods": dict(one, execute=F(on_cursor))},
                "Conn": {"methods": {"commit": commit, "execute": F(result), "cursor": cursor, "flush": noop_method("flush")}}}

    def statement(self, v, a):
        text, params = a[1], a[2] if len(a) > 2 else None
        if not isinstance(text, Const):
            raise Unsupported("a computed statement")
        s = " ".join(text.v.split()).replace("`", "")
        rec = v.rec(params) if isinstance(params, Ref) else params
        if self.dialect == "mysql":
            vals = iter(rec.items if rec is not None else [])
            v.check("as many parameters as places", s.count("%s") == (len(rec.items) if rec is not None else 0))
        else:
            named = {key.v: x for key, x in rec.items} if rec is not None else {}

        def value(x):
            x = x.strip()
            if x == "%s" and self.dialect == "mysql":
                return next(vals)
            if x.startswith(":") and self.dialect != "mysql":
                if x[1:] not in named:
                    raise v.exc("KeyError", Const(x[1:]))
                return named[x[1:]]
            if re.match(r"^'[^']*'$", x):
                return Const(x[1:-1])
            if re.match(r"^-?\d+$", x):
                return Const(int(x))
            m = re.match(r"^(\w+) ?\+ ?([:%]\w+)$", x)
            if m:
                return ("+", m.group(1), value(m.group(2)))
            raise Unsupported("SQL value " + x)

        def pairs(x, sep):
            out = {}
            for part in re.split(sep, x, flags=re.I):
                col, val = part.split("=", 1)
                out[col.strip().lower()] = value(val)
            return out
        m = re.match(r"SELECT (.*?) FROM (\w+)(?: WHERE (.*?))?(?: LIMIT 1)?$", s, re.I)
        if m:
            return "select", m.group(2), [x.strip().lower() for x in m.group(1).split(",")], pairs(m.group(3), " AND ") if m.group(3) else {}
        m = re.match(r"UPDATE (\w+) SET (.*?)(?: WHERE (.*))?$", s, re.I)
        if m:
            sets = pairs(m.group(2), ",")
            return "update", m.group(1), sets, pairs(m.group(3), " AND ") if m.group(3) else {}
        m = re.match(r"INSERT INTO (\w+) ?\(([^)]*)\) ?VALUES ?\((.*)\)$", s, re.I)
        if m:
            return "insert", m.group(1), dict(zip([x.strip().lower() for x in m.group(2).split(",")], [value(x) for x in m.group(3).split(",")])), {}
        m = re.match(r"DELETE FROM (\w+) WHERE (.*)$", s, re.I)
        if m:
            return "delete", m.group(1), {}, pairs(m.group(2), " AND ")
        raise Unsupported("SQL statement " + s)

    def execute(self, v, a):
        kind, table, what, cond = self.statement(v, a)
        if kind != "select":
            v.setattr(self.db, "pending", TRUE)
        cond.pop("id", None)
        if table == "bayes_seen":
            return self.seen(v, kind, what, cond)
        if table == "bayes_vars":
            return self.vars(v, kind, what, cond)
        if table == "bayes_token":
            return self.token(v, kind, what, cond)
        raise Unsupported("table " + table)

    def seen(self, v, kind, what, cond):
        there = z3.Length(v.term(v.getattr(self.db, "flag"))) > 0
        if kind == "insert":
            v.check("the row of this message", equal_values(v, what["msgid"], self.msgid))
            v.check("no second row", z3.Not(there))
            v.setattr(self.db, "flag", what["flag"])
            return NONE
        v.check("looked up by the message id", set(cond) == {"msgid"} and equal_values(v, cond["msgid"], self.msgid))
        if kind == "delete":
            v.setattr(self.db, "flag", Const(""))
            return NONE
        if not v.decide(there):
            return NONE
        if kind == "update":
            v.setattr(self.db, "flag", what["flag"])
            return NONE
        return Tup([{"flag": v.getattr(self.db, "flag"), "msgid": self.msgid}[c] for c in what])

    def new_value(self, v, old, x):
        if isinstance(x, tuple):
            return v.binop(I.ast.Add(), old[x[1]], x[2])
        return x

    def vars(self, v, kind, what, cond):
        there = v.decide(v.term(v.getattr(self.db, "counted")))
        old = {"spam_count": v.getattr(self.db, "spam"), "ham_count": v.getattr(self.db, "ham")}
        v.check("the one row", not cond and kind != "delete")
        if kind == "insert":
            v.check("no second row", not there)
            v.setattr(self.db, "counted", TRUE)
        elif not there:
            return NONE
        if kind == "select":
            return Tup([old[c] for c in what])
        for c, n in (("spam_count", "spam"), ("ham_count", "ham")):
            if c in what:
                v.setattr(self.db, n, self.new_value(v, old, what[c]))
            elif kind == "insert":
                v.setattr(self.db, n, Const(0))
        return NONE

    def token(self, v, kind, what, cond):
        if kind == "delete":
            raise Unsupported("deleting tokens")
        key = what["token"] if kind == "insert" else cond.get("token")
        v.check("the row of one token", key is not None and (kind == "insert" or set(cond) == {"token"}))
        h = v.term(key, HASH)
        r = v.rec(self.tokens)
        there = v.decide(sel(r.has, h))
        if kind == "insert":
            v.check("no second row", not there)
            v.setitem(self.tokens, key, Tup([what.get("spam_count", Const(0)), what.get("ham_count", Const(0))]))
            return NONE
        if not there:
            return NONE
        s, n = v.from_term(sel(r.val, h), COUNTS).items
        old = {"spam_count": s, "ham_count": n, "token": key, "atime": Const(0)}
        if kind == "select":
            return Tup([v.fresh(Int, "atime") if c == "atime" else old[c] for c in what])
        v.setitem(self.tokens, key, Tup([self.new_value(v, old, what.get("spam_count", s)), self.new_value(v, old, what.get("ham_count", n))]))
        return NONE

    def args(self, v):
        return [self.msgid]

    def state(self, v):
        return {n: v.term(v.getattr(self.db, n)) for n in ("flag", "counted", "spam", "ham")}

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        after = self.state(v)
        v.check("what was changed is committed", z3.Not(v.term(v.getattr(self.db, "pending"), Bool)))
        save, v.store = v.store, {**v.store, **old}
        before = self.state(v)
        v.store = save
        want = dict(before)
        self.want(v, a, before, want, out.value)
        for n in after:
            v.check("%s afterwards" % n, self.same(n, after[n], want, before))
        self.rows(v, a, v.rec(self.tokens))

    def same(self, n, x, want, before):
        return x == want[n]

    def want(self, v, a, before, want, value):
        pass

    def rows(self, v, a, r):
        h = v.fresh_term("hash", OBJ)
        v.check("the tokens are left alone", z3.And(sel(r.has, h) == sel(self.before.has, h), z3.Implies(sel(r.has, h), sel(r.val, h) == sel(self.before.val, h))))


class SeenGet(Store):
    """the flag of the message, None when it was never learned"""
    method = "seen_get"

    def want(self, v, a, before, want, value):
        if isinstance(value, Const) and value.v is None:
            v.check("never learned", before["flag"] == z3.StringVal(""))
        else:
            v.check("the flag", z3.And(before["flag"] != z3.StringVal(""), v.term(value, Str) == before["flag"]))


class SeenPut(Store):
    """the message has this flag and no other"""
    method = "seen_put"

    def args(self, v):
        return [self.msgid, v.fresh(Str, "new_flag")]

    def want(self, v, a, before, want, value):
        want["flag"] = v.term(a[2])


class SeenDelete(Store):
    """the message is not known any more"""
    method = "seen_delete"

    def want(self, v, a, before, want, value):
        want["flag"] = z3.StringVal("")


class CountGet(Store):
    """the numbers of messages learned; 0 when nothing was learned yet"""
    method = "nspam_nham_get"

    def args(self, v):
        return []

    def want(self, v, a, before, want, value):
        x, y = [v.term(v.index(value, Const(i)), Int) for i in (0, 1)]
        for got, n in ((x, "spam"), (y, "ham")):
            v.check("number of %s messages" % n, got == z3.If(before["counted"], before[n], 0))


class CountChange(Store):
    """the numbers are changed by the arguments; they do not become negative"""
    method = "nspam_nham_change"

    def args(self, v):
        return [v.fresh(Int, "more_spam"), v.fresh(Int, "more_ham")]

    def want(self, v, a, before, want, value):
        for n, x in (("spam", a[1]), ("ham", a[2])):
            t = z3.If(before["counted"], before[n], 0) + v.term(x)
            want[n] = z3.If(t < 0, 0, t)
        want["counted"] = z3.BoolVal(True)


class TokenChange(Store):
    """the counts of exactly these tokens are changed by the arguments; they do not become negative"""
    method = "multi_tok_count_change"

    def args(self, v):
        self.keys = new_dict(v, HASH, Str, "tokens")
        self.ds, self.dn = v.fresh(Int, "more_spam"), v.fresh(Int, "more_ham")
        return [self.ds, self.dn, self.keys, v.fresh(Int, "atime")]

    def changed(self, v, r, h):
        b = self.before
        out = []
        for i, d in ((0, self.ds), (1, self.dn)):
            t = z3.If(sel(b.has, h), self.cnt(b, h)[i], 0) + v.term(d)
            out.append(self.cnt(r, h)[i] == z3.If(t < 0, 0, t))
        return z3.And(sel(r.has, h), *out)

    def alike(self, r, h):
        return z3.And(sel(r.has, h) == sel(self.before.has, h), z3.Implies(sel(r.has, h), sel(r.val, h) == sel(self.before.val, h)))

    def candidates(self, v, L):
        if L.kind != "for":
            return
        r, k = v.rec(self.tokens), v.rec(self.keys)
        i = L.i
        pos = lambda h: v.uf("token_position", h, INT)
        yield "the tokens before are counted", forall(v, [INT], lambda j: z3.Implies(rng(0, j, i), self.changed(v, r, sel(k.keys, j))), lambda j: [sel(k.keys, j)])
        yield "the other tokens are as before", forall(v, [OBJ], lambda h: z3.Implies(
            z3.Not(z3.And(sel(k.has, h), pos(h) < i)), self.alike(r, h)), lambda h: [sel(r.has, h)])
        pend = v.getattr(self.db, "pending")
        if not z3.is_int_value(i):
            v.assume(forall(v, [INT], lambda j: z3.Implies(rng(0, j, k.n), pos(sel(k.keys, j)) == j), lambda j: [sel(k.keys, j)]))

    def rows(self, v, a, r):
        h = v.fresh_term("hash", OBJ)
        k = v.rec(self.keys)
        v.check("the tokens are counted and no other", z3.If(sel(k.has, h), self.changed(v, r, h), self.alike(r, h)))


def contracts():
    return [ChiSquare(), Combine(), Probabilities(), Learn(), Forget(), LearnMessage(), ForgetMessage(), Available(), CheckBayes(), Scan(),
            Train("plugin_report", True, "a reported message is learned as spam"),
            Train("plugin_revoke", False, "a revoked message is learned as ham")] + [
                c(d) for d in ("sqlalchemy", "mysql") for c in (SeenGet, SeenPut, SeenDelete, CountGet, CountChange, TokenChange)]
