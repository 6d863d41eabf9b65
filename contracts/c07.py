"""C07: body, raw body, full, URI and eval rules"""
from .common import *
from .c06 import pattern_schema

PROPERTY = "C07"

TEXT = {"oa.rules.body:BodyRule": "text", "oa.rules.body:RawBodyRule": "raw_text", "oa.rules.full:FullRule": "raw_msg"}
MSG = {"fields": {"text": Str, "raw_text": Str, "raw_msg": Str, "uri_list": SetT(Str)}}


class TextRule(SpecContract):
    """the pattern is searched in the rule's own view of the message"""

    def __init__(self, cls):
        self.cls = cls
        self.qual = cls + ".match"
        self.name = self.qual
        self.spec = "def match(self, msg):\n    return bool(self._pattern.match(msg.%s))\n" % TEXT[cls]

    def setup(self, v):
        self.msg = obj(v, "Message", "msg")
        self.me = obj(v, self.cls, "rule", _pattern=obj(v, "Pattern", "pattern"))
        return [self.me, self.msg], {}

    def schemas(self):
        return {"Message": MSG, "Pattern": pattern_schema()}

    def extra(self, v, a, old, out):
        v.check("the message is not changed", not [w for w in v.writes if w[0] == self.msg.id or w[0] == self.me.id])


class URI(TextRule):
    """some URI of the message satisfies the pattern"""
    def __init__(self):
        self.cls = "oa.rules.uri:URIRule"
        self.qual = self.cls + ".match"
        self.name = self.qual
        self.spec = "def match(self, msg):\n    return any(self._pattern.match(u) for u in msg.uri_list)\n"


class EvalCall(Contract):
    """the registered test gets the message, the configured arguments and the target"""
    qual = "oa.rules.eval_:EvalMethod.__call__"

    def __init__(self, n):
        self.n = n
        self.name = "%s[%d arguments]" % (self.qual, n)

    def setup(self, v):
        self.calls = []

        def test(v, a, k):
            v.trace = v.trace + (("call", tuple(a), tuple(sorted(k.items()))),)
            return v.any_of(v.uf("test_result", Val))
        self.msg = obj(v, "Message", "msg")
        self.args = [v.fresh(Any, "arg%d" % i) for i in range(self.n)]
        self.target = v.fresh(Opt(Str), "target")
        self.me = obj(v, "oa.rules.eval_:EvalMethod", "method", method=PyFn(test, "eval test"),
                      eval_args=Tup(self.args), target=self.target)
        return [self.me, self.msg], {}

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        v.check("the test is called once", len(v.trace) == 1)
        _, args, kw = v.trace[0]
        v.check("with the message and the arguments", len(args) == 1 + self.n and len(kw) == 1)
        v.check("the message first", equal_values(v, args[0], self.msg))
        for x, y in zip(args[1:], self.args):
            v.check("the configured arguments, in order", equal_values(v, x, y))
        v.check("the target", kw[0][0] == "target" and equal_values(v, kw[0][1], self.target))
        v.check("its result is returned", equal_values(v, out.value, v.any_of(v.uf("test_result", Val))))


class EvalMatch(SpecContract):
    """the result of the test; a test that fails did not match"""
    qual = "oa.rules.eval_:EvalRule.match"
    spec = '''
def match(self, msg):
    try:
        return self.eval_rule(msg)
    except Exception:
        return False
'''

    def __init__(self):
        self.name = self.qual

    def setup(self, v):
        def test(v, a, k):
            if v.decide(v.uf("test_fails", v.rec(a[0]).term, BOOL)):
                raise v.exc("UNKNOWN")
            return v.any_of(v.uf("test_result", v.rec(a[0]).term, Val))
        self.msg = obj(v, "Message", "msg", ctxt=obj(v, "Ctxt", "ctxt"))
        self.me = obj(v, "oa.rules.eval_:EvalRule", "rule", eval_rule=PyFn(test, "eval test"), name=v.fresh(Str, "name"),
                      eval_rule_name=v.fresh(Str, "rname"))
        return [self.me, self.msg], {}


class EvalPreprocess(Contract):
    """the registered test of the configured name is bound, an unknown name is an invalid rule"""
    qual = "oa.rules.eval_:EvalRule.preprocess"

    def __init__(self):
        self.name = self.qual

    def setup(self, v):
        self.rules = new_dict(v, Str, ObjT("Test"), "eval_rules")
        self.ctxt = obj(v, "Ctxt", "ctxt", eval_rules=self.rules)
        self.rs = obj(v, "RuleSet", "ruleset", ctxt=self.ctxt)
        self.nm = v.fresh(Str, "eval_rule_name")
        self.args = Tup([v.fresh(Any, "arg")])
        self.target = v.fresh(Opt(Str), "target")
        self.me = obj(v, "oa.rules.eval_:EvalRule", "rule", name=v.fresh(Str, "name"), eval_rule_name=self.nm,
                      eval_args=self.args, target=self.target)
        return [self.me, self.rs], {}

    def uses(self):
        def pre(v, f, a, k):
            v.trace = v.trace + ("base",)
            return NONE
        return {"oa.rules.base:BaseRule.preprocess": Model(pre)}

    def schemas(self):
        return {"Test": {}, "Ctxt": {}, "RuleSet": {}}

    def post(self, v, a, old, out):
        with old_state(v, old):
            known = v.contains(self.rules, self.nm)
            known = z3.BoolVal(known) if isinstance(known, bool) else known
        v.check("the score is adjusted as for every rule", v.trace == ("base",))
        if out.kind == "raise":
            v.check("only an unknown test is rejected", z3.Not(known))
            v.check("as an invalid rule", exc_class(out) == "oa.errors:InvalidRule")
            return
        v.check("an unknown test is rejected", known)
        m = v.getattr(self.me, "eval_rule")
        v.check("a call of the test is stored", v.rec(m).cls == "oa.rules.eval_:EvalMethod")
        v.check("the test of that name", v.term(v.getattr(m, "method"), ObjT("Test")) == v.term(v.index(self.rules, self.nm), ObjT("Test")))
        v.check("its arguments", equal_values(v, v.getattr(m, "eval_args"), self.args))
        v.check("its target", equal_values(v, v.getattr(m, "target"), self.target))


class Kwargs(Contract):
    """a pattern rule is built from its own line"""

    def __init__(self, cls):
        self.cls = cls
        self.qual = cls + ".get_rule_kwargs"
        self.name = self.qual

    def setup(self, v):
        self.data = conf_dict(v, value=Str)
        return [self.data], {}

    def uses(self):
        def kw(v, f, a, k):
            return v.alloc(DictRec([(Const("score"), Const("the score"))]))

        def perl(v, f, a, k):
            v.trace = v.trace + (a[0],)
            op = a[1] if len(a) > 1 else k.get("match_op", Const("=~"))
            if v.decide(v.uf("perl2re.bad", v.term(a[0], Str), BOOL)):
                raise v.exc("oa.errors:InvalidRegex")
            return v.obj_ref(v.uf("perl2re", v.term(a[0], Str), v.term(op, Str), OBJ), "Pattern")
        return {"oa.rules.base:BaseRule.get_rule_kwargs": Model(kw), "oa.regex:perl2re": Model(perl)}

    def post(self, v, a, old, out):
        value = v.index(self.data, Const("value"))
        bad = v.uf("perl2re.bad", v.term(value, Str), BOOL)
        if out.kind == "raise":
            v.check("only a bad pattern is rejected", bad)
            return
        v.check("a bad pattern is rejected", z3.Not(bad))
        p = v.index(out.value, Const("pattern"))
        v.check("the pattern of the line", v.rec(p).term == v.uf("perl2re", v.term(value, Str), z3.StringVal("=~"), OBJ))
        v.check("and what every rule has", v.contains(out.value, Const("score")))


def contracts():
    return [TextRule(c) for c in TEXT] + [URI()] + [EvalCall(n) for n in (0, 1, 2, 3)] + [EvalMatch(), EvalPreprocess()] + \
        [Kwargs(c) for c in ("oa.rules.body:BodyRule", "oa.rules.full:FullRule", "oa.rules.uri:URIRule")]
