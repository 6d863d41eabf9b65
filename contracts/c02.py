"""C02: the reply of the check family"""
from .common import *

PROPERTY = "C02"
CHECK = "oa.protocol.check:"
PROC = "oa.protocol.process:"

BODY = {
    "CheckCommand": '""',
    "SymbolsCommand": '",".join([name for name, result in msg.rules_checked.items() if result])',
    "ReportCommand": "self.ruleset.get_report(msg)",
    "ReportIfSpamCommand": '(self.ruleset.get_report(msg) if msg.score >= self.ruleset.conf["required_score"] else "")',
    "ProcessCommand": "self.ruleset.get_adjusted_message(msg, False)",
    "HeadersCommand": "self.ruleset.get_adjusted_message(msg, True)",
}

SPEC = '''
def handle(self, msg, options):
    self.ruleset.match(msg)
    spam = msg.score >= self.ruleset.conf["required_score"]
    body = %s
    return ("Spam: %%s ; %%.1f / %%s\\r\\n" %% (spam, msg.score, self.ruleset.conf["required_score"])
            + "Content-length: %%s\\r\\n\\r\\n" %% len(body.encode("utf8")) + body)
'''


class Handle(SpecContract):
    """the reply of the command: verdict, score, threshold and length of the message just checked, body as specified"""
    def __init__(self, cls):
        self.cls = (PROC if cls in ("ProcessCommand", "HeadersCommand") else CHECK) + cls
        self.qual = CHECK + "CheckCommand.handle"
        self.name = "%s[%s]" % (self.qual, cls)
        self.spec = SPEC % BODY[cls]

    trusts = ("the reply is the concatenation of the yielded pieces (BaseProtocol.get_and_handle writes each, C13)",)

    def setup(self, v):
        self.conf = conf_dict(v, required_score=Real)
        self.rs = obj(v, "RuleSet", "ruleset", conf=self.conf)
        self.me = obj(v, self.cls, "command", ruleset=self.rs)
        self.checked = new_dict(v, Str, Any, "rules_checked")
        self.msg = obj(v, "Message", "msg", score=Sym("real", v.fresh_term("score_before", REAL)),
                       rules_checked=new_dict(v, Str, Any, "before"))
        self.after = new_dict(v, Str, Any, "after_check")
        self.score = v.fresh_term("score_after_check", REAL)
        return [self.me, self.msg, v.fresh(Any, "options")], {}

    def post(self, v, a, old, out):
        if out.kind == "return":
            out = Out("return", v.call_method(Const(""), "join", [out.value]))
        SpecContract.post(self, v, a, old, out)

    def observe(self, v, a):
        return [("score", v.getattr(self.msg, "score")),
                ("recorded results", v.getattr(self.msg, "rules_checked"))]

    def schemas(self):
        def match(v, a, k):
            v.check("the requested message is checked", isinstance(a[1], Ref) and a[1].id == self.msg.id)
            v.setattr(a[1], "score", Sym("real", self.score))
            v.setattr(a[1], "rules_checked", self.after)
            return NONE

        def get_report(v, a, k):
            return Sym("str", v.uf("RuleSet.get_report", v.rec(a[1]).term, fterm(v, a[1], "score", Real), STR))

        def adjusted(v, a, k):
            h = k.get("header_only", a[2] if len(a) > 2 else FALSE)
            return Sym("str", v.uf("RuleSet.get_adjusted_message", v.rec(a[1]).term,
                                   fterm(v, a[1], "score", Real), v.term(h, Bool), STR))
        return {"RuleSet": {"methods": {"match": PyFn(match, "RuleSet.match"),
                                        "get_report": PyFn(get_report, "RuleSet.get_report"),
                                        "get_adjusted_message": PyFn(adjusted, "RuleSet.get_adjusted_message")}},
                "Message": {"fields": {"score": Real}}}


def contracts():
    return [Handle(c) for c in ("CheckCommand", "SymbolsCommand", "ReportCommand", "ReportIfSpamCommand",
                                "ProcessCommand", "HeadersCommand")]
