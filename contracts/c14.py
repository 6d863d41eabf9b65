"""C14: TELL"""
from .common import *
from .c23 import Hook, CTX

PROPERTY = "C14"
TELL = "oa.protocol.tell:TellCommand"

SPEC = '''
def named(text, target):
    return target in [t.strip() for t in text.split(",")]


def handle(self, msg, options):
    spam = True
    if "message-class" in options:
        spam = options["message-class"].lower() == "spam"
    text = ""
    if "set" in options:
        asked = options["set"]
        self.ruleset.ctxt.hook_report(msg, spam, named(asked, "local"), named(asked, "remote"))
        text = text + "DidSet: %s\\r\\n" % asked
    if "remove" in options:
        asked = options["remove"]
        self.ruleset.ctxt.hook_revoke(msg, spam, named(asked, "local"), named(asked, "remote"))
        text = text + "DidRemove: %s\\r\\n" % asked
    return text
'''


class Tell(TraceContract):
    """one report for Set, one revocation for Remove, with the class and exactly the listed targets"""
    qual = TELL + ".handle"
    spec = SPEC
    trusts = ("the reply is the concatenation of the yielded pieces (BaseProtocol.get_and_handle writes each, C13)",)

    def setup(self, v):
        self.ctxt = obj(v, "Ctxt", "ctxt")
        self.me = obj(v, TELL, "command", ruleset=obj(v, "RuleSet", "ruleset", ctxt=self.ctxt), log=obj(v, "Log", "log"))
        return [self.me, obj(v, "Message", "msg"), new_dict(v, Str, Str, "options")], {}

    def schemas(self):
        def hook(tag):
            def f(v, a, k):
                d = dict(zip(("msg", "spam", "local", "remote"), a[1:]))
                d.update(k)
                self.emit(v, tag, *[d.get(n, TRUE) for n in ("msg", "spam", "local", "remote")])
                if v.decide(v.uf(tag + "_fails", z3.IntVal(0), BOOL)):
                    raise v.exc("OTHER")
                return Sym("bool", v.uf(tag + "_stopped", z3.IntVal(0), BOOL))
            return PyFn(f, tag)
        return {"Ctxt": {"methods": {"hook_report": hook("hook_report"), "hook_revoke": hook("hook_revoke")}},
                "RuleSet": {}, "Message": {}, "Log": {"methods": {n: noop_method(n) for n in ("debug", "info", "warning")}}}

    def post(self, v, a, old, out):
        if out.kind == "return":
            out = Out("return", v.call_method(Const(""), "join", [out.value]))
        TraceContract.post(self, v, a, old, out)


def contracts():
    return [Tell(), Hook("hook_report", "plugin_report", 1), Hook("hook_revoke", "plugin_revoke", 1)]
