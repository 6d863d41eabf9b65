"""C26: the collaborative filters"""
from .common import *

PROPERTY = "C26"
PYZOR, RAZOR = "oa.plugins.pyzor:PyzorPlugin", "oa.plugins.razor2:Razor2Plugin"
F = lambda f, n="f": PyFn(f, n)
SERVER = ObjT("Server")
LOG = {"Logger": {"methods": {n: noop_method(n) for n in ("debug", "info", "warn", "warning", "error")}}, "Ctxt": {}}


def option(v, f, a, k):
    n = "option_" + a[1].v
    return v.getattr(a[0], n)


def get_local(v, f, a, k):
    n = "local_" + a[2].v
    if v.decide(v.term(v.getattr(a[1], "has_" + n), Bool)):
        return v.getattr(a[1], n)
    raise v.exc("KeyError", a[2])


def set_local(v, f, a, k):
    v.setattr(a[1], "has_local_" + a[2].v, Const(True))
    v.setattr(a[1], "local_" + a[2].v, a[3])
    return NONE


CONF = {"oa.conf:Conf.__getitem__": Model(option), "oa.conf:Conf.get_global": Model(option), "oa.conf:Conf.get_local": Model(get_local),
        "oa.conf:Conf.set_local": Model(set_local)}


class Pyzor(object):
    trusts = ("the digest is a function of the message, a server's answer is a function of the digest and the server",
              "options are read through Conf")

    def plugin(self, v):
        self.enabled, self.max = v.fresh(Bool, "use_pyzor"), v.fresh(Int, "pyzor_max")
        self.servers = new_list(v, SERVER, "servers")
        self.reports, self.revokes = ghost_list(v, SERVER), ghost_list(v, SERVER)
        return obj(v, PYZOR, "plugin", ctxt=obj(v, "Ctxt", "ctxt", log=obj(v, "Logger", "logger")), option_use_pyzor=self.enabled, option_pyzor_max=self.max,
                   option_pyzor_servers=self.servers, option_client=obj(v, "Client", "client"))

    def message(self, v):
        self.mail = obj(v, "Mail", "mail")
        self.tags = obj(v, "Tags", "tags")
        self.digest = Sym("str", v.uf("digest", v.rec(self.mail).term, STR))
        # a digest is only kept for the message it is of
        return obj(v, "Msg", "msg", msg=self.mail, plugin_tags=self.tags, has_local_digest=v.fresh(Bool, "kept"), local_digest=self.digest)

    def server(self, v, k):
        return sel(v.rec(self.servers).arr, k)

    def asked(self, v, a):
        """the server of a call of the client"""
        v.check("nothing is sent when the test is disabled", v.term(self.enabled))
        v.check("the message's own digest", same_value(v, a[1], self.digest))
        return v.term(a[2]).arg(0)

    def fails(self, v, x):
        return v.uf("server_fails", x, BOOL)

    def count(self, v, x, which):
        return v.uf(which, x, INT)

    def error_answer(self, v, x):
        return v.uf("error_answer", x, BOOL)

    def uses(self):
        return CONF

    def ext(self):
        return {"pyzor.digest.DataDigester": lambda v, a, k: obj(v, "Digester", "digester", value=Sym("str", v.uf("digest", v.term(a[0]), STR)))}

    def schemas(self):
        def check(v, a, k):
            x = self.asked(v, a)
            if v.decide(self.fails(v, x)):
                raise v.exc("pyzor.CommError")
            return v.from_term(v.uf("answer", x, OBJ), ObjT("Answer"))

        def get(v, a, k):
            x = v.term(a[0]).arg(0)
            if v.decide(self.error_answer(v, x)):
                return NONE
            return Sym("str", v.uf("text_" + a[1].v, x, STR))

        def send(log):
            def f(v, a, k):
                x = self.asked(v, a)
                log_event(v, getattr(self, log), x)
                if v.decide(self.fails(v, x)):
                    raise v.exc("pyzor.CommError")
                return NONE
            return F(f)
        return dict(LOG, Server={"methods": {"rsplit": F(self.split)}}, Address={}, Msg={}, Mail={}, Digester={}, Tags={"methods": {"__setitem__": noop_method("set")}},
                    Answer={"methods": {"__getitem__": F(get)}}, Client={"methods": {"check": F(check), "report": send("reports"), "whitelist": send("revokes")}})

    def split(self, v, a, k):
        v.check("host and port", z3.And(v.eq(a[1], Const(":")), v.eq(a[2], Const(1))))
        return v.from_term(v.uf("address", v.term(a[0]), OBJ), ObjT("Address"))


class CheckPyzor(Pyzor, Contract):
    """some server reports the digest at least pyzor_max times and never white-listed; a server that fails counts for nothing"""
    qual = name = PYZOR + ".check_pyzor"

    def setup(self, v):
        return [self.plugin(v), self.message(v)], {}

    def hit(self, v, k):
        x = self.server(v, k)
        n = lambda w: v.uf("int_of", v.uf("text_" + w, x, STR), INT)
        ok = lambda w: v.uf("int_ok", v.uf("text_" + w, x, STR), BOOL)
        return z3.And(z3.Not(self.fails(v, x)), z3.Not(self.error_answer(v, x)), ok("Count"), ok("WL-Count"), n("Count") >= v.term(self.max), n("WL-Count") == 0)

    def candidates(self, v, L):
        if L.kind == "for":
            k = z3.Int("k")
            yield "no server so far lists it", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < L.i), z3.Not(self.hit(v, k))))

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind == "return":
            k = z3.Int("k")
            listed = z3.Exists([k], z3.And(k >= 0, k < v.rec(self.servers).n, self.hit(v, k)))
            v.check("listed", v.truth(out.value) == z3.And(v.term(self.enabled), listed))
            v.check("the message's own digest is kept", same_value(v, v.getattr(a[1], "local_digest"), self.digest))


class PyzorReport(Pyzor, Contract):
    """every configured server gets the report (the revocation), once, in order, with the message's own digest; also after one that fails"""
    qual = PYZOR + "._pyzor_report"

    def __init__(self, spam):
        self.spam = spam
        self.name = "%s[%s]" % (self.qual, "report" if spam else "revoke")

    def setup(self, v):
        return [self.plugin(v), self.message(v), Const(self.spam)], {}

    def sent(self, v):
        return v.rec(self.reports if self.spam else self.revokes), v.rec(self.revokes if self.spam else self.reports)

    def all(self, v, n):
        r, other = self.sent(v)
        k = z3.Int("k")
        return z3.And(other.n == 0, r.n == n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), sel(r.arr, k) == self.server(v, k))))

    def candidates(self, v, L):
        if L.kind == "for":
            yield "every server so far", self.all(v, L.i)

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind == "return":
            v.check("every server", z3.If(v.term(self.enabled), self.all(v, v.rec(self.servers).n), self.all(v, z3.IntVal(0))))


class PyzorHook(Pyzor, TraceContract):
    """reported as spam, revoked as ham"""

    def __init__(self, fn, spam):
        self.qual = self.name = PYZOR + "." + fn
        self.spec = "def run(self, msg):\n    self._pyzor_report(msg, %r)\n" % spam

    def setup(self, v):
        return [self.plugin(v), self.message(v)], {}

    def uses(self):
        def report(v, f, a, k):
            self.emit(v, "report", a[1], a[2] if len(a) > 2 else k.get("spam", Const(True)))
            return NONE
        return dict(CONF, **{PYZOR + "._pyzor_report": Model(report)})


class Razor(object):
    trusts = ("the exit status of razor-check is decided by the message; starting it may fail", "options are read through Conf")
    fields = ("use_razor2", "razor_config", "razor_timeout")

    def setup(self, v):
        self.raw = v.fresh(Str, "raw")
        p = obj(v, RAZOR, "plugin", ctxt=obj(v, "Ctxt", "ctxt", log=obj(v, "Logger", "logger")), option_use_razor2=v.fresh(Bool, "use_razor2"),
                option_razor_config=v.fresh(Str, "razor_config"), option_razor_timeout=v.fresh(Int, "razor_timeout"))
        self.msg = obj(v, "Msg", "msg", raw_msg=self.raw, has_local_razor2_result=v.fresh(Bool, "kept"), local_razor2_result=v.fresh(Bool, "answer"))
        return [p, self.msg], {}

    def uses(self):
        return CONF

    def ext(self):
        def popen(v, a, k):
            self.emit(v, "start", a[0])
            if not v.decide(z3.Const("starts", BOOL)):
                raise v.exc("OSError")
            return obj(v, "Process", "process", returncode=Sym("int", z3.Const("exit_status", INT)))

        def timer(v, a, k):
            self.emit(v, "limit", a[0])
            return obj(v, "Timer", "timer")
        return {"subprocess.Popen": popen, "threading.Timer": timer, "builtins.str.encode": lambda v, a, k: v.from_term(v.uf("encoded", v.term(a[0], Str), OBJ), ObjT("Bytes"))}

    def schemas(self):
        def talk(v, a, k):
            x = k.get("input") or a[1]
            self.emit(v, "send", x)
            return v.alloc(ListRec([NONE, NONE]))
        return dict(LOG, Msg={}, Bytes={}, Process={"methods": {"communicate": F(talk), "kill": noop_method("kill")}},
                    Timer={"methods": {"start": noop_method("start"), "cancel": noop_method("cancel")}})


class CheckRazor(Razor, TraceContract):
    """asked at most once per message; the answer is kept and is the answer given: listed exactly when razor-check says so"""
    qual = name = RAZOR + ".check_razor2"
    result = False
    spec = '''
def run(self, msg):
    pass
'''

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        now, got = v.store, [t for t, x in v.trace]
        kept = v.getattr(self.msg, "local_razor2_result")
        has = v.term(v.getattr(self.msg, "has_local_razor2_result"), Bool)
        res = v.truth(out.value)
        v.store = old
        on, was, before = v.term(v.getattr(a[0], "option_use_razor2"), Bool), v.term(v.getattr(self.msg, "has_local_razor2_result"), Bool), v.term(
            v.getattr(self.msg, "local_razor2_result"), Bool)
        v.store = now
        status, starts = z3.Const("exit_status", INT), z3.Const("starts", BOOL)
        v.check("the answer", res == z3.And(on, z3.If(was, before, z3.And(starts, status == 0))))
        v.check("asked exactly when enabled and not asked before", z3.And(on, z3.Not(was)) if got[:1] == ["start"] else z3.Not(z3.And(on, z3.Not(was))))
        v.check("asked once", got.count("start") <= 1)
        v.check("the answer is kept", z3.Implies(on, z3.And(has, v.truth(kept) == res)))
        if "start" in got:
            v.check("the message is sent when the program runs", starts if "send" in got else z3.Not(starts))


class Launch(Razor, TraceContract):
    """the program is run with the message, but not when razor is off"""
    qual = name = RAZOR + ".launch_subprocess"
    result = False

    def setup(self, v):
        return Razor.setup(self, v)[0] + [v.fresh(Str, "name")], {}

    def post(self, v, a, old, out):
        no_exception(v, out)
        got = [t for t, x in v.trace]
        on = v.term(v.getattr(a[0], "option_use_razor2"), Bool)
        v.check("run exactly when enabled", on if "start" in got else z3.Not(on))
        if "start" in got:
            v.check("the message is sent", z3.Const("starts", BOOL) if "send" in got else z3.Not(z3.Const("starts", BOOL)))
        v.check("run once", got.count("start") <= 1)


def contracts():
    return [CheckPyzor(), PyzorReport(True), PyzorReport(False), PyzorHook("plugin_report", True), PyzorHook("plugin_revoke", False), CheckRazor(), Launch()]
