"""C16: DNS restrictions"""
from .common import *
from .postparsing import PostParsing

PROPERTY = "C16"
DNS = "oa.dns_interface:DNSInterface"
RULESET = "oa.rules.ruleset:RuleSet"


def parent(s):
    """the name without its first label"""
    i = z3.IndexOf(s, z3.StringVal("."), 0)
    return z3.SubString(s, i + 1, z3.Length(s) - i - 1)


class Restricted(Contract):
    """the entry of the closest configured ancestor decides; without one the name is allowed"""
    qual = DNS + ".is_query_restricted"
    trusts = ("the definition of 'refused' by the closest ancestor: refused(s) is the entry of s if there is one, else refused of the "
              "name without its first label, else false; with no entries at all it is false (by induction on the labels; the step is an "
              "obligation)",)

    def setup(self, v):
        self.q = v.fresh(Str, "qname")
        self.rest = obj(v, "Restrictions", "restrictions")
        self.nonempty = v.fresh_term("configured", BOOL)
        self.me = obj(v, DNS, "dns", query_restrictions=self.rest, log=obj(v, "Logger", "logger"))
        s = v.fresh_term("any_name", STR)
        v.check("induction step: no entry at all refuses no name", z3.Implies(
            z3.And(self.defn(v, s), z3.Not(self.has(v, s)), z3.Not(self.refused(v, parent(s)))), z3.Not(self.refused(v, s))))
        v.assume(z3.Implies(z3.Not(self.nonempty), z3.Not(self.refused(v, v.term(self.q, Str)))))
        v.assume(self.defn(v, v.term(self.q, Str)))
        return [self.me, self.q], {}

    def has(self, v, s):
        return v.uf("configured_entry", s, BOOL)

    def val(self, v, s):
        return v.uf("entry_denies", s, BOOL)

    def refused(self, v, s):
        return v.uf("refused", s, BOOL)

    def defn(self, v, s):
        return self.refused(v, s) == z3.If(self.has(v, s), self.val(v, s), z3.And(
            z3.Contains(s, z3.StringVal(".")), self.refused(v, parent(s))))

    def schemas(self):
        def look(v, x):
            s = v.term(x, Str)
            v.assume(self.defn(v, s))
            v.assume(z3.Implies(self.has(v, s), self.nonempty))
            return s

        def has(v, a, k):
            return Sym("bool", self.has(v, look(v, a[1])))

        def item(v, a, k):
            s = look(v, a[1])
            if not v.decide(self.has(v, s)):
                raise v.exc("KeyError")
            return Sym("bool", self.val(v, s))

        def get(v, a, k):
            s = look(v, a[1])
            if v.decide(self.has(v, s)):
                return Sym("bool", self.val(v, s))
            return a[2] if len(a) > 2 else NONE
        M = lambda f, n: PyFn(f, n)
        return {"Logger": {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error")}},
                "Restrictions": {"methods": {"__contains__": M(has, "in"), "__getitem__": M(item, "[]"), "get": M(get, "get"),
                                             "__bool__": M(lambda v, a, k: Sym("bool", self.nonempty), "bool")}}}

    def candidates(self, v, L):
        want = self.refused(v, v.term(self.q, Str))
        out = []
        for n, x in list(v.store[v.env].vars.items()):
            if isinstance(x, Sym) and x.kind == "str":
                out.append(("%s is refused like the name" % n, self.refused(v, x.t) == want))
        return out

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind == "return":
            v.check("refused exactly when the closest entry denies",
                    v.k(v.truth(out.value)) == self.refused(v, v.term(self.q, Str)))


QUERY = '''
def run(self, qname, qtype, env):
    if env.restricted(qname):
        return []
    if not env.up():
        return []
    return env.ask(qname, qtype)
'''


class Query(TraceContract):
    """refused, or without DNS: no records and nothing is sent; otherwise exactly one query, for that name and type"""
    qual = DNS + ".query"
    spec = QUERY

    def setup(self, v):
        self.res = v.fresh(Any, "records")
        self.env = obj(v, "Env", "env")
        self.avail = v.fresh(Bool, "available")
        self.me = obj(v, DNS, "dns", log=obj(v, "Logger", "logger"))
        return [self.me, v.fresh(Str, "qname"), v.fresh(Str, "qtype")], {}

    def spec_args(self, v, a):
        return a + [self.env]

    def m_restricted(self, v, q):
        return Sym("bool", v.uf("refused", v.term(q, Str), BOOL))

    def m_ask(self, v, q, t):
        self.emit(v, "send", q, t)
        if v.decide(v.uf("fails", v.term(q, Str), BOOL)):
            raise v.exc("OTHER")
        return self.res

    def schemas(self):
        E = lambda f: PyFn(lambda v, a, k: f(v, *a[1:]), "env")
        return {"Logger": {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error")}},
                "Env": {"methods": {"restricted": E(self.m_restricted), "up": E(lambda v: self.avail), "ask": E(self.m_ask)}}}

    def uses(self):
        return {DNS + ".is_query_restricted": Model(lambda v, f, a, k: self.m_restricted(v, (a[1:] + list(k.values()))[0])),
                DNS + ".available": Model(lambda v, f, a, k: self.avail),
                DNS + "._query": Model(lambda v, f, a, k: self.m_ask(v, *((a[1:] + [k[n] for n in ("qname", "qtype") if n in k]))))}


ASK = '''
def run(self, qname, qtype, env):
    try:
        if qtype == "PTR":
            qname = env.reverse(qname)
        return env.resolve(qname, qtype)
    except env.failures:
        return []
'''
FAILS = ("dns.resolver.NXDOMAIN", "dns.resolver.NoAnswer", "dns.resolver.NoNameservers", "dns.exception.Timeout", "dns.resolver.YXDOMAIN",
         "dns.exception.SyntaxError", "dns.exception.DNSException", "ValueError", "IndexError", "struct.error")


class Ask(TraceContract):
    """every failure of the resolver is an answer without records"""
    qual = DNS + "._query"
    spec = ASK.replace("env.failures", "(%s)" % ", ".join(x for x in FAILS)).replace(
        "\ndef run", "import dns.resolver\nimport dns.exception\nimport struct\n\n\ndef run")

    def setup(self, v):
        self.excs = {}
        self.env = obj(v, "Env", "env")
        self.me = obj(v, DNS, "dns", log=obj(v, "Logger", "logger"), _resolver=obj(v, "Resolver", "resolver"))
        return [self.me, v.fresh(Str, "qname"), v.fresh(Str, "qtype")], {}

    def spec_args(self, v, a):
        return a + [self.env]

    def m_resolve(self, v, q, t):
        self.emit(v, "resolve", q, t)
        n = v.uf("outcome", z3.IntVal(0), INT)
        for i, c in enumerate(FAILS + ("OTHER",)):
            if v.decide(n == i):
                raise v.exc(c)
        return v.any_of(v.uf("records", z3.IntVal(0), Val))

    def m_reverse(self, v, q):
        if v.decide(v.uf("malformed", v.term(q, Str), BOOL)):
            raise v.exc("dns.exception.SyntaxError")
        return v.any_of(v.uf("reverse", v.term(q, Str), Val))

    def schemas(self):
        E = lambda f: PyFn(lambda v, a, k: f(v, *a[1:]), "env")
        return {"Logger": {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error")}},
                "Resolver": {"methods": {"query": E(self.m_resolve)}},
                "Env": {"methods": {"resolve": E(self.m_resolve), "reverse": E(self.m_reverse)}}}

    def ext(self):
        return {"dns.reversename.from_address": lambda v, a, k: self.m_reverse(v, a[0])}


LINES = '''
def run(self, env):
    for value in self.conf["dns_query_restriction"]:
        parts = value.split(" ", 1)
        if len(parts) == 2 and (parts[0] == "deny" or parts[0] == "allow"):
            env.restrictions[parts[1]] = parts[0] == "deny"
'''


class Lines(PostParsing):
    """each 'allow|deny name' line is an entry for that name (a later line replaces an earlier one), anything else is none"""
    spec = LINES
    varied = ("dns_query_restriction",)
    name = PostParsing.qual + "[restrictions]"

    def setup(self, v):
        a = PostParsing.setup(self, v)
        self.log2 = obj(v, "Log", "log2", entries=empty_symlist(v, TupT(Str, Bool)))
        self.rest = obj(v, "Restrictions", "restrictions")
        v.setattr(self.dns, "query_restrictions", self.rest)
        return a

    def observe(self, v, a):
        return [("the entries, in order", v.getattr(self.log2, "entries"))]

    def spec_args(self, v, a):
        return [self.me, obj(v, "Env", "env", restrictions=self.rest)]

    def schemas(self):
        def put(v, a, k):
            v.call_method(v.getattr(self.log2, "entries"), "append", [Tup((a[1], a[2]))])
            return NONE
        return dict(PostParsing.schemas(self), Restrictions={"methods": {"__setitem__": PyFn(put, "[]=")}})


def contracts():
    return [Restricted(), Query(), Ask(), Lines()]
