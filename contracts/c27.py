"""C27: the envelope sender and the address lists"""
from .common import *

PROPERTY = "C27"
# the texts of headers, as far as they are only passed on and tested for being empty
ADDR, NAME, VALUE = ObjT("Address"), ObjT("HeaderName"), ObjT("Value")
TEXT = {"truthy": "uf", "methods": {"strip": PyFn(lambda v, a, k: v.from_term(v.uf("strip_of", v.rec(a[0]).term, OBJ), ADDR), "strip")}}


def nonempty(v, t):
    return v.uf("truthy", t, BOOL)

MSG = "oa.message:Message"
RELAY = ObjT("Relay")

SENDER = '''
def run(self, env):
    names = self.ctxt.conf["envelope_sender_header"]
    if not names:
        names = ("X-Sender", "X-Envelope-From", "Envelope-Sender", "Return-Path")
    if len(self.external_relays) > 0:
        hop = self.external_relays[0]["envfrom"]
        if hop != "":
            self.sender_address = hop.strip()
        return
    if len(self.trusted_relays) > 0 and not self.ctxt.conf["always_trust_envelope_sender"]:
        hop = self.trusted_relays[len(self.trusted_relays) - 1]["envfrom"]
        if hop != "":
            self.sender_address = hop.strip()
            return
    if len(self.untrusted_relays) > 0:
        hop = self.untrusted_relays[0]["envfrom"]
        if hop != "":
            self.sender_address = hop.strip()
            return
    for name in names:
        found = env.addresses(name)
        if len(found) > 0 and found[0]:
            self.sender_address = found[0].strip()
            return
'''

LOGGER = {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error")}}


class Headers(object):
    """get_addr_header and get_all_addr_header as functions of the header's name"""

    item = Str

    def addresses(self, v, fn, name):
        t = ListT(self.item)
        return v.from_term(v.uf(fn, v.term(name), sort_of(t)), t, snap=False)

    def schemas(self):
        M = lambda fn: PyFn(lambda v, a, k: self.addresses(v, fn, a[1]), fn)
        return {"Logger": LOGGER, "Ctxt": {}, "Address": TEXT, "HeaderName": {},  "Relay": {"methods": {
            n: PyFn(lambda v, a, k: Sym("str", v.uf("relay_" + a[1].v, v.term(a[0], RELAY), STR)), n) for n in ("get", "__getitem__")}},
            "Env": {"methods": {"addresses": M("get_addr_header"), "all_addresses": M("get_all_addr_header")}}}

    def uses(self):
        U = lambda fn: Model(lambda v, f, a, k: self.addresses(v, fn, a[1]))
        return {MSG + "." + fn: U(fn) for fn in ("get_addr_header", "get_all_addr_header")}


class Sender(Headers, SpecContract):
    """the first external hop, or else the last trusted one, the first untrusted one, the first sender header with an address"""
    qual = MSG + "._parse_sender"
    spec = SENDER
    result = False
    item = ADDR

    def __init__(self, headers):
        self.headers = headers
        self.name = "%s[%s]" % (self.qual, "configured sender headers" if headers else "default sender headers")

    def setup(self, v):
        names = self.conf_headers = new_list(v, NAME, "envelope_sender_header")
        if self.headers:
            v.assume(v.rec(names).n > 0)
        else:
            v.assume(v.rec(names).n == 0)
        self.conf = conf_dict(v, always_trust_envelope_sender=Bool, envelope_sender_header=names)
        self.me = obj(v, MSG, "message", sender_address=Const(""), ctxt=obj(v, "Ctxt", "ctxt", conf=self.conf, log=obj(
            v, "Logger", "logger")), **{n + "_relays": new_list(v, RELAY, n) for n in ("external", "trusted", "untrusted", "internal")})
        return [self.me], {}

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]

    def invariants(self, v, L):
        r = v.rec(self.conf_headers)
        if L.kind != "for" or L.origin != self.conf_headers.id:
            return
        t = ListT(ADDR)

        def none(j):
            x = v.uf("get_addr_header", sel(r.arr, j), sort_of(t))
            rec = v.rec(v.from_term(x, t, snap=False))
            return z3.Or(rec.n <= 0, z3.Not(nonempty(v, sel(rec.arr, 0))))
        yield "no sender yet", v.term(v.getattr(self.me, "sender_address"), Str) == z3.StringVal("")
        yield "no header before carries an address", forall(v, [INT], lambda j: z3.Implies(rng(0, j, L.i), none(j)), lambda j: [
            sel(r.arr, j)])

    def observe(self, v, a):
        return [("the sender", v.getattr(self.me, "sender_address"))]


FROM = ("From", "Envelope-Sender", "Resent-From", "X-Envelope-From", "EnvelopeFrom")
TO = ("To", "Resent-To", "Resent-Cc", "Apparently-To", "Delivered-To", "Envelope-Recipients", "Apparently-Resent-To", "X-Envelope-To",
      "Envelope-To", "X-Delivered-To", "X-Original-To", "X-Rcpt-To", "X-Real-To", "Cc")
BOTH = '''
def run(self, env):
    resent = %s
    out = []
    if len(resent) > 0:
        for x in resent:
            out.append(x)
    else:
%s
    return out
'''
EACH = '''        for x in env.all_addresses("%s"):
            out.append(x)
'''

LISTS = {"get_from_addresses": BOTH % ('env.all_addresses("Resent-From")', "".join(EACH % h for h in FROM)),
         "get_to_addresses": BOTH % ('env.all_addresses("Resent-To") + env.all_addresses("Resent-Cc")', "".join(EACH % h for h in TO)),
    "get_all_from_headers_addr": '''
def run(self, env):
    sender = self.sender_address
    return (env.all_addresses("From") + env.all_addresses("Envelope-Sender") + env.all_addresses("Resent-Sender")
            + env.all_addresses("X-Envelope-From") + ([sender] if sender != "" else env.all_addresses("EnvelopeFrom"))
            + env.all_addresses("Resent-From"))
'''}


class Addresses(Headers, SpecContract):
    """the resent headers alone when they carry an address, otherwise every header of the fixed list, in order"""

    def __init__(self, fn):
        self.qual = self.name = MSG + "." + fn
        self.spec = LISTS[fn]

    def setup(self, v):
        return [obj(v, MSG, "message", sender_address=v.fresh(Str, "sender"))], {}

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]


PAIR = TupT(Str, ADDR)


class Parsed(Contract):
    """the addresses (the first one of each value, or all of them) of a header's values, in order.

    E(x, k): how many of the first k entries of the value x carry an address that is listed; N(i): how many of the first i values"""
    trusts = ("email.utils.getaddresses is a function of the text",)

    def __init__(self, fn, first):
        self.qual = self.name = MSG + "." + fn
        self.first = first

    def setup(self, v):
        self.me = obj(v, MSG, "message")
        self.header = v.fresh(Str, "header")
        self.D = v.rec(self.decoded(v, self.header))
        self.E = z3.Function("listed_of_value", OBJ, INT, INT)
        self.N = z3.Function("listed_before", INT, INT)
        E, N, ax = self.E, self.N, lambda c: v.assume(c)
        if self.first:
            # has(x): the value carries an address, the first one at F(x)
            self.F, self.has = z3.Function("first_of_value", OBJ, INT), z3.Function("value_carries", OBJ, BOOL)
            ax(forall(v, [OBJ], lambda x: z3.Implies(self.has(x), z3.And(
                rng(0, self.F(x), self.size(v, x)), self.carries(v, x, self.F(x)))), lambda x: [self.F(x)]))
            ax(forall(v, [OBJ, INT], lambda x, k: z3.Implies(z3.And(rng(0, k, self.size(v, x)), self.carries(v, x, k)), z3.And(
                self.has(x), self.F(x) <= k)), lambda x, k: [self.addr(v, x, k)]))
            self.E = lambda x, k: z3.If(z3.And(self.has(x), self.F(x) < k), 1, 0)
        else:
            ax(forall(v, [OBJ], lambda x: z3.And(self.size(v, x) >= 0, E(x, 0) == 0), lambda x: [E(x, 0)]))
            ax(forall(v, [OBJ, INT], lambda x, k: z3.Implies(rng(0, k, self.size(v, x)), E(x, k + 1) == E(x, k) + z3.If(
                self.listed(v, x, k), 1, 0)), lambda x, k: [self.addr(v, x, k)]))
        ax(N(0) == 0)
        ax(forall(v, [INT], lambda i: z3.Implies(i >= 0, N(i + 1) == N(i) + self.E(self.val(i), self.size(v, self.val(i)))), lambda i: [
            self.val(i)]))
        return [self.me, self.header], {}

    def decoded(self, v, name):
        return v.from_term(v.uf("decoded_header", v.term(name, Str), sort_of(ListT(VALUE))), ListT(VALUE), snap=False)

    def pairs(self, v, value):
        t = ListT(PAIR)
        return v.from_term(v.uf("addresses_of", v.term(value, VALUE), sort_of(t)), t, snap=False)

    def val(self, i):
        return sel(self.D.arr, i)

    def entries(self, v, x):
        return v.rec(self.pairs(v, v.from_term(x, VALUE)))

    def size(self, v, x):
        return self.entries(v, x).n

    def addr(self, v, x, k):
        return v.term(v.index(v.from_term(sel(self.entries(v, x).arr, k), PAIR), Const(1)), ADDR)

    def carries(self, v, x, k):
        return nonempty(v, self.addr(v, x, k))

    def listed(self, v, x, k):
        if not self.first:
            return self.carries(v, x, k)
        return z3.And(self.has(x), self.F(x) == k)

    def state(self, v, r, i, k=None):
        n = self.N(i)
        yield "as many as are listed", r.n == n + (self.E(self.val(i), k) if k is not None else 0)
        yield "addresses of the values before", forall(v, [INT, INT], lambda j, m: z3.Implies(z3.And(
            rng(0, j, i), rng(0, m, self.size(v, self.val(j))), self.listed(v, self.val(j), m)), z3.And(
                self.N(j) + self.E(self.val(j), m) < n, self.N(j) + self.E(self.val(j), m) >= 0,
                sel(r.arr, self.N(j) + self.E(self.val(j), m)) == self.addr(v, self.val(j), m))), lambda j, m: [
                    self.addr(v, self.val(j), m)])
        if k is not None:
            x = self.val(i)
            yield "addresses of this value", forall(v, [INT], lambda m: z3.Implies(z3.And(rng(0, m, k), self.listed(v, x, m)), z3.And(
                self.E(x, m) >= 0, self.E(x, m) < self.E(x, k), sel(r.arr, n + self.E(x, m)) == self.addr(v, x, m))), lambda m: [
                    self.addr(v, x, m)])
            yield "count", self.E(x, k) >= 0
            if self.first:
                yield "none yet", z3.And(self.E(x, k) == 0, forall(v, [INT], lambda m: z3.Implies(rng(0, m, k), z3.Not(
                    self.carries(v, x, m))), lambda m: [self.addr(v, x, m)]))
        yield "count before", n >= 0

    def candidates(self, v, L):
        if L.kind != "for":
            return
        for name, y in sorted(v.store[v.env].vars.items()):
            if not isinstance(y, Ref) or not isinstance(v.rec(y), (ListRec, SymList)):
                continue
            r = v.rec(y)
            if isinstance(r, ListRec):
                if r.items:
                    continue
                r = v.as_symlist(r, ADDR)
            if r.et.k != ADDR.k:
                continue
            if v.valid(L.n == self.D.n):
                for n, c in self.state(v, r, L.i):
                    yield "%s: %s" % (name, n), c
            elif v.idx:
                for n, c in self.state(v, r, v.idx[0], L.i):
                    yield "%s: %s (inner)" % (name, n), c

    def uses(self):
        return {MSG + ".get_decoded_header": Model(lambda v, f, a, k: self.decoded(v, a[1]))}

    def schemas(self):
        return {"Address": TEXT, "Value": {}}

    def ext(self):
        return {"email.utils.getaddresses": lambda v, a, k: self.pairs(v, v.index(a[0], Const(0)))}

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind == "return":
            r = v.rec(out.value)
            if isinstance(r, ListRec):
                r = v.as_symlist(r, ADDR)
            for n, c in self.state(v, r, self.D.n):
                v.check(n, c)


def contracts():
    return [Sender(False), Sender(True)] + [Addresses(f) for f in sorted(LISTS)] + [
        Parsed("get_addr_header", True), Parsed("get_all_addr_header", False)]
