"""C08: which relays are trusted and internal"""
from .common import *

PROPERTY = "C08"
MSG = "oa.message:Message"
RELAY = ObjT("Relay")
LISTS = ("trusted", "untrusted", "internal", "external")


class Walk(Contract):
    """every relay with an address is in one of trusted/untrusted and one of internal/external, in order, as the walk from the newest
    one decides; T, I, M: still trusted, still internal, an MSA was passed (after so many relays)"""
    qual = MSG + "._parse_relays"
    trusts = ("ipaddress.ip_address: is_private and membership are functions of the text of the address",
              "the relay lists of a new message are empty (Message.__init__)")

    def setup(self, v):
        self.relays = new_list(v, RELAY, "relays")
        self.R = v.rec(self.relays)
        self.conf = v.fresh_term("networks_configured", BOOL)
        nets = {n: obj(v, "Nets", n, which=Const(n)) for n in ("trusted", "internal", "msa")}
        self.lists = {n + "_relays": empty_symlist(v, RELAY) for n in LISTS}
        self.me = obj(v, MSG, "message", last_internal_relay_index=Const(0), last_trusted_relay_index=Const(0), ctxt=obj(
            v, "Ctxt", "ctxt", networks=obj(v, "Networks", "networks", configured=Sym("bool", self.conf), **nets)), **self.lists)
        F = lambda n, s: z3.Function(n, INT, s)
        self.T, self.I, self.M = F("still_trusted", BOOL), F("still_internal", BOOL), F("msa_passed", BOOL)
        self.C = {n: F("number_of_" + n, INT) for n in LISTS}
        v.assume(z3.And(self.T(0), self.I(0), z3.Not(self.M(0)), *[c(0) == 0 for c in self.C.values()]))
        v.assume(forall(v, [INT], lambda i: z3.Implies(i >= 0, self.step(v, i)), lambda i: [self.at(i)]))
        i = v.fresh_term("any_position", INT)
        v.check("the newest hop starts the walk as trusted and internal", z3.And(self.T(0), self.I(0)))
        st = z3.And(i >= 0, self.step(v, i))
        acc = z3.Implies
        v.check("once untrusted, untrusted", acc(z3.And(st, z3.Not(self.T(i))), z3.Not(self.T(i + 1))))
        v.check("once external, not internal again", acc(z3.And(st, z3.Not(self.I(i))), z3.Not(self.I(i + 1))))
        v.check("untrusted means external (step)", acc(z3.And(st, acc(z3.Not(self.T(i)), z3.Not(self.I(i)))), acc(
            z3.Not(self.T(i + 1)), z3.Not(self.I(i + 1)))))
        v.check("trusted only for a reason", acc(z3.And(st, self.hasip(v, i), self.T(i + 1)), z3.Or(
            self.q(v, "in_trusted", i), self.auth(v, i), self.M(i), z3.And(z3.Not(self.conf), self.q(v, "is_private", i)))))
        v.check("an MSA is passed only by a trusted hop", acc(z3.And(st, z3.Not(self.M(i)), self.M(i + 1)), z3.And(
            self.T(i + 1), self.q(v, "in_msa", i))))
        return [self.me, self.relays], {}

    def at(self, i):
        return sel(self.R.arr, i)

    def ip(self, v, i):
        return v.uf("relay_ip", self.at(i), STR)

    def hasip(self, v, i):
        return z3.Length(self.ip(v, i)) > 0

    def q(self, v, what, i):
        return v.uf(what, self.ip(v, i), BOOL)

    def auth(self, v, i):
        return z3.Length(v.uf("relay_auth", self.at(i), STR)) > 0

    def now(self, i):
        return {"trusted": self.T(i), "untrusted": z3.Not(self.T(i)), "internal": self.I(i), "external": z3.Not(self.I(i))}

    def step(self, v, i):
        has, auth = self.hasip(v, i), self.auth(v, i)
        look = z3.And(has, self.T(i), z3.Not(self.M(i)))
        ok = z3.Or(auth, z3.If(self.conf, self.q(v, "in_trusted", i), self.q(v, "is_private", i)))
        inside = z3.Or(auth, z3.Not(self.conf), self.q(v, "in_internal", i))
        out = [self.T(i + 1) == z3.If(look, ok, self.T(i)),
               self.I(i + 1) == z3.If(look, z3.And(self.I(i), ok, inside), self.I(i)),
               self.M(i + 1) == z3.Or(self.M(i), z3.And(look, self.conf, ok, self.q(v, "in_msa", i)))]
        for n, c in self.C.items():
            out.append(self.C[n](i + 1) == self.C[n](i) + z3.If(z3.And(has, self.now(i + 1)[n]), 1, 0))
        return z3.And(*out)

    def placed(self, v, upto):
        for n in LISTS:
            r = v.rec(v.getattr(self.me, n + "_relays"))
            c = self.C[n]
            if isinstance(r, ListRec):
                r = v.as_symlist(r, RELAY)
            yield "only relays in the %s list" % n, r.n == c(upto)
            yield "the %s relays in order" % n, forall(v, [INT], lambda j: z3.Implies(
                z3.And(rng(0, j, upto), self.hasip(v, j), self.now(j + 1)[n]),
                z3.And(c(j) >= 0, c(j) < c(upto), sel(r.arr, c(j)) == self.at(j))), lambda j: [self.at(j)])

    def invariants(self, v, L):
        if L.kind != "for" or not v.valid(L.n == self.R.n):
            return
        for c in self.placed(v, L.i):
            yield c

    def candidates(self, v, L):
        if L.kind != "for" or not v.valid(L.n == self.R.n):
            return
        yield "count", z3.And(*[c(L.i) >= 0 for c in self.C.values()])
        want = {"T": self.T(L.i), "I": self.I(L.i), "M": self.M(L.i)}
        for n, x in sorted(v.store[v.env].vars.items()):
            if isinstance(x, Sym) and x.kind == "bool" or isinstance(x, Const) and isinstance(x.v, bool):
                t = v.k(v.truth(x))
                t = z3.BoolVal(t) if isinstance(t, bool) else t
                for w, f in want.items():
                    yield "%s is %s" % (n, w), t == f
                    yield "%s is not %s" % (n, w), t == z3.Not(f)

    def schemas(self):
        def rterm(v, x):
            return v.term(x, RELAY)

        def get(v, a, k):
            n = a[1].v
            if n == "ip":
                return Sym("str", v.uf("relay_ip", rterm(v, a[0]), STR))
            return Sym("str", v.uf("relay_" + n, rterm(v, a[0]), STR))
        has = PyFn(lambda v, a, k: Sym("bool", v.uf("in_" + v.getattr(a[0], "which").v, v.uf("ip_text", v.term(a[1]), STR), BOOL)), "in")
        return {"Relay": {"methods": {"__getitem__": PyFn(get, "[]"), "get": PyFn(get, "get"), "__setitem__": noop_method("[]="),
                                      "__formats__": PyFn(lambda v, a, k: Sym("str", v.uf("described", rterm(v, a[0]), STR)), "format")}},
                "IP": {"methods": {}, "fields": {}}, "Networks": {}, "Ctxt": {}, "Nets": {"methods": {"__contains__": has}}}

    def uses(self):
        return {MSG + "._create_plugin_tags": Model(lambda v, f, a, k: NONE)}

    def ext(self):
        def ip(v, a, k):
            t = v.term(a[0], Str)
            x = obj(v, "IP", "ip", is_private=Sym("bool", v.uf("is_private", t, BOOL)))
            v.assume(v.uf("ip_text", v.term(x), STR) == t)
            return x
        return {"ipaddress.ip_address": ip}

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind == "return":
            for n, c in self.placed(v, self.R.n):
                v.check(n, c)


def contracts():
    return [Walk()]
