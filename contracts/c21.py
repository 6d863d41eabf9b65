"""C21: what a message leaves behind in a plugin"""
from .common import *

PROPERTY = "C21"
RELAYS, FREE, DKIM, SPF, HEADER = ("oa.plugins.relay_eval:RelayEval", "oa.plugins.free_mail:FreeMail", "oa.plugins.dkim:DKIMPlugin",
                                   "oa.plugins.spf:SpfPlugin", "oa.plugins.header_eval:HeaderEval")
RELAY = ObjT("Relay")
F = lambda f, n="f": PyFn(f, n)


def get_global(v, f, a, k):
    n = "global_" + a[1].v
    if n not in v.rec(a[0]).fields:
        raise v.exc("KeyError", a[1])
    return v.getattr(a[0], n)


def set_global(v, f, a, k):
    v.setattr(a[0], "global_" + a[1].v, a[2])
    return NONE


LOG = {"Logger": {"methods": {n: noop_method(n) for n in ("debug", "info", "warn", "warning", "error")}}, "Ctxt": {"methods": {"err": noop_method("err")}}}


def plugin(v, cls, **fields):
    return obj(v, cls, "plugin", ctxt=obj(v, "Ctxt", "ctxt", log=obj(v, "Logger", "logger")), **fields)


GLOBALS = {"oa.conf:Conf.get_global": Model(get_global), "oa.conf:Conf.set_global": Model(set_global), "oa.conf:Conf.__getitem__": Model(get_global),
           "oa.conf:Conf.__setitem__": Model(set_global)}


class Relays(object):
    trusts = ("regular expressions and the ipaddress module are functions of their arguments",)

    def relay_list(self, v):
        self.relays = new_list(v, RELAY, "relays")
        return obj(v, "Msg", "msg", untrusted_relays=self.relays)

    def part(self, v, relay, name):
        return v.uf("relay_" + name, relay, STR)

    def schemas(self):
        return dict(LOG, **{"Relay": {"methods": {"get": F(lambda v, a, k: Sym("str", self.part(v, v.term(a[0]), a[1].v)))}}, "Msg": {},
                "Net": {"methods": {"supernet": F(lambda v, a, k: v.from_term(v.uf("supernet", v.term(a[0]), v.term(a[1], Int), OBJ), ObjT("Net")))}}})

    def ext(self):
        def network(v, a, k):
            t = v.term(a[0], Str)
            if not v.decide(v.uf("is_network", t, BOOL)):
                raise v.exc("ValueError")
            return v.from_term(v.uf("network", t, OBJ), ObjT("Net"))
        return {"ipaddress.IPv4Network": network}

    def uses(self):
        return dict(GLOBALS, **{
            RELAYS + ".hostname_to_domain": Model(lambda v, f, a, k: Sym("str", v.uf("domain_of", v.term(a[-1], Str), STR))),
            "oa.regex:Regex.match": Model(lambda v, f, a, k: Sym("bool", v.uf("matches", v.term(v.getattr(a[0], "pattern"), Str), v.term(a[1], Str), BOOL)))})

    def conditions(self, v, i):
        """(relay i was not received by the host the relay before came from, its address contradicts its HELO)"""
        r = v.rec(self.relays)
        m = lambda p, s: v.uf("matches", z3.StringVal(p), s, BOOL)
        host = lambda s: m(r"^\w+(?:[\w.-]+\.)+\w+$", s)
        net = lambda s: v.uf("supernet", v.uf("network", s, OBJ), z3.IntVal(16), OBJ)
        valid = lambda s: v.uf("is_network", s, BOOL)
        dom = lambda s: v.uf("domain_of", s, STR)
        x, p = sel(r.arr, i), sel(r.arr, i - 1)
        by, ip, helo, prev = dom(self.part(v, x, "by")), self.part(v, x, "ip"), dom(self.part(v, x, "helo")), self.part(v, p, "rdns")
        named = z3.And(by != z3.StringVal(""), host(by))
        private = v.prog.module("oa.plugins.relay_eval")
        return (z3.And(named, i > 0, host(prev), by != prev, z3.Not(z3.And(by == z3.StringVal("msn.com"), prev == z3.StringVal("hotmail.com")))),
                z3.And(named, valid(ip), valid(helo), ip != helo, net(ip) != net(helo), z3.Not(v.uf("is_private", helo, BOOL))))

    def counts(self, v, i):
        """how many of the first i relays are so (defined by recursion on i)"""
        base = v.rec(self.relays).arr
        c = [v.uf(n, base, t, INT) for n in ("trail_count", "helo_count") for t in (i,)]
        d = [v.uf(n, base, i - 1, INT) for n in ("trail_count", "helo_count")]
        for x, y, cond in zip(c, d, self.conditions(v, i - 1)):
            v.assume(z3.If(i <= 0, x == 0, x == y + z3.If(cond, 1, 0)))
        return c


class Forged(Relays, Contract):
    """the two counts kept are those of this message's relays, whatever was kept before"""
    qual = name = RELAYS + "._check_for_forged_received"

    def ext(self):
        return dict(Relays.ext(self), **{"global:oa.plugins.relay_eval:IP_PRIVATE": lambda v: obj(v, "Private", "private")})

    def schemas(self):
        return dict(Relays.schemas(self), Private={"methods": {"match": F(lambda v, a, k: Sym("bool", v.uf("is_private", v.term(a[1], Str), BOOL)))}})

    def setup(self, v):
        msg = self.relay_list(v)
        return [plugin(v, RELAYS, global_mismatch_from=v.fresh(Int, "old_from"), global_mismatch_ip_helo=v.fresh(Int, "old_helo")), msg], {}

    def candidates(self, v, L):
        if L.kind != "for":
            return
        trail, helo = self.counts(v, L.i)
        for n, y in sorted(v.store[v.env].vars.items()):
            t = z3.IntVal(y.v) if isinstance(y, Const) and type(y.v) is int else y.t if isinstance(y, Sym) and y.t.sort() == INT else None
            if t is not None:
                yield n + " counts the trail", t == trail
                yield n + " counts the HELOs", t == helo

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind == "return":
            trail, helo = self.counts(v, v.rec(self.relays).n)
            v.check("the trail of this message", v.term(v.getattr(a[0], "global_mismatch_from"), Int) == trail)
            v.check("the HELOs of this message", v.term(v.getattr(a[0], "global_mismatch_ip_helo"), Int) == helo)


class ForgedRule(Relays, Contract):
    """the rule's answer is decided by this message's relays, whatever was kept before"""

    def __init__(self, fn, key, least):
        self.qual = self.name = RELAYS + "." + fn
        self.key, self.least = key, least

    def setup(self, v):
        msg = self.relay_list(v)
        p = plugin(v, RELAYS)
        # before the first message nothing is kept
        for n in ("mismatch_from", "mismatch_ip_helo"):
            if v.decide(v.fresh_term("kept", BOOL)):
                v.setattr(p, "global_" + n, v.fresh(Int, "old"))
        return [p, msg], {}

    def uses(self):
        def forged(v, f, a, k):
            v.check("of this message", a[1].id == self.msg.id if isinstance(a[1], Ref) else False)
            trail, helo = self.counts(v, v.rec(self.relays).n)
            v.setattr(a[0], "global_mismatch_from", Sym("int", trail))
            v.setattr(a[0], "global_mismatch_ip_helo", Sym("int", helo))
            return NONE
        return dict(Relays.uses(self), **{RELAYS + "._check_for_forged_received": Model(forged)})

    def relay_list(self, v):
        self.msg = Relays.relay_list(self, v)
        return self.msg

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind == "return":
            n = self.counts(v, v.rec(self.relays).n)[self.key == "mismatch_ip_helo"]
            v.check("decided by this message", v.term(out.value, Bool) == (n > self.least))



def matches(v, a, k):
    return Sym("bool", v.uf("matches", v.term(v.getattr(a[0], "pattern"), Str), v.term(a[1], Str), BOOL))


class Filter(object):
    """the elements of a list that satisfy a condition, in order: defined by recursion on how many are looked at"""

    def __init__(self, name, xs, cond, value):
        self.name, self.xs, self.cond, self.value = name, xs, cond, value

    def at(self, v, i, start=None):
        """(how many, the array) after the first i elements"""
        r = v.rec(self.xs)
        n, arr = v.uf(self.name + "_count", r.arr, i, INT), v.uf(self.name + "_kept", r.arr, i, r.arr.sort())
        n0, arr0 = v.uf(self.name + "_count", r.arr, i - 1, INT), v.uf(self.name + "_kept", r.arr, i - 1, r.arr.sort())
        x = sel(r.arr, i - 1)
        v.assume(z3.If(i <= 0, n == 0, z3.If(self.cond(v, x), z3.And(n == n0 + 1, arr == z3.Store(arr0, n0, self.value(v, x))),
                                             z3.And(n == n0, arr == arr0))))
        if start is not None and z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0:
            v.assume(arr == start)
        return n, arr


class FreeStart(Contract):
    """A message starts with no addresses found; only invalid domains are dropped and only valid ones are in force, so the domains in force are
    the same for every message"""
    qual = name = FREE + ".check_start"
    trusts = ("regular expressions and string operations are functions of their arguments",)
    INVALID = "^[a-z0-9.*?-]+$"

    def setup(self, v):
        self.domains = new_list(v, Str, "domains")
        self.tlds = [new_list(v, Str, "tld%d" % i) for i in range(3)]
        self.listed = obj(v, "Domains", "listed")
        self.wild = Filter("wild", self.domains, lambda v, x: z3.And(self.valid(v, x), z3.Contains(x, z3.StringVal("*"))), self.expression)
        p = plugin(v, FREE, global_freemail_domains=self.listed, global_util_rb_tld=self.tlds[0], global_util_rb_2tld=self.tlds[1],
                   global_util_rb_3tld=self.tlds[2], global_body_emails=v.fresh(ObjT("Emails"), "old_emails"), global_check_if_parsed=v.fresh(Bool, "old_parsed"),
                   global_freemail_domains_re=v.fresh(ObjT("Expression"), "old_expression"))
        self.old_re = v.getattr(p, "global_freemail_domains_re")
        return [p, obj(v, "Msg", "msg")], {}

    def valid(self, v, x):
        return v.uf("matches", z3.StringVal(self.INVALID), x, BOOL)

    def expression(self, v, x):
        s = Sym("str", x)
        for a, b in ((".", r"\."), ("?", "."), ("*", "[^.]*")):
            s = v.call_method(s, "replace", [Const(a), Const(b)])
        return v.term(s)

    def uses(self):
        return dict(GLOBALS, **{"oa.regex:Regex.search": Model(lambda v, f, a, k: matches(v, a, k))})

    def schemas(self):
        def drop(v, a, k):
            v.check("only an invalid domain is dropped", z3.Not(self.valid(v, v.term(a[1], Str))))
            return NONE
        return dict(LOG, Domains={"methods": {"__getslice__": F(lambda v, a, k: self.domains), "remove": F(drop)}}, Msg={}, Emails={}, Expression={})

    def candidates(self, v, L):
        if L.kind != "for":
            return
        for n, y in sorted(v.store[v.env].vars.items()):
            r = v.rec(y) if isinstance(y, Ref) else None
            if isinstance(r, SymList) and r.et.k == "str" and y.id != self.domains.id and n != "freemail_domains":
                c, arr = self.wild.at(v, L.i, r.arr)
                yield n + " are the valid wildcards so far", z3.And(r.n == c, r.arr == arr)
            elif isinstance(r, ListRec) and not r.items:
                c, arr = self.wild.at(v, L.i)
                yield n + " are the valid wildcards so far", c == 0

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        g = lambda n: v.getattr(a[0], "global_" + n)
        e = g("body_emails")
        v.check("no addresses found yet", isinstance(e, Ref) and v.decide(z3.Not(v.term(v.truth(e), Bool))) if not isinstance(e, Ref) else
                v.rec(e).__class__.__name__ in ("SetRec", "ListRec") and not v.rec(e).items)
        v.check("the body is not looked at yet", z3.Not(v.term(g("check_if_parsed"), Bool)))
        d = g("freemail_domains")
        v.check("the same list of domains", isinstance(d, Ref) and d.id == self.listed.id)
        n, arr = self.wild.at(v, v.rec(self.domains).n)
        x = g("freemail_domains_re")
        if isinstance(x, Ref) and v.rec(x).cls == "oa.regex:Regex":
            v.check("some wildcard is valid", n > 0)
            want = v.call_method(Const("\\@(?:{0})$"), "format", [Sym("str", v.uf("str.join", z3.StringVal("|"), n, arr, STR))])
            v.check("the valid wildcards in force", same_value(v, v.getattr(x, "pattern"), want))
        else:
            v.check("the expression as it was", same_value(v, x, self.old_re))
            v.check("no wildcard is valid", n <= 0)


class ParseBody(Contract):
    """The addresses kept are the free ones among this message's, unless they are too many: then nothing is kept"""
    qual = name = FREE + "._parse_body"

    def setup(self, v):
        self.emails = new_list(v, Str, "emails")
        self.free = Filter("free", self.emails, lambda v, x: v.uf("is_free", x, BOOL), lambda v, x: x)
        self.kept = new_list(v, Str, "kept")
        self.max, self.maxfree, self.skip, self.parsed = v.fresh(Int, "max_emails"), v.fresh(Int, "max_freemails"), v.fresh(Bool, "skip"), v.fresh(Bool, "parsed")
        return [plugin(v, FREE, global_body_emails=self.emails, global_check_if_parsed=self.parsed, global_freemail_body_emails=self.kept,
                       global_freemail_max_body_emails=self.max, global_freemail_max_body_freemails=self.maxfree,
                       global_freemail_skip_when_over_max=self.skip)], {}

    def uses(self):
        def free(v, f, a, k):
            if v.idx:
                self.free.at(v, v.idx[-1] + 1)
            return Sym("bool", v.uf("is_free", v.term(a[1], Str), BOOL))
        return dict(GLOBALS, **{FREE + "._is_freemail": Model(free)})

    def schemas(self):
        return dict(LOG)

    def candidates(self, v, L):
        if L.kind != "for":
            return
        M = v.term(self.maxfree)
        for n, y in sorted(v.store[v.env].vars.items()):
            r = v.rec(y) if isinstance(y, Ref) else None
            if isinstance(r, SymList) and y.id not in (self.emails.id, self.kept.id):
                c, arr = self.free.at(v, L.i, r.arr)
                yield n + " are the free ones so far", z3.And(r.n == c, r.arr == arr)
            elif isinstance(r, ListRec) and not r.items:
                yield n + " are the free ones so far", self.free.at(v, L.i)[0] == 0
            elif r is None and isinstance(y, (Const, Sym)) and v.typeof(y).k == "int":
                yield n + " counts the free ones", v.term(y, Int) == self.free.at(v, L.i)[0]
        c = self.free.at(v, L.i)[0]
        yield "not too many so far", z3.Or(L.i == 0, c < M)

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        g = lambda n: v.getattr(a[0], "global_" + n)
        parsed, res = v.term(self.parsed), v.term(out.value, Bool)
        n, arr = self.free.at(v, v.rec(self.emails).n)
        E = v.rec(self.emails)
        same = lambda x, y: x.id == y.id if isinstance(x, Ref) and isinstance(y, Ref) else False
        kept = g("freemail_body_emails")
        skipped = z3.And(E.n >= v.term(self.max), v.term(self.skip))
        k = z3.Int("looked_at")
        many = z3.Exists([k], z3.And(k > 0, k <= E.n, v.uf("free_count", E.arr, k, INT) >= v.term(self.maxfree)))
        if same(kept, self.kept):
            v.check("kept from before: looked at before, or too many", z3.Or(z3.And(parsed, res), z3.And(z3.Not(parsed), z3.Not(res), z3.Or(skipped, many))))
            v.check("looked at as before", v.term(g("check_if_parsed"), Bool) == parsed)
        else:
            r = v.rec(kept)
            v.check("looked at for the first time", z3.And(z3.Not(parsed), res, z3.Not(skipped), z3.Or(E.n == 0, n < v.term(self.maxfree))))
            v.check("looked at", v.term(g("check_if_parsed"), Bool))
            v.check("the free ones are kept", z3.And(r.n == n, r.arr == arr) if isinstance(r, SymList) else z3.And(n == 0, len(r.items) == 0))



# what a check may leave in a plugin: it is forgotten when the next message starts
STATE = {DKIM: ("author_addresses", "author_domains", "dkim_checked_signature", "dkim_signed", "dkim_valid", "dkim_has_valid_author_sig",
                "dkim_signatures_dependable", "is_valid", "match_adsp"),
         SPF: ("spf_check", "spf_check_helo", "no_valid_identity", "check_result")}


def from_keys(v, a, k):
    """dict.fromkeys"""
    d, x = v.rec(a[0]), a[1] if len(a) > 1 else NONE
    if isinstance(d, DictRec):
        return v.alloc(DictRec([(key, x) for key, y in d.items]))
    return v.alloc(SymDict(d.kt, d.vt, d.has, z3.K(sort_of(d.kt), v.term(x, d.vt)), d.n, d.keys, None))


class Forget(Contract):
    """what the message before left in the plugin is forgotten: the state is that of a new plugin"""

    def __init__(self, cls):
        self.cls = cls
        self.qual = self.name = cls + ".check_start"

    def ext(self):
        return {"builtins.dict.fromkeys": from_keys}

    def schemas(self):
        return dict(LOG, Msg={})

    def setup(self, v):
        left = {}
        for n in STATE[self.cls]:
            left[n] = new_list(v, Str, n) if n.startswith("author") else new_dict(v, Str, Int, n) if n == "check_result" else v.fresh(
                Bool if self.cls == SPF else Int, n)
        self.msg = obj(v, "Msg", "msg")
        return [plugin(v, self.cls, **left), self.msg], {}

    def post(self, v, a, old, out):
        no_exception(v, out)
        for n in STATE[self.cls]:
            x = v.getattr(a[0], n)
            if n == "check_result":
                s = v.fresh_term("result", STR)
                r = v.rec(x)
                if isinstance(r, SymDict):
                    v.check("no result of another message", z3.Implies(sel(r.has, s), sel(r.val, s) == 0))
                else:
                    v.check("no result of another message", all(y.v == 0 for k, y in r.items))
                continue
            if n.startswith("author"):
                r = v.rec(x)
                v.check("no %s" % n, isinstance(r, ListRec) and not r.items)
                continue
            first = Const(1) if n == "is_valid" else Const(0) if self.cls == DKIM else FALSE
            v.check("%s as of a new plugin" % n, same_value(v, x, first))


class Hotmail(SpecContract):
    """What an earlier message left has no effect: the outcome is the same as with a new plugin"""
    trusts = ("regular expressions and headers are functions of their arguments", "the other checks of the plugin depend on the message only")
    FLAGS = ("hotmail_addr_but_no_hotmail_received", "hotmail_addr_with_forged_hotmail_received")

    def __init__(self, fn):
        self.qual = self.name = HEADER + "." + fn
        self.spec = "def run(self, msg, env):\n    env.forget(self)\n    return self.%s(msg)\n" % fn

    def setup(self, v):
        return [plugin(v, HEADER, **{n: v.fresh(Int, n) for n in self.FLAGS}), obj(v, "Msg", "msg", msg=obj(v, "Mail", "mail"))], {}

    def spec_args(self, v, a):
        return list(a) + [obj(v, "Env", "env")]

    def observe(self, v, a):
        return [(n, v.getattr(a[0], n)) for n in self.FLAGS]

    def ext(self):
        return {"global:oa.plugins.header_eval:IP_ADDRESS": lambda v: obj(v, "oa.regex:Regex", "ip_address", pattern=Sym("str", z3.Const("ip_pattern", STR)), flags=Const(0))}

    def schemas(self):
        def forget(v, a, k):
            for n in self.FLAGS:
                v.setattr(a[1], n, Const(0))
            return NONE

        def get(v, a, k):
            n = v.term(a[1], Str)
            if not v.decide(v.uf("has_header", n, BOOL)):
                return NONE
            return Sym("str", v.uf("header", n, STR))
        return dict(LOG, Msg={}, Mail={"methods": {"get": F(get)}}, Env={"methods": {"forget": F(forget)}})

    def uses(self):
        d = {HEADER + "." + n: Model(lambda v, f, a, k, n=n: Sym("bool", z3.Const(n, BOOL)))
             for n in ("check_for_msn_groups_headers", "gated_through_received_hdr_remover")}
        d["oa.regex:Regex.search"] = Model(lambda v, f, a, k: matches(v, a, k))
        return d


def contracts():
    return [Forged(), ForgedRule("check_for_forged_received_trail", "mismatch_from", 1),
            ForgedRule("check_for_forged_received_ip_helo", "mismatch_ip_helo", 0), FreeStart(), ParseBody(), Forget(DKIM), Forget(SPF),
            Hotmail("check_for_forged_hotmail_received_headers"), Hotmail("check_for_no_hotmail_received_headers")]
