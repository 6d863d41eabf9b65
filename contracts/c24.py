"""C24: the DNS blocklist rules"""
from .common import *

PROPERTY = "C24"
DNS = "oa.plugins.dns_eval:DNSEval"
F = lambda f, n="f": PyFn(f, n)
IP = ObjT("IP")
ANSWER = ObjT("Answer")


class Lookup(object):
    trusts = ("the DNS answers are a function of the name and the record type; regular expressions and the ipaddress module are functions of their arguments",)
    enabled = z3.Const("rbl_checks_enabled", BOOL)

    def plugin(self, v):
        ctxt = obj(v, "Ctxt", "ctxt", log=obj(v, "Logger", "logger"), dns=obj(v, "Dns", "dns"), skip_rbl_checks=Sym("bool", z3.Not(self.enabled)))
        self.zones = v.fresh(DictT(Str, Str), "zones")
        return obj(v, DNS, "plugin", ctxt=ctxt, global_zones=self.zones)

    def message(self, v):
        self.ips = new_list(v, IP, "untrusted_ips")
        self.sender = v.fresh(Str, "sender")
        return obj(v, "Msg", "msg", sender_address=self.sender)

    def query(self, v, a, k):
        name, q = v.term(a[1], Str), v.term(a[2], Str) if len(a) > 2 else z3.StringVal("A")
        v.check("nothing is asked when the checks are disabled or the sub-test is invalid", self.may_ask(v))
        return self.answers(v, name, q)

    def answers(self, v, name, q):
        r = new_list(v, ANSWER, "answers")
        n = v.uf("answers_n", name, q, INT)
        v.assume(n >= 0)
        v.store[r.id] = SymList(n, v.uf("answers", name, q, v.rec(r).arr.sort()), ANSWER)
        return r

    def may_ask(self, v):
        return self.enabled

    def schemas(self):
        return {"Logger": LOG["Logger"], "Ctxt": LOG["Ctxt"], "Dns": {"methods": {"query": F(self.query), "reverse_ip": F(
            lambda v, a, k: Sym("str", v.uf("reversed", v.term(a[1]), STR)))}}, "IP": {}, "Answer": {},
            "Msg": {"methods": {"get_untrusted_ips": F(lambda v, a, k: self.ips)}}}


LOG = {"Logger": {"methods": {n: noop_method(n) for n in ("debug", "info", "warn", "warning", "error")}}, "Ctxt": {"methods": {"err": noop_method("err")}}}


def regex_valid(v, p):
    return v.uf("regex_valid", p, BOOL)


class Pattern(Lookup):
    def may_ask(self, v):
        if isinstance(self.subtest, Const):
            return self.enabled
        return z3.And(self.enabled, regex_valid(v, v.term(self.subtest)))

    def uses(self):
        def compile(v, f, a, k):
            if not v.decide(regex_valid(v, v.term(v.getattr(a[0], "pattern"), Str))):
                raise v.exc("re.error")
            return obj(v, "Compiled", "compiled", pattern=v.getattr(a[0], "pattern"))
        return {"oa.regex:Regex.compile": Model(compile)}

    def schemas(self):
        return dict(Lookup.schemas(self), Compiled={"methods": {"match": F(lambda v, a, k: Sym("bool", v.uf("matches", v.term(v.getattr(a[0], "pattern"), Str), v.term(
            a[1], Str), BOOL)))}})


class Exists(Lookup):
    """some tested element is listed with a good answer"""
    qtype = "A"

    def asked(self, v, k):
        """the name asked for the k-th element"""
        return z3.Concat(v.uf("reversed", sel(v.rec(self.ips).arr, k), STR), z3.StringVal("."), v.term(self.server))

    def tested(self, v):
        return v.rec(self.ips).n

    def hit(self, v, k, j):
        """answer j for element k exists and is good"""
        r = v.rec(self.answers(v, self.asked(v, k), z3.StringVal(self.qtype) if isinstance(self.qtype, str) else v.term(self.qtype)))
        good = self.good(v, sel(r.arr, j))
        return z3.And(j == 0, r.n > 0) if z3.is_true(good) else z3.And(j >= 0, j < r.n, good)

    def candidates(self, v, L):
        if L.kind != "for":
            return
        k, j = z3.Ints("k j")
        yield "nothing so far is listed", z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < L.i), z3.Not(self.hit(v, k, j))))
        if v.idx:
            yield "no answer so far is good", z3.ForAll([j], z3.Implies(j < L.i, z3.Not(self.hit(v, v.idx[0], j))))

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind == "return":
            k, j = z3.Ints("k j")
            listed = z3.Exists([k, j], z3.And(k >= 0, k < self.tested(v), self.hit(v, k, j)))
            v.check("listed", v.truth(out.value) == z3.And(self.may_ask(v), listed))


class Rbl(Pattern, Exists, Contract):
    """some untrusted address is listed with an answer that satisfies the sub-test; nothing is asked when the checks are disabled or the sub-test is invalid"""
    qual = DNS + "._check_rbl"

    def __init__(self, sub):
        self.sub = sub
        self.name = "%s[%s]" % (self.qual, "sub-test" if sub else "no sub-test")

    def setup(self, v):
        self.subtest = v.fresh(Str, "subtest") if self.sub else NONE
        self.server, self.qtype = v.fresh(Str, "server"), v.fresh(Str, "qtype")
        return [self.plugin(v), self.message(v), self.server, self.qtype, self.subtest], {}

    def good(self, v, x):
        return v.uf("matches", v.term(self.subtest), v.uf("str_obj", x, STR), BOOL) if self.sub else z3.BoolVal(True)


class RblAddr(Rbl):
    """the domain of some address is listed with an answer that satisfies the sub-test; nothing is asked when the checks are disabled or the sub-test is
    invalid"""
    qual = DNS + "._check_rbl_addr"
    qtype = "A"

    def setup(self, v):
        self.subtest = v.fresh(Str, "subtest") if self.sub else NONE
        self.server, self.addresses = v.fresh(Str, "server"), new_list(v, ObjT("MailAddress"), "addresses")
        return [self.plugin(v), self.addresses, self.server, self.subtest], {}

    def tested(self, v):
        return v.rec(self.addresses).n

    def asked(self, v, k):
        return z3.Concat(self.domain(v, sel(v.rec(self.addresses).arr, k)), z3.StringVal("."), v.term(self.server))

    def domain(self, v, x):
        """what follows the last @ (all of it without one), stripped"""
        return v.uf("domain", x, STR)

    def schemas(self):
        def split(v, a, k):
            v.check("split at @", v.eq(a[1], Const("@")))
            v.check("split at the last @", v.eq(a[2], Const(1)))
            if not v.decide(v.uf("has_at", v.term(a[0]), BOOL)):
                return v.alloc(ListRec([a[0]]))
            return v.alloc(ListRec([v.fresh(Str, "user"), v.from_term(v.uf("after_at", v.term(a[0]), OBJ), ObjT("Domain"))]))

        def strip(v, a, k):
            t = v.term(a[0])
            after = t.decl().name() == "after_at"
            if not after and v.decide(v.uf("has_at", t, BOOL)):
                return Sym("str", v.uf("stripped", t, STR))
            return Sym("str", self.domain(v, t.arg(0) if after else t))
        return dict(Rbl.schemas(self), MailAddress={"methods": {"__contains__": F(lambda v, a, k: v.check("looks for @", v.eq(a[1], Const("@"))) or Sym(
            "bool", v.uf("has_at", v.term(a[0]), BOOL))), "rsplit": F(split), "strip": F(strip)}}, Domain={"methods": {"strip": F(strip)}})


class Mask(Exists, Contract):
    """some untrusted address is listed with an answer that has one of the bits of the mask (a number, or the bits of an address); nothing is asked when the
    checks are disabled or the mask is invalid"""
    qual = DNS + "._check_multi_rbl"

    def __init__(self, kind):
        self.kind = kind
        self.name = "%s[%s]" % (self.qual, kind)

    def setup(self, v):
        self.mask = {"no mask": lambda: NONE, "number": lambda: v.fresh(Int, "mask"), "text": lambda: v.fresh(Str, "mask")}[self.kind]()
        self.server = v.fresh(Str, "server")
        return [self.plugin(v), self.message(v), self.server, self.mask], {}

    def bits(self, v):
        if self.kind == "number":
            return v.term(self.mask)
        t = v.term(self.mask)
        return z3.If(v.uf("int_ok", t, BOOL), v.uf("int_of", t, INT), v.uf("ip_bits", v.uf("address", t, OBJ), INT))

    def may_ask(self, v):
        if self.kind != "text":
            return self.enabled
        t = v.term(self.mask)
        return z3.And(self.enabled, z3.Or(v.uf("int_ok", t, BOOL), v.uf("is_address", t, BOOL)))

    def good(self, v, x):
        if self.kind == "no mask":
            return z3.BoolVal(True)
        b = self.bits(v)
        # no bits asked for: any answer
        return z3.Or(b == 0, v.uf("int.BitAnd", v.uf("ip_bits", v.uf("address", v.uf("str_obj", x, STR), OBJ), INT), b, INT) != 0)

    def ext(self):
        def address(v, a, k):
            t = v.term(a[0], Str)
            # the answers are addresses
            if t.decl().name() != "str_obj" and not v.decide(v.uf("is_address", t, BOOL)):
                raise v.exc("ValueError")
            return v.from_term(v.uf("address", t, OBJ), ObjT("Address"))
        return {"ipaddress.ip_address": address}

    def schemas(self):
        x, y = z3.Ints("x y")
        return dict(Exists.schemas(self), Address={"methods": {"__int__": F(lambda v, a, k: Sym("int", v.uf("ip_bits", v.term(a[0]), INT)))}})


class Rule(Lookup, TraceContract):
    """the rule looks up what it is about, with its own list and sub-test"""
    fields = ("server", "qtype", "subtest")

    def __init__(self, fn, spec, args, doc=None):
        self.qual = self.name = DNS + "." + fn
        self.spec, self.args = spec, args
        self.__doc__ = doc or self.__doc__

    def setup(self, v):
        return [self.plugin(v), self.message(v)] + [v.fresh(Opt(Str) if n == "subtest?" else Str, n.strip("?")) for n in self.args], {}

    def found(self, v, tag, *args):
        self.emit(v, tag, *args)
        return Sym("bool", v.uf(tag, *([v.term(x, Opt(Str)) for x in args if not isinstance(x, Ref)] + [BOOL])))

    def uses(self):
        def args(a, k, names, defaults):
            d = dict(zip(names, a[1:]))
            d.update(k)
            return [d.get(n, x) for n, x in zip(names, defaults)]
        return {DNS + "._check_rbl": Model(lambda v, f, a, k: self.found(v, "ips listed", *args(a, k, ("msg", "rbl_server", "qtype", "subtest"), (
                    None, None, Const("A"), NONE)))),
                DNS + "._check_rbl_addr": Model(lambda v, f, a, k: self.found(v, "addresses listed", *args(a, k, ("addresses", "rbl_server", "subtest"), (
                    None, None, NONE)))),
                DNS + "._check_multi_rbl": Model(lambda v, f, a, k: self.found(v, "bits listed", *args(a, k, ("msg", "rbl_server", "mask"), (None, None, NONE)))),
                "oa.conf:Conf.__getitem__": Model(lambda v, f, a, k: v.getattr(a[0], "global_" + a[1].v)),
                "oa.conf:Conf.get_global": Model(lambda v, f, a, k: v.getattr(a[0], "global_" + a[1].v))}

    def query(self, v, a, k):
        self.emit(v, "asks", a[1], a[2] if len(a) > 2 else Const("A"))
        return self.answers(v, v.term(a[1], Str), v.term(a[2], Str) if len(a) > 2 else z3.StringVal("A"))

    def schemas(self):
        d = Lookup.schemas(self)
        d["Msg"]["methods"]["get_addr_header"] = F(lambda v, a, k: self.header(v, a[1]))
        return d

    def header(self, v, name):
        r = new_list(v, Str, "addresses")
        n = v.uf("header_n", v.term(name), INT)
        v.assume(n >= 0)
        v.store[r.id] = SymList(n, v.uf("header", v.term(name), v.rec(r).arr.sort()), Str)
        return r


RULES = [
    Rule("check_rbl", """
def run(self, msg, zone, server, subtest):
    return self._check_rbl(msg, server, "A", subtest)
""", ("zone", "server", "subtest?")),
    Rule("check_rbl_txt", """
def run(self, msg, zone, server, subtest):
    return self._check_rbl(msg, server, "TXT", subtest)
""", ("zone", "server", "subtest?")),
    Rule("check_rbl_envfrom", """
def run(self, msg, zone, server, subtest):
    if not msg.sender_address:
        return False
    return self._check_rbl_addr([msg.sender_address], server, subtest)
""", ("zone", "server", "subtest?")),
    Rule("check_rbl_from_domain", """
def run(self, msg, zone, server, subtest):
    if not msg.get_addr_header("From"):
        return False
    return self._check_rbl_addr(msg.get_addr_header("From"), server, subtest)
""", ("zone", "server", "subtest?")),
    Rule("check_rbl_sub", """
def run(self, msg, zone, subtest):
    if zone not in self["zones"]:
        return False
    return self._check_multi_rbl(msg, self["zones"][zone], subtest)
""", ("zone", "subtest")),
    Rule("check_dns_sender", """
def run(self, msg):
    sender = msg.sender_address
    if not sender:
        return False
    domain = sender.rsplit("@", 1)[1] if "@" in sender else sender
    return not self.ctxt.dns.query(domain, "A") and not self.ctxt.dns.query(domain, "MX")
""", (), "a sender is unresolvable exactly when its domain has neither address nor mail-exchanger records"),
]


class Untrusted(SpecContract):
    """the untrusted addresses are those of the relays, in order, that are in no trusted network"""
    qual = "oa.message:Message.get_untrusted_ips"
    spec = '''
def run(self):
    return [ip for ip in self.get_header_ips() if ip not in self.ctxt.networks.trusted]
'''

    def setup(self, v):
        self.ips = new_list(v, IP, "ips")
        return [obj(v, "oa.message:Message", "msg", ctxt=obj(v, "Ctxt", "ctxt", networks=obj(v, "Networks", "networks", trusted=obj(v, "Trusted", "trusted"))))], {}

    def uses(self):
        return {"oa.message:Message.get_header_ips": Model(lambda v, f, a, k: self.ips)}

    def schemas(self):
        return {"Ctxt": {}, "Networks": {}, "IP": {}, "Trusted": {"methods": {"__contains__": F(lambda v, a, k: Sym("bool", v.uf("trusted", v.term(a[1]), BOOL)))}}}


class HeaderIps(SpecContract):
    """the addresses of the relays that have one, in order"""
    qual = "oa.message:Message.get_header_ips"
    trusts = ("the ipaddress module is a function of its argument; the parser leaves only valid addresses",)
    spec = '''
def run(self, address):
    out = []
    for header in self.received_headers:
        if header["ip"]:
            out.append(address(header["ip"]))
    return out
'''

    def setup(self, v):
        return [obj(v, "oa.message:Message", "msg", received_headers=new_list(v, ObjT("Relay"), "relays"))], {}

    def address(self, v, a, k):
        return v.from_term(v.uf("address", v.term(a[0], Str), OBJ), IP)

    def spec_args(self, v, a):
        return a + [F(self.address)]

    def ext(self):
        return {"ipaddress.ip_address": self.address}

    def schemas(self):
        return {"IP": {}, "Relay": {"methods": {n: F(lambda v, a, k: Sym("str", v.uf("relay_" + a[1].v, v.term(a[0]), STR))) for n in ("__getitem__", "get")}}}


class Zones(Contract):
    """a zone names the list of the last rule that defines it"""
    qual = name = DNS + ".finish_parsing_end"
    trusts = ("the zone is the part of the argument before the dash, a function of the text",)
    RULE = "oa.rules.eval_:EvalRule"
    NAMES = ("check_rbl", "check_rbl_txt", "check_rbl_envfrom", "check_rbl_from_host", "check_rbl_from_domain", "check_rbl_accreditor")

    def setup(self, v):
        self.lists = [new_list(v, ObjT(self.RULE), n + "_rules") for n in ("checked", "not_checked")]
        lists = {n: obj(v, "Rules", n, all=x) for n, x in zip(("checked", "not_checked"), self.lists)}
        self.me = obj(v, DNS, "plugin", global_zones=v.fresh(DictT(Str, Str), "zones"))
        return [self.me, obj(v, "Ruleset", "ruleset", **lists)], {}

    def rule(self, v, x):
        """(names a list, zone, list) of a rule"""
        r = v.from_term(x, ObjT(self.RULE))
        name, args = v.term(v.getattr(r, "eval_rule_name"), Str), v.term(v.getattr(r, "eval_args"))
        return z3.Or(*[name == z3.StringVal(n) for n in self.NAMES]), v.uf("zone", v.uf("zone_argument", args, OBJ), STR), v.uf("server", args, STR)

    def at(self, v, which, i, start=None):
        """(the zones defined, their lists) after the first i rules of a list, by recursion"""
        arr = v.rec(self.lists[which]).arr
        B, A = z3.ArraySort(STR, BOOL), z3.ArraySort(STR, STR)
        f = lambda n, t, s: v.uf("zones_%s_%d" % (n, which), arr, t, s)
        has, val, has0, val0 = f("has", i, B), f("val", i, A), f("has", i - 1, B), f("val", i - 1, A)
        if which == 0:
            base = (z3.K(STR, z3.BoolVal(False)), val if start is None else start)
        else:
            n = v.rec(self.lists[0]).n
            base = [v.uf("zones_%s_0" % m, v.rec(self.lists[0]).arr, n, s) for m, s in (("has", B), ("val", A))]
        names, zone, server = self.rule(v, sel(arr, i - 1))
        v.assume(z3.If(i <= 0, z3.And(has == base[0], val == base[1]), z3.And(has == z3.If(names, z3.Store(has0, zone, True), has0),
                                                                           val == z3.If(names, z3.Store(val0, zone, server), val0))))
        return has, val

    def candidates(self, v, L):
        if L.kind != "for":
            return
        for n, y in sorted(v.store[v.env].vars.items()):
            r = v.rec(y) if isinstance(y, Ref) else None
            for w in (0, 1):
                if isinstance(r, SymDict) and r.kt.k == "str":
                    has, val = self.at(v, w, L.i, r.val)
                    yield "%s are the zones of list %d so far" % (n, w), z3.And(r.has == has, r.val == val)
                elif isinstance(r, DictRec) and not r.items:
                    yield "%s are the zones of list %d so far" % (n, w), self.at(v, w, L.i)[0] == z3.K(STR, z3.BoolVal(False))

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        n = v.rec(self.lists[1]).n
        self.at(v, 0, v.rec(self.lists[0]).n)
        has, val = self.at(v, 1, n)
        d = v.rec(v.getattr(self.me, "global_zones"))
        if isinstance(d, DictRec):
            v.check("no zones", z3.And(len(d.items) == 0, has == z3.K(STR, z3.BoolVal(False))))
        else:
            k = z3.String("zone")
            v.check("the zones defined", z3.ForAll([k], z3.Select(d.has, k) == z3.Select(has, k)))
            v.check("their lists", z3.ForAll([k], z3.Implies(z3.Select(has, k), z3.Select(d.val, k) == z3.Select(val, k))))

    def zone(self, v, t):
        return Sym("str", v.uf("zone", t, STR))

    def uses(self):
        def set_global(v, f, a, k):
            v.setattr(a[0], "global_" + a[1].v, a[2])
            return NONE
        return {"oa.conf:Conf.__setitem__": Model(set_global), "oa.conf:Conf.set_global": Model(set_global),
                "oa.plugins.base:BasePlugin.finish_parsing_end": Model(lambda v, f, a, k: NONE)}

    def schemas(self):
        def part(v, a, k):
            v.check("the first part", v.eq(a[1], Const(0)))
            return v.from_term(v.uf("before_dash", v.term(a[0]), OBJ), ObjT("Part"))

        def split(v, a, k):
            v.check("split at the dash", v.eq(a[1], Const("-")))
            return a[0]

        def arg(v, a, k):
            t = v.term(a[0])
            return v.from_term(v.uf("zone_argument", t, OBJ), ObjT("ZoneArg")) if v.decide(v.eq(a[1], Const(0))) else Sym("str", v.uf("server", t, STR))
        return {"Ruleset": {}, "Rules": {"methods": {"values": F(lambda v, a, k: v.getattr(a[0], "all"))}},
                self.RULE: {"fields": {"eval_rule_name": Str, "eval_args": ObjT("Args")}}, "Args": {"methods": {"__getitem__": F(arg)}},
                "ZoneArg": {"methods": {"rsplit": F(split), "split": F(split), "__getitem__": F(part)}},
                "Part": {"methods": {"strip": F(lambda v, a, k: self.zone(v, v.term(a[0]).arg(0)))}}}


class Accreditor(Rule):
    """the addresses are looked up exactly when the sender or an Accreditor header names the accreditor"""

    def __init__(self):
        Rule.__init__(self, "check_rbl_accreditor", """
def run(self, msg, zone, server, subtest, accreditor, tagged, tag):
    tags = []
    if tagged:
        tags.append(tag)
    for header in msg.get_decoded_header("Accreditor"):
        for part in header.split(";"):
            tags.append(part.split(",")[0].strip())
    if accreditor not in tags:
        return False
    return self._check_rbl(msg, server, "A", subtest)
""", ("zone", "server", "subtest", "accreditor"), self.__doc__)

    def setup(self, v):
        a = Rule.setup(self, v)
        self.headers = new_list(v, ObjT("Header"), "headers")
        self.tagged = v.fresh(Bool, "tagged")
        return a

    def spec_args(self, v, a):
        return a + [self.tagged, self.tag(v)]

    def tag(self, v):
        return Sym("str", v.uf("sender_tag", v.term(self.sender), STR))

    def ext(self):
        return {"global:oa.plugins.dns_eval:ACCREDITOR_RE": lambda v: obj(v, "AccRe", "accreditor_re")}

    def schemas(self):
        def search(v, a, k):
            v.check("the sender", v.eq(a[1], self.sender))
            return obj(v, "Match", "match") if v.decide(v.term(self.tagged)) else NONE

        def split(v, a, k):
            v.check("the parts of a header", v.eq(a[1], Const(";")))
            h = v.term(a[0])
            r = new_list(v, ObjT("Part"), "parts")
            n = v.uf("parts_n", h, INT)
            v.assume(n >= 1)
            v.store[r.id] = SymList(n, v.uf("parts", h, v.rec(r).arr.sort()), ObjT("Part"))
            return r

        def first(v, a, k):
            v.check("the first item", v.eq(a[1], Const(0)))
            return a[0]
        d = Rule.schemas(self)
        d["Msg"]["methods"]["get_decoded_header"] = F(lambda v, a, k: v.check("the header", v.eq(a[1], Const("Accreditor"))) or self.headers)
        d.update({"AccRe": {"methods": {"search": F(search)}}, "Match": {"methods": {"groups": F(lambda v, a, k: v.alloc(ListRec([self.tag(v)])))}},
                  "Header": {"methods": {"split": F(split)}}, "Part": {"methods": {"split": F(lambda v, a, k: v.check("the items of a part", v.eq(a[1], Const(
                      ","))) or a[0]), "__getitem__": F(first), "strip": F(lambda v, a, k: Sym("str", v.uf("tag_of", v.term(a[0]), STR)))}}})
        return d


def contracts():
    return [Rbl(False), Rbl(True), RblAddr(False), RblAddr(True), Mask("no mask"), Mask("number"), Mask("text")] + RULES + [Untrusted(), HeaderIps(), Zones(), Accreditor()]
