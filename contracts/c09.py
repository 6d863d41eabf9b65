"""C09: the network lists"""
from .common import *

PROPERTY = "C09"
MOD = "oa.networks:"
BASE = MOD + "NetworkListBase"
LIST = MOD + "NetworkList"
CTX = "oa.context:GlobalContext"
ENTRY = TupT(ObjT("Net"), Bool)

NET = {"Net": {"methods": {"__contains__": PyFn(lambda v, a, k: Sym("bool", v.uf("net_contains", v.term(a[0], ObjT("Net")), v.rec(
    a[1]).term if isinstance(a[1], Ref) else v.term(a[1]), BOOL)), "in")}}}


class Contains(SpecContract):
    """the first entry that contains the address decides, without one it is not accepted"""
    qual = BASE + ".__contains__"
    spec = '''
def run(self, query):
    for network, accepted in self._networks:
        if query in network:
            return accepted
    return False
'''

    def setup(self, v):
        return [obj(v, BASE, "list", _networks=new_list(v, ENTRY, "networks")), obj(v, "Address", "query")], {}

    def schemas(self):
        return dict(NET, Address={})


class Add(SpecContract):
    """an entry goes to the end"""
    qual = BASE + ".add"
    result = False
    spec = '''
def run(self, network, accepted):
    self._networks.append((network, accepted))
'''

    def setup(self, v):
        self.nets = new_list(v, ENTRY, "networks")
        self.me = obj(v, BASE, "list", _networks=self.nets)
        return [self.me, v.fresh(ObjT("Net"), "network"), v.fresh(Bool, "accepted")], {}

    def observe(self, v, a):
        return [("entries", v.getattr(self.me, "_networks"))]

    def schemas(self):
        return NET


class Reset(Contract):
    """a list starts (and starts again) with the entries that are always accepted, in a list of its own"""

    def __init__(self, fn, cls):
        self.cls = cls
        self.qual = BASE + "." + fn
        self.name = "%s[%s]" % (self.qual, cls)

    def setup(self, v):
        self.me = obj(v, MOD + self.cls, "list")
        if self.qual.endswith("clear"):
            v.setattr(self.me, "_networks", new_list(v, ENTRY, "networks"))
        self.before = {k for k in v.store if isinstance(k, int)}
        return [self.me], {}

    def ext(self):
        def net(v, a, k):
            return obj(v, "Net", "net", text=a[0])
        return {"ipaddress.ip_network": net}

    def schemas(self):
        return {"Net": {}}

    def post(self, v, a, old, out):
        no_exception(v, out)
        x = v.getattr(self.me, "_networks")
        v.check("a list", isinstance(x, Ref) and isinstance(v.rec(x), ListRec))
        items = v.rec(x).items
        want = [] if self.cls == "MSANetworks" else ["127.0.0.0/8", "::1"]
        v.check("exactly the entries that are always accepted", [
            isinstance(e, Tup) and v.getattr(e.items[0], "text").v for e in items] == want)
        v.check("each accepted", all(isinstance(e.items[1], Const) and e.items[1].v is True for e in items))
        v.check("a new list", x.id not in self.before and not any(
            isinstance(k, tuple) and k[0] == "classattr" and isinstance(y, Ref) and y.id == x.id for k, y in v.store.items()))


CONFIGURE = {
    "add_trusted_network": """
        self.trusted.configured = True
        self.trusted.add(network, accepted)
        if not self.internal.configured:
            self.internal.add(network, accepted)
""",
    "add_internal_network": """
        if not self.internal.configured:
            self.internal.clear()
        self.internal.configured = True
        self.internal.add(network, accepted)
        self.trusted.add(network, accepted)
""",
    "add_msa_network": """
        self.msa.add(network, accepted)
"""}


class Configure(SpecContract):
    """a valid entry is added to its list and to those it implies, in that order; an invalid one changes nothing"""
    result = False

    def __init__(self, fn):
        self.qual = self.name = "%s.%s" % (LIST, fn)
        self.spec = '''
def run(self, text, env):
    excluded, network = env.extract(text)
    if network is not None:
        accepted = not excluded
%s
''' % CONFIGURE[fn]

    def setup(self, v):
        mk = lambda n: obj(v, "List", n, configured=v.fresh(Bool, n + "_configured"), entries=new_list(v, ENTRY, n))
        self.lists = {n: mk(n) for n in ("internal", "trusted", "msa")}
        self.me = obj(v, LIST, "networks", log=obj(v, "Logger", "logger"), **self.lists)
        self.text = v.fresh(Str, "text")
        self.net = v.fresh(ObjT("Net"), "network")
        self.valid = v.fresh_term("valid", BOOL)
        self.excl = v.fresh(Str, "exclude")
        self.env = obj(v, "Env", "env")
        return [self.me, self.text], {}

    def spec_args(self, v, a):
        return a + [self.env]

    def observe(self, v, a):
        return [("%s of %s" % (f, n), v.getattr(x, f)) for n, x in self.lists.items() for f in ("entries", "configured")]

    def extract(self, v, text):
        v.check("the configured text is read", v.term(text, Str) == v.term(self.text, Str))
        return Tup((self.excl, self.net if v.decide(self.valid) else NONE))

    def schemas(self):
        def add(v, a, k):
            v.call_method(v.getattr(a[0], "entries"), "append", [Tup((a[1], a[2]))])
            return NONE

        def clear(v, a, k):
            v.setattr(a[0], "entries", empty_symlist(v, ENTRY))
            return NONE
        return {"Logger": {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error")}}, "Net": {},
                "List": {"methods": {"add": PyFn(add, "add"), "clear": PyFn(clear, "clear")}},
                "Env": {"methods": {"extract": PyFn(lambda v, a, k: self.extract(v, a[1]), "extract")}}}

    def uses(self):
        return {LIST + "._extract_network": Model(lambda v, f, a, k: self.extract(v, a[1]))}


class Configured(SpecContract):
    """the networks are configured when the internal or the trusted ones are"""
    qual = LIST + ".configured"
    spec = '''
def run(self):
    return self.internal.configured or self.trusted.configured
'''

    def setup(self, v):
        mk = lambda n: obj(v, "List", n, configured=v.fresh(Bool, n + "_configured"))
        return [obj(v, LIST, "networks", **{n: mk(n) for n in ("internal", "trusted", "msa")})], {}

    def schemas(self):
        return {"List": {}}


class Extract(SpecContract):
    """the text is read by the pattern, completed and parsed; what is not a network gives None"""
    qual = LIST + "._extract_network"
    trusts = ("oa.networks._NETWORK_RE and ipaddress.ip_network are functions of the text (exercised by the replay search)",)
    spec = '''
def run(self, text, env):
    m = env.match(text)
    if m is None:
        return "", None
    excluded, network, mask = m
    try:
        return excluded, env.network(env.complete(network, mask))
    except ValueError:
        return excluded, None
'''

    def setup(self, v):
        self.me = obj(v, LIST, "networks", log=obj(v, "Logger", "logger"))
        self.text = v.fresh(Str, "text")
        self.env = obj(v, "Env", "env")
        self.groups = Tup([Sym("str", v.uf("group%d" % i, v.term(self.text, Str), STR)) for i in range(3)])
        return [self.me, self.text], {}

    def spec_args(self, v, a):
        return a + [self.env]

    def match(self, v, text):
        v.check("the text is matched", v.term(text, Str) == v.term(self.text, Str))
        return v.decide(v.uf("matches", v.term(self.text, Str), BOOL))

    def network(self, v, text):
        t = v.term(text, Str)
        if not v.decide(v.uf("is_network", t, BOOL)):
            raise v.exc("ValueError")
        return Sym("str", v.uf("network", t, STR))

    def complete(self, v, n, m):
        return Sym("str", v.uf("completed", v.term(n, Str), v.term(m, Str), STR))

    def schemas(self):
        return {"Logger": {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error")}},
                "Regex": {"methods": {"match": PyFn(lambda v, a, k: obj(v, "Match", "match") if self.match(v, a[1]) else NONE, "match")}},
                "Match": {"methods": {"groups": PyFn(lambda v, a, k: self.groups, "groups")}},
                "Env": {"methods": {"match": PyFn(lambda v, a, k: self.groups if self.match(v, a[1]) else NONE, "match"),
                                    "network": PyFn(lambda v, a, k: self.network(v, a[1]), "network"),
                                    "complete": PyFn(lambda v, a, k: self.complete(v, a[1], a[2]), "complete")}}}

    def uses(self):
        return {MOD + "_format_network_str": Model(lambda v, f, a, k: self.complete(v, a[0], a[1]))}

    def ext(self):
        return {"global:oa.networks:_NETWORK_RE": lambda v: obj(v, "Regex", "network_re"),
                "ipaddress.ip_network": lambda v, a, k: self.network(v, a[0])}


class Format(SpecContract):
    """a mask is written after the address; a network of fewer than four parts is filled up, its parts being its mask"""
    qual = MOD + "_format_network_str"
    spec = '''
def run(network, mask):
    parts = len(network.split("."))
    if not network.endswith(".") and (parts == 3 or parts == 7) and "/" not in network:
        network = network + "."
    zeros = ""
    if network.endswith("."):
        zeros = ".".join(["0"] * (4 - network.count(".")))
        if mask == "":
            mask = network.count(".") * 8
            if mask == 0:
                return network + zeros
        return "%s%s/%s" % (network, zeros, mask)
    if mask == "":
        return network
    return "%s/%s" % (network, mask)
'''

    def setup(self, v):
        return [v.fresh(Str, "network"), v.fresh(Str, "mask")], {}


NETS = '''
def run(self, env):
    for x in self.conf["trusted_networks"]:
        env.trusted(x)
    for x in self.conf["internal_networks"]:
        env.internal(x)
    for x in self.conf["msa_networks"]:
        env.msa(x)
'''


class AddNetworks(SpecContract):
    """every configured entry is added, in the order of the configuration"""
    qual = CTX + "._add_networks"
    spec = NETS
    result = False

    def setup(self, v):
        names = ("trusted", "internal", "msa")
        self.conf = conf_dict(v, **{n + "_networks": ListT(Str) for n in names})
        self.log = obj(v, "Log", "log", **{n: empty_symlist(v, Str) for n in names})
        self.nets = obj(v, "Networks", "networks")
        self.me = obj(v, CTX, "ctxt", conf=self.conf, networks=self.nets)
        return [self.me], {}

    def spec_args(self, v, a):
        return a + [self.nets]

    def observe(self, v, a):
        return [("%s networks, in order" % n, v.getattr(self.log, n)) for n in ("trusted", "internal", "msa")]

    def schemas(self):
        def to(n):
            return PyFn(lambda v, a, k: v.call_method(v.getattr(self.log, n), "append", [a[1]]), n)
        ms = {}
        for n in ("trusted", "internal", "msa"):
            ms[n] = ms["add_%s_network" % n] = to(n)
        return {"Networks": {"methods": ms}}


def contracts():
    return [Contains(), Add(), Configured(), Extract(), Format(), AddNetworks()] + [Configure(f) for f in sorted(CONFIGURE)] + [
        Reset(f, c) for f in ("__init__", "clear") for c in ("InternalNetworks", "TrustedNetworks", "MSANetworks")]
