"""C17: address lists, white list states"""
from .common import *

PROPERTY = "C17"
PLUGIN = "oa.plugins.wlbl_eval:WLBLEvalPlugin"
ADDR, PAT, DOM = ObjT("Address"), ObjT("Pattern"), ObjT("Domain")
RELAY = ObjT("Relay")
PATS, ADDRS = ListT(PAT), ListT(ADDR)

F = lambda fn: PyFn(fn, "model")


def matches(v, p, a, nocase=False):
    return v.uf("matches_nocase" if nocase else "matches", p, a, BOOL)


def lists_of(v, name):
    return v.from_term(v.uf("patterns_of", v.term(name, Str), sort_of(PATS)), PATS, snap=False)


def starred(v, a, k):
    v.check("the stars of a pattern stand for anything", v.eq(a[1], Const("*")) is True and v.eq(a[2], Const(".*")) is True)
    return v.from_term(v.uf("starred", v.term(a[0], PAT), OBJ), PAT)


def addresses(v, side):
    return v.from_term(z3.Const("addresses_" + side, sort_of(ADDRS)), ADDRS, snap=False)


STATE = {"from_in_whitelist": "local_from_in_whitelist", "from_in_default_whitelist": "local_from_in_default_whitelist"}


class Lists(object):
    """The lists of the configuration as functions of their name, the local state as fields of the message"""

    def schemas(self):
        return {"Address": {"methods": {"lower": F(lambda v, a, k: v.from_term(v.uf("lower", v.term(a[0]), OBJ), ADDR))}},
                "Pattern": {"methods": {"replace": F(starred)}}, "Domain": {}, "Relay": {}, "Entry": {}, "Msg": {"methods": {
                    "get_%s_addresses" % s: F(lambda v, a, k, s=s: addresses(v, s)) for s in ("from", "to")}},
                "Env": {"methods": {
                    "matches": F(lambda v, a, k: Sym("bool", matches(v, v.term(a[1], PAT), v.term(a[2], ADDR)))),
                    "patterns": F(lambda v, a, k: lists_of(v, a[1])),
                    "listed": F(lambda v, a, k: self.listed(v, a[1], a[2])),
                    "get": F(lambda v, a, k: v.getattr(a[1], STATE[a[2].v])),
                    "set": F(lambda v, a, k: v.setattr(a[1], STATE[a[2].v], a[3]) or NONE),
                    "search": F(lambda v, a, k: self.search(v, "check_in_list", "from_in_whitelist", a[1:])),
                    "search_default": F(lambda v, a, k: self.search(v, "check_in_default_whitelist", "from_in_default_whitelist", a[1:])),
                }}}

    def listed(self, v, ads, name):
        return Sym("bool", v.uf("address_listed", v.term(ads, ADDRS), v.term(name, Str), BOOL))

    def search(self, v, fn, state, a):
        """the state after the search is a function of the addresses, the list and the state before"""
        msg, ads, name = a
        t = v.uf(fn, v.term(ads, ADDRS), v.term(name, Str), v.term(v.getattr(msg, STATE[state]), Int), INT)
        v.setattr(msg, STATE[state], Sym("int", t))
        return Sym("bool", v.uf(fn + "_hit", v.term(ads, ADDRS), v.term(name, Str), BOOL))

    def uses(self):
        def search(v, f, a, k):
            flags = v.getattr(a[0], "flags")
            nocase = not (isinstance(flags, Const) and flags.v == 0)
            if nocase:
                v.check("the only flag is re.I", repr(flags) in ("Ext(re.I)", "Ext(re.IGNORECASE)"))
            return Sym("bool", matches(v, v.term(v.getattr(a[0], "pattern"), PAT), v.term(a[1], ADDR), nocase))

        def set_local(v, f, a, k):
            v.setattr(a[1], STATE[a[2].v], a[3])
            return NONE
        get = Model(lambda v, f, a, k: lists_of(v, a[1]))
        return {"oa.regex:Regex.search": Model(search), "oa.conf:Conf.get_local": Model(lambda v, f, a, k: v.getattr(a[1], STATE[a[2].v])),
                "oa.conf:Conf.set_local": Model(set_local), "oa.conf:Conf.__getitem__": get, "oa.conf:Conf.get_global": get,
                PLUGIN + ".check_whitelist_rcvd": Model(lambda v, f, a, k: Sym("int", v.uf(
                    "relay_state", v.term(a[2], Str), v.term(a[3], ADDR), INT)))}

    def message(self, v):
        return obj(v, "Msg", "msg", **{f: v.fresh(Int, f) for f in STATE.values()})


def int_vars(v):
    """the local variables that hold a number"""
    for n, y in sorted(v.store[v.env].vars.items()):
        if isinstance(y, Const) and type(y.v) is int:
            yield n, z3.IntVal(y.v)
        elif isinstance(y, Sym) and y.t.sort() == INT:
            yield n, y.t


class Listed(Lists, SpecContract):
    """some address matches some pattern of the list"""
    qual = PLUGIN + ".check_address_in_list"
    spec = '''
def run(self, addresses, name, env):
    for address in addresses:
        for pattern in env.patterns(name):
            if env.matches(pattern, address):
                return True
    return False
'''

    def setup(self, v):
        self.addresses, self.list_name = new_list(v, ADDR, "addresses"), v.fresh(Str, "list_name")
        return [obj(v, PLUGIN, "plugin"), self.addresses, self.list_name], {}

    def candidates(self, v, L):
        ads, pats = v.rec(self.addresses), v.rec(lists_of(v, self.list_name))
        if L.kind != "for":
            return
        m = lambda a, k: matches(v, sel(pats.arr, k), a)
        if not v.idx:
            yield "no address before is listed", forall(v, [INT, INT], lambda j, k: z3.Implies(z3.And(
                rng(0, j, L.i), rng(0, k, pats.n)), z3.Not(m(sel(ads.arr, j), k))), lambda j, k: [m(sel(ads.arr, j), k)])
        else:
            a = sel(ads.arr, v.idx[0])
            yield "no pattern before matches", forall(v, [INT], lambda k: z3.Implies(rng(0, k, L.i), z3.Not(m(a, k))), lambda k: [m(a, k)])

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]


class Sender(Lists, Contract):
    """The state of a sender list: 1 and a hit exactly when an address is listed or its relay confirms it, otherwise -1
    when an address is forged, otherwise as it was (default list: 0).

    good(a): the address is listed or confirmed; hit, forged: some address of the message is good, is forged"""

    def __init__(self, fn):
        self.qual = self.name = PLUGIN + "." + fn
        self.default = fn == "check_in_default_whitelist"
        self.state = STATE["from_in_default_whitelist" if self.default else "from_in_whitelist"]

    def setup(self, v):
        self.list_name = v.fresh(Str, "list_name")
        self.ads = new_list(v, ADDR, "addresses")
        self.msg = self.message(v)
        self.other = [f for f in STATE.values() if f != self.state][0]
        A, P = v.rec(self.ads), v.rec(lists_of(v, self.list_name))
        rel = z3.StringVal("parsed_whitelist_from_rcvd") if not self.default else v.term(self.list_name, Str)
        self.relay = relay = lambda a: v.uf("relay_state", rel, a, INT)
        m = lambda a, k: matches(v, sel(P.arr, k), a)
        self.good = good = z3.Function("good", OBJ, BOOL)
        self.hit, self.forged = z3.Bool("hit"), z3.Bool("forged")
        w, W, X, ax = z3.Function("w", OBJ, INT), z3.Int("W"), z3.Int("X"), v.assume
        if self.default:
            ax(forall(v, [OBJ], lambda a: good(a) == (relay(a) == 1), lambda a: [relay(a)]))
        else:
            ax(forall(v, [OBJ], lambda a: z3.Implies(good(a), z3.Or(relay(a) == 1, z3.And(rng(0, w(a), P.n), m(a, w(a))))), lambda a: [good(a)]))
            ax(forall(v, [OBJ], lambda a: z3.Implies(relay(a) == 1, good(a)), lambda a: [relay(a)]))
            ax(forall(v, [OBJ, INT], lambda a, k: z3.Implies(z3.And(rng(0, k, P.n), m(a, k)), good(a)), lambda a, k: [m(a, k)]))
        ax(z3.Implies(self.hit, z3.And(rng(0, W, A.n), good(sel(A.arr, W)))))
        ax(forall(v, [INT], lambda j: z3.Implies(z3.And(rng(0, j, A.n), good(sel(A.arr, j))), self.hit), lambda j: [sel(A.arr, j)]))
        ax(z3.Implies(self.forged, z3.And(rng(0, X, A.n), relay(sel(A.arr, X)) == -1)))
        ax(forall(v, [INT], lambda j: z3.Implies(z3.And(rng(0, j, A.n), relay(sel(A.arr, j)) == -1), self.forged), lambda j: [sel(A.arr, j)]))
        self.s0 = z3.IntVal(0) if self.default else v.term(v.getattr(self.msg, self.state), Int)
        self.o0 = v.term(v.getattr(self.msg, self.other), Int)
        self.f0 = v.term(v.getattr(self.msg, self.state), Int)
        return [obj(v, PLUGIN, "plugin"), self.msg, self.ads, self.list_name], {}

    def candidates(self, v, L):
        A, P = v.rec(self.ads), v.rec(lists_of(v, self.list_name))
        if L.kind != "for":
            return
        x = lambda j: sel(A.arr, j)
        cur = v.term(v.getattr(self.msg, self.state), Int)
        yield "other state", v.term(v.getattr(self.msg, self.other), Int) == self.o0
        yield "state untouched", cur == self.f0
        i = v.idx[0] if v.idx else L.i
        none = forall(v, [INT], lambda j: z3.Implies(rng(0, j, i), self.relay(x(j)) != -1), lambda j: [x(j)])
        yield "no address before is good", forall(v, [INT], lambda j: z3.Implies(rng(0, j, i), z3.Not(self.good(x(j)))), lambda j: [x(j)])
        if v.idx:
            m = lambda k: matches(v, sel(P.arr, k), x(i))
            yield "no pattern before matches", forall(v, [INT], lambda k: z3.Implies(rng(0, k, L.i), z3.Not(m(k))), lambda k: [m(k)])
        ints = [("state", cur, self.s0)] + [(n, t, z3.IntVal(0)) for n, t in int_vars(v)]
        for n, t, zero in ints:
            yield "forged so far: " + n, z3.Or(z3.And(t == zero, none), z3.And(t == -1, self.forged))

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        v.check("hits exactly when an address is listed or confirmed", v.truth(out.value) == self.hit)
        v.check("the state of the message", v.term(v.getattr(self.msg, self.state), Int) == z3.If(self.hit, 1, z3.If(
            self.forged, -1, self.s0)))
        v.check("the other state is left alone", v.term(v.getattr(self.msg, self.other), Int) == self.o0)


STATES = '''
def run(self, msg, name, env):
    if env.get(msg, name) == 0:
        if name == "from_in_whitelist":
            env.search(msg, msg.get_from_addresses(), "parsed_whitelist_from")
        else:
            env.search_default(msg, msg.get_from_addresses(), "parsed_def_whitelist_from_rcvd")
    return env.get(msg, name) > 0
'''
FORGED = '''
def run(self, msg, target, env):
    if env.get(msg, "from_in_whitelist") == 0:
        env.search(msg, msg.get_from_addresses(), "parsed_whitelist_from")
    if env.get(msg, "from_in_default_whitelist") == 0:
        env.search_default(msg, msg.get_from_addresses(), "parsed_def_whitelist_from_rcvd")
    return env.get(msg, "from_in_whitelist") %s 0 and env.get(msg, "from_in_default_whitelist") %s 0
'''
LIST = '''
def run(self, msg, target, env):
    return env.listed(msg.get_%s_addresses(), "parsed_%s")
'''
WHITE = STATES.replace("msg, name, env", "msg, target, env").replace("    if env", '    name = "%s"\n    if env', 1)


class Test(Lists, SpecContract):
    """a test of the plugin searches the list it is named for, with the addresses of its side"""
    specs = {"check_forged_in_whitelist": FORGED % ("<", "=="), "check_forged_in_default_whitelist": FORGED % ("==", "<"),
             "check_from_in_whitelist": WHITE % "from_in_whitelist", "check_from_in_default_whitelist": WHITE % "from_in_default_whitelist",
             "check_to_in_whitelist": LIST % ("to", "whitelist_to"), "check_from_in_blacklist": LIST % ("from", "blacklist_from"),
             "check_to_in_blacklist": LIST % ("to", "blacklist_to"), "check_to_in_all_spam": LIST % ("to", "all_spam_to"),
             "check_to_in_more_spam": LIST % ("to", "more_spam_to"),
             "check_from_in_list": '''
def run(self, msg, name, target, env):
    return len(name) > 0 and env.listed(msg.get_from_addresses(), "parsed_" + name)
''', "check_to_in_list": '''
def run(self, msg, name, target, env):
    return env.listed(msg.get_to_addresses(), "parsed_" + name)
'''}

    def __init__(self, fn):
        self.qual = self.name = PLUGIN + "." + fn
        self.fn = fn
        self.spec = self.specs[fn]

    def setup(self, v):
        self.msg = self.message(v)
        a = [obj(v, PLUGIN, "plugin"), self.msg]
        return a + ([v.fresh(Str, "list_name")] if self.fn.endswith("in_list") else []) + [NONE], {}

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]

    def observe(self, v, a):
        return [(f, v.getattr(self.msg, f)) for f in sorted(STATE.values())]

    def uses(self):
        d = super().uses()
        d[PLUGIN + ".check_address_in_list"] = Model(lambda v, f, a, k: self.listed(v, a[1], a[2]))
        d[PLUGIN + ".check_in_list"] = Model(lambda v, f, a, k: self.search(v, "check_in_list", "from_in_whitelist", a[1:]))
        d[PLUGIN + ".check_in_default_whitelist"] = Model(lambda v, f, a, k: self.search(
            v, "check_in_default_whitelist", "from_in_default_whitelist", a[1:]))
        return d


class Confirmed(Lists, Contract):
    """1 exactly when a listed pattern matches the address and one of its relays is confirmed by the relays of the message
    (the first untrusted one, or else all trusted ones); otherwise, for an address some pattern matches, -1 unless it
    is allowed to use other relays.

    (For an address that no pattern matches, 0 is not required: known finding.)"""
    qual = name = PLUGIN + ".check_whitelist_rcvd"

    def setup(self, v):
        self.table = new_dict(v, PAT, ListT(DOM), "list")
        self.D = D = v.rec(self.table)
        self.list_name, self.address = v.fresh(Str, "list_name"), v.fresh(ADDR, "address")
        self.R = {n: new_list(v, RELAY, n) for n in ("untrusted", "trusted")}
        la = v.uf("lower", self.address.t if hasattr(self.address, "t") else v.term(self.address, ADDR), OBJ)
        self.m = m = lambda i: matches(v, v.uf("starred", self.key(i), OBJ), la, True)
        self.rcvd = rcvd = lambda d: v.uf("rcvd", d, BOOL)
        self.hit, self.listed = z3.Bool("hit"), z3.Bool("listed")
        I, K, J, M = z3.Ints("I K J M")
        dom, ax = self.dom, v.assume
        ax(forall(v, [OBJ], lambda d: v.uf("a_domain", d, BOOL), lambda d: [v.uf("a_domain", d, BOOL)]))     # names the domain, no more
        ok = lambda i, k: z3.And(rng(0, i, D.n), rng(0, k, self.ndom(v, i)), m(i))
        ax(z3.Implies(self.hit, z3.And(ok(I, K), rcvd(dom(v, I, K)))))
        ax(z3.Implies(self.listed, z3.And(ok(J, M), v.uf("a_domain", dom(v, J, M), BOOL))))
        ax(forall(v, [INT, INT], lambda i, k: z3.Implies(ok(i, k), self.listed), lambda i, k: [dom(v, i, k)]))
        ax(forall(v, [INT, INT], lambda i, k: z3.Implies(z3.And(ok(i, k), rcvd(dom(v, i, k))), self.hit), lambda i, k: [dom(v, i, k)]))
        self.msg = obj(v, "Msg", "msg", untrusted_relays=self.R["untrusted"], trusted_relays=self.R["trusted"])
        return [obj(v, PLUGIN, "plugin"), self.msg, self.list_name, self.address], {}

    def key(self, i):
        return sel(self.D.keys, i)

    def doms(self, v, i):
        return v.rec(v.from_term(sel(self.D.val, self.key(i)), ListT(DOM), snap=False))

    def ndom(self, v, i):
        return self.doms(v, i).n

    def dom(self, v, i, k):
        return sel(self.doms(v, i).arr, k)

    def candidates(self, v, L):
        if L.kind != "for":
            return
        i = v.idx[0] if v.idx else L.i
        no = lambda i, k: z3.Not(z3.And(self.m(i), self.rcvd(self.dom(v, i, k))))
        unl = lambda i, k: z3.Not(z3.And(self.m(i), v.uf("a_domain", self.dom(v, i, k), BOOL)))
        before = lambda what: forall(v, [INT, INT], lambda j, k: z3.Implies(z3.And(
            rng(0, j, i), rng(0, k, self.ndom(v, j))), what(j, k)), lambda j, k: [self.dom(v, j, k)])
        here = lambda what: forall(v, [INT], lambda k: z3.Implies(rng(0, k, L.i), what(i, k)), lambda k: [self.dom(v, i, k)]) if v.idx \
            else z3.BoolVal(True)
        yield "nothing before is confirmed", before(no)
        yield "nothing of this entry before is confirmed", here(no)
        for n, t in int_vars(v):
            yield "forged or not: " + n, z3.Or(t == -1, t == 0)
            yield "unknown at first: " + n, z3.Or(t == 0, i > 0, L.i > 0)
            yield "forged so far: " + n, before(lambda i, k, t=t: z3.Or(t == -1, unl(i, k)))
            yield "forged in this entry: " + n, here(lambda i, k, t=t: z3.Or(t == -1, unl(i, k)))

    def uses(self):
        d = super().uses()

        def table(v, f, a, k):
            v.check("the list that is asked for", v.eq(a[1], self.list_name))
            return self.table

        def rcvd(v, f, a, k):
            r, (u, t) = v.rec(a[2]), [v.rec(self.R[n]) for n in ("untrusted", "trusted")]
            if isinstance(r, ListRec):
                r = v.as_symlist(r, RELAY)
            v.check("as many relays as there are to be looked at", r.n == z3.If(u.n > 0, 1, t.n))
            v.check("the first untrusted relay, or else the trusted ones", forall(v, [INT], lambda j: z3.Implies(rng(0, j, r.n), sel(
                r.arr, j) == z3.If(u.n > 0, sel(u.arr, 0), sel(t.arr, j)))))
            return Sym("int", z3.If(self.rcvd(v.term(a[1], DOM)), 1, -1))

        def found(v, f, a, k):
            v.check("the address is looked up", v.term(a[1], ADDR) == v.uf("lower", v.term(self.address, ADDR), OBJ))
            t = v.term(a[2], Int)
            return Sym("int", z3.If(z3.And(t != 0, z3.Bool("other_relays_allowed")), 0, t))
        d.update({"oa.conf:Conf.__getitem__": Model(table), "oa.conf:Conf.get_global": Model(table), PLUGIN + ".check_rcvd": Model(rcvd),
                  PLUGIN + ".check_found_forged": Model(found)})
        return d

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        r = v.term(out.value, Int)
        none = z3.And(v.rec(self.R["untrusted"]).n == 0, v.rec(self.R["trusted"]).n == 0)
        v.check("without relays nothing is known", z3.Implies(none, r == 0))
        v.check("confirmed exactly when a relay of a matching entry is", z3.Implies(z3.Not(none), (r == 1) == self.hit))
        v.check("forged when a relay is listed but not confirmed", z3.Implies(z3.And(z3.Not(none), z3.Not(self.hit), self.listed), r == z3.If(
            z3.Bool("other_relays_allowed"), 0, -1)))
        v.check("nothing is known of an empty list", z3.Implies(self.D.n == 0, r == 0))
        v.check("confirmed, unknown or forged", z3.Or(r == 1, r == 0, z3.And(r == -1, z3.Not(z3.Bool("other_relays_allowed")))))


class Allowed(Lists, SpecContract):
    """a forged address is forgiven when a pattern of whitelist_allow_relays matches it"""
    qual = name = PLUGIN + ".check_found_forged"
    spec = '''
def run(self, address, forged, env):
    if forged != 0:
        for pattern in env.patterns("parsed_whitelist_allow_relays"):
            if env.matches(pattern, address):
                return 0
    return forged
'''

    def setup(self, v):
        self.address = v.fresh(ADDR, "address")
        self.forged = v.fresh(Int, "forged")
        return [obj(v, PLUGIN, "plugin"), self.address, self.forged], {}

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]

    def candidates(self, v, L):
        P = v.rec(lists_of(v, Const("parsed_whitelist_allow_relays")))
        m = lambda k: matches(v, sel(P.arr, k), v.term(self.address, ADDR))
        if L.kind == "for":
            yield "no pattern before matches", forall(v, [INT], lambda k: z3.Implies(rng(0, k, L.i), z3.Not(m(k))), lambda k: [m(k)])
            for n, t in int_vars(v):
                yield n, t == v.term(self.forged, Int)


class Relay(Lists, Contract):
    """a relay confirms a listed name that is a network by having an address in it, any other by its own name or a name above it"""
    qual = name = PLUGIN + ".check_rcvd"
    trusts = ("ipaddress.ip_network, ip_address and containment are functions of the texts",)

    def setup(self, v):
        self.name_, self.relays = v.fresh(Str, "domain"), new_list(v, RELAY, "relays")
        return [obj(v, PLUGIN, "plugin"), self.name_, self.relays], {}

    def get(self, v, relay, field):
        return v.uf("relay_" + field, relay, STR)

    def text(self, v):
        t = v.uf("str.strip.chars", v.term(self.name_, Str), z3.StringVal("[ "), STR)
        return v.uf("str.rstrip.chars", t, z3.StringVal(" ]"), STR)

    def confirms(self, v, relay):
        net = v.uf("network_text", self.text(v), STR)
        ip = self.get(v, relay, "ip")
        low, rdns = v.uf("str.lower", self.text(v), STR), v.uf("str.lower", self.get(v, relay, "rdns"), STR)
        return z3.If(z3.And(v.uf("is_network", net, BOOL), v.uf("is_address", ip, BOOL)), v.uf("in_network", v.uf(
            "address_of", ip, OBJ), v.uf("network_of", net, OBJ), BOOL), z3.Or(low == rdns, z3.SuffixOf(z3.Concat(z3.StringVal("."), low), rdns)))

    def schemas(self):
        d = super().schemas()
        item = F(lambda v, a, k: Sym("str", self.get(v, v.term(a[0], RELAY), a[1].v)))
        d["Relay"] = {"methods": {"__getitem__": item, "get": item}}
        d["Net"] = {"methods": {"__contains__": F(lambda v, a, k: Sym("bool", v.uf("in_network", v.term(a[1]), v.term(a[0]), BOOL)))}}
        d["Ip"] = {}
        return d

    def ext(self):
        def make(what, result, cls):
            def fn(v, a, k):
                t = v.term(a[0], Str)
                if not v.decide(v.uf(what, t, BOOL)):
                    raise v.exc("ValueError")
                return v.obj_ref(v.uf(result, t, OBJ), cls)
            return fn
        return {"ipaddress.ip_network": make("is_network", "network_of", "Net"), "ipaddress.ip_address": make("is_address", "address_of", "Ip")}

    def uses(self):
        d = super().uses()

        def fmt(v, f, a, k):
            v.check("without a mask of its own", v.eq(a[1], NONE) is True)
            return Sym("str", v.uf("network_text", v.term(a[0], Str), STR))
        d["oa.networks:_format_network_str"] = Model(fmt)
        return d

    def candidates(self, v, L):
        if L.kind == "for":
            R = v.rec(self.relays)
            yield "no relay before confirms", forall(v, [INT], lambda k: z3.Implies(rng(0, k, L.i), z3.Not(self.confirms(v, sel(
                R.arr, k)))), lambda k: [sel(R.arr, k)])
            for n, t in int_vars(v):
                yield "not yet: " + n, t == -1

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind == "return":
            R = v.rec(self.relays)
            r = v.term(out.value, Int)
            w = z3.Int("w")
            v.check("confirmed or not", z3.Or(r == 1, r == -1))
            v.check("not confirmed only when no relay confirms", z3.Implies(r == -1, forall(v, [INT], lambda k: z3.Implies(
                rng(0, k, R.n), z3.Not(self.confirms(v, sel(R.arr, k)))), lambda k: [sel(R.arr, k)])))
            v.check("confirmed only when a relay confirms", z3.Implies(r == 1, exists(v, [INT], lambda k: z3.And(rng(
                0, k, R.n), self.confirms(v, sel(R.arr, k))))))


ENTRY = ObjT("Entry")


class Parsed(Contract):
    """the patterns of a list are its entries that look like an address or a domain, in order, with * for any text and ? for at most
    one character; an entry without @ is a domain"""
    qual = name = PLUGIN + ".parse_list"
    trusts = ("re.escape and the replacements are functions of the text",)

    def setup(self, v):
        self.list_name = v.fresh(Str, "list_name")
        self.entries = new_list(v, ENTRY, "entries")
        self.E = E = v.rec(self.entries)
        self.N = N = z3.Function("patterns_before", INT, INT)
        v.assume(N(0) == 0)
        v.assume(forall(v, [INT], lambda i: z3.Implies(i >= 0, N(i + 1) == N(i) + z3.If(self.keeps(v, sel(E.arr, i)), 1, 0)), lambda i: [
            sel(E.arr, i)]))
        return [obj(v, PLUGIN, "plugin"), self.list_name], {}

    def has(self, v, x, c):
        return v.uf("has", x, z3.StringVal(c), BOOL)

    def keeps(self, v, x):
        return z3.Or(*[self.has(v, x, c) for c in ("?", "@", ".", "*@")])

    def escaped(self, v, x):
        t = v.uf("escape", x, OBJ)
        for a, b in (("\\*", ".*"), ("\\?", ".?")):
            t = v.uf("replaced", t, z3.StringVal(a), z3.StringVal(b), OBJ)
        return t

    def pattern(self, v, x):
        t = self.escaped(v, x)
        return z3.If(self.has(v, t, "@"), t, v.uf("after", z3.StringVal(".*@"), t, OBJ))

    def schemas(self):
        return {"Entry": {"methods": {"__contains__": F(lambda v, a, k: Sym("bool", self.has(v, v.term(a[0], ENTRY), a[1].v))),
            "replace": F(lambda v, a, k: v.from_term(v.uf("replaced", v.term(a[0], ENTRY), v.term(a[1], Str), v.term(a[2], Str), OBJ), ENTRY)),
            "__radd__": F(lambda v, a, k: v.from_term(v.uf("after", v.term(a[1], Str), v.term(a[0], ENTRY), OBJ), ENTRY))}}}

    def ext(self):
        return {"re.escape": lambda v, a, k: v.from_term(v.uf("escape", v.term(a[0], ENTRY), OBJ), ENTRY)}

    def uses(self):
        def get(v, f, a, k):
            v.check("the list that is asked for", v.eq(a[1], self.list_name))
            return self.entries
        return {"oa.conf:Conf.__getitem__": Model(get), "oa.conf:Conf.get_global": Model(get)}

    def state(self, v, r, i):
        yield "as many as there are", r.n == self.N(i)
        yield "count", r.n >= 0
        yield "each in its place", forall(v, [INT], lambda j: z3.Implies(z3.And(rng(0, j, i), self.keeps(v, sel(self.E.arr, j))), z3.And(
            rng(0, self.N(j), r.n), sel(r.arr, self.N(j)) == self.pattern(v, sel(self.E.arr, j)))), lambda j: [sel(self.E.arr, j)])

    def candidates(self, v, L):
        if L.kind != "for":
            return
        for name, y in sorted(v.store[v.env].vars.items()):
            if isinstance(y, Ref) and isinstance(v.rec(y), (ListRec, SymList)) and y.id != self.entries.id:
                r = v.rec(y)
                if isinstance(r, ListRec):
                    if r.items:
                        continue
                    r = v.as_symlist(r, ENTRY)
                if r.et.k == ENTRY.k:
                    for n, c in self.state(v, r, L.i):
                        yield "%s: %s" % (name, n), c

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind == "return":
            r = v.rec(out.value)
            if isinstance(r, ListRec):
                r = v.as_symlist(r, ENTRY)
            for n, c in self.state(v, r, self.E.n):
                v.check(n, c)


def contracts():
    return [Confirmed(), Allowed(), Relay(), Parsed(), Listed(), Sender("check_in_list"), Sender("check_in_default_whitelist")] + [
        Test(f) for f in sorted(Test.specs)]
