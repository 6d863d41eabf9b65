"""C11: nothing is shared by two configurations of one process"""
from .common import *
from . import c10

PROPERTY = "C11"
CONF = "oa.conf:Conf"
PADCONF = "oa.conf:PADConf"
CTXT = "oa.context:GlobalContext"
NET = "oa.networks:"

SPEC = '''
def run(self, env):
    for key, pair in self.options.items():
        env.ctxt.set_plugin_data("Conf", key, env.copy(pair[1]))
'''


class Defaults(TraceContract):
    """every option of the table starts from its own copy of the default"""
    qual = CONF + ".__init__"
    spec = SPEC
    result = False
    trusts = ("copy.deepcopy yields an equal value that shares nothing with the original",)

    def setup(self, v):
        self.log = obj(v, "Log", "log", keys=empty_symlist(v, Str), values=empty_symlist(v, Any))
        self.ctxt = obj(v, "Ctxt", "ctxt")
        self.env = obj(v, "Env", "env", ctxt=self.ctxt)
        self.opts = new_dict(v, Str, TupT(Str, Any), "options")
        self.me = obj(v, CONF, "conf", options=self.opts)
        return [self.me, self.ctxt], {}

    def spec_args(self, v, a):
        return [self.me, self.env]

    def observe(self, v, a):
        return [("the options that are set", v.getattr(self.log, "keys")),
                ("the values they are set to", v.getattr(self.log, "values"))]

    def schemas(self):
        def set_(v, a, k):
            v.check("under the name of its class", v.eq(a[1], Const("Conf")))
            v.call_method(v.getattr(self.log, "keys"), "append", [a[2]])
            v.call_method(v.getattr(self.log, "values"), "append", [a[3]])
            return NONE
        return {"Log": {}, "Env": {"methods": {"copy": PyFn(lambda v, a, k: self.m_copy(v, a[1]), "copy")}},
                "Ctxt": {"methods": {"set_plugin_data": PyFn(set_, "set_plugin_data")}}}

    def m_copy(self, v, x):
        return v.any_of(v.uf("copy", v.box(x), Val))

    def ext(self):
        return {"copy.deepcopy": lambda v, a, k: self.m_copy(v, a[0])}


def deepcopy(v, x, seen=None):
    """copy.deepcopy of a value made of plain containers"""
    seen = {} if seen is None else seen
    if isinstance(x, Tup):
        return Tup([deepcopy(v, i, seen) for i in x.items])
    if isinstance(x, Ref):
        r = v.rec(x)
        if isinstance(r, ListRec):
            return v.alloc(ListRec([deepcopy(v, i, seen) for i in r.items]))
        if isinstance(r, DictRec):
            return v.alloc(DictRec([(k, deepcopy(v, i, seen)) for k, i in r.items]))
        raise Unsupported("deepcopy")
    return x


def reach(v, store, roots, args=True):
    """ids of every container and object that can be reached"""
    seen, todo = {}, list(roots)
    while todo:
        x = todo.pop()
        if isinstance(x, Tup):
            todo += x.items
        elif isinstance(x, Ref) and x.id not in seen and x.id in store:
            r = seen[x.id] = store[x.id]
            if isinstance(r, ListRec):
                todo += r.items
            elif isinstance(r, DictRec):
                todo += [i for k, i in r.items]
            elif isinstance(r, ObjRec):
                todo += r.fields.values()
    return seen


class Fresh(Contract):
    """what a new object is made of is new: nothing of it is reachable from a class, a module or an older object"""
    trusts = ("copy.deepcopy yields an equal value that shares nothing with the original",)

    def __init__(self, cls, method="__init__", empty=(), args=(), fields=(), given=(), owner=None):
        self.cls, self.qual = cls, "%s.%s" % (owner or cls, method)
        self.name = self.qual + ("" if owner in (None, cls) else "[%s]" % cls.split(":")[-1])
        self.empty, self.mk, self.fields, self.given = empty, args, fields, given

    def setup(self, v):
        self.me = obj(v, self.cls, "new")
        for n, f in self.fields:
            v.setattr(self.me, n, f(v))
        self.a = [f(v) for f in self.mk]
        return [self.me] + self.a, {}

    def schemas(self):
        return {"Logger": {"methods": {}}, "Resolver": {}, "Ctxt": {"fields": {"conf": ObjT("Obj")}}, "Obj": {}}

    def ext(self):
        new = lambda c: lambda v, a, k: v.obj_ref(v.fresh_term("o", OBJ), c)
        return {"copy.deepcopy": lambda v, a, k: deepcopy(v, a[0]),
                "logging.getLogger": lambda v, a, k: obj(v, "Logger", "logger"),
                "dns.resolver.Resolver": lambda v, a, k: obj(v, "Resolver", "resolver"),
                "datetime.datetime.now": lambda v, a, k: v.fresh(Any, "now"),
                "datetime.timedelta": lambda v, a, k: v.fresh(Any, "delta"),
                "getpass.getuser": lambda v, a, k: v.fresh(Str, "user"),
                "ipaddress.ip_network": lambda v, a, k: v.any_of(v.uf("ip_network", v.box(a[0]), Val))}

    def uses(self):
        return {"oa.dns_interface:DNSInterface.__init__": Model(lambda v, f, a, k: NONE)} if "dns_interface" not in self.cls else {}

    def post(self, v, a, old, out):
        no_exception(v, out)
        mine = reach(v, v.store, [x for n, x in v.rec(self.me).fields.items() if n not in self.given])
        outside = {}
        for key, x in list(v.store.items()):
            if isinstance(key, tuple) and key and key[0] in ("classattr", "global"):
                outside.update(reach(v, v.store, [x]))
        before = reach(v, old, self.a)
        for i in old:
            if not isinstance(i, tuple) and i != self.me.id and i in mine:
                before[i] = old[i]
        for i, r in mine.items():
            if i == self.me.id or not isinstance(r, (ListRec, DictRec, SetRec, SymList, SymDict, SymSet, ObjRec)):
                continue
            if isinstance(r, ObjRec) and r.cls in ("Logger", "Ctxt", "Obj"):
                continue
            v.check("nothing of it is an attribute of a class or a module", i not in outside)
            v.check("nothing of it existed before", i not in before)
        for name in self.empty:
            x = v.getattr(self.me, name)
            r = v.rec(x) if isinstance(x, Ref) else None
            items = getattr(r, "items", None)
            v.check("%s starts empty" % name, items is not None and not items)


class Context(Fresh):
    """a new context starts with containers of its own"""
    def post(self, v, a, old, out):
        Fresh.post(self, v, a, old, out)
        data = v.rec(v.getattr(self.me, "plugin_data"))
        v.check("only the main options have values", isinstance(data, DictRec) and [k.v for k, x in data.items] == ["PADConf"])
        table = v.class_attr(PADCONF, "options")
        want = dict((k.v, x.items[1]) for k, x in v.rec(table).items)
        got = dict((k.v, x) for k, x in v.rec(data.items[0][1]).items)
        v.check("every main option has a value", set(got) == set(want))
        for k in got:
            v.check("%s starts from its default" % k, same_frozen(v, freeze(v, got[k]), freeze(v, want[k])))


class Net(Fresh):
    """a network list starts with the entries that are always accepted (for clear: goes back to them)"""

    def post(self, v, a, old, out):
        Fresh.post(self, v, a, old, out)
        always = v.class_attr(self.cls, "_always_accepted")
        got = v.rec(v.getattr(self.me, "_networks"))
        v.check("starts with the entries that are always accepted", isinstance(got, ListRec) and same_frozen(
            v, ("list", [freeze(v, x) for x in got.items]), ("list", [freeze(v, x) for x in always.items])))


class Nets(Fresh):
    """the three lists are different lists, each as a new list of its kind"""

    def post(self, v, a, old, out):
        Fresh.post(self, v, a, old, out)
        ids = []
        for name in ("internal", "trusted", "msa"):
            x = v.getattr(self.me, name)
            got = v.rec(v.getattr(x, "_networks"))
            ids += [x.id, v.getattr(x, "_networks").id]
            always = v.class_attr(v.rec(x).cls, "_always_accepted")
            v.check("%s: starts with the entries that are always accepted" % name, isinstance(got, ListRec) and same_frozen(
                v, ("list", [freeze(v, i) for i in got.items]), ("list", [freeze(v, i) for i in always.items])))
            v.check("%s: starts unconfigured" % name, v.eq(v.getattr(x, "configured"), FALSE))
        v.check("three different lists", len(set(ids)) == 6)


class Setter(c10.Setter):
    """an option line changes nothing but the values of this configuration"""


def contracts():
    nets = ["NetworkListBase", "TrustedNetworks", "InternalNetworks", "MSANetworks"]
    b = lambda v: v.fresh(Bool, "flag")
    return ([Defaults()]
            + [Context(CTXT, args=(b, b, b), empty=("plugins", "eval_rules", "cmds"))]
            + [Net(NET + n, owner=NET + nets[0]) for n in nets]
            + [Net(NET + n, "clear", owner=NET + nets[0], fields=(("_networks", lambda v: new_list(v, Any, "networks")),)) for n in nets]
            + [Nets(NET + "NetworkList")]
            + [Fresh("oa.rules.ruleset:RuleSet", args=(lambda v: obj(v, "Ctxt", "ctxt", conf=obj(v, "Obj", "conf")),),
                     empty=("tags", "checked", "not_checked"), given=("ctxt", "conf"))]
            + [Fresh("oa.rules.parser:PADParser", args=(b, b, b), empty=("results",))]
            + [Fresh("oa.dns_interface:DNSInterface", empty=("query_restrictions",))]
            + [Setter(k) for k in ("append", "append_split", "clear")])
