"""C23: plugin hooks, plugin data, unloading"""
from .common import *

PROPERTY = "C23"
CTX = "oa.context:GlobalContext"
MSG = "oa.context:MessageContext"
BASE = "oa.context:_Context"


class Hook(SpecContract):
    """every plugin once, in load order, until one stops the chain"""
    before = ""
    args = ()
    step = None
    on = CTX

    def __init__(self, name, step, args, on=CTX, before="", after="", lead=(), consumed=False):
        self.qual = "%s.%s" % (on, name)
        self.name = "%s.%s" % (on, name)
        self.step, self.nargs, self.on, self.lead, self.consumed = step, args, on, lead, consumed
        # the specification: what happens first, then the plugins in order
        self.spec = '''
def hook(plugins, log, owner, args):
    log.used.append(args)
%s
    for plugin in plugins.values():
        log.called.append(plugin)
        if owner.stops(plugin):
            return True
%s
    return False
''' % (before, after)

    def setup(self, v):
        self.plugins = new_dict(v, Str, ObjT("Plugin"), "plugins")
        self.log = obj(v, "Log", "log", called=empty_symlist(v, ObjT("Plugin")), used=v.alloc(ListRec([])),
                       before=v.alloc(ListRec([])))
        self.vals = [v.fresh(Any, "arg%d" % i) for i in range(self.nargs)]
        if self.on == CTX:
            self.ctx = self.me = obj(v, CTX, "ctxt", plugins=self.plugins, conf=obj(v, "Conf", "conf"))
        else:
            self.ctx = obj(v, CTX, "ctxt", plugins=self.plugins)
            self.me = obj(v, MSG, "msg", ctxt=self.ctx)
        self.owner = obj(v, "Owner", "owner")
        self.extra_setup(v)
        return [self.me] + self.vals, {}

    def extra_setup(self, v):
        pass

    def spec_args(self, v, a):
        return [self.plugins, self.log, self.owner, NONE]

    def observe(self, v, a):
        return [("the plugins that were called", v.getattr(self.log, "called")),
                ("what happened before", v.getattr(self.log, "before"))]

    def stops(self, v, p):
        return v.uf("inhibits", v.term(p, ObjT("Plugin")), BOOL)

    def schemas(self):
        def called(v, a, k):
            want = list(self.vals)
            if self.on == MSG:
                want = [self.me] + want
            got = a[1:]
            v.check("the plugin gets what the hook got", not k and len(got) == len(want))
            for x, y in zip(got, want):
                v.check("the plugin gets what the hook got", self.same(v, x, y))
            v.call_method(v.getattr(self.log, "called"), "append", [a[0]])
            if v.decide(self.stops(v, a[0])):
                raise v.exc("oa.errors:InhibitCallbacks")
            return NONE

        def before(tag, can_stop=False):
            def f(v, a, k):
                v.call_method(v.getattr(self.log, "before"), "append", [Const(tag)])
                if can_stop and v.decide(v.uf("conf_inhibits", v.term(Const(1), Int), BOOL)):
                    raise v.exc("oa.errors:InhibitCallbacks")
                return NONE
            return PyFn(f, tag)
        return {"Plugin": {"methods": {self.step: PyFn(called, self.step)}}, "Log": {},
                "Conf": {"methods": {"parse_config": before("conf", True),
                                     "__getitem__": PyFn(lambda v, a, k: v.any_of(v.uf("conf", v.term(a[1], Str), Val)),
                                                         "conf")}},
                CTX: {"methods": {"_configure_dns": before("dns"), "_add_networks": before("networks")}},
                "Owner": {"methods": {
                    "stops": PyFn(lambda v, a, k: Sym("bool", self.stops(v, a[1])), "stops"),
                    "conf_stops": PyFn(lambda v, a, k: Sym("bool", v.uf("conf_inhibits", z3.IntVal(1), BOOL)), "c")}}}

    def same(self, v, x, y):
        if isinstance(x, Ref) and isinstance(y, Ref):
            return x.id == y.id
        return v.eq(x, y)


HOOKS = [("hook_parsing_start", "finish_parsing_start", 1, CTX, ""),
         ("hook_parsing_end", "finish_parsing_end", 1, CTX,
          "    log.before.append('dns')\n    log.before.append('networks')"),
         ("hook_check_end", "check_end", 2, CTX, ""), ("hook_auto_learn", "auto_learn_discriminator", 2, CTX, ""),
         ("hook_report", "plugin_report", 1, CTX, ""), ("hook_revoke", "plugin_revoke", 1, CTX, ""),
         ("hook_parse_config", "parse_config", 2, CTX,
          "    log.before.append('conf')\n    if owner.conf_stops():\n        return True"),
         ("_hook_check_start", "check_start", 0, MSG, ""), ("_hook_extract_metadata", "extract_metadata", 3, MSG, ""),
         ("_hook_parsed_metadata", "parsed_metadata", 0, MSG, "")]


# ---------------------------------------------------------------- plugin data
KEYS = z3.ArraySort(STR, BOOL)
VALS = z3.ArraySort(STR, Val)


class Data2(object):
    """a dictionary of dictionaries (collections.defaultdict(dict)) as ghost state: which plugins have an
    entry, which keys each one has, and their values"""

    def __init__(self, v):
        v.store["pd"] = (v.fresh_term("pd_plugins", KEYS), v.fresh_term("pd_has", z3.ArraySort(STR, KEYS)),
                         v.fresh_term("pd_val", z3.ArraySort(STR, VALS)))

    @staticmethod
    def get(v):
        return v.store["pd"]

    @staticmethod
    def put(v, p, h, w):
        v.store["pd"] = (v.k(p), v.k(h), v.k(w))

    @staticmethod
    def add(v, p):
        """reading an absent entry creates an empty one"""
        pl, h, w = v.store["pd"]
        Data2.put(v, z3.Store(pl, p, True),
                  z3.Store(h, p, z3.If(z3.Select(pl, p), z3.Select(h, p), z3.K(STR, z3.BoolVal(False)))), w)

    @staticmethod
    def schemas():
        def view(v, p):
            return v.obj_ref(v.uf("data_of", p, OBJ), "PluginData", )

        def getitem(v, a, k):
            p = v.term(a[1], Str)
            Data2.add(v, p)
            x = v.obj_ref(v.uf("data_of", p, OBJ), "PluginData")
            v.assume(v.uf("plugin_of", v.uf("data_of", p, OBJ), STR) == p)
            return x

        def has(v, a, k):
            return Sym("bool", v.k(z3.Select(v.store["pd"][0], v.term(a[1], Str))))

        def delitem(v, a, k):
            p = v.term(a[1], Str)
            pl, h, w = v.store["pd"]
            if not v.decide(z3.Select(pl, p)):
                raise v.exc("KeyError")
            Data2.put(v, z3.Store(pl, p, False), h, w)
            return NONE

        def pop(v, a, k):
            p = v.term(a[1], Str)
            pl, h, w = v.store["pd"]
            if not v.decide(z3.Select(pl, p)):
                if len(a) < 3:
                    raise v.exc("KeyError")
                return a[2]
            Data2.put(v, z3.Store(pl, p, False), h, w)
            return v.obj_ref(v.uf("data_of", p, OBJ), "PluginData")

        def pk(v, a):
            return v.uf("plugin_of", v.rec(a[0]).term, STR), v.term(a[1], Str)

        def iget(v, a, k):
            p, x = pk(v, a)
            pl, h, w = v.store["pd"]
            if not v.decide(z3.Select(z3.Select(h, p), x)):
                raise v.exc("KeyError")
            return v.any_of(v.k(z3.Select(z3.Select(w, p), x)))

        def iset(v, a, k):
            p, x = pk(v, a)
            pl, h, w = v.store["pd"]
            Data2.put(v, pl, z3.Store(h, p, z3.Store(z3.Select(h, p), x, True)),
                      z3.Store(w, p, z3.Store(z3.Select(w, p), x, v.box(a[2]))))
            return NONE

        def idel(v, a, k):
            p, x = pk(v, a)
            pl, h, w = v.store["pd"]
            if not v.decide(z3.Select(z3.Select(h, p), x)):
                raise v.exc("KeyError")
            Data2.put(v, pl, z3.Store(h, p, z3.Store(z3.Select(h, p), x, False)), w)
            return NONE

        def ipop(v, a, k):
            p, x = pk(v, a)
            pl, h, w = v.store["pd"]
            if not v.decide(z3.Select(z3.Select(h, p), x)):
                if len(a) < 3:
                    raise v.exc("KeyError")
                return a[2]
            Data2.put(v, pl, z3.Store(h, p, z3.Store(z3.Select(h, p), x, False)), w)
            return v.any_of(v.k(z3.Select(z3.Select(w, p), x)))

        def ihas(v, a, k):
            p, x = pk(v, a)
            return Sym("bool", v.k(z3.Select(z3.Select(v.store["pd"][1], p), x)))

        def iget2(v, a, k):
            p, x = pk(v, a)
            pl, h, w = v.store["pd"]
            if not v.decide(z3.Select(z3.Select(h, p), x)):
                return a[2] if len(a) > 2 else NONE
            return v.any_of(v.k(z3.Select(z3.Select(w, p), x)))
        return {"AllData": {"methods": {"__getitem__": PyFn(getitem, "data[]"), "__contains__": PyFn(has, "in data"),
                                        "__delitem__": PyFn(delitem, "del data[]"), "pop": PyFn(pop, "data.pop")}},
                "PluginData": {"methods": {"__getitem__": PyFn(iget, "data[][]"), "__setitem__": PyFn(iset, "data[][]="),
                                           "__delitem__": PyFn(idel, "del data[][]"), "pop": PyFn(ipop, "pop"),
                                           "__contains__": PyFn(ihas, "in"), "get": PyFn(iget2, "get")}}}


class PluginData(Contract):
    """set/get/del/pop of plugin data: exactly that plugin's and that key's value; nothing else changes"""

    def __init__(self, fn, whole=False):
        self.qual = BASE + "." + fn
        self.fn, self.whole = fn, whole
        self.name = self.qual + ("[all data of the plugin]" if whole else "")

    def setup(self, v):
        Data2(v)
        self.me = obj(v, CTX, "ctxt", plugin_data=obj(v, "AllData", "plugin_data"))
        self.p, self.key, self.val = v.fresh(Str, "plugin"), v.fresh(Str, "key"), v.fresh(Any, "value")
        a = [self.me, self.p]
        if not self.whole:
            a.append(self.key)
        if self.fn == "set_plugin_data":
            a.append(self.val)
        pl, h, w = Data2.get(v)
        x = z3.Const("x!pd", STR)
        # a plugin without an entry has no keys
        v.assume(forall(v, [STR, STR], lambda x, y: z3.Implies(z3.Not(sel(pl, x)), z3.Not(sel(sel(h, x), y))),
                        lambda x, y: [sel(sel(h, x), y)]))
        self.before = Data2.get(v)
        return a, {}

    def schemas(self):
        return Data2.schemas()

    def post(self, v, a, old, out):
        p, key = v.term(self.p, Str), v.term(self.key, Str)
        pl0, h0, w0 = self.before
        pl, h, w = Data2.get(v)
        q, k2 = v.fresh_term("any_plugin", STR), v.fresh_term("any_key", STR)

        def has(st, x, y):
            return z3.And(sel(st[0], x), sel(sel(st[1], x), y))
        b, c = self.before, (pl, h, w)
        same = z3.And(has(b, q, k2) == has(c, q, k2),
                      z3.Implies(has(c, q, k2), sel(sel(w0, q), k2) == sel(sel(w, q), k2)))
        mine = q == p if self.whole else z3.And(q == p, k2 == key)
        v.check("nothing else changes", z3.Or(mine, same))
        there = sel(pl0, p) if self.whole else has(b, p, key)
        if self.fn == "set_plugin_data":
            no_exception(v, out)
            v.check("the value is stored", z3.And(has(c, p, key), sel(sel(w, p), key) == v.box(self.val)))
        elif self.fn == "get_plugin_data":
            v.check("all data is kept", z3.Or(same, z3.Not(mine)) if self.whole else same)
            if self.whole:
                no_exception(v, out)
                if out.kind == "return":
                    v.check("the plugin's own data", v.uf("plugin_of", v.rec(out.value).term, STR) == p)
            elif out.kind == "raise":
                v.check("a KeyError only for a missing key", z3.And(exc_class(out) == "KeyError", z3.Not(there)))
            else:
                v.check("the stored value", z3.And(there, v.box(out.value) == sel(sel(w0, p), key)))
        elif self.fn == "del_plugin_data":
            if out.kind == "raise":
                v.check("a KeyError only when there is nothing", z3.And(exc_class(out) == "KeyError", z3.Not(there)))
            else:
                v.check("it is gone", z3.And(there, z3.Implies(mine, z3.Not(has(c, q, k2)))))
        else:
            no_exception(v, out)
            v.check("it is gone", z3.Implies(mine, z3.Not(has(c, q, k2))))
            if out.kind == "return" and not self.whole:
                v.check("what was stored", z3.If(there, v.box(out.value) == sel(sel(w0, p), key),
                                                 v.box(out.value) == v.box(NONE)))


def contracts():
    out = [Hook(n, s, k, on, b) for n, s, k, on, b in HOOKS]
    for f in ("set_plugin_data", "get_plugin_data", "del_plugin_data", "pop_plugin_data"):
        out.append(PluginData(f))
        if f != "set_plugin_data":
            out.append(PluginData(f, True))
    return out
