"""C23: hook chains, plugin data, loading and unloading."""
import lib
from lib import *
import oa.context
import oa.errors
import oa.message
import oa.plugins.base
import oa.rules.base
import sys
import types

HOOKS = [("hook_parse_config", "parse_config", 2), ("hook_parsing_start", "finish_parsing_start", 1),
         ("hook_parsing_end", "finish_parsing_end", 1), ("hook_check_end", "check_end", 2),
         ("hook_auto_learn", "auto_learn_discriminator", 2), ("hook_report", "plugin_report", 1),
         ("hook_revoke", "plugin_revoke", 1)]
MHOOKS = [("_hook_check_start", "check_start", 0), ("_hook_extract_metadata", "extract_metadata", 3),
          ("_hook_parsed_metadata", "parsed_metadata", 0)]


def make(log, name, inhibit, fail):
    class P(oa.plugins.base.BasePlugin):
        pass

    def step(which):
        def f(self, *a):
            log.append((name, which, a))
            if inhibit:
                self.inhibit_further_callbacks()
            if fail:
                raise RuntimeError("x")
        return f
    for h, m, n in HOOKS + MHOOKS:
        setattr(P, m, step(m))
    P.__name__ = name
    return P


@scenario(2)
def hooks(r):
    log = []
    ctxt = oa.context.GlobalContext()
    order, want = [], []
    for i in r.sample(range(6), r.randint(0, 6)):
        name = "P%d" % i
        inh = r.maybe(0.2)
        fail = r.maybe(0.05)
        ctxt.plugins[name] = make(log, name, inh, fail)(ctxt)
        order.append((name, inh, fail))
    args = [object() for i in range(3)]
    if r.maybe(0.7):
        h, m, n = r.choice(HOOKS)
        obj, extra = ctxt, ()
    else:
        h, m, n = r.choice(MHOOKS)
        obj = oa.message.Message(ctxt, "Subject: x\n\nb\n") if False else oa.context.MessageContext(ctxt)
        extra = (obj,)
    if h == "hook_parse_config":
        args = ["unknownkey", "v"]
    handled = raised = False
    for name, inh, fail in order:
        want.append((name, m, extra + tuple(args[:n])))
        if inh:
            handled = True
            break
        if fail:
            raised = True
            break
    try:
        got = getattr(obj, h)(*args[:n])
        threw = False
    except RuntimeError:
        threw, got = True, None
    info = dict(hook=h, plugins=order)
    equal(log, want, "the plugins called, in order, and their arguments", **info)
    equal(threw, raised, "errors of plugins", **info)
    if not raised:
        equal(got, handled, "reports whether the chain was inhibited", **info)


@scenario(2)
def data(r):
    ctxt = oa.context.GlobalContext()
    c = ctxt if r.maybe() else oa.context.MessageContext(ctxt)
    names, keys = r.pick(["A", "B", "PADConf", ""], ["Pad", "PadX", "pad", "xPad"]), ["k", "l", "", "K"]
    model = dict((n, dict(c.plugin_data[n])) for n in list(c.plugin_data))
    done = []
    for i in range(r.randint(1, 14)):
        n, k, v = r.choice(names), r.choice(keys), r.pick(None, 0, [], {}, "v", object(), False)
        op = r.pick("set", "set", "set", "get", "get", "getall", "del", "delall", "pop", "popall")
        done.append((op, n, k, repr(v)))
        cur = model.get(n, {})
        err = want = None
        if op == "set":
            model.setdefault(n, {})[k] = v
            f = lambda: c.set_plugin_data(n, k, v)
        elif op == "get":
            f = lambda: c.get_plugin_data(n, k)
            if k in cur:
                want = cur[k]
            else:
                err = KeyError
        elif op == "getall":
            f = lambda: c.get_plugin_data(n)
            want = cur
        elif op == "del":
            f = lambda: c.del_plugin_data(n, k)
            if k in cur:
                del cur[k]
            else:
                err = KeyError
        elif op == "delall":
            if n not in c.plugin_data:
                continue
            f = lambda: c.del_plugin_data(n)
            model.pop(n, None)
        elif op == "pop":
            f = lambda: c.pop_plugin_data(n, k)
            want = cur.pop(k, None)
        else:
            f = lambda: c.pop_plugin_data(n) or None
            want = model.pop(n, None) or None
        try:
            got = f()
            expect(err is None, "missing data is an error", ops=done)
            expect(got is want or got == want, "the value returned", ops=done, got=repr(got), expected=repr(want))
        except KeyError:
            expect(err is KeyError, "stored data is found", ops=done)
        now = dict((x, y) for x, y in c.plugin_data.items() if y)
        exp = dict((x, y) for x, y in model.items() if y)
        equal(now, exp, "all stored data", ops=done)
        for x in exp:
            for y in exp[x]:
                expect(now[x][y] is exp[x][y], "the very object that was stored", ops=done)


RULES = [type("Rule%d" % i, (oa.rules.base.BaseRule,), {}) for i in range(4)]


def plugin_class(name, evals, cmds):
    d = dict(eval_rules=tuple(evals), options={"opt_" + name: ("int", 1)}, cmds=cmds or None)
    for e in evals:
        d[e] = lambda self, msg, target=None: True
    return type(name, (oa.plugins.base.BasePlugin,), d)


@scenario(2)
def loading(r):
    mod = types.ModuleType("verif_c23_plugins")
    sys.modules["verif_c23_plugins"] = mod
    spec = {}
    for i, n in enumerate(r.pick(["Plug", "PlugX", "PlugXY", "Other"], ["Spf", "SPF", "MySpf", "Spf2"])):
        ev = r.subset(["check_%d" % i, "check_shared", "check_two"], 0.6)
        cm = dict((c, RULES[i]) for c in r.subset(["cmd%d" % i, "cmdshared"], 0.4))
        spec[n] = (ev, cm)
        setattr(mod, n, plugin_class(n, ev, cm))
    setattr(mod, "NotAPlugin", dict)
    ctxt = oa.context.GlobalContext()
    base_e, base_c = dict(ctxt.eval_rules), dict(ctxt.cmds)
    loaded, owner_e, owner_c = [], {}, {}
    done = []
    for i in range(r.randint(1, 7)):
        n = r.choice(sorted(spec))
        op = r.pick("load", "load", "unload", "bad", "store")
        done.append((op, n))
        info = dict(ops=done, plugins=dict((k, (v[0], sorted(v[1]))) for k, v in spec.items()))

        def drop(n):
            loaded.remove(n)
            for e in list(owner_e):
                if owner_e[e] == n:
                    del owner_e[e]
            for e in list(owner_c):
                if owner_c[e][0] == n:
                    del owner_c[e]
        if op == "load":
            before = dict((k, dict(v)) for k, v in ctxt.plugin_data.items())
            ctxt.load_plugin("verif_c23_plugins." + n)
            if n in loaded:
                drop(n)
            loaded.append(n)
            for e in spec[n][0]:
                owner_e[e] = n
            for e, c in spec[n][1].items():
                owner_c[e] = (n, c)
            expect(type(ctxt.plugins[n]) is getattr(mod, n), "the loaded plugin", **info)
            before.pop(n, None)
            now = dict((k, dict(v)) for k, v in ctxt.plugin_data.items() if k != n)
            equal(now, before, "loading touches no other data", **info)
            equal(ctxt.get_plugin_data(n), {"opt_" + n: 1}, "options of a loaded plugin", **info)
        elif op == "unload":
            before = dict((k, dict(v)) for k, v in ctxt.plugin_data.items() if k != n)
            try:
                ctxt.unload_plugin(n)
                expect(n in loaded, "unloading what is not loaded is an error", **info)
                drop(n)
                now = dict((k, dict(v)) for k, v in ctxt.plugin_data.items())
                equal(now, before, "data after unloading", **info)
            except oa.errors.PluginLoadError:
                expect(n not in loaded, "a loaded plugin is unloaded", **info)
        elif op == "bad":
            bad = r.pick("verif_c23_plugins.NotAPlugin", "no_such_module.X")
            try:
                ctxt.load_plugin(bad)
                raise Mismatch("a bad plugin is not loaded", **info)
            except oa.errors.PluginLoadError:
                pass
        elif n in loaded:
            ctxt.plugins[n]["extra"] = "v"
            equal(ctxt.get_plugin_data(n, "extra"), "v", "stored data", **info)
        equal(list(ctxt.plugins), loaded, "loaded plugins", **info)
        got_e = dict((k, v.__self__.__class__.__name__) for k, v in ctxt.eval_rules.items() if k not in base_e)
        equal(got_e, owner_e, "registered tests and their plugins", **info)
        for e, m in ctxt.eval_rules.items():
            if e in owner_e:
                expect(m.__self__ is ctxt.plugins[owner_e[e]], "tests belong to the loaded instance", **info)
        equal(dict((k, v) for k, v in ctxt.cmds.items() if k not in base_c), dict((k, v[1]) for k, v in owner_c.items()),
              "registered commands", **info)


if __name__ == "__main__":
    lib.main("C23")
