"""C10: configuration options"""
from .common import *

PROPERTY = "C10"
CONF = "oa.conf:Conf"


SPEC = '''
import oa.errors
from datetime import timedelta


def set_int(self, key, value):
    if not value:
        return
    try:
        number = int(value)
    except ValueError:
        raise oa.errors.PluginError("bad number")
    self.ctxt.set_plugin_data(self._plugin_name, key, number)


def set_float(self, key, value):
    if not value:
        return
    try:
        number = float(value)
    except ValueError:
        raise oa.errors.PluginError("bad number")
    self.ctxt.set_plugin_data(self._plugin_name, key, number)


def set_bool(self, key, value):
    self.ctxt.set_plugin_data(self._plugin_name, key, value.lower() in ("1", "true"))


def set_str(self, key, value):
    self.ctxt.set_plugin_data(self._plugin_name, key, value)


def set_list(self, key, value):
    self.ctxt.set_plugin_data(self._plugin_name, key, value.split(","))


def set_append(self, key, value):
    self.ctxt.get_plugin_data(self._plugin_name, key).append(value)


def set_append_split(self, key, value):
    self.ctxt.get_plugin_data(self._plugin_name, key).extend(value.split(None))


def set_clear(self, key, value):
    for real in self.options[key][1]:
        self.ctxt.set_plugin_data(self._plugin_name, real, [])


def run(self, key, value):
    return set_KIND(self, key, value)


def parse(self, key, value):
    if key in self.options:
        set_KIND(self, key, value)
        raise oa.errors.InhibitCallbacks()
'''
KINDS = ("int", "float", "bool", "str", "list", "append", "append_split", "clear")


class Setter(TraceContract):
    """one kind of option: exactly the value of that option (of the options it clears) is set, to the parsed value"""
    which = "run"
    result = False

    def __init__(self, kind, qual=None):
        self.kind = kind
        self.qual = qual or "%s.set_%s_option" % (CONF, kind)
        self.name = self.qual if qual is None else "%s[%s]" % (qual, kind)
        self.spec = SPEC.replace("KIND", kind)
        keep = "def %s(" % self.which
        # the specification function comes last
        parts = self.spec.split("\n\n\n")
        self.spec = "\n\n\n".join([p for p in parts if keep not in p] + [p for p in parts if keep in p])

    def setup(self, v):
        self.old = new_list(v, Str, "accumulated")
        self.log = obj(v, "Log", "log", cleared=empty_symlist(v, Str))
        self.ctxt = obj(v, "Ctxt", "ctxt")
        self.reals = new_list(v, Str, "cleared_options")
        self.opts = obj(v, "Options", "options")
        self.me = obj(v, CONF, "conf", _plugin_name=v.fresh(Str, "plugin_name"), ctxt=self.ctxt, options=self.opts)
        return [self.me, v.fresh(Str, "key"), v.fresh(Str, "value")], {}

    def observe(self, v, a):
        return [("the accumulated values", self.old), ("the cleared options", v.getattr(self.log, "cleared"))]

    def schemas(self):
        def set_(v, a, k):
            if self.kind == "clear":
                v.check("under the plugin's own name", v.eq(a[1], v.getattr(self.me, "_plugin_name")))
                v.check("cleared to an empty list", isinstance(a[3], Ref) and isinstance(v.rec(a[3]), ListRec)
                        and not v.rec(a[3]).items)
                v.call_method(v.getattr(self.log, "cleared"), "append", [a[2]])
            else:
                self.emit(v, "set", a[1], a[2], a[3])
            return NONE

        def get(v, a, k):
            self.emit(v, "get", a[1], a[2])
            return self.old

        def opt_has(v, a, k):
            return Sym("bool", v.uf("is_option", v.term(a[1], Str), BOOL))

        def opt(v, a, k):
            if not v.decide(v.uf("is_option", v.term(a[1], Str), BOOL)):
                raise v.exc("KeyError")
            return Tup((Const(self.kind), self.reals))
        return {"Log": {}, "Ctxt": {"methods": {"set_plugin_data": PyFn(set_, "set_plugin_data"),
                                               "get_plugin_data": PyFn(get, "get_plugin_data")}},
                "Options": {"methods": {"__contains__": PyFn(opt_has, "in options"),
                                        "__getitem__": PyFn(opt, "options[]")}}}


class Parse(Setter):
    """an option line is consumed by the owner of the option and set by its declared kind; any other line is left"""
    which = "parse"

    def __init__(self, kind):
        Setter.__init__(self, kind, CONF + ".parse_config")


def contracts():
    return [Setter(k) for k in KINDS] + [Parse(k) for k in KINDS]
