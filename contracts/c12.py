"""C12: conditional and included configuration"""
from .common import *

PROPERTY = "C12"
P = "oa.rules.parser:PADParser"

LINE_SPEC = '''
import oa.errors
import locale

TWO = ("score", "priority", "describe", "full", "body", "rawbody", "uri", "header", "mimeheader", "meta", "eval",
       "lang", "tflags")
RULES = ("full", "body", "rawbody", "uri", "meta", "header", "mimeheader", "eval")


def handle(self, filename, line, line_no, depth):
    line = line.decode("iso-8859-1").strip()
    words = line.split("#", 1)[0].split(None, 1)
    word = words[0] if words else ""
    if word == "endif":
        # leaves the innermost condition
        if self._conditions:
            self._conditions.pop()
        self._ignore = not all(self._conditions)
        return
    if word == "else":
        # the other branch of the innermost condition
        if self._conditions:
            self._conditions[-1] = not self._conditions[-1]
        self._ignore = not all(self._conditions)
        return
    if self._ignore:
        # nothing in a branch that is not taken has an effect; conditions nest
        if word == "if" or word == "ifplugin":
            self._conditions.append(True)
        return
    if line.startswith("require_version") or not line or line.startswith("#"):
        return
    line = self.without_comment(line).strip()
    parts = line.split(None, 1)
    if len(parts) == 2:
        kind, value = parts
    else:
        kind, value = line, ""
    if kind == "include":
        self.do_include(filename, value, line, line_no, depth)
    elif kind == "ifplugin":
        self.do_ifplugin(value)
    elif kind == "loadplugin":
        self.do_loadplugin(value)
    elif kind in TWO or kind in self.ctxt.cmds:
        self.do_rule(filename, line, line_no)
    else:
        if kind == "if":
            self._conditions.append(True)
        if not self.ctxt.hook_parse_config(kind, value):
            pass
'''


class HandleLine(TraceContract):
    """a line takes effect exactly when every enclosing condition holds, and then by its keyword"""
    qual = P + "._handle_line"
    spec = LINE_SPEC
    result = False
    budget = 800

    def setup(self, v):
        self.conds = new_list(v, Bool, "conditions")
        self.ignore = v.fresh(Bool, "ignore")
        self.cmds = new_dict(v, Str, ObjT("RuleClass"), "cmds")
        self.results = obj(v, "Results", "results")
        self.ctxt = obj(v, "Ctxt", "ctxt", cmds=self.cmds)
        self.me = obj(v, P, "parser", _conditions=self.conds, _ignore=self.ignore, ctxt=self.ctxt, results=self.results)
        r = v.rec(self.conds)
        # representation invariant: lines are ignored iff some enclosing condition does not hold
        v.assume(v.term(self.ignore, Bool) == exists(v, [INT], lambda j: z3.And(rng(0, j, r.n), z3.Not(sel(r.arr, j)))))
        self.in_spec = False
        return [self.me, v.fresh(Str, "filename"), v.fresh(Bytes, "line"), v.fresh(Int, "line_no"), v.fresh(Int, "depth")], {}

    def observe(self, v, a):
        return [("ignored", v.getattr(self.me, "_ignore")), ("conditions", v.getattr(self.me, "_conditions"))]

    def schemas(self):
        def parts(v, line):
            return v.call_method(line, "split", [NONE, Const(1)])

        def include(v, a, k):
            self.emit(v, "include", *(a[1:5] + [k.get("dirname", NONE)]))
            return NONE

        def do_include(v, a, k):
            self.emit(v, "include", a[2], a[3], a[4], a[5], self.dirname(v, a[1]))
            return NONE

        def one(tag):
            def f(v, a, k):
                self.emit(v, tag, a[1])
                return NONE
            return PyFn(f, tag)

        def without(v, a, k):
            return Sym("str", v.uf("without_comment", v.term(a[1], Str), STR))

        def hook(v, a, k):
            self.emit(v, "option", a[1], a[2])
            return Sym("bool", v.uf("option_consumed", v.term(a[1], Str), v.term(a[2], Str), BOOL))
        nothing = {"methods": {}}
        return {P: {"methods": {
            "_handle_include": PyFn(include, "_handle_include"), "do_include": PyFn(do_include, "do_include"),
            "_handle_ifplugin": one("ifplugin"), "do_ifplugin": one("ifplugin"),
            "_handle_loadplugin": one("loadplugin"), "do_loadplugin": one("loadplugin"),
            "without_comment": PyFn(without, "without_comment"), "do_rule": PyFn(self.do_rule, "do_rule")}},
            "Ctxt": {"methods": {"err": noop_method("err"), "hook_parse_config": PyFn(hook, "hook_parse_config")}},
            "RuleClass": nothing, "Results": {"methods": {
                "__contains__": PyFn(self.r_has, "results.__contains__"),
                "__getitem__": PyFn(self.r_get, "results.__getitem__"),
                "__setitem__": PyFn(self.r_set, "results.__setitem__")}},
            "Entry": {"methods": {"__setitem__": PyFn(self.e_set, "entry.__setitem__")}}}

    def dirname(self, v, filename):
        t = v.term(filename, Str)
        if v.decide(v.uf("os.path.isabs", t, BOOL)):
            return Sym("str", v.uf("os.path.dirname", t, STR))
        return NONE

    # the parsed rule lines: name -> key -> value
    def r_has(self, v, a, k):
        return Sym("bool", v.uf("has_entry", v.term(a[1], Str), BOOL))

    def r_get(self, v, a, k):
        return v.obj_ref(v.uf("entry_of", v.term(a[1], Str), OBJ), "Entry")

    def r_set(self, v, a, k):
        v.check("a new entry only for a new name", z3.Not(v.uf("has_entry", v.term(a[1], Str), BOOL)))
        return NONE

    def e_set(self, v, a, k):
        val = a[2]
        if isinstance(val, Ref):
            self.emit(v, "store-words", v.obj_ref(v.rec(a[0]).term, "Entry"), a[1])
        else:
            self.emit(v, "store", v.obj_ref(v.rec(a[0]).term, "Entry"), a[1], val)
        return NONE

    RULE_SPEC = '''
RULES = ("full", "body", "rawbody", "uri", "meta", "header", "mimeheader", "eval")


def rule(self, kind, name, value):
    entry = self.results[name]
    if kind in RULES or kind in self.ctxt.cmds:
        if kind != "tflags" and value.startswith("eval:"):
            entry["target"] = kind
            entry["type"] = "eval"
        else:
            entry["type"] = kind
        entry["value"] = value
    else:
        entry[kind] = value
'''

    def do_rule(self, v, a, k):
        """what a rule line does (the specification side)"""
        line = a[2]
        ps = v.call_method(line, "split", [NONE, Const(2)])
        n = v.length(ps)
        if not v.decide(v.term(n, Int) == 3):
            raise v.exc("oa.errors:InvalidSyntax")
        kind, name, value = [v.index(ps, Const(i)) for i in range(3)]
        if v.decide(v.term(kind, Str) == z3.StringVal("lang")):
            self.emit(v, "lang")
            return NONE
        if v.decide(v.term(kind, Str) == z3.StringVal("tflags")):
            value = v.call_method(value, "split", [])
            if v.is_true(v.b(v.contains(self.cmds, kind))):
                raise I.PathEnd()
        w = spec_call(v, self.RULE_SPEC, [self.me, kind, name, value])
        return NONE

    def uses(self):
        return {"oa.regex:Regex.sub": Model(lambda v, f, a, k: Sym("str", v.uf("without_comment", v.term(a[2], Str), STR)))}

    def ext(self):
        def dirname(v, a, k):
            return Sym("str", v.uf("os.path.dirname", v.term(a[0], Str), STR))

        def isabs(v, a, k):
            return Sym("bool", v.uf("os.path.isabs", v.term(a[0], Str), BOOL))

        def setlocale(v, a, k):
            # lines for one language: from here on by the bounded search
            self.emit(v, "lang")
            raise I.ReturnEx(NONE)
        return {"os.path.dirname": dirname, "os.path.isabs": isabs, "locale.setlocale": setlocale}


class IfPlugin(SpecContract):
    """the lines that follow are used iff the plugin is loaded (under its own or its SpamAssassin name)"""
    qual = P + "._handle_ifplugin"
    result = False
    spec = '''
import oa.plugins

def handle(self, value):
    name = oa.plugins.REIMPLEMENTED_PLUGINS.get(value, value)
    if "." in name:
        name = name.rsplit(".", 1)[1]
    loaded = name in self.ctxt.plugins
    self._conditions.append(loaded)
    self._ignore = not all(self._conditions)
'''

    def __init__(self):
        self.name = self.qual

    def setup(self, v):
        self.conds = new_list(v, Bool, "conditions")
        self.plugins = new_dict(v, Str, ObjT("Plugin"), "plugins")
        self.me = obj(v, P, "parser", _conditions=self.conds, _ignore=v.fresh(Bool, "ignore"),
                      ctxt=obj(v, "Ctxt", "ctxt", plugins=self.plugins))
        return [self.me, v.fresh(Str, "value")], {}

    def schemas(self):
        return {"Ctxt": {}, "Plugin": {}}

    def ext(self):
        return {}

    def observe(self, v, a):
        return [("ignored", v.getattr(self.me, "_ignore")), ("conditions", v.getattr(self.me, "_conditions")),
                ("plugins", self.plugins)]


class Include(TraceContract):
    """the included file is parsed one level deeper, relative to the including file"""
    qual = P + "._handle_include"
    result = False
    spec = '''
import os

def include(self, value, line, line_no, depth, dirname):
    name = value.strip()
    if not os.path.isabs(name) and dirname is not None:
        name = os.path.join(dirname, name)
    self.parse_file(name, depth + 1)
'''

    def __init__(self):
        self.name = self.qual

    def setup(self, v):
        self.me = obj(v, P, "parser")
        return [self.me, v.fresh(Str, "value"), v.fresh(Str, "line"), v.fresh(Int, "line_no"), v.fresh(Int, "depth"),
                v.fresh(Opt(Str), "dirname")], {}

    def schemas(self):
        def parse_file(v, a, k):
            d = a[2] if len(a) > 2 else k.get("_depth", Const(0))
            self.emit(v, "parse", a[1], d)
            if v.decide(v.uf("too_deep", v.term(d, Int), BOOL)):
                raise v.exc("oa.errors:MaxRecursionDepthExceeded")
            return NONE
        return {P: {"methods": {"parse_file": PyFn(parse_file, "parse_file")}},
                "exc:oa.errors:MaxRecursionDepthExceeded": {"methods": {"add_call": noop_method("add_call")}}}

    def ext(self):
        def isabs(v, a, k):
            return Sym("bool", v.uf("os.path.isabs", v.term(a[0], Str), BOOL))

        def join(v, a, k):
            return Sym("str", v.uf("os.path.join", v.term(a[0], Str), v.term(a[1], Str), STR))
        return {"os.path.isabs": isabs, "os.path.join": join}


class ParseFile(Contract):
    """every line of the file is handled once, in order, with its number; a bad line is reported and
    skipped (strict mode: loading fails); nothing is opened beyond the fixed depth"""
    qual = P + ".parse_file"

    def __init__(self):
        self.name = self.qual

    def setup(self, v):
        self.paranoid = v.fresh(Bool, "paranoid")
        self.lines = new_list(v, Bytes, "lines")
        self.me = obj(v, P, "parser", ctxt=obj(v, "Ctxt", "ctxt", paranoid=self.paranoid))
        self.fname = v.fresh(Str, "filename")
        self.depth = v.fresh(Int, "depth")
        self.handled = ghost_list(v, Int)
        return [self.me, self.fname, self.depth], {}

    def outcome(self, i):
        return z3.Function("outcome_of_line", INT, INT)(i)

    def schemas(self):
        def handle(v, a, k):
            l = v.rec(self.lines)
            no = v.term(a[3], Int)
            v.check("the line of that number", z3.And(rng(1, no, l.n + 1), v.term(a[2], Bytes) == sel(l.arr, no - 1)))
            v.check("of this file, at this depth", z3.And(v.term(a[1], Str) == v.term(self.fname, Str),
                                                           v.term(a[4] if len(a) > 4 else k.get("_depth", Const(0)), Int)
                                                           == v.term(self.depth, Int)))
            log_event(v, self.handled, no)
            o = self.outcome(no)
            if v.decide(o == 1):
                raise v.exc("oa.errors:InvalidSyntax")
            if v.decide(o == 2):
                raise v.exc("oa.errors:PluginError")
            if v.decide(o == 3):
                raise v.exc("oa.errors:PluginLoadError")
            if v.decide(o == 4):
                raise v.exc("oa.errors:MaxRecursionDepthExceeded")
            return NONE
        return {P: {"methods": {"_handle_line": PyFn(handle, "_handle_line")}},
                "Ctxt": {"methods": {"err": noop_method("err")}}}

    def ext(self):
        return {"os.path.isfile": lambda v, a, k: Sym("bool", v.uf("isfile", v.term(a[0], Str), BOOL)),
                "builtins.open": self.opened, "warnings.warn": lambda v, a, k: NONE}

    def opened(self, v, a, k):
        v.check("not beyond the fixed depth", v.term(self.depth, Int) <= 10)
        v.check("the file of that name", v.term(a[0], Str) == v.term(self.fname, Str))
        return self.lines

    def invariants(self, v, L):
        h = v.rec(self.handled)
        par = v.term(self.paranoid, Bool)
        yield "one call per line", h.n == L.i
        yield "in order", forall(v, [INT], lambda j: z3.Implies(rng(0, j, L.i), sel(h.arr, j) == j + 1))
        yield "strict mode passes no bad line", forall(v, [INT], lambda j: z3.Implies(rng(0, j, L.i), z3.And(
            self.outcome(j + 1) != 4,
            z3.Implies(par, z3.And(self.outcome(j + 1) != 1, self.outcome(j + 1) != 2)))),
            lambda j: [self.outcome(j + 1)])

    def post(self, v, a, old, out):
        d, par = v.term(self.depth, Int), v.term(self.paranoid, Bool)
        n = v.rec(self.lines).n
        h = v.rec(self.handled)
        isf = v.uf("isfile", v.term(self.fname, Str), BOOL)
        if out.kind == "raise":
            c = exc_class(out)
            if c == "oa.errors:MaxRecursionDepthExceeded":
                v.check("only beyond the depth, or from a line", z3.Or(d > 10, z3.And(h.n > 0, self.outcome(h.n) == 4)))
            else:
                v.check("a bad line fails only in strict mode", z3.And(par, z3.Or(
                    z3.And(c == "oa.errors:InvalidSyntax", self.outcome(h.n) == 1),
                    z3.And(c == "oa.errors:PluginError", self.outcome(h.n) == 2))))
            return
        v.check("the depth is bounded", d <= 10)
        v.check("every line was handled", z3.If(isf, h.n == n, h.n == 0))
        j = v.fresh_term("line", INT)
        v.check("strict mode accepts no bad line", z3.Implies(z3.And(par, isf, rng(0, j, n)), z3.And(
            self.outcome(j + 1) != 1, self.outcome(j + 1) != 2)))


class GetRuleset(SpecContract):
    """every parsed rule is built once by the class of its type and added, in order; a rule without a type or an
    invalid rule is skipped without affecting the others, in strict mode it fails the load"""
    qual = P + ".get_ruleset"
    budget = 400
    raise_state = False
    spec = '''
import oa.errors

def get(self, log):
    good = [name for name in self.results if not self.kind(name)]
    log.steps.append(1)
    if self.ctxt.paranoid:
        for name in self.results:
            if self.kind(name):
                raise ValueError()
    log.added.extend(good)
    log.steps.append(2)
    log.steps.append(3)
    return self.ruleset
'''

    def __init__(self):
        self.name = self.qual

    def setup(self, v):
        self.results = new_dict(v, Str, ObjT("Data"), "results")
        self.cmds = new_dict(v, Str, ObjT("RuleClass"), "cmds")
        r = v.rec(self.results)
        nd = z3.Function("name_of_data", OBJ, STR)
        # each rule name has its own record of lines
        v.assume(forall(v, [STR], lambda x: z3.Implies(sel(r.has, x), nd(sel(r.val, x)) == x), lambda x: [sel(r.val, x)]))
        self.log = obj(v, "Log", "log", steps=v.alloc(ListRec([])), added=empty_symlist(v, Str))
        self.ruleset = obj(v, "RuleSet", "ruleset", checked=new_list(v, Int, "checked"))
        self.me = obj(v, P, "parser", ctxt=obj(v, "Ctxt", "ctxt", paranoid=v.fresh(Bool, "paranoid"), cmds=self.cmds),
                      results=self.results, ruleset=self.ruleset)
        return [self.me], {}

    def spec_args(self, v, a):
        return [self.me, self.log]

    def observe(self, v, a):
        return [("steps", v.getattr(self.log, "steps")),
                ("added", v.getattr(self.log, "added"))]

    # outcome of building the rule of that name: 0 fine, 1 no type, 2 invalid rule, 3 invalid pattern
    def outcome(self, v, nm):
        return v.uf("outcome_of_rule", nm, INT)

    def schemas(self):
        def getitem(v, a, k):
            nm = v.uf("name_of_data", v.rec(a[0]).term, STR)
            v.check("the type is asked for", v.term(a[1], Str) == z3.StringVal("type"))
            if v.decide(self.outcome(v, nm) == 1):
                raise v.exc("KeyError")
            t = v.uf("type_of_rule", nm, STR)
            # _handle_line stores a type only for a known kind of rule
            v.assume(z3.Or(v.uf("builtin_kind", t, BOOL), sel(v.rec(self.cmds).has, t)))
            return Sym("str", t)

        def step(n, what=None):
            def f(v, a, k):
                if what:
                    v.check("a hook's argument", isinstance(a[1], Ref) and a[1].id == getattr(self, what).id)
                v.call_method(v.getattr(self.log, "steps"), "append", [Const(n)])
                return NONE
            return PyFn(f, "step%d" % n)

        def add_rule(v, a, k):
            nm = Sym("str", v.uf("name_of_rule", v.rec(a[1]).term, STR))
            v.call_method(v.getattr(self.log, "added"), "append", [nm])
            return NONE

        def kind(v, a, k):
            o = self.outcome(v, v.term(a[1], Str))
            return Sym("bool", v.k(z3.Or(o == 1, o == 2, o == 3)))
        return {"Data": {"methods": {"__getitem__": PyFn(getitem, "data.__getitem__")}},
                "RuleClass": {"methods": {"get_rule": PyFn(lambda v, a, k: self.built(v, a[1], a[2]), "get_rule")}},
                "Table": {"methods": {"__getitem__": PyFn(self.t_get, "RULES.__getitem__"),
                                      "__contains__": PyFn(self.t_has, "RULES.__contains__"),
                                      "get": PyFn(self.t_find, "RULES.get")}},
                "RuleSet": {"methods": {"add_rule": PyFn(add_rule, "add_rule"), "post_parsing": step(3)}},
                "Rule": {}, "Log": {}, P: {"methods": {"kind": PyFn(kind, "kind")}}, "Ctxt": {"methods": {
                    "err": noop_method("err"), "hook_parsing_start": step(1, "results"),
                    "hook_parsing_end": step(2, "ruleset")}}}

    def t_has(self, v, a, k):
        return Sym("bool", v.uf("builtin_kind", v.term(a[1], Str), BOOL))

    def t_get(self, v, a, k):
        if not v.decide(v.uf("builtin_kind", v.term(a[1], Str), BOOL)):
            raise v.exc("KeyError")
        return v.obj_ref(v.uf("builtin_class", v.term(a[1], Str), OBJ), "RuleClass")

    def t_find(self, v, a, k):
        if not v.decide(v.uf("builtin_kind", v.term(a[1], Str), BOOL)):
            return a[2] if len(a) > 2 else NONE
        return v.obj_ref(v.uf("builtin_class", v.term(a[1], Str), OBJ), "RuleClass")

    def built(self, v, name, data):
        nm = v.term(name, Str)
        v.check("the data of that rule", v.uf("name_of_data", v.rec(data).term, STR) == nm)
        o = self.outcome(v, nm)
        if v.decide(o == 2):
            raise v.exc("oa.errors:InvalidRule")
        if v.decide(o == 3):
            raise v.exc("oa.errors:InvalidRegex")
        t = v.uf("rule_of", nm, OBJ)
        v.assume(v.uf("name_of_rule", t, STR) == nm)
        return v.obj_ref(t, "Rule")

    def post(self, v, a, old, out):
        # which of the errors is raised is not specified
        if out.kind == "raise" and exc_class(out) in ("oa.errors:InvalidRule", "oa.errors:InvalidRegex"):
            out = Out("raise", None, v.exc("ValueError"))
        SpecContract.post(self, v, a, old, out)

    def ext(self):
        # the table of the built-in kinds of rules: some table of rule classes
        return {"global:oa.rules.parser:RULES": lambda v: obj(v, "Table", "RULES")}


def contracts():
    return [HandleLine("%s._handle_line" % P), IfPlugin(), Include(), ParseFile(), GetRuleset()]
