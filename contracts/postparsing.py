"""what RuleSet.post_parsing makes of the options (C16, C22)"""
from .common import *

RULESET = "oa.rules.ruleset:RuleSet"


class PostParsing(SpecContract):
    """what post_parsing makes of the options named in `varied` (the others are empty here)"""
    qual = RULESET + ".post_parsing"
    result = False
    varied = ()
    trusts = ("the options are independent: those not under contract here are empty",)

    def setup(self, v):
        self.dns = obj(v, "DNS", "dns", query_restrictions=new_dict(v, Str, Bool, "query_restrictions"))
        self.paranoid = v.fresh(Bool, "paranoid")
        self.ctxt = obj(v, "Ctxt", "ctxt", dns=self.dns, log=obj(v, "Logger", "logger"), paranoid=self.paranoid)
        lists = {k: (new_list(v, Str, k) if k in self.varied else empty_symlist(v, Str)) for k in (
            "report", "unsafe_report", "add_header", "remove_header", "dns_query_restriction")}
        self.conf = conf_dict(v, dns_options=Str, **lists)
        self.log = obj(v, "Log", "log", added=empty_symlist(v, Str), removed=empty_symlist(v, Str))
        self.me = obj(v, RULESET, "ruleset", conf=self.conf, ctxt=self.ctxt, checked=v.alloc(DictRec([])),
                      not_checked=v.alloc(DictRec([])), tags=v.alloc(SetRec([])))
        self.env = obj(v, "Env", "env", log=self.log)
        return [self.me], {}

    def spec_args(self, v, a):
        return [self.me, self.env]

    def schemas(self):
        log = {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error")}}
        E = lambda f: PyFn(lambda v, a, k: f(v, *a[1:]), "env")
        return {"Logger": log, "Ctxt": {"methods": {"err": noop_method("err")}}, "DNS": {}, "Log": {},
                "Env": {"methods": {"convert": E(self.m_convert), "add": E(self.m_add)}},
                "Regex": {"methods": {"match": PyFn(lambda v, a, k: NONE, "match")}}}

    def m_convert(self, v, x):
        return Sym("str", v.uf("convert_tags", v.term(x, Str), STR))

    def m_add(self, v, value, remove):
        flag = v.decide(v.k(v.truth(remove))) if not isinstance(remove, Const) else bool(remove.v)
        bad = v.decide(v.uf("invalid_header_rule", v.term(value, Str), z3.BoolVal(flag), BOOL))
        if bad:
            raise v.exc("oa.errors:InvalidRule")
        v.call_method(v.getattr(self.log, "removed" if flag else "added"), "append", [value])
        return NONE

    def uses(self):
        return {RULESET + ".call_postparsing": Model(lambda v, f, a, k: NONE),
                RULESET + "._convert_tags": Model(lambda v, f, a, k: self.m_convert(v, a[1])),
                RULESET + "._add_header_rule": Model(lambda v, f, a, k: self.m_add(
                    v, a[1], a[2] if len(a) > 2 else k.get("remove", FALSE)))}

    def ext(self):
        return {"global:oa.rules.ruleset:_DNS_OPTIONS_RE": lambda v: obj(v, "Regex", "dns_options_re")}
