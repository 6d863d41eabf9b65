"""C15: the rule set that serves a request"""
from .common import *

PROPERTY = "C15"
SERVER = "oa.server:Server"
PARSER = "oa.rules.parser:PADParser"

SPEC = '''
import oa.rules.parser


def run(self, user, env):
    if user is None or not self._ruleset.conf["allow_user_rules"]:
        return self._ruleset
    if user in self._user_rulesets:
        return self._user_rulesets[user]
    path = env.userprefs(user)
    if not env.exists(path):
        return self._ruleset
    parser = oa.rules.parser.PADParser(self._ruleset.ctxt.paranoid, self._ruleset.ctxt.ignore_unknown)
    for filename in env.files(self.configpath, self.sitepath):
        parser.parse_file(filename)
    parser.results = env.copy(self._parser_results)
    parser.parse_file(path)
    ruleset = parser.get_ruleset()
    self._user_rulesets[user] = ruleset
    return ruleset
'''

LOAD = '''
def run(self, env):
    self._user_rulesets.clear()
    parser = env.parse(env.files(self.configpath, self.sitepath), self.paranoid, self.ignore_unknown)
    self._ruleset = parser.get_ruleset()
    self._parser_results = parser.results
'''


class Serve(TraceContract):
    """the main rule set, the user's cached one, or a new one from the main configuration and the user's file"""
    qual = SERVER + ".get_user_ruleset"
    spec = SPEC
    trusts = ("copy.deepcopy yields an equal value that shares nothing with the original",)

    def setup(self, v):
        self.rs = None
        self.cache = new_dict(v, Str, ObjT("RuleSet"), "user_rulesets")
        self.ctxt = obj(v, "Ctxt", "ctxt")
        conf = conf_dict(v, allow_user_rules=Bool)
        self.main = obj(v, "RuleSet", "main", conf=conf, ctxt=self.ctxt)
        self.files = new_list(v, Str, "config_files")
        self.log = obj(v, "Log", "log", parsed=empty_symlist(v, Str))
        self.env = obj(v, "Env", "env")
        self.me = obj(v, SERVER, "server", _ruleset=self.main, _user_rulesets=self.cache,
                      _parser_results=v.fresh(Any, "results"), log=obj(v, "Logger", "logger"),
                      configpath=v.fresh(Str, "configpath"), sitepath=v.fresh(Str, "sitepath"),
                      paranoid=v.fresh(Bool, "paranoid"), ignore_unknown=v.fresh(Bool, "ignore_unknown"))
        return [self.me] + self.params(v), {}

    def params(self, v):
        return [v.fresh(Opt(Str), "user")]

    def spec_args(self, v, a):
        return a + [self.env]

    def observe(self, v, a):
        return [("the cached rule sets", v.getattr(self.me, "_user_rulesets")),
                ("the main rule set", v.getattr(self.me, "_ruleset")),
                ("the main results", v.getattr(self.me, "_parser_results")),
                ("the files parsed, in order", v.getattr(self.log, "parsed"))]

    def result_set(self, v):
        if self.rs is None:
            self.rs = obj(v, "RuleSet", "new_ruleset", ctxt=obj(v, "Ctxt", "new_ctxt"))
        return self.rs

    # what the environment does
    def m_files(self, v, cp, sp):
        self.emit(v, "files", cp, sp)
        return self.files

    def m_path(self, v, user):
        return Sym("str", v.uf("userprefs_path", v.term(user, Str), STR))

    def m_exists(self, v, path):
        return Sym("bool", v.uf("exists", v.term(path, Str), BOOL))

    def m_copy(self, v, x):
        return v.any_of(v.uf("copy", v.box(x), Val))

    def schemas(self):
        def parse_file(v, a, k):
            self.emit_len(v)
            v.call_method(v.getattr(self.log, "parsed"), "append", [a[1]])
            return NONE

        def get_ruleset(v, a, k):
            self.emit(v, "rule set from", v.getattr(a[0], "results"))
            if v.decide(v.uf("get_ruleset_fails", z3.IntVal(0), BOOL)):
                raise v.exc("OTHER")
            return self.result_set(v)
        E = lambda f: PyFn(lambda v, a, k: f(v, *a[1:]), f.__name__)
        log = {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error")}}
        return {"Logger": log, "Log": {}, "Ctxt": {"fields": {"paranoid": Bool, "ignore_unknown": Bool}, "setters": {}},
                "RuleSet": {},
                "Env": {"methods": {"userprefs": E(self.m_path), "exists": E(self.m_exists), "files": E(self.m_files),
                                    "copy": E(self.m_copy), "parse": E(self.m_parse)}},
                PARSER: {"methods": {"parse_file": PyFn(parse_file, "parse_file"),
                                     "get_ruleset": PyFn(get_ruleset, "get_ruleset")}}}

    def emit_len(self, v):
        pass

    def m_parse(self, v, files, paranoid, ignore):
        self.emit(v, "parse", files, paranoid, ignore)
        if self.parser is None:
            self.parser = obj(v, PARSER, "parser", results=v.fresh(Any, "parsed_results"))
        return self.parser

    parser = None

    def uses(self):
        def init(v, f, a, k):
            d = dict(zip(("paranoid", "ignore_unknown", "lazy_mode"), a[1:]))
            d.update(k)
            self.emit(v, "parser", d.get("paranoid", FALSE), d.get("ignore_unknown", TRUE), d.get("lazy_mode", TRUE))
            v.setattr(a[0], "results", NONE)
            return NONE

        def parse(v, f, a, k):
            d = dict(zip(("files", "paranoid", "ignore_unknown"), a))
            d.update(k)
            return self.m_parse(v, d["files"], d.get("paranoid", FALSE), d.get("ignore_unknown", TRUE))
        return {PARSER + ".__init__": Model(init), "oa.rules.parser:parse_pad_rules": Model(parse),
                "oa.config:get_userprefs_path": Model(lambda v, f, a, k: self.m_path(v, a[0] if a else k["user"])),
                "oa.config:get_config_files": Model(lambda v, f, a, k: self.m_files(v, *a))}

    def ext(self):
        return {"os.path.exists": lambda v, a, k: self.m_exists(v, a[0]),
                "os.path.isfile": lambda v, a, k: self.m_exists(v, a[0]),
                "copy.deepcopy": lambda v, a, k: self.m_copy(v, a[0])}


class Load(Serve):
    """(re)loading forgets every user's rule set and builds the main one from the configuration files"""
    qual = SERVER + ".load_config"
    spec = LOAD

    def params(self, v):
        self.parser = None
        return []


def contracts():
    return [Serve(), Load()]
