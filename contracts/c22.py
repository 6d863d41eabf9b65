"""C22: header rewriting"""
from .common import *
from .postparsing import PostParsing, RULESET

PROPERTY = "C22"

ADD_RULE = '''
import oa.errors


def run(self, value, remove, env):
    parts = value.split(None, 1 if remove else 2)
    if len(parts) != (2 if remove else 3):
        raise oa.errors.InvalidRule("add_header", value)
    status = parts[0].lower()
    text = None if remove else env.convert(parts[2])
    if status == "all":
        env.all.append((remove, "X-Spam-" + parts[1], text))
    elif status == "spam":
        env.spam.append((remove, "X-Spam-" + parts[1], text))
    elif status == "ham":
        env.ham.append((remove, "X-Spam-" + parts[1], text))
    else:
        raise oa.errors.InvalidRule("add_header", value)
'''


class AddRule(SpecContract):
    """'<all|spam|ham> Name text' becomes one entry of that status, anything else is an invalid rule"""
    spec = ADD_RULE
    result = False
    raise_state = True

    def __init__(self, remove):
        self.remove = remove
        self.qual = RULESET + "._add_header_rule"
        self.name = "%s[%s]" % (self.qual, "remove_header" if remove else "add_header")

    def setup(self, v):
        t = TupT(Bool, Str, Opt(Str))
        self.mods = {k: new_list(v, t, k) for k in ("all", "spam", "ham")}
        self.me = obj(v, RULESET, "ruleset", ctxt=obj(v, "Ctxt", "ctxt", log=obj(v, "Logger", "logger")),
                      header_mod=v.alloc(DictRec([(Const(k), x) for k, x in self.mods.items()])))
        self.env = obj(v, "Env", "env", **self.mods)
        self.value = v.fresh(Str, "value")
        return ([self.me, self.value, TRUE] if self.remove else [self.me, self.value]), {}

    def spec_args(self, v, a):
        return [self.me, self.value, TRUE if self.remove else FALSE, self.env]

    def observe(self, v, a):
        return [("entries for %s" % k, x) for k, x in self.mods.items()]

    def convert(self, v, x):
        return Sym("str", v.uf("convert_tags", v.term(x, Str), STR))

    def schemas(self):
        return {"Logger": {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error")}},
                "Env": {"methods": {"convert": PyFn(lambda v, a, k: self.convert(v, a[1]), "convert")}}}

    def uses(self):
        return {RULESET + "._convert_tags": Model(lambda v, f, a, k: self.convert(v, a[1]))}


HEADERS = '''
import oa.errors


def run(self, env):
    for value in self.conf["add_header"]:
        try:
            env.add(value, False)
        except oa.errors.InvalidRule:
            if env.paranoid:
                raise
    for value in self.conf["remove_header"]:
        try:
            env.add(value, True)
        except oa.errors.InvalidRule:
            if env.paranoid:
                raise
'''


class Headers(PostParsing):
    """every header line becomes a rule, in the order of the lines; one that is invalid is left out (or, in paranoid mode, reported)"""
    spec = HEADERS
    varied = ("add_header", "remove_header")
    raise_state = False
    name = PostParsing.qual + "[headers]"

    def setup(self, v):
        a = PostParsing.setup(self, v)
        v.setattr(self.env, "paranoid", self.paranoid)
        return a

    def observe(self, v, a):
        return [("additions, in order", v.getattr(self.log, "added")), ("removals, in order", v.getattr(self.log, "removed"))]


ADJUST = '''
def run(self, msg, newmsg, rules):
    for remove, name, value in rules:
        if remove:
            newmsg.remove(name)
        else:
            newmsg.add_header(name, self.fold(self.interpolate(value, msg)))
'''


class Adjust(SpecContract):
    """the rules are applied one after the other: a removal deletes that header, an addition adds one with the text for this message"""
    qual = RULESET + "._adjust_headers"
    spec = ADJUST
    result = False

    def setup(self, v):
        self.me = obj(v, RULESET, "ruleset")
        self.env = obj(v, "Env", "env")
        self.msg = obj(v, "Msg", "msg")
        self.newmsg = obj(v, "NewMsg", "newmsg", done=empty_symlist(v, TupT(Bool, Str, Str)))
        self.rules = new_list(v, TupT(Bool, Str, Str), "rules")
        return [self.me, self.msg, self.newmsg, self.rules], {}

    trusts = ("the text of an addition is a string (AddRule: None only for removals, whose text is not looked at)",)

    def spec_args(self, v, a):
        return [self.env] + a[1:]

    def observe(self, v, a):
        return [("the header changes, in order", v.getattr(self.newmsg, "done"))]

    def m_interp(self, v, text, msg):
        v.check("the tags are those of this message", isinstance(msg, Ref) and msg.id == self.msg.id)
        return Sym("str", v.uf("interpolated", v.term(text, Str), STR))

    def m_fold(self, v, text):
        return Sym("str", v.uf("folded", v.term(text, Str), STR))

    def schemas(self):
        def log(v, r, n, x):
            v.call_method(v.getattr(self.newmsg, "done"), "append", [Tup((r, n, x))])
            return NONE
        rm = PyFn(lambda v, a, k: log(v, TRUE, a[1], Const("")), "remove")
        return {"NewMsg": {"methods": {"__delitem__": rm, "remove": rm,
                                       "add_header": PyFn(lambda v, a, k: log(v, FALSE, a[1], a[2]), "add_header")}},
                "Env": {"methods": {"fold": PyFn(lambda v, a, k: self.m_fold(v, a[1]), "fold"),
                                    "interpolate": PyFn(lambda v, a, k: self.m_interp(v, a[1], a[2]), "interpolate")}}}

    def uses(self):
        return {RULESET + "._interpolate": Model(lambda v, f, a, k: self.m_interp(v, a[1], a[2])),
                RULESET + "._fold": Model(lambda v, f, a, k: self.m_fold(v, a[-1]))}


class Fold(SpecContract):
    """every line but the first is a continuation line"""
    qual = RULESET + "._fold"
    spec = '''
def run(value):
    return "\\n ".join(value.splitlines())
'''

    def setup(self, v):
        return [v.fresh(Str, "value")], {}


ADJUSTED = '''
def run(self, msg, header_only=False):
    spam = msg.score >= self.conf["required_score"]
    if spam and not header_only and self.conf["report_safe"] != 0:
        new = self.bounce(msg)
    else:
        new = self.parse(msg.raw_msg)
    if self.conf["report_safe"] == 0:
        self.report(new, msg)
    self.adjust(msg, new, "all")
    self.adjust(msg, new, "spam" if spam else "ham")
    if header_only:
        return self.text(new).split("\\n\\n", 1)[0] + "\\n\\n"
    return self.text(new)
'''


class Adjusted(TraceContract):
    """the original (or the bounce around it) with the rules for all messages and then those of its verdict applied"""
    qual = RULESET + ".get_adjusted_message"
    spec = ADJUSTED
    trusts = ("email.message.Message: parsing and as_string() are functions of the text and of the changes made",)

    def setup(self, v):
        self.conf = conf_dict(v, required_score=Real, report_safe=Int)
        self.mods = {k: obj(v, "Mods", "rules_for_" + k) for k in ("all", "spam", "ham")}
        self.me = obj(v, RULESET, "ruleset", conf=self.conf,
                      header_mod=v.alloc(DictRec([(Const(k), x) for k, x in self.mods.items()])))
        self.env = obj(v, "Env", "env", conf=self.conf)
        self.msg = obj(v, "Msg", "msg", score=v.fresh(Real, "score"), raw_msg=v.fresh(Str, "raw_msg"))
        self.only = v.fresh(Bool, "header_only")
        self.orig = obj(v, "NewMsg", "parsed")
        self.bounced = obj(v, "NewMsg", "bounce")
        return [self.me, self.msg, self.only], {}

    def spec_args(self, v, a):
        return [self.env] + a[1:]

    def m_parse(self, v, text):
        self.emit(v, "parse", text)
        return self.orig

    def m_bounce(self, v, msg):
        self.emit(v, "bounce", Const(msg.id))
        return self.bounced

    def m_adjust(self, v, msg, new, rules):
        if isinstance(rules, Const):
            rules = self.mods[rules.v]
        elif isinstance(rules, Sym):
            for k in self.mods:
                if v.decide(v.term(rules, Str) == z3.StringVal(k)):
                    rules = self.mods[k]
                    break
        self.emit(v, "adjust", Const(msg.id), Const(new.id), Const(rules.id))
        return NONE

    def m_header(self, v, new, name, value):
        self.emit(v, "header", Const(new.id), name, value)
        return NONE

    def m_text(self, v, new):
        self.emit(v, "text", Const(new.id))
        return Sym("str", v.uf("as_string", z3.IntVal(new.id), STR))

    def m_report(self, v, msg):
        v.check("the report is that of this message", msg.id == self.msg.id)
        return Sym("str", v.uf("matched_report", z3.IntVal(0), STR))

    def m_fold(self, v, x):
        return Sym("str", v.uf("folded", v.term(x, Str), STR))

    def schemas(self):
        E = lambda f: PyFn(lambda v, a, k: f(v, *a[1:]), "env")
        N = lambda f: PyFn(lambda v, a, k: f(v, *a), "newmsg")
        return {"NewMsg": {"methods": {"add_header": N(self.m_header), "as_string": N(self.m_text)}},
                "Msg": {}, "Mods": {},
                "Env": {"methods": {"bounce": E(self.m_bounce), "parse": E(self.m_parse), "adjust": E(self.m_adjust),
                                    "text": E(self.m_text),
                                    "report": E(lambda v, new, msg: self.m_header(v, new, Const("X-Spam-Report"), self.m_fold(
                                        v, self.m_report(v, msg))))}}}

    def uses(self):
        return {RULESET + "._get_bounce_message": Model(lambda v, f, a, k: self.m_bounce(v, a[1])),
                RULESET + "._adjust_headers": Model(lambda v, f, a, k: self.m_adjust(v, *a[1:])),
                RULESET + ".get_matched_report": Model(lambda v, f, a, k: self.m_report(v, a[1])),
                RULESET + "._fold": Model(lambda v, f, a, k: self.m_fold(v, a[-1]))}

    def ext(self):
        return {"email.message_from_string": lambda v, a, k: self.m_parse(v, a[0])}


INTERPOLATE = '''
def run(self, text, msg, env):
    if not msg.interpolate_data:
        data = msg.interpolate_data
        required = self.conf["required_score"]
        spam = msg.score >= required
        for tag in self.tags:
            data[tag] = "@@%s@@" % tag
        data["CONTACTADDRESS"] = self.conf["report_contact"]
        data["HOSTNAME"] = env.hostname()
        if spam:
            data["YESNOCAPS"] = "YES"
            data["YESNO"] = "Yes"
        else:
            data["YESNOCAPS"] = "NO"
            data["YESNO"] = "No"
        data["SCORE"] = "%0.1f" % msg.score
        data["REQD"] = "%0.1f" % required
        data["SUBVERSION"] = env.release()
        data["VERSION"] = env.version()
        if "REPORT" in self.tags:
            data["REPORT"] = env.matched(msg)
        if "TESTS" in self.tags:
            names = [name for name, result in msg.rules_checked.items() if result]
            data["TESTS"] = ",".join(names) if names else "none"
        if "TESTSSCORES" in self.tags:
            names = ["%s=%s" % (name, int(result)) for name, result in msg.rules_checked.items() if result]
            data["TESTSSCORES"] = ",".join(names) if names else "none"
        if "SUMMARY" in self.tags:
            data["SUMMARY"] = env.summary(msg)
        if "PREVIEW" in self.tags:
            data["PREVIEW"] = " ".join(msg.raw_text.split("\\n", 3)[:3])[:200] + "[...]"
        data.update(msg.plugin_tags)
    return text % msg.interpolate_data
'''


CHEAP = ("REPORT", "SUMMARY", "PREVIEW")


class Interpolate(SpecContract):
    """the text with every tag replaced by this message's value; the values are made once per message"""
    qual = RULESET + "._interpolate"
    spec = INTERPOLATE

    def __init__(self, varied, others):
        self.varied, self.others = varied, others
        self.name = "%s[%s asked for or not; %s]" % (self.qual, ", ".join(varied), "also " + ", ".join(others) if others else "no other")
    trusts = ("an asked-for tag is in tags (ConvertTags); that the tag list has it or not does not matter to the other tags",
              "'%' with a mapping replaces every %(NAME)s by that entry",)

    def setup(self, v):
        self.conf = conf_dict(v, required_score=Real, report_contact=Str)
        self.data = obj(v, "Data", "interpolate_data", placeholders=empty_symlist(v, TupT(Str, Str)),
                        named=v.alloc(DictRec([])), plugin=FALSE)
        self.known = v.fresh_term("values made before", BOOL)
        self.names = new_list(v, Str, "tag_names")
        self.tags = obj(v, "Tags", "tags")
        self.me = obj(v, RULESET, "ruleset", conf=self.conf, tags=self.tags)
        self.plugin_tags = new_dict(v, Str, Str, "plugin_tags")
        self.msg = obj(v, "Msg", "msg", score=v.fresh(Real, "score"), raw_text=v.fresh(Str, "raw_text"),
                       interpolate_data=self.data, plugin_tags=self.plugin_tags, rules_checked=new_dict(v, Str, Bool, "rules_checked"))
        self.env = obj(v, "Env", "env")
        return [self.me, v.fresh(Str, "text"), self.msg], {}

    def spec_args(self, v, a):
        return a + [self.env]

    def observe(self, v, a):
        return [("placeholders", v.getattr(self.data, "placeholders")), ("values", v.getattr(self.data, "named")),
                ("the tags of plugins", v.getattr(self.data, "plugin"))]

    def put(self, v, a, k):
        name, value = a[1], a[2]
        if isinstance(name, Const):
            v.check("the values come before the tags of plugins", v.getattr(self.data, "plugin") is FALSE)
            v.setitem(v.getattr(self.data, "named"), name, value)
        else:
            v.check("the placeholders come first", not v.rec(v.getattr(self.data, "named")).items)
            v.call_method(v.getattr(self.data, "placeholders"), "append", [Tup((name, value))])
        return NONE

    def asked(self, v, a, k):
        if not isinstance(a[1], Const) or a[1].v not in self.varied:
            return TRUE if isinstance(a[1], Const) and a[1].v in self.others else FALSE
        return Sym("bool", v.uf("asked_for", v.term(a[1], Str), BOOL))

    def update(self, v, a, k):
        v.check("only the tags of plugins are added", isinstance(a[1], Ref) and a[1].id == self.plugin_tags.id)
        v.setattr(self.data, "plugin", TRUE)
        return NONE

    def use(self, v, a, k):
        n = len(v.rec(v.getattr(self.data, "named")).items)
        p = v.getattr(self.data, "plugin") is TRUE
        return Sym("str", v.uf("interpolated", v.term(a[1], Str), z3.IntVal(n), z3.BoolVal(p), STR))

    def mine(self, v, a, what):
        v.check("the %s of this message" % what, isinstance(a[-1], Ref) and a[-1].id == self.msg.id)
        return Sym("str", v.uf(what, z3.IntVal(0), STR))

    def schemas(self):
        E = lambda what: PyFn(lambda v, a, k: Sym("str", v.uf(what, z3.IntVal(0), STR)), what)
        return {"Tags": {"methods": {"__contains__": PyFn(self.asked, "in"), "__iter__": PyFn(lambda v, a, k: self.names, "iter")}},
                "Data": {"methods": {"__setitem__": PyFn(self.put, "[]="), "update": PyFn(self.update, "update"),
                                     "__bool__": PyFn(lambda v, a, k: Sym("bool", self.known), "bool"),
                                     "__formats__": PyFn(self.use, "%")}},
                "Env": {"methods": {"hostname": E("hostname"), "release": E("release"), "version": E("version"),
                                    "matched": PyFn(lambda v, a, k: self.mine(v, a, "matched_report"), "matched"),
                                    "summary": PyFn(lambda v, a, k: self.mine(v, a, "summary"), "summary")}}}

    def uses(self):
        return {RULESET + ".get_matched_report": Model(lambda v, f, a, k: self.mine(v, a, "matched_report")),
                RULESET + ".get_summary_report": Model(lambda v, f, a, k: self.mine(v, a, "summary"))}

    def ext(self):
        g = lambda what: (lambda v, *a: Sym("str", v.uf(what, z3.IntVal(0), STR)))
        return {"socket.gethostname": g("hostname"), "global:oa:__release_date__": g("release"), "global:oa:__version__": g("version")}


CONVERT = '''
def run(self, text, env):
    text = text.strip("'\\"").replace("%", "%%")
    for whole, name in env.find(text):
        self.tags.add(name)
    return env.sub(text)
'''


class ConvertTags(SpecContract):
    """every tag in the text is noted and becomes a place for its value, any other text stays as it is"""
    qual = RULESET + "._convert_tags"
    spec = CONVERT
    trusts = ("oa.regex: _TAG_RE.findall and .sub are functions of the text (the pattern itself is exercised by the replay search)",)

    def setup(self, v):
        self.log = obj(v, "Tags", "tags", names=empty_symlist(v, Str))
        self.me = obj(v, RULESET, "ruleset", tags=self.log)
        self.env = obj(v, "Env", "env")
        return [self.me, v.fresh(Str, "text")], {}

    def spec_args(self, v, a):
        return a + [self.env]

    def observe(self, v, a):
        return [("the tags noted", v.getattr(self.log, "names"))]

    def find(self, v, x):
        t = ListT(TupT(Str, Str))
        return v.from_term(v.uf("tags_in", v.term(x, Str), sort_of(t)), t)

    def sub(self, v, x):
        return Sym("str", v.uf("tags_as_places", v.term(x, Str), STR))

    def m_sub(self, v, a, k):
        v.check("a tag becomes %(name)s", isinstance(a[1], Const) and a[1].v in (r"%(\2)s", r"%(\g<2>)s"))
        return self.sub(v, a[2])

    def schemas(self):
        return {"Tags": {"methods": {"add": PyFn(lambda v, a, k: v.call_method(v.getattr(a[0], "names"), "append", [a[1]]), "add")}},
                "Env": {"methods": {"find": PyFn(lambda v, a, k: self.find(v, a[1]), "find"),
                                    "sub": PyFn(lambda v, a, k: self.sub(v, a[1]), "sub")}},
                "Regex": {"methods": {"findall": PyFn(lambda v, a, k: self.find(v, a[1]), "findall"),
                                      "sub": PyFn(self.m_sub, "sub")}}}

    def ext(self):
        return {"global:oa.rules.ruleset:_TAG_RE": lambda v: obj(v, "Regex", "tag_re")}


REPORTS = {"get_report": "report", "get_unsafe_report": "unsafe_report"}


class Report(SpecContract):
    """the configured text with this message's values, or a line saying that there is none"""
    result = True

    def __init__(self, fn):
        self.fn = fn
        self.qual = self.name = RULESET + "." + fn
        self.spec = '''
def run(self, msg, env):
    if self.conf["%s"] == "":
        return "\\n(no report template found)\\n"
    return env.interpolate(self.conf["%s"], msg) + "\\n"
''' % (REPORTS[fn], REPORTS[fn])

    def setup(self, v):
        self.me = obj(v, RULESET, "ruleset", conf=conf_dict(v, report=Str, unsafe_report=Str))
        self.msg = obj(v, "Msg", "msg")
        self.env = obj(v, "Env", "env")
        return [self.me, self.msg], {}

    def spec_args(self, v, a):
        return a + [self.env]

    def m_interp(self, v, text, msg):
        v.check("the tags are those of this message", isinstance(msg, Ref) and msg.id == self.msg.id)
        return Sym("str", v.uf("interpolated", v.term(text, Str), STR))

    def schemas(self):
        return {"Env": {"methods": {"interpolate": PyFn(lambda v, a, k: self.m_interp(v, a[1], a[2]), "interpolate")}}}

    def uses(self):
        return {RULESET + "._interpolate": Model(lambda v, f, a, k: self.m_interp(v, a[1], a[2]))}


MATCHED = {"get_matched_report": '''
def run(self, msg, env):
    lines = []
    for name, result in msg.rules_checked.items():
        if result:
            rule = env.rule(name)
            lines.append("* %s %s %s%s" % (rule.score, rule.name, rule._rule_type, msg.rules_descriptions[name]))
    return "\\r\\n" + "\\r\\n".join(lines)
''', "get_summary_report": '''
def run(self, msg, env):
    lines = []
    for name, result in msg.rules_checked.items():
        if result:
            rule = env.rule(name)
            score = str(int(rule.score)) if rule.score == int(rule.score) else "%0.1f" % rule.score
            lines.append("%s %s %s" % (score.rjust(4), rule.name.ljust(22), rule.description))
    return "\\r\\n".join(lines)
'''}


class Matched(SpecContract):
    """one line for every rule that matched, in the order they were checked, and for no other"""

    def __init__(self, fn):
        self.qual = self.name = RULESET + "." + fn
        self.spec = MATCHED[fn]

    def setup(self, v):
        self.me = obj(v, RULESET, "ruleset")
        self.env = obj(v, "Env", "env")
        self.msg = obj(v, "Msg", "msg", rules_checked=new_dict(v, Str, Bool, "rules_checked"),
                       rules_descriptions=obj(v, "Descr", "descriptions"))
        return [self.me, self.msg], {}

    trusts = ("every rule with a result is known and has a description (RuleSet.match, C01)",)

    def spec_args(self, v, a):
        return a + [self.env]

    def rule(self, v, name):
        t = v.term(name, Str)
        return obj(v, "Rule", "rule", score=Sym("real", v.uf("rule_score", t, REAL)), name=name,
                   _rule_type=Sym("str", v.uf("rule_type", t, STR)), description=Sym("str", v.uf("rule_description", t, STR)))

    def schemas(self):
        return {"Rule": {}, "Env": {"methods": {"rule": PyFn(lambda v, a, k: self.rule(v, a[1]), "rule")}},
                "Descr": {"methods": {"__getitem__": PyFn(lambda v, a, k: Sym("str", v.uf(
                    "recorded_description", v.term(a[1], Str), STR)), "[]")}}}

    def uses(self):
        return {RULESET + ".get_rule": Model(lambda v, f, a, k: self.rule(v, a[1]))}


def contracts():
    return [AddRule(False), AddRule(True), Headers(), Adjust(), Fold(), Adjusted(), ConvertTags()] + [Report(n) for n in sorted(REPORTS)] + [Matched(n) for n in sorted(MATCHED)] + [
        Interpolate(t, o) for t, o in ((CHEAP, ()), (("TESTS", "TESTSSCORES"), ()), (("TESTS",), CHEAP), (("TESTSSCORES",), CHEAP))]
