"""C03: the effective score of a rule"""
from .common import *

PROPERTY = "C03"
BASE = "oa.rules.base:BaseRule"

INIT_SPEC = '''
import oa.errors

def init(self, name, score, desc, priority, tflags):
    if name.startswith("__"):
        scores = [0.0]
    elif score is not None:
        scores = score
    elif tflags and "nice" in tflags:
        scores = [-1.0]
    else:
        scores = [1.0]
    if len(scores) != 1 and len(scores) != 4:
        raise oa.errors.InvalidRule(name, "")
    self.score = scores[0]
    self._scores = scores
    self.name = name
    self.tflags = tflags
    self.description = "No description available." if desc is None else desc
    try:
        self.priority = int(priority)
    except ValueError:
        self.priority = 0
'''

PRE_SPEC = '''
def preprocess(self, ruleset):
    flags = self.tflags or []
    off = (("net" in flags and not ruleset.conf["use_network"])
           or ("noautolearn" in flags and bool(ruleset.conf["autolearn"]))
           or ("learn" in flags and not ruleset.conf["use_bayes"])
           or ("userconf" in flags and not ruleset.conf["user_config"]))
    if off:
        self.score = 0
    elif len(self._scores) == 4:
        if ruleset.conf["use_bayes"]:
            self.score = self._scores[3] if ruleset.conf["use_network"] else self._scores[2]
        else:
            self.score = self._scores[1] if ruleset.conf["use_network"] else self._scores[0]
'''


class Init(SpecContract):
    """the score list is accepted with one or four scores, kept, and flags are read"""
    qual = BASE + ".__init__"
    spec = INIT_SPEC
    result = False
    raise_state = False

    def __init__(self, score, flags):
        self.with_score, self.with_flags = score, flags
        self.name = "%s[score=%s,tflags=%s]" % (self.qual, score, flags)

    def setup(self, v):
        self.me = v.new_obj(BASE)
        score = {"none": lambda: NONE, "list": lambda: new_list(v, Real, "scores")}[self.with_score]()
        flags = {"none": lambda: NONE, "list": lambda: new_list(v, Str, "tflags")}[self.with_flags]()
        return [self.me, v.fresh(Str, "name"), score, v.fresh(Opt(Str), "desc"), v.fresh(Str, "priority"), flags], {}

    def observe(self, v, a):
        r = v.rec(self.me)
        return [(f, r.fields[f]) for f in ("score", "name", "description", "priority")
                if r.fields.get(f) is not None]

    def extra(self, v, a, old, out):
        if out.kind == "return":
            for f in ("score", "name", "description", "priority", "_scores", "tflags"):
                v.check("sets %s" % f, v.rec(self.me).fields.get(f) is not None)
            s = v.getattr(self.me, "_scores")
            v.check("one or four scores", z3.Or(v.k(v.term(v.length(s), Int)) == 1, v.term(v.length(s), Int) == 4))


class Preprocess(SpecContract):
    """the effective score by list, flags and modes"""
    qual = BASE + ".preprocess"
    spec = PRE_SPEC

    def __init__(self, n, flags):
        self.n, self.flags = n, flags
        self.name = "%s[%d scores,tflags=%s]" % (self.qual, n, flags)

    def setup(self, v):
        self.conf = conf_dict(v, use_network=Bool, use_bayes=Bool, autolearn=Bool, user_config=Bool)
        self.rs = obj(v, "RuleSetX", "ruleset", conf=self.conf)
        scores = v.alloc(ListRec([v.fresh(Real, "score") for _ in range(self.n)]))
        flags = NONE if self.flags == "none" else new_list(v, Str, "tflags")
        self.me = obj(v, BASE, "rule", _scores=scores, tflags=flags, score=v.fresh(Real, "score0"),
                      name=v.fresh(Str, "name"))
        # as left by __init__
        v.assume(fterm(v, self.me, "score", Real) == v.term(v.rec(scores).items[0], Real))
        return [self.me, self.rs], {}

    def observe(self, v, a):
        return [(f, v.getattr(self.me, f)) for f in ("score", "name")]


def contracts():
    return [Init(s, f) for s in ("none", "list") for f in ("none", "list")] + \
        [Preprocess(n, f) for n in (1, 4) for f in ("none", "list")]
