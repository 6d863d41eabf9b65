"""C01: the real RuleSet.match against the sum-of-matched-rules specification."""
import lib
from lib import *
import oa.errors
import oa.rules.ruleset
import oa.rules.base
import oa.context

NUMS, STRS = mined("oa.rules.ruleset", "oa.rules.base")
NAMES = sorted(set(["A", "B_1", "RULE", "__SUB", "T_X", "rule", "Z9", "C", "D", "E", "", "None", "False"] + STRS[:10]))
SCORES = [1.0, -1.0, 2.5, 0.1, -0.3, 0.0, 100.0, 5, 4.9, 5.0, -100] + [float(x) for x in num_pool(NUMS)]
ERRORS = [ValueError, KeyError, TypeError, RuntimeError, AttributeError, IndexError, ZeroDivisionError,
          UnicodeError, OSError, RecursionError, AssertionError, NotImplementedError, StopIteration,
          oa.errors.InvalidRule, oa.errors.InvalidSyntax, oa.errors.InhibitCallbacks, MemoryError]


class R(object):
    def __init__(self, name, score, outcome, log, desc):
        self.name, self.score, self.outcome, self.log, self.description = name, score, outcome, log, desc
        self.priority = 0
        self._rule_type = ""

    def match(self, msg):
        self.log.append((self, msg))
        if isinstance(self.outcome, BaseException):
            raise self.outcome
        return self.outcome


def mk_exc(r, cls):
    if cls is oa.errors.InvalidRule:
        return cls("x", "y")
    if cls is oa.errors.InvalidSyntax:
        return cls("f", 1, "l", "d")
    return cls("boom")


class Ctx(object):
    def __init__(self, log):
        self.log = Quiet()
        self.calls = log
        self.conf = {"required_score": 5.0}

    def hook_check_end(self, rs, msg):
        self.calls.append(("end", rs, msg, msg.score, dict(msg.rules_checked)))
        return False

    def hook_auto_learn(self, rs, msg):
        self.calls.append(("learn", rs, msg, msg.score, dict(msg.rules_checked)))
        return False


@scenario()
def match(r):
    hooks, calls = [], []
    ctx = Ctx(hooks)
    rs = oa.rules.ruleset.RuleSet(ctx)
    n = r.randint(0, 8)
    names = r.sample(NAMES, min(n, len(NAMES)))
    rules, stop_p = [], r.pick(0, 0, 0.15)
    for nm in names:
        x = r.random()
        if x < stop_p:
            out = oa.errors.StopProcessing("stop")
        elif x < stop_p + r.pick(0, 0.2):
            out = mk_exc(r, r.choice(ERRORS))
        else:
            out = r.choice([True, False, True, False, None, 1, 0, "hit text", "", "x", 2, [], [0], 0.0, (), True])
        ru = R(r.pick(nm, nm, "other"), r.choice(SCORES), out, calls, r.pick("desc " + nm, "", "d"))
        rules.append((nm, ru))
        rs.checked[nm] = ru
    pre = {} if r.maybe(.7) else {"OLD": "old", "A": "olda"}
    s0 = r.pick(0, 0, 1.5, -2.0)
    msg = Obj(score=s0, rules_checked={}, rules_descriptions=dict(pre))
    want_calls, want_res, want_desc, want = [], [], dict(pre), s0
    for nm, ru in rules:
        want_calls.append(ru)
        o = ru.outcome
        if isinstance(o, oa.errors.StopProcessing):
            break
        hit = False if isinstance(o, BaseException) else (isinstance(o, str) or bool(o))
        want_res.append((nm, hit))
        if hit:
            want += ru.score
            want_desc[nm] = o if isinstance(o, str) else ru.description
    before = list(rs.checked.items()), [(x.score, x.description, x.name) for _, x in rules], dict(rs.not_checked)
    info = dict(rules=[(nm, ru.score, repr(ru.outcome)) for nm, ru in rules], start=s0)
    try:
        rs.match(msg)
    except Exception as e:
        raise Mismatch("match raised %r" % e, "raised", **info)
    equal([c[0] for c in calls], want_calls, "rules evaluated once each, in order", **info)
    expect(all(c[1] is msg for c in calls), "evaluated on the message", **info)
    equal([(k, bool(v)) for k, v in msg.rules_checked.items()], want_res, "recorded outcomes in order", **info)
    equal(msg.rules_descriptions, want_desc, "recorded descriptions", **info)
    expect(abs(msg.score - want) < 1e-6, "score is the sum of matched scores", got=msg.score, expected=want, **info)
    equal([h[0] for h in hooks], ["end", "learn"], "end of check then learning, once each", **info)
    expect(all(h[1] is rs and h[2] is msg for h in hooks), "hook arguments", **info)
    expect(abs(hooks[0][3] - want) < 1e-6, "score complete before the end-of-check step", **info)
    equal((list(rs.checked.items()), [(x.score, x.description, x.name) for _, x in rules], dict(rs.not_checked)),
          before, "the rule set itself is unchanged", **info)


if __name__ == "__main__":
    lib.main("C01")
