"""C03: effective scores, through BaseRule and through the parser."""
import lib
from lib import *
import oa.errors
import oa.rules.base

NUMS, STRS = mined("oa.rules.base")
SC = [1.0, -1.0, 0.0, 2.5, 0.1, -0.3, 100.0, 5.0, 0.5, 3.0, 7.25] + [float(x) for x in num_pool(NUMS)]
FLAGS = ["net", "nice", "learn", "noautolearn", "userconf", "multiple", "publish", "Net", "network", "notlearn", "ne"]
NAMES = ["A", "RULE_1", "__SUB", "_X", "___", "__", "T_A", "a__", "_", "X__Y"]


def expected(name, score, tflags, conf):
    if name.startswith("__"):
        scores = [0.0]
    elif score is not None:
        scores = score
    elif tflags and "nice" in tflags:
        scores = [-1.0]
    else:
        scores = [1.0]
    if len(scores) not in (1, 4):
        return None
    fl = tflags or []
    if ("net" in fl and not conf["use_network"]) or ("noautolearn" in fl and conf["autolearn"]) or \
            ("learn" in fl and not conf["use_bayes"]) or ("userconf" in fl and not conf["user_config"]):
        return 0
    if len(scores) == 4:
        return scores[2 * bool(conf["use_bayes"]) + bool(conf["use_network"])]
    return scores[0]


@scenario()
def direct(r):
    name = r.choice(NAMES)
    n = r.pick(None, 1, 1, 4, 4, 4, 0, 2, 3, 5, 8)
    score = None if n is None else [r.choice(SC) for _ in range(n)]
    tflags = r.pick(None, [], r.sample(FLAGS, 1), r.sample(FLAGS, 2), r.sample(FLAGS, 3))
    conf = dict((k, r.maybe()) for k in ("use_network", "use_bayes", "autolearn", "user_config"))
    info = dict(name=name, score=score, tflags=tflags, conf=conf)
    want = expected(name, score, tflags, conf)
    keep = None if score is None else list(score)
    try:
        rule = oa.rules.base.BaseRule(name, score=score, tflags=tflags)
    except oa.errors.InvalidRule:
        expect(want is None, "a valid score list was rejected", **info)
        return
    expect(want is not None, "a list of %s scores was accepted" % n, **info)
    rule.preprocess(Obj(conf=conf))
    equal(rule.score, want, "effective score", **info)
    equal(rule.should_check(), want != 0 and not name.startswith("__"), "enabled iff scored", **info)
    equal(score, keep, "the score list is not changed", **info)


@scenario()
def loaded(r):
    lines, rules = [], []
    conf = dict(use_network=True, use_bayes=True, autolearn=False, user_config=True)
    for k in list(conf):
        if r.maybe():
            conf[k] = r.maybe()
            lines.append("%s %s" % (k, r.pick("1", "true", "True") if conf[k] else r.pick("0", "false", "no")))
    for nm in r.sample(NAMES[:6] + ["R%d" % i for i in range(6)], r.randint(1, 5)):
        n = r.pick(None, 1, 4, 4, 2, 3, 5)
        score = None if n is None else [r.choice(SC) for _ in range(n)]
        tflags = r.pick(None, r.sample(FLAGS[:5], 1), r.sample(FLAGS, 2))
        part = ["body %s /x/" % nm]
        if score is not None:
            part.append("score %s %s" % (nm, r.pick(" ", "  ").join(str(x) for x in score)))
        if tflags:
            part.append("tflags %s %s" % (nm, " ".join(tflags)))
        r.shuffle(part)
        lines += part
        rules.append((nm, score, tflags))
    text = "\n".join(lines) + "\n"
    p, rs = load(text)
    for nm, score, tflags in rules:
        want = expected(nm, score, tflags, conf)
        info = dict(config=text, rule=nm)
        if want is None and not nm.startswith("__"):
            expect(nm not in rs.checked and nm not in rs.not_checked, "a rule with a bad score list was kept", **info)
            continue
        rule = rs.get_rule(nm)
        equal(rule.score, want, "effective score after loading", **info)
        equal(nm in rs.checked, want != 0 and not nm.startswith("__"), "enabled iff scored", **info)
        equal(nm in rs.not_checked, not (want != 0 and not nm.startswith("__")), "disabled otherwise", **info)


if __name__ == "__main__":
    lib.main("C03")
