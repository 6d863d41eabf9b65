"""C05: short-circuited rules, wrapper and whole checks."""
import lib
from lib import *
import oa.errors
import oa.plugins.short_circuit as sc


class Rule(object):
    def __init__(self, name, score, result, descr="D"):
        self.name, self.score, self.result, self.description, self.calls = name, score, result, descr, 0

    def match(self, msg):
        self.calls += 1
        if isinstance(self.result, Exception):
            raise self.result
        return self.result


@scenario(1)
def wrapper(r):
    rule = Rule(r.pick("A", "B_1"), r.pick(1.0, -2.5, 0.1, 100.0, 0), r.pick(True, False, None, 0, 1, "", "text", [], [1], 2.5),
                r.pick("D", ""))
    st = r.pick("on", "ham", "spam")
    spam, ham, s0 = r.pick(100.0, 50.5, -1.0, 0.0), r.pick(-100.0, 3.0, 0.0), r.pick(0, 2.0, -7.5, 55.0)
    msg = Obj(score=s0, plugin_tags={"SC": "no", "X": "y"}, rules_checked={"Z": False}, rules_descriptions={"Z": "z"})
    w = sc.ShortCircuitRule(rule, rule.match, st, spam, ham)
    info = dict(rule=rule.__dict__, type=st, spam=spam, ham=ham, score=s0)
    try:
        got = w(msg)
        stopped = False
    except oa.errors.StopProcessing:
        stopped = True
    equal(rule.calls, 1, "the rule is evaluated once", **info)
    if not rule.result:
        expect(not stopped and got == rule.result, "a miss goes on", **info)
        equal(msg.__dict__, dict(score=s0, plugin_tags={"SC": "no", "X": "y"}, rules_checked={"Z": False},
                                 rules_descriptions={"Z": "z"}), "a miss changes nothing", **info)
        return
    expect(stopped, "a hit stops the check", **info)
    bonus = {"on": 0, "ham": ham, "spam": spam}[st]
    equal(round(msg.score, 6), round(s0 + rule.score + bonus, 6), "score after a hit", **info)
    equal(msg.plugin_tags, {"X": "y", "SCRULE": rule.name, "SCTYPE": st, "SC": "%s (%s)" % (rule.name, st)},
          "tags after a hit", **info)
    expect(msg.rules_checked.get(rule.name) and list(msg.rules_checked) == ["Z", rule.name], "result recorded", **info)


@scenario(2)
def loaded(r):
    names = ["R%d" % i for i in range(r.randint(1, 5))]
    lines = ["loadplugin oa.plugins.short_circuit.ShortCircuit"]
    spam, ham = 100.0, -100.0
    if r.maybe():
        spam = r.pick(5.0, 50.5, 1000.0)
        lines.append("shortcircuit_spam_score %s" % spam)
    if r.maybe():
        ham = r.pick(-5.0, -50.5, 2.0)
        lines.append("shortcircuit_ham_score %s" % ham)
    rules, cfg = [], {}
    for nm in names:
        hit = r.maybe()
        score = r.pick(1.0, 2.5, -3.0, 0.5)
        pr = r.pick(0, 0, 0, 5, -5, -100)
        lines.append("body %s /%s/" % (nm, "hello" if hit else "absent"))
        lines.append("score %s %s" % (nm, score))
        if pr:
            lines.append("priority %s %s" % (nm, pr))
        rules.append((nm, hit, score, pr))
    for i in range(r.randint(0, 4)):
        nm = r.choice(names + ["UNKNOWN"])
        t = r.pick("on", "ham", "spam", "off", "bad", "")
        lines.append("shortcircuit %s%s%s" % (nm, r.pick(" ", "  ", "\t"), t))
        if t in ("on", "ham", "spam") and nm in names:
            cfg.setdefault(nm, t)
    tail = lines[1:]
    r.shuffle(tail)
    # the order of two types for one rule matters: keep the shortcircuit lines in order
    scs = [x for x in lines if x.startswith("shortcircuit ")]
    tail = [x for x in tail if not x.startswith("shortcircuit ")] + scs
    text = "\n".join(lines[:1] + tail) + "\n"
    p, rs = load(text)
    order = [x.split()[1] for x in tail if x.split()[0] in ("body", "score", "priority")]
    rules.sort(key=lambda x: (-x[3], order.index(x[0])))
    msg = message(rs, "From: a@b.c\nSubject: x\n\nhello world\n")
    rs.match(msg)
    score, checked, tags = 0, [], dict(SCRULE="none", SCTYPE="off", SC="no")
    for nm, hit, s, pr in rules:
        checked.append((nm, hit))
        if hit:
            score += s
            if nm in cfg:
                score += {"on": 0, "ham": ham, "spam": spam}[cfg[nm]]
                tags = dict(SCRULE=nm, SCTYPE=cfg[nm], SC="%s (%s)" % (nm, cfg[nm]))
                break
    info = dict(config=text)
    equal(round(msg.score, 6), round(score, 6), "score of the message", **info)
    equal([(k, bool(x)) for k, x in msg.rules_checked.items()], checked, "recorded results", **info)
    equal(dict((k, msg.plugin_tags.get(k)) for k in tags), tags, "tags", **info)
    rep = rs.get_matched_report(msg)
    for nm, hit in checked:
        equal(nm in rep.split(), hit, "rules in the report", **info)


if __name__ == "__main__":
    lib.main("C05")
