"""C18: auto-learning with real rule sets; the Bayes plugin is replaced by one that records what it is asked."""
import lib
from lib import *

FLAGSETS = ["", "", "", "", "noautolearn", "userconf", "learn", "net", "autolearn_force", "nice", "learn net", "net autolearn_force",
            "noautolearn learn", "userconf net", "learn autolearn_force", "multiple"]
TYPES = {"body": "body %s /%s/", "header": "header %s Subject =~ /%s/", "uri": "uri %s /%s/", "rawbody": "rawbody %s /%s/",
         "full": "full %s /%s/"}


class Bayes(object):
    def __init__(self):
        self.calls = []

    def plugin_report(self, msg):
        self.calls.append("report")

    def plugin_revoke(self, msg):
        self.calls.append("revoke")

    def __getattr__(self, name):
        return lambda *a, **k: None


def build(r):
    lines = ["loadplugin oa.plugins.auto_learn_threshold.AutoLearnThreshold", "use_network 1", "use_auto_learning 0", "use_bayes 1",
             "allow_user_rules 1"]
    opts = dict(spam=r.pick(12.0, 12.0, 6.0, 3.0), ham=r.pick(0.1, 0.1, 1.0, -0.5, 3.0), error=r.maybe(0.3), required=r.pick(5.0, 5.0, 1.0, 8.0))
    lines += ["bayes_auto_learn_threshold_spam %s" % opts["spam"], "bayes_auto_learn_threshold_nonspam %s" % opts["ham"],
              "bayes_auto_learn_on_error %d" % opts["error"], "required_score %s" % opts["required"]]
    rules = []
    names = ["R%d" % i for i in range(r.pick(0, 1, 2, 3, 4, 6))] + [n for n in ("BAYES_99", "BAYES_00") if r.maybe(0.3)]
    r.shuffle(names)
    for n in names:
        t = r.choice(sorted(TYPES) + ["body", "header", "header", "meta"])
        hit = r.maybe(0.7)
        sc = r.pick(0.5, 1.0, 2.0, 3.0, 3.0, 4.0, 6.0, 12.0, -1.0, -0.5, -3.0, 0.125, 0.0625)
        flags = r.choice(FLAGSETS)
        if t == "meta":
            lines.append("meta %s %d" % (n, 1 if hit else 0))
        else:
            lines.append(TYPES[t] % (n, "token" if hit else "nowhere"))
        lines.append("score %s %s" % (n, sc))
        if flags:
            lines.append("tflags %s %s" % (n, flags))
        rules.append((n, t, hit, sc, flags.split()))
    return lines, rules, opts


def expected(rules, opts):
    head = body = learn = pts = total = 0.0
    forced = False
    hits = [x for x in rules if x[2]]
    for n, t, hit, sc, flags in hits:
        total += sc
    bayes = [x[0] for x in hits]
    for n, t, hit, sc, flags in hits:
        if "noautolearn" in flags or "userconf" in flags:
            continue
        if t == "header" or (t == "meta" and "net" not in flags):
            head += sc
        if t in ("body", "uri") or (t == "meta" and "net" not in flags):
            body += sc
        if "learn" in flags:
            learn += sc
            continue
        forced = forced or "autolearn_force" in flags
        pts += sc
    least = -99 if forced else 3
    if pts >= opts["spam"]:
        ok = head >= least and body >= least and learn >= -1 and total > opts["required"]
        agrees, what = "BAYES_99" in bayes, "report"
    elif pts < opts["ham"]:
        ok = learn <= 1 and total < opts["required"]
        agrees, what = "BAYES_00" in bayes, "revoke"
    else:
        return [], pts
    if not ok or (opts["error"] and agrees):
        return [], pts
    return [what], pts


@scenario(4)
def learned(r):
    lines, rules, opts = build(r)
    parser, rs = load("\n".join(lines) + "\n")
    bayes = Bayes()
    with_bayes = r.maybe(0.95)
    text = "Subject: token s\n\nsome text token http://token.example/token more\n"
    for again in range(r.pick(1, 1, 2)):
        msg = message(rs, text)
        if with_bayes:
            parser.ctxt.plugins["BayesPlugin"] = bayes
        bayes.calls = []
        try:
            rs.match(msg)
        finally:
            parser.ctxt.plugins.pop("BayesPlugin", None)
        want, pts = expected(rules, opts)
        near = any(abs(a - b) < 1e-6 and a != b for a in (pts, msg.score) for b in (opts["spam"], opts["ham"], opts["required"]))
        if near:
            raise Skip()
        equal(sorted(n for n, x in msg.rules_checked.items() if x), sorted(x[0] for x in rules if x[2]), "the rules that match", config=lines)
        equal(bayes.calls, want if with_bayes else [], "what is learned", config=lines[3:], points=pts, score=msg.score)


if __name__ == "__main__":
    lib.main("C18")
