"""C04: registration, lookup, removal of invalid rules, order of evaluation."""
import lib
from lib import *
import oa.errors
import oa.context
import oa.rules.base
import oa.rules.ruleset

NAMES = ["A", "B", "C_1", "__SUB", "__", "_D", "T", "R1", "R2", "R3", "R4", "R5"]


class R(oa.rules.base.BaseRule):
    def __init__(self, name, score, eff, bad, log, priority=0):
        oa.rules.base.BaseRule.__init__(self, name, score=[score], priority=priority)
        self.eff, self.bad, self.log = eff, bad, log

    def preprocess(self, rs):
        self.log.append(("pre", self.name))
        if not self.name.startswith("__"):
            self.score = self.eff

    def postprocess(self, rs):
        self.log.append(("post", self.name))

    def postparsing(self, rs, _depth=0):
        self.log.append(("parsed", self.name))
        if self.bad:
            raise oa.errors.InvalidRule(self.name, "bad")

    def match(self, msg):
        return False


def mk(r, paranoid=False):
    ctx = oa.context.GlobalContext(paranoid=paranoid)
    return ctx, oa.rules.ruleset.RuleSet(ctx)


@scenario(2)
def register(r):
    ctx, rs = mk(r, r.maybe(.3))
    log, model_c, model_n, rules = [], [], [], []
    for nm in r.sample(NAMES, r.randint(0, 8)):
        eff = r.pick(0, 0.0, 1.0, -1.0, 2.5, 0.001, -0.001, 1)
        ru = R(nm, r.pick(1.0, 0.0), eff, r.maybe(.2), log, r.pick(0, 0, 1, -5, 100))
        rules.append(ru)
        before = list(rs.checked.items()), dict(rs.not_checked)
        del log[:]
        rs.add_rule(ru)
        equal(log, [("pre", nm), ("post", nm)], "prepared before and finished after registration, once")
        on = eff != 0 and not nm.startswith("__")
        info = dict(rule=nm, score=eff)
        if on:
            before[0].append((nm, ru))
        else:
            before[1][nm] = ru
        equal(list(rs.checked.items()), before[0], "enabled rules after adding one", **info)
        equal(dict(rs.not_checked), before[1], "disabled rules after adding one", **info)
    for nm in NAMES + ["missing"]:
        ru = next((x for x in rules if x.name == nm), None)
        for only in (False, True):
            on = ru is not None and nm in rs.checked
            want = ru if ru is not None and (on or not only) else None
            try:
                got = rs.get_rule(nm, only) if r.maybe() else rs.get_rule(nm, checked_only=only)
            except KeyError:
                got = None
            expect(got is want, "lookup of %s (enabled only: %s)" % (nm, only), got=repr(got))
    # post-parsing
    c0, n0 = list(rs.checked.items()), dict(rs.not_checked)
    del log[:]
    order = [x for _, x in c0] + list(n0.values())
    try:
        rs.call_postparsing()
        raised = False
    except oa.errors.InvalidRule:
        raised = True
    bad = [x for x in order if x.bad]
    info = dict(rules=[(x.name, x.score, x.bad) for x in order], paranoid=ctx.paranoid)
    if ctx.paranoid:
        equal(raised, bool(bad), "strict mode fails exactly on an invalid rule", **info)
    else:
        expect(not raised, "an invalid rule made loading fail", **info)
        equal(list(rs.checked.items()), [(k, x) for k, x in c0 if not x.bad], "enabled rules left", **info)
        equal(dict(rs.not_checked), dict((k, x) for k, x in n0.items() if not x.bad), "disabled rules left", **info)
        equal(sorted(log), sorted(("parsed", x.name) for x in order), "every rule asked once", **info)


@scenario()
def loading(r):
    lines, want = [], {}
    rules = []
    for nm in r.sample(NAMES, r.randint(1, 8)):
        kind = r.pick("body", "header", "meta", "badmeta", "badre", "full", "uri", "rawbody")
        pr = r.pick(None, None, 0, 5, -5, 100)
        sc = r.pick(None, "0", "1", "-2.5", "0.0", "3")
        val = {"body": "body %s /x/", "header": "header %s Subject =~ /x/", "meta": "meta %s (1 || 0)",
               "badmeta": "meta %s UNKNOWN_SUBRULE", "badre": "body %s /x(/", "full": "full %s /y/",
               "uri": "uri %s /z/", "rawbody": "rawbody %s /r/"}[kind] % nm
        lines.append(val)
        if pr is not None:
            lines.append("priority %s %s" % (nm, pr))
        if sc is not None:
            lines.append("score %s %s" % (nm, sc))
        rules.append((nm, kind, int(pr or 0), sc))
    text = "\n".join(lines) + "\n"
    info = dict(config=text)
    bad = [x for x in rules if x[1] in ("badmeta", "badre")]
    if r.maybe(.25):
        try:
            load(text, paranoid=True)
            expect(not bad, "strict mode accepted an invalid rule", **info)
        except (oa.errors.InvalidRule, oa.errors.InvalidRegex):
            expect(bool(bad), "strict mode rejected valid rules", **info)
        return
    p, rs = load(text)
    on = [x for x in rules if x not in bad and not x[0].startswith("__") and (x[3] is None or float(x[3]) != 0)]
    equal(sorted(rs.checked), sorted(x[0] for x in on), "enabled rules", **info)
    equal(sorted(rs.not_checked), sorted(x[0] for x in rules if x not in bad and x not in on), "disabled rules", **info)
    order = [x[0] for x in sorted(on, key=lambda x: -x[2])]
    equal(list(rs.checked), order, "evaluation order: priority, then definition order", **info)


if __name__ == "__main__":
    lib.main("C04")
