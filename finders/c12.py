"""C12: which lines of a configuration take effect, against an independent reading of its structure."""
import os
import lib
from lib import *
import oa.errors
import oa.plugins
import oa.rules.parser

PLUGINS = ["oa.plugins.dump_text.DumpText", "oa.plugins.replace_tags.ReplaceTags", "oa.plugins.body_eval.BodyEval",
           "oa.plugins.short_circuit.ShortCircuit"]
SA = dict((v, k) for k, v in oa.plugins.REIMPLEMENTED_PLUGINS.items())


class Conf(object):
    """builds lines and at the same time says which rules and options they amount to"""

    def __init__(self, r):
        self.r, self.lines, self.rules, self.n, self.score, self.loaded = r, [], [], 0, None, set()
        self.scores, self.bad = {}, 0
        self.files, self.nf = {}, 0

    def body(self, depth, on, lines, width=5, fdepth=0):
        r = self.r
        for _ in range(r.randint(1, width)):
            k = r.random()
            if k < 0.35:
                self.n += 1
                name = "R%d" % self.n
                lines.append(r.pick("", "  ", "\t") + "body %s /w%d/%s" % (name, self.n, r.pick("", " # note", "  ")))
                if on:
                    self.rules.append(name)
                if r.maybe(0.3):
                    s = r.pick("1.5", "2", "0.25")
                    lines.append("score %s %s" % (name, s))
                    if on:
                        self.scores[name] = float(s)
            elif k < 0.45:
                s = r.pick("3", "7.5", "11")
                lines.append("required_score " + s)
                if on:
                    self.score = float(s)
            elif k < 0.53:
                lines.append(r.pick("", "# comment", "   ", "#endif", "# else", "\t# ifplugin X", "require_version 3.4",
                                    "## body C1 /x/", "#"))
            elif k < 0.58:
                lines.append(r.pick("frobnicate yes", "nonsense", "body ONLYNAME", "score"))
                self.bad += on
            elif k < 0.66 and fdepth < 4:
                self.nf += 1
                n = "inc%d.cf" % self.nf
                lines.append("include " + n)
                sub = []
                self.body(max(depth - 1, 0), on, sub, 3, fdepth + 1)
                self.files[n] = "\n".join(sub) + "\n"
            elif depth > 0:
                kind = r.random()
                p = r.choice(PLUGINS)
                short = p.rsplit(".", 1)[1]
                if kind < 0.85:
                    lines.append("ifplugin " + r.pick(p, short, SA.get(p, p)) + r.pick("", " # c"))
                    cond = short in self.loaded
                else:
                    lines.append("if " + r.pick("can(x)", "(version >= 3.4)", "plugin(x)"))
                    cond = True      # the first branch is used
                self.body(depth - 1, on and cond, lines, 3, fdepth)
                if r.maybe(0.5):
                    lines.append(r.pick("else", " else ", "else # other"))
                    self.body(depth - 1, on and not cond, lines, 3, fdepth)
                lines.append(r.pick("endif", "  endif", "endif # x"))


def make(r):
    c = Conf(r)
    for p in r.subset(PLUGINS, 0.4):
        c.lines.append("loadplugin " + p)
        c.loaded.add(p.rsplit(".", 1)[1])
    c.body(r.randint(0, 3), True, c.lines, 7)
    return c


@scenario(4)
def branches(r):
    c = make(r)
    text = "\n".join(c.lines) + "\n"
    try:
        p, rs = load(text, files=c.files)
    except Exception as e:
        raise Mismatch("a configuration loads outside strict mode", config=text, files=c.files, error=repr(e))
    equal(sorted(n for n in rs.checked if n.startswith("R")), sorted(c.rules), "the rules that exist", config=text,
          files=c.files)
    for n, s in c.scores.items():
        equal(rs.get_rule(n).score, s, "the score of a rule", config=text, files=c.files, rule=n)
    if c.score is not None:
        equal(float(p.ctxt.conf["required_score"]), c.score, "the value of an option", config=text, files=c.files)
    else:
        equal(float(p.ctxt.conf["required_score"]), 5.0, "the default of an option", config=text, files=c.files)


BAD = ["body ONLYNAME", "score", "body BADRE /(/", "header NOCOLON", "meta BADMETA A &&", "eval", "describe X",
       "body BAD2 nopattern", "score NOSUCHRULE 3", "header BADH From ~~ x"]


@scenario(2)
def bad_lines(r):
    """a bad line or rule changes nothing about the others"""
    c = make(r)
    good = list(c.lines)
    lines, used = [], []
    for l in good:
        if r.maybe(0.25):
            b = r.choice(BAD)
            used.append(b)
            lines.append(b)
        lines.append(l)
    a, ra = load("\n".join(good) + "\n", files=c.files)
    want = describe(a, ra)
    try:
        b, rb = load("\n".join(lines) + "\n", files=c.files)
    except Exception as e:
        raise Mismatch("a bad line does not abort loading", config=lines, files=c.files, error=repr(e))
    equal(describe(b, rb), want, "the rules of the other lines", config=lines, files=c.files, bad=used)


def describe(p, rs):
    out = dict((n, (x.score, x.description, x.priority)) for n, x in rs.checked.items() if n.startswith("R"))
    return out, list(p.ctxt.plugins), p.ctxt.conf["required_score"]


@scenario(1)
def strict(r):
    """strict mode: a bad line that takes effect fails the load, a good configuration does not"""
    lines = ["body R1 /a/", "score R1 2", "ifplugin oa.plugins.dump_text.DumpText", "body R2 /b/",
             "else", "body R3 /c/", "endif", "# bad"]
    try:
        load("\n".join(lines) + "\n", paranoid=True)
    except Exception as e:
        raise Mismatch("a good configuration loads in strict mode", config=lines, error=repr(e))
    bad = r.choice(["body ONLYNAME", "body BADRE /(/", "meta BADMETA A &&", "describe X", "body BAD2 nopattern",
                    "score NOSUCHRULE 3"])
    at = r.randint(0, len(lines))
    ls = lines[:at] + [bad] + lines[at:]
    try:
        load("\n".join(ls) + "\n", paranoid=True)
        ok = True
    except Exception:
        ok = False
    equal(ok, at == 4 or at == 3, "strict mode fails exactly when the bad line takes effect", config=ls)


@scenario(1)
def includes(r):
    """depth and cycles of includes; relative names"""
    n = r.randint(1, 14)
    d = os.path.join(scratch(), "sub%d" % r.randint(0, 3))
    os.makedirs(os.path.join(d, "deep"), exist_ok=True)
    cyc = r.maybe(0.3)

    def name(i):
        return os.path.join(d, "deep" if i % 2 else "", "f%d.cf" % i)
    for i in range(n + 1):
        with open(name(i), "w") as f:
            f.write("body R%d /x/\n" % i)
            if i < n:
                if r.maybe(0.4):
                    f.write("include %s\n" % name(i + 1))
                else:
                    f.write("include %s\n" % os.path.relpath(name(i + 1), os.path.dirname(name(i))))
            elif cyc:
                f.write("include %s\n" % name(r.randint(0, n)))
            f.write("body T%d /x/\n" % i)
    p = oa.rules.parser.PADParser()
    try:
        p.parse_file(name(0))
        err = None
    except oa.errors.MaxRecursionDepthExceeded as e:
        err = e
    except Exception as e:
        raise Mismatch("a deep include is a recursion error", depth=n, error=repr(e))
    if cyc or n > 10:
        expect(err is not None, "a circular or too deep include is an error", depth=n, cycle=cyc)
    else:
        expect(err is None, "an include within the depth works", depth=n, error=repr(err))
        rs = p.get_ruleset()
        equal(sorted(rs.checked), sorted(["R%d" % i for i in range(n + 1)] + ["T%d" % i for i in range(n + 1)]),
              "all included rules", depth=n)


if __name__ == "__main__":
    lib.main("C12")
