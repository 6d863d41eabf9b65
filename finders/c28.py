"""C28: meta rules on whole messages against a direct evaluation of the expression."""
import lib
from lib import *
import oa.errors

LEVEL = {"||": 1, "&&": 2, "cmp": 3, "add": 4, "not": 5, "atom": 6}


def gen(r, names, d):
    """(text, level, function)"""
    k = r.random()
    if d <= 0 or k < 0.2:
        if r.maybe(0.15):
            n = r.pick(0, 1, 2)
            return str(n), 6, lambda env: n
        x = r.choice(names)
        return x, 6, lambda env: env[x]

    def par(t, need):
        return "(%s)" % t[0] if t[1] < need or r.maybe(0.1) else t[0]
    sp = r.pick(" ", "", "  ")
    if k < 0.4:
        a = gen(r, names, d - 1)
        return "!" + r.pick("", "", " ") + par(a, 5), 5, lambda env: not a[2](env)
    if k < 0.6:
        a, b = gen(r, names, d - 1), gen(r, names, d - 1)
        return "%s%s&&%s%s" % (par(a, 2), sp, sp, par(b, 3)), 2, lambda env: a[2](env) and b[2](env)
    if k < 0.8:
        a, b = gen(r, names, d - 1), gen(r, names, d - 1)
        return "%s%s||%s%s" % (par(a, 1), sp, sp, par(b, 2)), 1, lambda env: a[2](env) or b[2](env)
    if k < 0.9:
        xs = [gen(r, names, d - 1) for _ in range(r.randint(2, 4))]
        return (sp + "+" + sp).join(par(x, 5) for x in xs), 4, lambda env: sum(x[2](env) for x in xs)
    a, b = gen(r, names, d - 1), gen(r, names, d - 1)
    op = r.pick(">", "<", ">=", "<=", "==", "!=")
    f = {">": lambda x, y: x > y, "<": lambda x, y: x < y, ">=": lambda x, y: x >= y, "<=": lambda x, y: x <= y,
         "==": lambda x, y: x == y, "!=": lambda x, y: x != y}[op]
    return "%s%s%s%s%s" % (par(a, 4), sp, op, sp, par(b, 4)), 3, lambda env: f(a[2](env), b[2](env))


@scenario(4)
def expressions(r):
    names = r.subset(["A", "B1", "__C", "_D", "LONG_NAME", "A_B", "AB", "DIS"], 0.6) or ["A"]
    truth = dict((n, r.maybe()) for n in names)
    lines = []
    for n in names:
        lines.append("body %s /%s/" % (n, "hello" if truth[n] else "absent"))
        if n == "DIS":
            lines.append("score DIS 0")
    env = dict(truth)
    metas = []
    pool = list(names)
    for i in range(r.randint(1, 4)):
        t, _, f = gen(r, pool, r.randint(1, 4))
        nm = r.pick("", "__") + "META%d" % i
        lines.append("meta %s %s" % (nm, t))
        metas.append((nm, t, f))
        try:
            env[nm] = f(env)
        except RecursionError:
            raise Skip()
        pool.append(nm)
    r.shuffle(lines)
    p, rs = load("\n".join(lines) + "\n")
    msg = message(rs, "From: a@b.c\nSubject: x\n\nhello world\n")
    for nm, t, f in metas:
        try:
            rule = rs.get_rule(nm)
        except KeyError:
            raise Mismatch("a valid meta rule is accepted", config=lines, rule=nm)
        try:
            got = rule.match(msg)
        except Exception as e:
            raise Mismatch("a meta rule never fails at check time", config=lines, rule=nm, error=repr(e))
        equal(bool(got), bool(env[nm]), "the result of a meta rule", config=lines, rule="%s %s" % (nm, t))
    rs.match(msg)
    for nm, t, f in metas:
        if not nm.startswith("__"):
            equal(bool(msg.rules_checked[nm]), bool(env[nm]), "the recorded result", config=lines, rule=nm)


@scenario(1)
def invalid(r):
    lines = ["body A /hello/", "body B /absent/", "meta GOOD A && !B"]
    bad = []
    kind = r.pick("unknown", "cycle", "self", "syntax", "viabad")
    if kind == "unknown":
        t = r.pick("A && %s", "%s", "!%s || A", "(A + %s) > 0", "(%s)") % r.pick("NOPE", "GOOD2", "a", "__X")
        lines.append("meta BAD %s" % t)
        bad.append("BAD")
    elif kind == "cycle":
        n = r.randint(2, 14)
        for i in range(n):
            lines.append("meta C%d %sC%d" % (i, r.pick("", "A && ", "!"), (i + 1) % n))
            bad.append("C%d" % i)
    elif kind == "self":
        lines.append("meta BAD A || BAD")
        bad.append("BAD")
    elif kind == "syntax":
        lines.append("meta BAD %s" % r.pick("A &&", "(A", "A B", "&& A", "A ++", ")"))
        bad.append("BAD")
    else:
        lines += ["meta BAD A && NOPE", "meta BAD2 BAD || A"]
        bad += ["BAD", "BAD2"]
    r.shuffle(lines)
    try:
        p, rs = load("\n".join(lines) + "\n")
    except Exception as e:
        raise Mismatch("a bad meta rule does not abort loading", config=lines, error=repr(e))
    msg = message(rs, "Subject: x\n\nhello\n")
    for b in bad:
        ok = True
        try:
            rs.get_rule(b)
        except KeyError:
            ok = False
        expect(not ok, "a bad meta rule is rejected when loaded", config=lines, rule=b)
    rs.match(msg)
    expect(bool(msg.rules_checked.get("GOOD")), "the other rules are kept", config=lines)
    try:
        load("\n".join(lines) + "\n", paranoid=True)
        strict = False
    except Exception:
        strict = True
    expect(strict, "strict mode fails to load", config=lines)


if __name__ == "__main__":
    lib.main("C28")
