"""C20: the Bayesian classifier with a real SQLite data base (SQLAlchemy) and with MySQL's place taken by SQLite."""
import math
import hashlib
import contextlib
import sqlite3
import lib
from lib import *
import oa.plugins.bayes as bayes
import oa.db.bayes.mysql as mysql_store
import oa.db.bayes.sqlalchemy as sql_store

WORDS = ["viagra", "Rolex", "cheap", "meeting", "agenda", "lottery", "winner", "project", "x.com", "www.spam.example", "a@b.example", "joe@example.org",
         "free!!", "don't", "internationalisation", "$100,000", "e.g", "--", "a..b", "foo...bar", "caf\xe9", "12345", "AND", "supercalifragilistic",
         "\xe4\xf6\xfc\xdf\xe4\xf6\xfc\xdf\xe4\xf6\xfc\xdf\xe4\xf6\xfc\xdf", "h.t.t.p", "it's", "mailto:x@y.z", "a.b.", ".a.b"]
COUNT = [0]


class FakeMySql(object):
    """pymysql with SQLite behind it"""
    def __init__(self, path):
        self.path = path

    def connect(self, *a, **k):
        return FakeConn(sqlite3.connect(self.path))


class FakeConn(object):
    def __init__(self, db):
        self.db = db
        # the comparison of hashes must be that of bytes
        self.db.text_factory = bytes

    def cursor(self):
        return FakeCursor(self.db.cursor())

    def commit(self):
        self.db.commit()

    def rollback(self):
        self.db.rollback()

    def close(self):
        # what was not committed is lost
        self.db.rollback()
        self.db.close()


class FakeCursor(object):
    def __init__(self, c):
        self.c = c

    def execute(self, sql, args=()):
        self.rows = None
        self.c.execute(sql.replace("%s", "?"), tuple(args))
        if sql.lstrip().upper().startswith("SELECT"):
            self.rows = [tuple(x.decode("utf8") if isinstance(x, bytes) and len(x) != 5 else x for x in r) for r in self.c.fetchall()]
            return len(self.rows)
        return self.c.rowcount

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def fetchall(self):
        return self.rows

    def close(self):
        self.c.close()


@contextlib.contextmanager
def system(r, kind, **options):
    COUNT[0] += 1
    path = os.path.join(scratch(), "bayes%d.db" % COUNT[0])
    conf = dict(bayes_min_spam_num=1, bayes_min_ham_num=1, use_bayes=1, use_bayes_rules=1, use_learner=1)
    conf.update(options)
    text = ["loadplugin oa.plugins.bayes.BayesPlugin", "bayes_sql_dsn sqlite:///" + path, "report_contact x@example.com",
            "header BAYES eval:check_bayes(0.5, 1)", "score BAYES 1", "header LOW eval:check_bayes(0, 0.5)", "score LOW 1"]
    text += ["%s %s" % x for x in sorted(conf.items())]
    parser, rules = load("\n".join(text) + "\n", paranoid=False)
    plugin = parser.ctxt.plugins["BayesPlugin"]
    sql_store.Base.metadata.create_all(plugin["engine"])
    old = mysql_store.pymysql
    try:
        if kind == "mysql":
            plugin["engine"] = dict(hostname="localhost", db_name="x", user="u", password="p")
            mysql_store.pymysql = FakeMySql(path)
            plugin.store = mysql_store.Store(plugin)

        def run(sql, args=()):
            db = sqlite3.connect(path)
            try:
                out = db.execute(sql, args).fetchall()
                db.commit()
                return out
            finally:
                db.close()
        yield plugin, rules, run
    finally:
        mysql_store.pymysql = old
        try:
            plugin.store.untie_db()
        except Exception:
            pass
        plugin.ctxt = None
        if os.path.exists(path):
            os.remove(path)


def a_text(r):
    return " ".join(r.choice(WORDS) for i in range(r.pick(1, 2, 4, 8)))


def mail(rules, ident, text, subject="hi"):
    ident = "Message-ID: <%s@example.com>\n" % ident if ident else ""
    return message(rules, ident + "From: Joe <joe@example.com>\nTo: x@example.org\nSubject: %s\n\n%s\n" % (subject, text))


def tokens_of(plugin, msg):
    return dict(plugin.tokenise(msg))


def table(run):
    """the state of the data base, rows without counts left out"""
    seen = sorted(run("SELECT msgid, flag FROM bayes_seen"))
    counts = run("SELECT spam_count, ham_count FROM bayes_vars") or [(0, 0)]
    tokens = {bytes(t): (s, n) for t, s, n in run("SELECT token, spam_count, ham_count FROM bayes_token") if s or n}
    return [tuple(x.decode() if isinstance(x, bytes) else x for x in y) for y in seen], tuple(counts[0]), len(counts), tokens


def history(r, kind):
    with system(r, kind) as (plugin, rules, run):
        msgs = []
        for i in range(r.pick(1, 2, 3)):
            m = mail(rules, r.pick("m%d" % i, "m%d" % i, "m%d" % i, ""), a_text(r), subject="s%d" % i)
            msgs.append((m, m.msgid, tokens_of(plugin, m)))
        flags, log = {}, []
        for step in range(r.pick(1, 2, 3, 5, 8)):
            m, ident, toks = r.choice(msgs)
            what = r.pick("spam", "ham", "forget", "report", "revoke")
            log.append((what, ident))
            if what == "forget":
                got = plugin.forget_message(m, r.pick(ident, None))
                equal(got, ident in flags, "forgetting returns whether there was something to forget", log=log, kind=kind)
                flags.pop(ident, None)
            else:
                flag = {"spam": "s", "report": "s", "ham": "h", "revoke": "h"}[what]
                if what in ("spam", "ham"):
                    got = plugin.learn_message(m, what == "spam")
                    equal(got, flags.get(ident) != flag, "learning returns whether something was learned", log=log, kind=kind)
                elif what == "report":
                    plugin.plugin_report(m)
                else:
                    plugin.plugin_revoke(m)
                flags[ident] = flag
            want = {}
            for m2, ident2, toks2 in msgs:
                if ident2 in flags:
                    for h in toks2:
                        s, n = want.get(h, (0, 0))
                        want[h] = (s + (flags[ident2] == "s"), n + (flags[ident2] == "h"))
            seen, counts, rows, tokens = table(run)
            equal(seen, sorted(flags.items()), "the messages known as learned", log=log, kind=kind)
            equal(counts, (list(flags.values()).count("s"), list(flags.values()).count("h")), "the numbers of messages", log=log, kind=kind)
            equal(rows, 1 if rows else 1, "one row of numbers", log=log, kind=kind)
            equal(tokens, want, "the counts of the tokens", log=log, kind=kind)


@scenario(3)
def sqlalchemy_history(r):
    history(r, "sqlalchemy")


@scenario(3)
def mysql_history(r):
    history(r, "mysql")


@scenario(1)
def switched_off(r):
    """with bayes off nothing is learned and no verdict given"""
    with system(r, "sqlalchemy", use_bayes=0) as (plugin, rules, run):
        m = mail(rules, "a", a_text(r))
        equal(plugin.learn_message(m, True), None, "learned with bayes off")
        equal(plugin.forget_message(m, None), None, "forgotten with bayes off")
        equal(table(run)[3], {}, "tokens with bayes off")
        equal(bool(plugin.check_bayes(m, 0, 1)), False, "verdict with bayes off")


def probability(s, n, ns, nn):
    p = (s / float(ns)) / (s / float(ns) + n / float(nn))
    return (0.538 * 0.03 + (s + n) * p) / (0.03 + s + n)


def verdict(ns, nn, probs):
    """Robinson's combination, computed by logarithms"""
    S = math.log(ns / float(ns + nn)) + sum(math.log(1 - p) for p in probs)
    H = math.log(nn / float(ns + nn)) + sum(math.log(p) for p in probs)

    def chi(x2, half):
        m = x2 / 2.0
        if m > 700:
            return 0.0
        t = total = math.exp(-m)
        for i in range(1, half):
            t *= m / i
            total += t
        return min(total, 1.0)
    S, H = 1 - chi(-2 * S, len(probs)), 1 - chi(-2 * H, len(probs))
    return (S - H + 1) / 2.0


def a_count(r):
    return r.pick(0, 0, 1, 1, 2, 3, 10, 100, 1000, 10 ** 6, r.randint(0, 50))


@scenario(3)
def combining(r):
    ns, nn = r.pick(1, 2, 200, 5000, r.randint(1, 300)), r.pick(1, 2, 200, 5000, r.randint(1, 300))
    if r.maybe(8):
        got = bayes.combine(0, 0, [0.5] * r.randint(0, 3))
        equal(got, 0.5, "without history")
        return
    top = r.pick(1, 5, 30, 150)
    probs = [r.pick(0.5, 0.99, 0.01, 0.999999, 0.000001, 1e-9, 1 - 1e-9, r.random() * 0.98 + 0.01) for i in range(r.randint(1, top))]
    if r.maybe(3):
        probs = [r.pick(0.99, 0.01, 0.9)] * len(probs)
    got = bayes.combine(ns, nn, probs)
    expect(0 <= got <= 1, "a probability", got=got, ns=ns, nn=nn, probs=probs)
    want = verdict(ns, nn, probs)
    expect(abs(got - want) < 1e-6, "the combined probability", got=got, expected=want, ns=ns, nn=nn, probs=probs)


@scenario(1)
def chi_square(r):
    x2, half = r.pick(0.0, 1e-9, 1.0, 10.0, 100.0, 1000.0, 1e5, r.random() * 700), r.pick(0, 1, 2, 5, 50, 150, 300, 2000)
    got = bayes.Chi.chi2Q(x2, half)
    expect(0 <= got <= 1, "a probability", got=got, x2=x2, degrees=half)


@scenario(3)
def token_probabilities(r):
    with system(r, "sqlalchemy", bayes_use_hapaxes=r.pick(0, 1)) as (plugin, rules, run):
        for again in range(20):
            ns, nn = r.pick(0, 1, 2, 200, 10 ** 6, r.randint(1, 300)), r.pick(0, 1, 2, 200, 10 ** 6, r.randint(1, 300))
            data = [(b"t%d" % i, a_count(r), a_count(r), 0) for i in range(r.randint(0, 5))]
            got = list(plugin._compute_prob_for_all_tokens(data, ns, nn))
            info = dict(data=data, ns=ns, nn=nn, result=got)
            if not ns or not nn:
                expect(all(x is None for x in got), "probabilities without history", **info)
                continue
            equal(len(got), len(data), "one per token", **info)
            least = 1 if plugin["bayes_use_hapaxes"] else 2
            for p, (t, s, n, a) in zip(got, data):
                if s + n < least:
                    equal(p, None, "a token that is too rare", token=(s, n), **info)
                else:
                    expect(p is not None and 0 < p < 1, "a probability other than 0 and 1", p=p, token=(s, n), **info)
                    expect(abs(p - probability(s, n, ns, nn)) < 1e-9, "the probability of the token", p=p, token=(s, n),
                           expected=probability(s, n, ns, nn), **info)


def scanning(r, kind):
    low_s, low_n = r.pick(0, 1, 1, 5), r.pick(0, 1, 1, 5)
    with system(r, kind, bayes_min_spam_num=low_s, bayes_min_ham_num=low_n, bayes_use_hapaxes=r.pick(0, 1, 1)) as (plugin, rules, run):
        many = r.maybe(4)
        text = " ".join("word%dx" % i for i in range(400)) if many else a_text(r)
        m = mail(rules, "m", text)
        toks = tokens_of(plugin, m)
        ns, nn = r.pick(0, 1, 5, 200, 300), r.pick(0, 1, 5, 200, 300)
        if ns or nn or r.maybe():
            run("INSERT INTO bayes_vars (username, spam_count, ham_count) VALUES ('', ?, ?)", (ns, nn))
        probs, least = [], 1 if plugin["bayes_use_hapaxes"] else 2
        style = r.pick("any", "spammy", "hammy", "neutral")
        for h in toks:
            if r.maybe(4) and not (many and r.maybe(4)):
                continue
            s = r.randint(0, ns) if style in ("any", "spammy") else 0
            n = r.randint(0, nn) if style in ("any", "hammy") else 0
            if style == "neutral":
                s, n = ns, nn
            run("INSERT INTO bayes_token (id, token, spam_count, ham_count, atime) VALUES (0, ?, ?, ?, 0)", (sqlite3.Binary(h), s, n))
            if s + n >= least and ns and nn:
                probs.append(probability(s, n, ns, nn))
        strong = sorted(probs, key=lambda p: -abs(p - 0.5))
        edge = len(strong) > 150 and abs(abs(strong[149] - 0.5) - abs(strong[150] - 0.5)) < 1e-9 and strong[149] != strong[150]
        strong = [p for p in strong[:150] if abs(p - 0.5) >= 0.346]
        got = plugin.scan(m)
        info = dict(kind=kind, ns=ns, nn=nn, minimum=(low_s, low_n), tokens=len(toks), known=len(probs), significant=len(strong), result=got)
        if ns < low_s or nn < low_n or not ns or not nn or not strong:
            equal(got, None, "a verdict without enough history", **info)
            want = None
        else:
            expect(got is not None and 0 <= got <= 1, "a probability", **info)
            want = verdict(ns, nn, strong)
            if not edge:
                expect(abs(got - want) < 1e-6, "the verdict", expected=want, **info)
        for low, high in ((0, 0.5), (0.5, 1), (0, 1), (0.99, 1)):
            hit = bool(plugin.check_bayes(m, low, high))
            equal(hit, bool(got and low < got <= high), "the rule", low=low, high=high, **info)


@scenario(3)
def sqlalchemy_scan(r):
    scanning(r, "sqlalchemy")


@scenario(2)
def mysql_scan(r):
    scanning(r, "mysql")


@scenario(2)
def received_dates(r):
    """a message whose Received headers have no valid date is learned all the same"""
    with system(r, "sqlalchemy") as (plugin, rules, run):
        date = r.pick("nonsense", "", " ", "Mon, 1 Jan 99999 00:00:00 +0000", "Mon, 1 Jan 2018 00:00:00 +0000", "no semicolon", "Mon, 32 Foo 2018")
        m = message(rules, "Message-ID: <a@b>\nReceived: from x by y; %s\nSubject: x\n\nviagra\n" % date)
        equal(plugin.learn_message(m, True), True, "learned", date=date)
        equal(table(run)[1], (1, 0), "the numbers of messages", date=date)


if __name__ == "__main__":
    lib.main("C20")
