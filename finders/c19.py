"""C19: the auto-whitelist with a real SQLite data base (SQLAlchemy) and with MySQL's place taken by SQLite."""
import ipaddress
import sqlite3
import collections
import contextlib
import lib
from lib import *
import oa.plugins.awl as awl

ADDR = ["a@example.com", "b@example.com", "a@example.org", "A@example.com", "none@x.test", "user%s@example.com", "it's@example.com"]
SIGN = ["", "", "example.com", "example.org"]
IPS = ["8.8.8.8", "8.8.4.4", "8.0.0.1", "8.9.1.2", "9.8.8.8", "100.20.30.40", "10.1.2.3", "192.168.3.4", "127.0.0.1", "1.0.0.1", "8.8.0.0",
       "2001:4860:4860::8888", "2001:4860:4860:1::1", "2001:4861::1", "fe80::1", "20.10.0.10"]
USER = "verif-user"
COUNT = [0]


def key_text(ip, m4, m6):
    if ip is None:
        return "none"
    ip = ipaddress.ip_address(ip)
    if ip.version == 6:
        return str(ipaddress.IPv6Address((int(ip) >> (128 - m6)) << (128 - m6)))
    n = (int(ip) >> (32 - m4)) << (32 - m4)
    parts = [str(n >> s & 255) for s in (24, 16, 8, 0)]
    while len(parts) > 1 and parts[-1] == "0":
        parts.pop()
    return ".".join(parts)


@contextlib.contextmanager
def database():
    COUNT[0] += 1
    path = os.path.join(scratch(), "awl%d.db" % COUNT[0])
    try:
        yield path
    finally:
        if os.path.exists(path):
            os.remove(path)


def score(r):
    return r.pick(0.0, 0.5, 1.0, 2.0, 5.0, -1.5, 12.25, 0.125, -4.0, 100.0, 4.0)


class FakeMySql(object):
    """pymysql with SQLite behind it"""
    class Error(Exception):
        pass

    class DatabaseError(Error):
        pass

    def __init__(self):
        self.db = sqlite3.connect(":memory:")
        self.db.execute("CREATE TABLE awl (username text, email text, ip text, count int, totscore float, signedby text)")

    def connect(self, *a, **k):
        return FakeConn(self)


class FakeConn(object):
    def __init__(self, m):
        self.m = m

    def cursor(self):
        return FakeCursor(self.m)

    def commit(self):
        self.m.db.commit()

    def rollback(self):
        self.m.db.rollback()

    def close(self):
        # what was not committed is lost
        self.m.db.rollback()


class FakeCursor(object):
    def __init__(self, m):
        self.c = m.db.cursor()

    def execute(self, sql, args=()):
        args = args if isinstance(args, (tuple, list)) else (args,)
        self.c.execute(sql.replace("%s", "?"), tuple(args))
        if sql.lstrip().upper().startswith("SELECT"):
            self.rows = self.c.fetchall()
            return len(self.rows)
        self.rows = []
        return self.c.rowcount

    def fetchall(self):
        return tuple(self.rows)

    def fetchone(self):
        return self.rows[0] if self.rows else None

    def close(self):
        pass


class Store(object):
    """rows as {(email, signedby, ip): [count, totscore]}"""

    def __init__(self, kind, plugin, path):
        self.kind, self.plugin = kind, plugin
        if kind == "mysql":
            self.fake = FakeMySql()
            awl.pymysql = self.fake
            d = collections.defaultdict(int)
            d.update(driver="mysql", hostname="localhost", db_name="x", user="u", password="p")
            plugin["engine"] = d
        else:
            self.path = path
            awl.Base.metadata.create_all(plugin["engine"])

    def run(self, sql, args=()):
        db = self.fake.db if self.kind == "mysql" else sqlite3.connect(self.path)
        try:
            out = db.execute(sql, args).fetchall()
            db.commit()
            return out
        finally:
            if self.kind != "mysql":
                db.close()

    def add(self, key, count, total, user=USER):
        self.run("INSERT INTO awl (username, email, signedby, ip, count, totscore) VALUES (?, ?, ?, ?, ?, ?)", (user,) + key + (count, total))

    def rows(self):
        return sorted(self.run("SELECT username, email, signedby, ip, count, totscore FROM awl"))


def history(r, kind, real):
    old = awl.has_sqlalchemy
    with database() as path:
        factor = r.pick(0.5, 0.5, 0.25, 1.0, 0.0, 2.0)
        m4, m6 = r.pick(16, 16, 24, 8, 20, 32, 15, 1), r.pick(48, 48, 64, 32, 128, 33)
        text = ["loadplugin oa.plugins.awl.AutoWhiteListPlugin", "user_awl_dsn sqlite:///" + path, "auto_whitelist_factor %s" % factor,
                "auto_whitelist_ipv4_mask_len %d" % m4, "auto_whitelist_ipv6_mask_len %d" % m6, "use_network 0",
                "header AWL eval:check_from_in_auto_whitelist()", "score AWL 1", "priority AWL 1000"]
        scores = [score(r) for i in range(3)]
        for i, s in enumerate(scores):
            text += ["body S%d /token%d/" % (i, i), "score S%d %s" % (i, s)]
        parser, rules = load("\n".join(text) + "\n", paranoid=False)
        plugin = parser.ctxt.plugins["AutoWhiteListPlugin"]
        rules.ctxt.username = parser.ctxt.username = USER
        try:
            expect(kind == "mysql" or awl.has_sqlalchemy, "SQLAlchemy is there but not used")
            awl.has_sqlalchemy = kind != "mysql"
            store = Store(kind, plugin, path)
            model, others = {}, []
            for n in range(r.pick(0, 0, 1, 2, 4)):
                k = (r.choice(ADDR), r.choice(SIGN), key_text(r.choice(IPS + [None, None]), m4, m6))
                if k not in model:
                    c = r.pick(0, 1, 1, 2, 3, 8)
                    model[k] = [c, r.pick(0.0, 0.0, score(r) * c, score(r))]
                    store.add(k, *model[k])
            if r.maybe():
                others.append(("somebody",) + (ADDR[0], "", "none") + (3, 30.0))
                store.add((ADDR[0], "", "none"), 3, 30.0, user="somebody")
            for n in range(r.pick(1, 2, 3, 5)):
                addr, sign = r.choice(ADDR), r.choice(SIGN)
                chain = [r.choice(IPS) for i in range(r.pick(0, 1, 1, 2, 3))]
                public = [ip for ip in chain if not ipaddress.ip_address(ip).is_private]
                hits = [i for i in range(3) if r.maybe()]
                heads = ["Received: from m%d.example.com (m%d.example.com [%s]) by mx.example.net (Postfix) with ESMTP id A%d; "
                         "Mon, 1 Jan 2018 00:00:00 +0000" % (i, i, ip, i) for i, ip in enumerate(chain)]
                if sign:
                    heads.append("DKIM-Signature: v=1; a=rsa-sha256; c=relaxed/relaxed; %s=%s; s=x; b=d=zz" % ("d", sign))
                heads += ["From: " + addr, "Subject: x"]
                msg = message(rules, "\n".join(heads) + "\n\nbody " + " ".join("token%d" % i for i in hits) + "\n")
                if real:
                    got_relays = [x["ip"] for x in msg.trusted_relays + msg.untrusted_relays if "ip" in x]
                    if got_relays != chain:
                        raise Skip("relays read otherwise")
                msg.score = 0
                for i in hits:
                    msg.score += scores[i]
                pre = msg.score
                plugin.check_from_in_auto_whitelist(msg)
                ip = public[-1] if public else None
                k = (addr, sign, key_text(ip, m4, m6))
                info = dict(kind=kind, address=addr, signer=sign, relays=chain, factor=factor, mask4=m4, mask6=m6, step=n)
                if k not in model and k[:2] + ("none",) in model:
                    model[k] = model.pop(k[:2] + ("none",))
                row = model.setdefault(k, [0, 0.0])
                mean = row[1] / row[0] if row[0] else 0
                want = pre + factor * (mean - pre) if mean else pre
                expect(abs(msg.score - want) < 1e-9, "the adjusted score", got=msg.score, expected=want, history=row[:], before=pre, **info)
                expect(("AWL" in msg.plugin_tags) == bool(mean), "tags only for an adjusted score", **info)
                row[0] += 1
                row[1] += pre
                got = [x[:5] + (round(x[5], 9),) for x in store.rows()]
                want = sorted([(USER,) + k + (v[0], round(v[1], 9)) for k, v in model.items()] + others)
                equal(got, want, "the history after the message", **info)
        finally:
            awl.has_sqlalchemy = old
            plugin.ctxt = None


@scenario(weight=3)
def sqlalchemy(r):
    history(r, "sqlalchemy", True)


@scenario(weight=3)
def mysql(r):
    history(r, "mysql", True)


@scenario(weight=1)
def in_a_rule_set(r):
    """as a rule among others: the score before is that of the rules that ran before"""
    with database() as path:
        s = [score(r), score(r)]
        parser, rules = load("\n".join([
            "loadplugin oa.plugins.awl.AutoWhiteListPlugin", "user_awl_dsn sqlite:///" + path, "auto_whitelist_factor 0.5", "use_network 0",
            "header AWL eval:check_from_in_auto_whitelist()", "score AWL 1", "priority AWL -1000", "body S0 /token/", "score S0 %s" % s[0],
            "priority S0 %d" % r.pick(0, 5, 2000), "header S1 Subject =~ /x/", "score S1 %s" % s[1]]) + "\n", paranoid=False)
        plugin = parser.ctxt.plugins["AutoWhiteListPlugin"]
        rules.ctxt.username = parser.ctxt.username = USER
        store = Store("sqlalchemy", plugin, path)
        count = total = 0
        for n in range(r.pick(1, 2, 3)):
            ip = r.pick("8.8.8.8", "8.8.9.9")
            msg = message(rules, "Received: from m.example.com (m.example.com [%s]) by mx.example.net (Postfix) with ESMTP id A; "
                          "Mon, 1 Jan 2018 00:00:00 +0000\nFrom: a@example.com\nSubject: x\n\ntoken\n" % ip)
            order = []
            for rule in rules.checked.values() if hasattr(rules.checked, "values") else rules.checked:
                order.append(rule.name)
            rules.match(msg)
            if "AWL" not in order:
                raise Skip("no such rule")
            pre = sum(x for k, x in (("S0", s[0]), ("S1", s[1])) if k in order and order.index(k) < order.index("AWL"))
            mean = total / count if count else 0
            want = sum(s) + (0.5 * (mean - pre) if mean else 0)
            expect(abs(msg.score - want) < 1e-9, "the score of the message", got=msg.score, expected=want, order=order)
            count, total = count + 1, total + pre
            equal([x[4:] for x in store.rows()], [(count, total)], "the history after the message", order=order)


@scenario(weight=1)
def signer(r):
    parts = [r.pick("v=1", " d=%s" % r.pick("example.com", "x.test"), "\td=a=b", "\r\n d=second.example", " bd=zz", "D=upper", " s=1", "", " a=d=q",
                    " b=abc\r\n") for i in range(r.pick(0, 1, 3, 5))]
    header = ";".join(parts)
    want = ""
    for p in parts:
        if p.strip()[:2] == "d=":
            want = p[p.index("=") + 1:].strip(" ;\r\n")
            break

    class Mail(object):
        def get(self, n, default=None):
            return header if n.lower() == "dkim-signature" and parts else default
    got = awl.AutoWhiteListPlugin._get_signed_by(Obj(), Obj(msg=Mail()))
    equal(got, want, "the signer", header=header)


if __name__ == "__main__":
    lib.main("C19")
