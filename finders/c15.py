"""C15: the real server object (no sockets), with configuration and preference files in a scratch directory.

Histories of requests of several users are interleaved with reloads, with changes of the configuration, and with preference files
that appear, change and disappear.  The rule set each request is served with must behave (options, rules, scores, verdicts) like one
built from scratch from the main configuration followed by that user's file.
"""
import os
import shutil
import tempfile
import lib
from lib import *
import oa.config
import oa.message
import oa.rules.parser
import oa.server

MAIN = ["loadplugin oa.plugins.short_circuit.ShortCircuit", "loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin"]
LINES = ["body A /hello/\nscore A %(n)s", "body B /hello/\nscore B %(n)s", "score A %(n)s", "score B %(n)s", "required_score %(n)s",
         "whitelist_from %(u)s@example.com", "header C eval:check_from_in_whitelist()\nscore C %(n)s", "use_bayes 0",
         "meta M (A && B)\nscore M %(n)s", "describe A %(u)s", "report text %(u)s", "shortcircuit A spam",
         "shortcircuit_spam_score %(n)s", "trusted_networks 10.0.0.%(i)s", "add_header all X-%(u)s _SCORE_",
         "header D Subject =~ /x/\nscore D %(n)s"]
MSGS = ["Subject: x\nFrom: %s@example.com\n\nhello\n", "Subject: y\nFrom: %s@example.org\n\nnothing\n"]
USERS = ["alice", "bob", "carol", "alice@example.com", "Alice", "", "root"]


class Files(object):
    def __init__(self, d):
        self.d = d
        for x in ("site", "cf", "users"):
            os.makedirs(os.path.join(d, x))

    def write(self, name, text):
        with open(os.path.join(self.d, name), "w") as f:
            f.write(text)

    def pref(self, user):
        return os.path.join(self.d, "users", "u_" + "".join("%02x" % ord(c) for c in user))


def read(name):
    with open(name) as f:
        return f.read()


def lines(r, k):
    out = []
    for i in range(k):
        out.append(r.choice(LINES) % {"n": r.pick("1", "0.5", "-2", "3", "5", "0", "100"), "u": r.pick("alice", "bob", "carol", "zed"),
                                      "i": r.pick("1", "2", "9")})
    return "\n".join(out) + "\n"


def oracle(files, pref, paranoid, ignore):
    """A rule set from scratch."""
    p = oa.rules.parser.PADParser(paranoid=paranoid, ignore_unknown=ignore)
    for f in files + ([pref] if pref else []):
        p.parse_file(f)
    return p.get_ruleset()


def describe(rs):
    """What can be seen of a rule set."""
    out = [("trusted", sorted(str(x) for x in rs.ctxt.networks.trusted.networks) if hasattr(rs.ctxt.networks.trusted, "networks") else None)]
    for name in ("required_score", "use_bayes", "allow_user_rules", "report"):
        try:
            out.append((name, str(rs.conf[name])))
        except KeyError:
            pass
    for name in sorted(rs.ctxt.plugins):
        pl = rs.ctxt.plugins[name]
        for o in ("shortcircuit_spam_score", "shortcircuit", "whitelist_from"):
            try:
                v = pl[o]
            except Exception:
                continue
            out.append((name, o, repr(sorted(map(str, v)) if isinstance(v, (list, tuple)) else str(v))))
    for name, rule in sorted(rs.checked.items()):
        out.append((name, type(rule).__name__, rule.score, rule.description))
    for u in ("alice", "bob"):
        for m in MSGS:
            msg = oa.message.Message(rs.ctxt, m % u)
            rs.match(msg)
            out.append((u, round(msg.score, 6), sorted(n for n, x in msg.rules_checked.items() if x),
                        str(rs.get_adjusted_message(msg, header_only=True))))
    return out


def make(fs, paranoid, ignore):
    s = oa.server.Server.__new__(oa.server.Server)
    try:
        init = oa.server.spoon.server.TCPSpoon.__init__
        oa.server.spoon.server.TCPSpoon.__init__ = lambda self, *a, **k: None
        try:
            oa.server.Server.__init__(s, ("127.0.0.1", 0), os.path.join(fs.d, "site"), os.path.join(fs.d, "cf"),
                                      paranoid=paranoid, ignore_unknown=ignore)
        finally:
            oa.server.spoon.server.TCPSpoon.__init__ = init
    except TypeError:
        raise Skip()
    if getattr(s, "log", None) is None:
        s.log = Quiet()
    return s


@scenario(1)
def histories(r):
    d = tempfile.mkdtemp(prefix="c15-", dir=scratch())
    fs = Files(d)
    real = oa.config.get_userprefs_path
    oa.config.get_userprefs_path = lambda user: fs.pref(user)
    try:
        def config():
            fs.write("site/init.pre", "\n".join(MAIN) + "\n")
            allow = r.pick("1", "1", "1", "0", None)
            fs.write("site/local.cf", ("allow_user_rules %s\n" % allow if allow else "") + lines(r, r.randint(0, 3)))
            fs.write("cf/10.cf", "body A /hello/\nscore A 1\n" + lines(r, r.randint(0, 4)))
            fs.write("cf/20.cf", lines(r, r.randint(0, 2)))
        config()
        paranoid, ignore = False, True
        s = make(fs, paranoid, ignore)
        trail, snap, cache = [], None, {}

        def names():
            return [os.path.join(d, x) for x in ("site/init.pre", "cf/10.cf", "cf/20.cf", "site/local.cf")]

        def reload():
            s.load_config()
            trail.append("reload")
            cache.clear()
            return oracle(names(), None, paranoid, ignore)
        main = reload()
        users = r.some(USERS, 2, 4) or ["bob"]
        for step in range(r.randint(3, 9)):
            what = r.pick("request", "request", "request", "pref", "pref", "unpref", "reload", "none")
            u = r.choice(users)
            info = dict(trail=list(trail))
            if what == "pref":
                text = lines(r, r.randint(1, 3))
                fs.write(os.path.relpath(fs.pref(u), d), text)
                trail.append("preferences of %r: %r" % (u, text))
                continue
            if what == "unpref":
                if os.path.exists(fs.pref(u)):
                    os.unlink(fs.pref(u))
                trail.append("%r removes the preferences" % u)
                continue
            if what == "reload":
                config()
                main = reload()
                info = dict(trail=list(trail))
                equal(describe(s.get_user_ruleset()), describe(main), "the main rule set after a reload", **info)
                continue
            if what == "none":
                expect(s.get_user_ruleset() is s._ruleset and s.get_user_ruleset(None) is s._ruleset,
                       "no user: the main rule set", **info)
                equal(describe(s.get_user_ruleset(None)), describe(main), "the main rule set", **info)
                continue
            trail.append("request of %r" % u)
            info = dict(trail=list(trail), main=dict((n[len(d):], read(n)) for n in names()))
            got = s.get_user_ruleset(u)
            if not main.conf["allow_user_rules"]:
                expect(got is s._ruleset, "user rules are not allowed: the main rule set", **info)
                continue
            if u in cache:
                expect(got is cache[u][0], "a later request of the same user is served with the same rule set", **info)
                equal(describe(got), cache[u][1], "a later request of the same user", **info)
                continue
            if not os.path.exists(fs.pref(u)):
                expect(got is s._ruleset, "no preference file: the main rule set", **info)
                continue
            want = describe(oracle(names(), fs.pref(u), paranoid, ignore))
            expect(got is not s._ruleset, "a user with preferences has a rule set of their own", **info)
            expect(all(got is not c[0] for c in cache.values()), "a rule set is not shared by two users", **info)
            equal(describe(got), want, "the rule set of a user", **info)
            equal(got.ctxt.username, u, "the user the rule set belongs to", **info)
            cache[u] = (got, want)
        equal(describe(s.get_user_ruleset()), describe(main), "the main rule set at the end", trail=list(trail))
    finally:
        oa.config.get_userprefs_path = real
        shutil.rmtree(d)


if __name__ == "__main__":
    lib.main("C15")
