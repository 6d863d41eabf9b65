"""C17: address and sender lists of real configurations."""
import lib
from lib import *

ADDRS = ["ann@one.example", "bob@one.example", "Ann@One.example", "ann@two.example", "x.y@sub.two.example", "joe@three.example",
         "joe@threes.example"]
# (entry, the addresses it matches, as a list of addresses)
ENTRIES = [("ann@one.example", ["ann@one.example"]), ("*@one.example", ["ann@one.example", "bob@one.example"]),
           ("two.example", ["ann@two.example"]), ("*two.example", ["ann@two.example", "x.y@sub.two.example"]),
           ("b?b@one.example", ["bob@one.example"]), ("joe@three?.example", ["joe@three.example", "joe@threes.example"]),
           ("nobody@nowhere.example", []), ("word", []), ("*@sub.two.example", ["x.y@sub.two.example"])]
# of whitelist_from_rcvd (a domain matches the addresses below it as well; case does not matter)
RCVD = [("ann@one.example", ["ann@one.example", "Ann@One.example"]), ("Ann@ONE.example", ["ann@one.example", "Ann@One.example"]),
        ("*@one.example", ["ann@one.example", "Ann@One.example", "bob@one.example"]), ("joe@three.example", ["joe@three.example"]),
        ("x?y@sub.two.example", ["x.y@sub.two.example"]), ("nobody@nowhere.example", [])]
# relays and the names of relays that confirm them
RELAYS = [("8.8.8.8", "mx.one.example", ["8.8.8.8", "[8.8.8.8]", "8.8.8", "8.8.0.0/16", "one.example", "mx.one.example", "ONE.example"]),
          ("1.2.3.4", "a.two.example", ["1.2.3.4", "[1.2.3.4]", "[1.2.3]", "two.example", "Two.Example"]),
          ("9.9.9.9", "", ["9.9.9.9", "[9.9.9.0/24]"])]
WRONG = ["7.7.7.7", "[7.7.7]", "other.example", "e.example", "mx.ne.example", "[8.8.9.0/24]", "example.one"]
OK = sorted(set(x for r in RELAYS for x in r[2]))
LISTS = {"whitelist_from": "from", "blacklist_from": "from", "whitelist_to": "to", "blacklist_to": "to", "all_spam_to": "to",
         "more_spam_to": "to"}
TESTS = {"check_from_in_blacklist": "blacklist_from", "check_to_in_whitelist": "whitelist_to", "check_to_in_blacklist": "blacklist_to",
         "check_to_in_all_spam": "all_spam_to", "check_to_in_more_spam": "more_spam_to"}


def config(r, rcvd):
    """(lines, lists of entries by name, relay lists by name, addresses that may use other relays)"""
    lines, lists, relays = ["loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin"], {}, {}
    for n in sorted(LISTS):
        es = [r.choice(ENTRIES) for i in range(r.pick(0, 0, 1, 2, 3))]
        if es:
            if r.maybe(0.5):
                lines.append("%s %s" % (n, " ".join(e[0] for e in es)))
            else:
                lines += ["%s %s" % (n, e[0]) for e in es]
        lists[n] = es
    for n in ("whitelist_from_rcvd", "def_whitelist_from_rcvd"):
        es = []
        for i in range(r.pick(0, 1, 1, 2, 3) if rcvd else 0):
            es.append((r.choice(RCVD), [r.choice(WRONG) if r.maybe(0.6) else r.choice(OK) for j in range(r.pick(1, 1, 2))]))
        if es:
            lines.append("%s %s" % (n, ", ".join("%s %s" % (e[0][0], " ".join(e[1])) for e in es)))
        relays[n] = es
    allow = [r.choice(ENTRIES) for i in range(r.pick(0, 0, 0, 1, 2))] if rcvd else []
    lines += ["whitelist_allow_relays %s" % e[0] for e in allow]
    return lines, lists, relays, allow


def hops(r, n):
    return [dict(ip=x[0], rdns=x[1], ok=x[2]) for x in [r.choice(RELAYS) for i in range(n)]]


def listed(es, a):
    return any(a in e[1] for e in es)


def relay_state(es, allow, a, msg):
    """(state, the entries do not speak of the address)"""
    hs = msg.untrusted_relays[:1] or msg.trusted_relays
    if not hs:
        return 0, False
    mine = [e for e in es if a in e[0][1]]
    if any(d in h["ok"] for e in mine for d in e[1] for h in hs):
        return 1, False
    if mine:
        return (0, False) if any(a.lower() in e[1] for e in allow) else (-1, False)
    return 0, bool(es)


def build(r, rcvd):
    lines, lists, relays, allow = config(r, rcvd)
    parser, rs = load("\n".join(lines) + "\n")
    frm = [r.choice(ADDRS) for i in range(r.pick(0, 1, 1, 2, 3))]
    to = [r.choice(ADDRS) for i in range(r.pick(0, 1, 1, 2, 3))]
    hs = ["From: %s\n" % ", ".join(frm) if r.maybe(0.5) else "".join("%s: <%s>\n" % (h, a) for h, a in zip(
        ["From", "Envelope-Sender", "X-Envelope-From"], frm))] if frm else []
    if to:
        hs.append("To: %s\n" % ", ".join(to))
    r.shuffle(hs)
    msg = message(rs, "".join(hs) + "Subject: s\n\nbody\n")
    msg.untrusted_relays, msg.trusted_relays = hops(r, r.pick(0, 1, 2)), hops(r, r.pick(0, 0, 1, 2))
    plugin = parser.ctxt.plugins["WLBLEvalPlugin"]
    return plugin, msg, frm, to, lists, relays, allow, dict(config=lines[1:], headers=hs, untrusted=[h["ip"] for h in msg.untrusted_relays],
                                                          trusted=[h["ip"] for h in msg.trusted_relays])


@scenario(2)
def address_lists(r):
    plugin, msg, frm, to, lists, relays, allow, info = build(r, False)
    side = {"from": frm, "to": to}
    for t, n in sorted(TESTS.items()):
        equal(bool(getattr(plugin, t)(msg)), any(listed(lists[n], a) for a in side[LISTS[n]]), t, **info)
    for n in sorted(LISTS):
        equal(bool(getattr(plugin, "check_%s_in_list" % LISTS[n])(msg, n)), any(listed(lists[n], a) for a in side[LISTS[n]]),
              "check_%s_in_list(%s)" % (LISTS[n], n), **info)
    equal(bool(plugin.check_from_in_whitelist(msg)), any(listed(lists["whitelist_from"], a) for a in frm), "check_from_in_whitelist", **info)


@scenario(3)
def senders(r):
    plugin, msg, frm, to, lists, relays, allow, info = build(r, True)
    want, open_ = {}, {}
    for n, wl in (("whitelist_from_rcvd", lists["whitelist_from"]), ("def_whitelist_from_rcvd", [])):
        st = [relay_state(relays[n], allow, a, msg) for a in frm]
        want[n] = 1 if any(listed(wl, a) for a in frm) or any(s == 1 for s, o in st) else -1 if any(s == -1 for s, o in st) else 0
        open_[n] = want[n] == 0 and any(o for s, o in st)       # see unlisted()
    names = {"whitelist_from_rcvd": "from_in_whitelist", "def_whitelist_from_rcvd": "from_in_default_whitelist"}
    tests = {"check_from_in_whitelist": lambda a, b: a > 0, "check_from_in_default_whitelist": lambda a, b: b > 0,
             "check_forged_in_whitelist": lambda a, b: a < 0 and b == 0, "check_forged_in_default_whitelist": lambda a, b: a == 0 and b < 0}
    got = {}
    order = sorted(tests)
    r.shuffle(order)
    for t in order:
        got[t] = bool(getattr(plugin, t)(msg))
    state = {}
    for n in sorted(names):
        s = state[n] = plugin.get_local(msg, names[n])
        if not (open_[n] and s == -1):
            equal(s, want[n], "state of %s" % n, **info)
    a, b = state["whitelist_from_rcvd"], state["def_whitelist_from_rcvd"]
    for t in order:
        equal(got[t], tests[t](a, b), t, state=state, **info)


@scenario(1)
def unlisted(r):
    """a sender no entry speaks of is not a forged one"""
    plugin, msg, frm, to, lists, relays, allow, info = build(r, True)
    n = "whitelist_from_rcvd"
    for a in frm:
        s, o = relay_state(relays[n], allow, a, msg)
        if o and not any(a.lower() in e[1] for e in allow):
            equal(plugin.check_whitelist_rcvd(msg, "parsed_" + n, a), 0, "a sender that is not listed", address=a, **info)


if __name__ == "__main__":
    lib.main("C17")
