"""C27: the envelope sender and address lists of real messages."""
import lib
from lib import *
import oa.message

BASE = {}
FROM = ["From", "Envelope-Sender", "Resent-From", "X-Envelope-From", "EnvelopeFrom"]
ALL_FROM = ["From", "Envelope-Sender", "Resent-Sender", "X-Envelope-From", "EnvelopeFrom", "Resent-From"]
TO = ["To", "Resent-To", "Resent-Cc", "Apparently-To", "Delivered-To", "Envelope-Recipients", "Apparently-Resent-To", "X-Envelope-To",
      "Envelope-To", "X-Delivered-To", "X-Original-To", "X-Rcpt-To", "X-Real-To", "Cc"]
SENDERH = ["X-Sender", "X-Envelope-From", "Envelope-Sender", "Return-Path"]


def value(r):
    """(text, addresses)"""
    out = []
    for i in range(r.pick(1, 1, 1, 2, 3)):
        a = "%s@%s.example" % (r.pick("a", "bob", "x.y", "Carl", "d-1"), r.pick("one", "two", "three"))
        k = r.randint(0, 6)
        if k == 0:
            out.append(("", None))
        else:
            out.append((r.pick("%s", "<%s>", "Some One <%s>", '"Doe, J" <%s>', "%s (comment)") % a, a))
    return ", ".join(t for t, a in out), [a for t, a in out if a]


def headers(r, names):
    hs = []
    for n in names:
        if r.maybe(0.3):
            for i in range(r.pick(1, 1, 2)):
                t, a = value(r)
                hs.append((n, t, a))
    r.shuffle(hs)
    return hs


def all_of(hs, name):
    return [x for n, t, a in hs if n == name for x in a]


def build(r, conf, hs, extra=()):
    key = tuple(conf)
    if key not in BASE:
        BASE[key] = load("\n".join(conf) + "\n")[1]
    return message(BASE[key], "".join("%s: %s\n" % (n, t) for n, t, a in hs) + "".join(x + "\n" for x in extra) + "Subject: s\n\nbody\n")


@scenario(2)
def lists(r):
    hs = headers(r, sorted(set(FROM + ALL_FROM + TO)))
    msg = build(r, [], hs)
    info = dict(headers=[(n, t) for n, t, a in hs])
    for n in set(FROM + TO):
        equal(msg.get_all_addr_header(n), all_of(hs, n), "addresses of %s" % n, **info)
        equal(msg.get_addr_header(n), [a[0] for m, t, a in hs if m == n and a], "first addresses of %s" % n, **info)
    want = all_of(hs, "Resent-From") or [x for n in FROM for x in all_of(hs, n)]
    equal(list(msg.get_from_addresses()), want, "sender addresses", **info)
    want = all_of(hs, "Resent-To") + all_of(hs, "Resent-Cc") or [x for n in TO for x in all_of(hs, n)]
    equal(list(msg.get_to_addresses()), want, "recipient addresses", **info)
    msg.sender_address = r.pick("", "env@x.example")
    want = [x for n in ALL_FROM for x in ([msg.sender_address] if n == "EnvelopeFrom" and msg.sender_address else all_of(hs, n))]
    equal(list(msg.get_all_from_headers_addr()), want, "all sender addresses", **info)


@scenario(4)
def sender(r):
    conf = []
    names = SENDERH
    if r.maybe(0.4):
        names = r.pick(["X-Mine"], ["Return-Path", "X-Mine"], ["X-Mine", "X-Sender"])
        conf += ["envelope_sender_header %s" % n for n in names]
    always = r.maybe(0.3)
    if always:
        conf.append("always_trust_envelope_sender 1")
    hs = headers(r, sorted(set(SENDERH + ["X-Mine", "From"])))
    msg = build(r, conf, hs)
    hop = lambda n: {"ip": "1.2.3.4", "envfrom": r.pick("", "%s@hop.example" % n, "  %s@hop.example " % n)}
    mk = lambda n: [hop("%s%d" % (n, i)) for i in range(r.pick(0, 0, 1, 2))]
    msg.external_relays, msg.trusted_relays, msg.untrusted_relays = mk("ext"), mk("tru"), mk("unt")
    msg.internal_relays = mk("int")
    msg.sender_address = ""
    info = dict(config=conf, headers=[(n, t) for n, t, a in hs], external=msg.external_relays, trusted=msg.trusted_relays,
                untrusted=msg.untrusted_relays)
    msg._parse_sender()
    want = ""
    if msg.external_relays:
        want = msg.external_relays[0]["envfrom"].strip()
    else:
        hops = ([] if always or not msg.trusted_relays else [msg.trusted_relays[-1]]) + msg.untrusted_relays[:1]
        found = [h["envfrom"].strip() for h in hops if h["envfrom"]]
        found += [a[0] for n in names for m, t, a in hs if m == n and a]
        want = found[0] if found else ""
    equal(msg.sender_address, want, "the envelope sender", **info)


@scenario(1)
def whole(r):
    """from the Received headers of a message"""
    ips = r.sample(["8.8.8.8", "10.0.0.1", "192.168.3.3", "1.2.3.4"], r.randint(0, 3))
    recs = []
    for n, ip in enumerate(ips):
        env = r.pick("", " (envelope-from <e%d@x.example>)" % n)
        recs.append(("Received: from h%d.example (h%d.example [%s]) by mx%d.example with ESMTP%s; Thu, 19 Nov 2026 00:00:0%d +0000"
                     % (n, n, ip, n, env, n), ip, "e%d@x.example" % n if env else ""))
    hs = headers(r, SENDERH)
    msg = build(r, [], hs, [x[0] for x in recs])
    info = dict(headers=[(n, t) for n, t, a in hs], received=[x[0] for x in recs])
    private = lambda ip: not ip.startswith("8.") and not ip.startswith("1.2.")
    pub = [i for i, x in enumerate(recs) if not private(x[1])]
    equal([x["envfrom"] for x in msg.received_headers], [x[2] for x in recs], "senders recorded by the hops", **info)
    if pub:
        want = recs[pub[0]][2]
    else:
        want = (recs[-1][2] if recs else "") or ([a[0] for n in SENDERH for m, t, a in hs if m == n and a] or [""])[0]
    equal(msg.sender_address, want, "the envelope sender", **info)


if __name__ == "__main__":
    lib.main("C27")
