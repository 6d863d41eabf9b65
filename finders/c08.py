"""C08: classification of the relays of real messages."""
import ipaddress
import lib
from lib import *
import oa.message
import oa.networks

IPS = ["10.1.2.3", "10.1.2.4", "192.168.1.1", "8.8.8.8", "8.8.4.4", "1.2.3.4", "127.0.0.1", "172.16.0.9", "2001:db8::1", "2a00:1450::5",
       "::1", "", "203.0.113.7"]
NETS = ["10.0.0.0/8", "8.8.8.0/24", "8.8.8.8", "1.2.3.4", "192.168.1.0/24", "0.0.0.0/0", "2a00:1450::/32", "!8.8.8.8", "!10.1.2.3",
        "203.0.113.0/24"]


def relay(r, n):
    return {"ip": r.choice(IPS), "auth": r.pick("", "", "", "ESMTPA"), "envfrom": r.pick("", "e%d@x.example" % n, " s%d@y.example " % n),
            "rdns": "r%d.example" % n, "helo": "h%d" % n, "by": "b%d" % n, "ident": "", "id": "i%d" % n}


def reference(relays, nets):
    """the walk of the property, written down once more"""
    out = {"trusted": [], "untrusted": [], "internal": [], "external": []}
    trusted = internal = True
    msa = False
    for n, x in enumerate(relays):
        if not x["ip"]:
            continue
        ip = ipaddress.ip_address(x["ip"])
        if trusted and not msa:
            reason = bool(x["auth"]) or (ip in nets.trusted if nets.configured else ip.is_private)
            if not reason:
                trusted = internal = False
            else:
                if nets.configured and not x["auth"] and ip not in nets.internal:
                    internal = False
                if nets.configured and ip in nets.msa:
                    msa = True
        out["trusted" if trusted else "untrusted"].append(n)
        out["internal" if internal else "external"].append(n)
    return out


def networks(r):
    nl = oa.networks.NetworkList()
    done = []
    for i in range(r.randint(0, 4)):
        kind, net = r.pick("trusted", "trusted", "internal", "msa"), r.choice(NETS)
        getattr(nl, "add_%s_network" % kind)(net)
        done.append((kind, net))
    return nl, done


BASE = []


def fresh():
    if not BASE:
        BASE.append(load("header A Subject =~ /x/\n")[1])
    return message(BASE[0], "Subject: a\n\nb\n")


@scenario(4)
def walk(r):
    msg = fresh()
    nl, done = networks(r)
    msg.ctxt.networks, old = nl, msg.ctxt.networks
    try:
        relays = [relay(r, n) for n in range(r.randint(0, 7))]
        src = [dict(x) for x in relays]
        msg._parse_relays(relays)
        want = reference(src, nl)
        for k in want:
            got = [x["id"] for x in getattr(msg, k + "_relays")]
            equal(got, ["i%d" % n for n in want[k]], "%s relays" % k, relays=src, networks=done)
        for k in want:
            tag = msg.plugin_tags["RELAYS" + k.upper()]
            equal(tag.count("[ ip="), len(want[k]), "relays described in the %s tag" % k, relays=src, networks=done)
    finally:
        msg.ctxt.networks = old


@scenario(2)
def received(r):
    """the same from the headers of whole messages"""
    lines, hops = [], []
    for n in range(r.randint(0, 5)):
        ip = r.choice([x for x in IPS if x])
        auth = r.maybe(0.2)
        hops.append({"ip": ip, "auth": "ESMTPA" if auth else ""})
        lines.append("Received: from h%d.example (r%d.example [%s%s]) by b%d.example (Postfix) with %s id i%d for <x@y>; Thu, 19 Nov 2026 00:00:0%d +0000"
                     % (n, n, "IPv6:" if ":" in ip else "", ip, n, "ESMTPSA" if auth else "ESMTP", n, n))
    conf, kinds = [], []
    for i in range(r.randint(0, 3)):
        kind, net = r.pick("trusted", "internal", "msa"), r.choice(NETS)
        conf.append("%s_networks %s" % (kind, net))
    parser, rs = load("\n".join(conf) + "\n")
    msg = message(rs, "\n".join(lines + ["From: a@b.c", "", "body", ""]))
    info = dict(config=conf, headers=lines)
    equal([x["ip"] for x in msg.received_headers], [x["ip"] for x in hops], "the hops", **info)
    equal([bool(x["auth"]) for x in msg.received_headers], [bool(x["auth"]) for x in hops], "authentication", **info)
    want = reference(hops, msg.ctxt.networks)
    for k in want:
        equal([x["id"] for x in getattr(msg, k + "_relays")], ["i%d" % n for n in want[k]], "%s relays" % k, **info)


WORDS = ["from", "by", "with", "(", ")", "[", "]", "ESMTP", "unknown", "localhost", "HELO", "x.example", "1.2.3.4", "01.2.3.4", "::ffff:1:2",
         "300.1.1.1", "IPv6:", "::1", "1::2.3.4.05", "2001:db8::1", "id", "for", "<a@b.c>", ";", "(Postfix)", "Exim", "authenticated", "user",
         "ident", "=", "@", "(envelope-from", "envelope-sender", "AUTH", "qmail", "invoked", "uid", "\t", "SquirrelMail", "via", "HTTP",
         "::ffff:10.0.0.1", "[10.0.0.1]", "10.0.0.1", "id=", "helo=", "rdns=", "mx.google.com", "ESMTPS", "version=", "cipher="]


@scenario(2)
def any_header(r):
    """whatever a Received header says, the message can be processed and every hop is in its lists once"""
    heads = [r.pick("from ", "from ", "") + " ".join(r.some(WORDS, 0, 14)) for i in range(r.randint(1, 3))]
    fresh()
    msg = message(BASE[0], "".join("Received: %s\n" % h for h in heads) + "Subject: a\n\nb\n")
    hops = [x for x in msg.received_headers if x["ip"]]
    info = dict(headers=heads)
    for a, b in (("trusted", "untrusted"), ("internal", "external")):
        equal(len(getattr(msg, a + "_relays")) + len(getattr(msg, b + "_relays")), len(hops), "hops in %s or %s" % (a, b), **info)
        both = getattr(msg, a + "_relays") + getattr(msg, b + "_relays")
        expect(all(x is y for x, y in zip(both, hops)), "%s hops come first, in order" % a, **info)
    expect(len(msg.internal_relays) <= len(msg.trusted_relays), "internal hops are trusted", **info)
    equal(len(msg.get_header_ips()), len(hops), "addresses of the hops", **info)


if __name__ == "__main__":
    lib.main("C08")
