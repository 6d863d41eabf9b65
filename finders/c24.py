"""C24: blocklist rules end to end, with an answering service in place of dnspython's resolver."""
import ipaddress
import re
import zlib
import lib
from lib import *
import dns.exception

TRUSTED = [[], ["10.0.0.0/8"], ["10.0.0.0/8", "66.33.22.11"], ["66.33.0.0/16"], ["!66.33.22.11", "66.33.0.0/16"], ["2001:db8::/32"]]
IPS = ["10.0.0.1", "10.0.0.1", "66.33.22.11", "127.0.0.1", "66.33.44.1", "192.168.1.5", "212.17.35.15", "5.6.7.8", "2001:db8::5", "2a00:1450::7"]
DOMAINS = ["one.example", "two.example", "mail.two.example", "three.example", "ACC.example"]
ZONES = ["z", "y", "zen", "w"]
SUBTESTS = [None, None, "^127", "127.0.0.2", "127.0.0.[13]", ".*\\.1$", "2", "", "(", "[", "*", "a{2,1}", "x", "(?P<a>1", 127]
MASKS = [1, 2, 4, 64, 6, 127, "2", "64", "127.0.0.2", "0.0.0.4", "128.0.0.0", "x", "2.3", "", "1.2.3", "0x2", "::2", 2 ** 24]


class Rec(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class Service(object):
    """the answers are a function of the question; only addresses have A records"""

    def __init__(self, salt, rate):
        self.salt, self.rate, self.asked = salt, rate, []

    def answers(self, name, qtype):
        h = zlib.crc32(("%s %s %s" % (self.salt, name.rstrip("."), qtype)).encode("utf8"))
        if h % 100 >= self.rate:
            return []
        n = 1 + h // 100 % 2
        out = []
        for i in range(n):
            h = zlib.crc32(("%d %d" % (h, i)).encode())
            out.append("127.0.0.%d" % [1, 2, 3, 4, 8, 64, 127, 10][h % 8] if qtype == "A" else ["127.0.0.2", "listed as spam", "x", "127"][h % 4] if qtype == "TXT"
                       else "10 mx.%s" % name)
        return out

    def query(self, name, qtype="A", *a, **k):
        self.asked.append((str(name).rstrip("."), str(qtype)))
        got = self.answers(str(name), str(qtype))
        if not got:
            raise dns.exception.DNSException("none")
        return [Rec(x) for x in got]


def rev(ip):
    a = ipaddress.ip_address(ip)
    return a.reverse_pointer.rsplit(".", 2)[0]


def compiled(sub):
    try:
        return re.compile(sub)
    except (re.error, TypeError, OverflowError):
        return None


def by_pattern(service, names, qtype, sub):
    """(valid, hit)"""
    p = None
    if sub is not None:
        p = compiled(sub)
        if p is None:
            return False, False
    return True, any(p is None or p.match(x) is not None for n in names for x in service.answers(n, qtype))


def bits(mask):
    try:
        return int(mask)
    except ValueError:
        pass
    try:
        return int(ipaddress.ip_address(mask))
    except ValueError:
        return None


def rule(r, i):
    zone = r.choice(ZONES)
    zone_arg = zone + r.pick("", "", "-lastexternal", "-untrusted")
    server = "l%d.example" % r.randint(0, 3) + r.pick("", ".")
    sub = r.choice(SUBTESTS)
    kind = r.pick("check_rbl", "check_rbl", "check_rbl_txt", "check_rbl_sub", "check_rbl_sub", "check_dns_sender", "check_rbl_envfrom", "check_rbl_from_host",
                  "check_rbl_from_domain", "check_rbl_accreditor")
    args = [zone_arg, server] + ([] if sub is None else [sub])
    if kind == "check_rbl_sub":
        sub = r.choice(MASKS)
        args = [zone, sub]
    elif kind == "check_dns_sender":
        args = []
    acc = None
    if kind == "check_rbl_accreditor":
        sub = sub if sub is not None else "^127"
        acc = r.pick("abc", "xyz", "zzz")
        args = [zone_arg, server, sub, acc]
    return dict(name="R%02d" % i, kind=kind, zone=zone, server=server, sub=sub, acc=acc, args=args)


def mail(r):
    relays = [r.choice(IPS) for i in range(r.randint(0, 5))]
    h = ["Received: from h%d.example (r%d.example [%s]) by b%d.example with ESMTP id x%d; Thu, 19 Nov 2026 10:00:%02d +0000" % (
        i, i, ("IPv6:" if ":" in ip and r.maybe(.3) else "") + ip, i, i, i) for i, ip in enumerate(relays)]
    froms, tags = [], []
    for i in range(r.pick(0, 1, 1, 1, 2)):
        ds = [r.choice(DOMAINS) for j in range(r.pick(1, 1, 2))]
        froms.append(ds[0])
        h.append("From: " + ", ".join(r.pick("u@%s", "Joe <u@%s>", '"x@y" <u@%s>') % d for d in ds))
    sender = r.pick(None, "joe@one.example", "joe@two.example", "bob@a--xyz.mail.three.example", "joe@mail.two.example", "a.b@three.example", "ann.a--abc.x@one.example")
    if sender:
        h.append("%s: <%s>" % ("X-Envelope-From", sender))
    for i in range(r.pick(0, 0, 1, 2)):
        ps = [(r.pick("abc", "xyz", "qqq"), r.pick("", ", x", ",y,abc")) for j in range(r.randint(1, 3))]
        tags += [p[0] for p in ps]
        h.append("Accreditor: " + r.pick(";", "; ").join(p[0] + p[1] for p in ps))
    return relays, froms, tags, sender, "\n".join(h + ["Subject: s", "", "body", ""])


def trusted(nets, ip):
    """the first network that contains it decides; local addresses are always trusted"""
    ip = ipaddress.ip_address(ip)
    for n in ["127.0.0.0/8", "::1/128"] + nets:
        no = n.startswith("!")
        if ip in ipaddress.ip_network(n.lstrip("!")):
            return not no
    return False


@scenario(6)
def rules_hit_when_listed(r):
    rules = [rule(r, i) for i in range(r.randint(1, 8))]
    nets, off = r.choice(TRUSTED), r.maybe(.15)
    conf = ["loadplugin oa.plugins.dns_eval.DNSEval"] + ["trusted_networks " + n for n in nets] + (["skip_rbl_checks 1"] if off else [])
    for x in rules:
        conf += ["header %s eval:%s(%s)" % (x["name"], x["kind"], ", ".join(map(repr, x["args"]))), "score %s 1" % x["name"]]
    parser, rs = load("\n".join(conf) + "\n", True)
    service = Service(r.randint(0, 10 ** 6), r.pick(20, 50, 80, 100))
    rs.ctxt.dns._resolver.query = service.query
    zones = {}
    for x in rules:
        if x["kind"] not in ("check_rbl_sub", "check_dns_sender"):
            zones[x["zone"]] = x["server"]
    for k in range(2):
        relays, froms, tags, sender, text = mail(r)
        msg = message(rs, text)
        equal([str(i) for i in msg.get_header_ips()], [str(ipaddress.ip_address(i)) for i in relays], "addresses of the relays", text=text)
        ips = [i for i in relays if not trusted(nets, i)]
        equal([str(i) for i in msg.get_untrusted_ips()], [str(ipaddress.ip_address(i)) for i in ips], "untrusted addresses", text=text, nets=nets)
        if sender and msg.sender_address and msg.sender_address != sender:
            raise Skip()
        sender = msg.sender_address
        revs = [rev(i) for i in ips]
        at = sender.rsplit("@", 1)[-1] if sender else None
        m = re.search(r"[@.]a--([a-z0-9]{3,})\.", sender or "", re.I)
        mine = tags + ([m.group(1)] if m else [])
        for x in rules:
            service.asked = []
            got = bool(rs.get_rule(x["name"]).match(msg))
            valid, hit = True, False
            names = ["%s.%s" % (v, x["server"]) for v in revs]
            if x["kind"] in ("check_rbl", "check_rbl_txt"):
                valid, hit = by_pattern(service, names, "TXT" if x["kind"] == "check_rbl_txt" else "A", x["sub"])
            elif x["kind"] == "check_rbl_accreditor":
                valid, hit = by_pattern(service, names, "A", x["sub"])
                hit = hit and x["acc"] in mine
            elif x["kind"] == "check_rbl_envfrom":
                valid, hit = by_pattern(service, ["%s.%s" % (at, x["server"])] if at else [], "A", x["sub"])
            elif x["kind"] in ("check_rbl_from_host", "check_rbl_from_domain"):
                valid, hit = by_pattern(service, ["%s.%s" % (d, x["server"]) for d in froms], "A", x["sub"])
            elif x["kind"] == "check_dns_sender":
                hit = bool(at) and not service.answers(at, "A") and not service.answers(at, "MX")
            else:
                b = bits(x["sub"])
                valid = b is not None and x["zone"] in zones
                hit = valid and any(int(ipaddress.ip_address(y)) & b for v in revs for y in service.answers("%s.%s" % (v, zones[x["zone"]]), "A"))
            if off and x["kind"] != "check_dns_sender":
                hit = False
            info = dict(rule="%s(%s)" % (x["kind"], ", ".join(map(repr, x["args"]))), addresses=ips, froms=froms, sender=sender, zones=zones, asked=service.asked,
                        answers={q: service.answers(*q) for q in service.asked}, disabled=off)
            equal(got, hit, "rule %s" % x["kind"], **info)
            if x["kind"] != "check_dns_sender" and (off or not valid):
                expect(not service.asked, "%s: asked although %s" % (x["kind"], "the checks are disabled" if off else "the sub-test is invalid"), **info)


@scenario(1)
def names_asked(r):
    """the reversed address before the list's name, each untrusted address until one is listed"""
    ip = r.pick(*IPS) if r.maybe(.3) else str(ipaddress.ip_address(r.getrandbits(32) if r.maybe(.6) else r.getrandbits(128)))
    if not BASE:
        BASE.append(load("loadplugin oa.plugins.dns_eval.DNSEval\nheader A eval:check_rbl('z', 'list.example')\n", True)[1])
    rs = BASE[0]
    service = Service(0, 0)
    rs.ctxt.dns._resolver.query = service.query
    msg = message(rs, "Subject: a\n\nb\n")
    msg.get_untrusted_ips = lambda: [ipaddress.ip_address(ip)]
    rs.get_rule("A").match(msg)
    equal(service.asked, [(rev(ip) + ".list.example", "A")], "what is asked", ip=ip)


BASE = []

lib.main("C24")
