"""C09: network lists of real configurations."""
import ipaddress
import lib
from lib import *
import oa.networks

POOL = ["10.0.0.0/8", "10.1.0.0/16", "10.1.2.0/24", "10.1.2.3", "10.1.2.3/32", "192.168.1.0/24", "192.168.1.128/25", "127.0.0.0/8",
        "127.0.0.1", "0.0.0.0/0", "2001:db8::/32", "2001:db8:1::/48", "2001:db8::1", "::1", "::/0", "172.16.0.0/12", "8.8.8.8"]
SHORT = {"10.": "10.0.0.0/8", "10.1.": "10.1.0.0/16", "10.1.2.": "10.1.2.0/24", "10.1.2": "10.1.2.0/24", "192.168.1": "192.168.1.0/24",
         "[10.1.2.3]": "10.1.2.3", "[::1]": "::1", "[2001:db8::1]": "2001:db8::1", "127.": "127.0.0.0/8"}
BAD = ["10.1", "300.1.1.1", "nonsense", "10.0.0.0/33", "10.0.0.1/8", "1.2.3.4.5", "", "/", "!", "gg::1", "10.0.0.0/x"]
ADDRS = ["10.1.2.3", "10.1.2.4", "10.1.3.3", "10.2.0.1", "11.0.0.1", "127.0.0.1", "127.255.0.3", "192.168.1.1", "192.168.1.200",
         "192.168.2.1", "::1", "::2", "2001:db8::1", "2001:db8:1::5", "2001:db9::1", "172.20.0.1", "8.8.8.8", "0.0.0.0", "255.255.255.255"]


def entry(r):
    """(text, network or None, accepted)"""
    k = r.randint(0, 9)
    neg = r.maybe(0.3)
    if k == 0:
        return r.choice(BAD), None, None
    if k <= 3:
        t = r.choice(sorted(SHORT))
        net = SHORT[t]
    else:
        net = t = r.choice(POOL)
    return ("!" if neg else "") + t, ipaddress.ip_network(net), not neg


ALWAYS = [(ipaddress.ip_network("127.0.0.0/8"), True), (ipaddress.ip_network("::1"), True)]


class Want(object):
    def __init__(self):
        self.lists = {"trusted": list(ALWAYS), "internal": list(ALWAYS), "msa": []}
        self.explicit = False
        self.configured = False

    def add(self, kind, net, ok):
        if net is None:
            return
        if kind == "msa":
            self.lists["msa"].append((net, ok))
            return
        self.configured = True
        self.lists["trusted"].append((net, ok))
        if kind == "internal":
            if not self.explicit:
                self.lists["internal"] = list(ALWAYS)
            self.explicit = True
            self.lists["internal"].append((net, ok))
        elif not self.explicit:
            self.lists["internal"].append((net, ok))

    def ask(self, kind, ip):
        for net, ok in self.lists[kind]:
            if net.version == ip.version and ip in net:
                return ok
        return False


def compare(nl, want, info, addrs=ADDRS):
    for a in addrs:
        ip = ipaddress.ip_address(a)
        for kind in ("trusted", "internal", "msa"):
            equal(ip in getattr(nl, kind), want.ask(kind, ip), "%s in %s" % (a, kind), address=a, list=kind, **info)
    equal(bool(nl.configured), want.configured, "configured", **info)


@scenario(5)
def histories(r):
    nls = [oa.networks.NetworkList() for i in range(r.randint(1, 3))]
    wants = [Want() for x in nls]
    done = []
    for i in range(r.randint(0, 8)):
        n = r.randrange(len(nls))
        kind = r.pick("trusted", "internal", "msa")
        text, net, ok = entry(r)
        done.append((n, kind, text))
        getattr(nls[n], "add_%s_network" % kind)(text)
        wants[n].add(kind, net, ok)
        if r.maybe(0.2):
            compare(nls[n], wants[n], dict(history=done, on=n), r.sample(ADDRS, 3))
    for n, (x, w) in enumerate(zip(nls, wants)):
        compare(x, w, dict(history=done, on=n))
    compare(oa.networks.NetworkList(), Want(), dict(history=done, on="a new list"))


@scenario(2)
def base_lists(r):
    """one list on its own: add, clear"""
    cls = r.pick(oa.networks.TrustedNetworks, oa.networks.InternalNetworks, oa.networks.MSANetworks)
    start = [] if cls is oa.networks.MSANetworks else ALWAYS
    x, want, done = cls(), list(start), []
    for i in range(r.randint(0, 8)):
        if r.maybe(0.2):
            x.clear()
            want = list(start)
            done.append("clear")
        else:
            text, net, ok = entry(r)
            if net is not None:
                x.add(net, ok)
                want.append((net, ok))
                done.append((str(net), ok))
    for a in ADDRS:
        ip = ipaddress.ip_address(a)
        equal(ip in x, next((ok for net, ok in want if ip in net), False), "%s in the list" % a, list=cls.__name__, history=done)


@scenario(2)
def configurations(r):
    """whole configurations, two in one process"""
    made = []
    for c in range(r.randint(1, 2)):
        lines, ents = [], {"trusted": [], "internal": [], "msa": []}
        for i in range(r.randint(0, 5)):
            kind = r.pick("trusted", "internal", "msa")
            if r.maybe(0.1):
                lines.append("clear_%s_networks" % kind)
                ents[kind] = []
                continue
            es = [e for e in (entry(r) for _ in range(r.randint(1, 3))) if e[0]]
            if not es:
                continue
            lines.append("%s_networks %s" % (kind, " ".join(e[0] for e in es)))
            ents[kind] += es
        w = Want()
        for kind in ("trusted", "internal", "msa"):
            for t, net, ok in ents[kind]:
                w.add(kind, net, ok)
        parser, rs = load("\n".join(lines) + "\n")
        made.append((lines, parser.ctxt.networks, w))
    for lines, nl, w in made:
        compare(nl, w, dict(config=lines, all_configs=[m[0] for m in made]))


if __name__ == "__main__":
    lib.main("C09")
