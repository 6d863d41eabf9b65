"""C16: DNS restrictions of a loaded configuration, with a resolver that records what reaches the network."""
import inspect
import lib
from lib import *
import dns.exception
import dns.name
import dns.resolver
import oa.dns_interface
import oa.plugins.base

LABELS = ["a", "b", "com", "example", "1", "2", "x-y", "deny", "zen", "aa"]


def name(r, lo=1, hi=5):
    return ".".join(r.choice(LABELS) for i in range(r.randint(lo, hi)))


def near(r, names):
    """a name related to one of the given ones"""
    n = r.choice(names)
    k = r.pick("same", "child", "grandchild", "parent", "glued", "other", "tail")
    if k == "child":
        return r.choice(LABELS) + "." + n
    if k == "grandchild":
        return name(r, 2, 4) + "." + n
    if k == "parent":
        return n.split(".", 1)[-1]
    if k == "glued":
        return r.choice(LABELS) + n
    if k == "tail":
        return n + "." + r.choice(LABELS)
    return name(r) if k == "other" else n


def oracle(entries, q):
    labels = q.split(".")
    for i in range(len(labels)):
        s = ".".join(labels[i:])
        if s in entries:
            return entries[s]
    return False


class Resolver(object):
    def __init__(self, fail=None, answer=None):
        self.sent, self.fail, self.answer = [], fail, answer

    def query(self, qname, qtype="A", *a, **k):
        self.sent.append((qname, qtype))
        if self.fail is not None:
            raise self.fail
        return self.answer


def failures():
    out = []
    for mod in (dns.resolver, dns.exception, dns.name):
        for n in sorted(dir(mod)):
            c = getattr(mod, n)
            if inspect.isclass(c) and issubclass(c, dns.exception.DNSException):
                try:
                    out.append(c())
                except Exception:
                    try:
                        out.append(c(request=None, errors=[]))
                    except Exception:
                        pass
    return out + [ValueError("x"), IndexError("x")]


FAILS = failures()


def install(d, res):
    d._resolver = res


@scenario(3)
def configured(r):
    names = [name(r) for i in range(r.randint(1, 6))]
    names += [near(r, names) for i in range(r.randint(0, 3))]
    entries, lines = {}, []
    for n in names:
        how = r.pick("deny", "deny", "allow", "allow", "junk", "none")
        if how == "junk":
            lines.append("dns_query_restriction %s %s" % (r.pick("Deny", "denied", "block", "all"), n))
        elif how == "none":
            lines.append("dns_query_restriction %s" % r.pick("deny", n))
        else:
            lines.append("dns_query_restriction %s %s" % (how, n))
            entries[n] = how == "deny"
    if r.maybe(0.1):
        lines.append("clear_dns_query_restriction")
        entries = {}
        if r.maybe():
            n = name(r)
            lines.append("dns_query_restriction deny %s" % n)
            entries[n] = True
    avail = r.pick("yes", "yes", "yes", "no")
    lines.append("dns_available " + avail)
    p, rs = load("\n".join(lines) + "\n")
    d = rs.ctxt.dns
    fail = r.choice(FAILS) if r.maybe(0.3) else None
    answer = [object()]
    res = Resolver(fail, answer)
    install(d, res)
    for i in range(r.randint(1, 8)):
        q = near(r, names) if r.maybe(0.8) else name(r)
        t = r.pick("A", "TXT", "MX", "AAAA")
        info = dict(config=lines, query=q, type=t)
        want = oracle(entries, q)
        equal(bool(d.is_query_restricted(q)), want, "whether the query is refused", **info)
        del res.sent[:]
        got = d.query(q, t) if r.maybe(0.8) or t != "A" else d.query(q)
        if want or avail == "no":
            equal((list(got), res.sent), ([], []), "a query that is refused, or without DNS", **info)
        else:
            equal(res.sent, [(q, t)], "what is sent", **info)
            if fail is None:
                expect(got is answer, "the records are the answer", **info)
            else:
                equal(list(got), [], "a failure of the resolver is an answer without records", failure=repr(fail), **info)
    # a second configuration is not restricted by the first
    if r.maybe(0.2):
        d2 = load("")[1].ctxt.dns
        for q in names:
            expect(not d2.is_query_restricted(q), "another configuration has no restrictions", config=lines, query=q)


@scenario(1)
def pointers(r):
    p, rs = load("dns_available yes\n")
    answer = [object()]
    res = Resolver(r.choice(FAILS) if r.maybe(0.3) else None, answer)
    install(rs.ctxt.dns, res)
    ip = r.pick("192.0.2.1", "2001:db8::1", "10.0.0.300", "x", "1.2.3")
    got = rs.ctxt.dns.query(ip, "PTR")
    ok = ip in ("192.0.2.1", "2001:db8::1")
    if ok and res.fail is None:
        expect(got is answer, "the records are the answer", ip=ip)
        equal([str(q) for q, t in res.sent], ["1.2.0.192.in-addr.arpa." if "." in ip else
                                             "1.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.8.b.d.0.1.0.0.2.ip6.arpa."], "what is sent", ip=ip)
    else:
        equal(list(got), [], "no records", ip=ip, failure=repr(res.fail))


@scenario(1)
def available(r):
    """dns_available test: no answer to the test queries, no DNS"""
    names = ["t%d.example" % i for i in range(4)]
    p, rs = load("dns_available test: %s\n" % " ".join(names) if r.maybe() else "dns_available test\n")
    d = rs.ctxt.dns
    works = r.maybe()
    answer = [object()]
    res = Resolver(None if works else r.choice(FAILS), answer)
    install(d, res)
    got = d.query("some.example", "A")
    if works:
        expect(got is answer and res.sent[-1] == ("some.example", "A"), "DNS works: the query is sent", sent=res.sent)
    else:
        expect(list(got) == [] and ("some.example", "A") not in res.sent, "DNS does not work: the query is not sent", sent=res.sent)


if __name__ == "__main__":
    lib.main("C16")
