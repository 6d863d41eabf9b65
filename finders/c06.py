"""C06: header rules on whole messages; pattern conversion."""
import re
import email.header
import email.utils
import lib
from lib import *
import oa.regex
import oa.message

NAMES = ["Subject", "From", "To", "Cc", "X-Test", "Message-Id", "Resent-Message-Id", "X-Message-Id", "Reply-To", "Received"]
VALUES = ["hello world", "Alice <a@example.com>", "b@example.org", "Bob B <bob@x.net>, Carol <c@y.net>", "=?utf-8?q?h=C3=A9llo?=",
          "=?utf-8?b?aGVsbG8=?=", "=?utf-8?b?a?=", "", "x", "<id-1@host>", "HELLO", "=?nope?q?abc?= hello",
          '"Quoted, Name" <q@z.com>', "undisclosed:;", "=?iso-8859-1?q?caf=E9?= tail", "a\n\tfolded hello", "<>",
          "=?utf-8?q?hel?= =?utf-8?q?lo?=", "exists:", "ALL", "first, <second@x.y>", "lo at end hel"]
PATS = ["hello", "^x$", "a@example", "@", "world$", "^$", "h.llo", "nothing-here", "Bob", "example", "^[^@]*$", "X-Test: ",
        "(?:To|Cc)", "second", "caf", "=\\?", "exists", "HELLO", "a", "^"]


def decode(value):
    try:
        parts = email.header.decode_header(value)
    except (ValueError, email.header.HeaderParseError):
        return ""
    out = ""
    for v, enc in parts:
        if isinstance(v, str):
            out += v
            continue
        try:
            out += v.decode(enc or "utf-8", "ignore")
        except (LookupError, UnicodeError, AssertionError):
            pass
    return out


def cased(r, n):
    return r.pick(n, n.lower(), n.upper(), n.title())


def views(raw, name, view):
    vals = [v for n, v in raw if n.lower() == name.lower()]
    if view == "raw":
        return vals
    dec = [decode(v) for v in vals]
    if view == "":
        return dec
    out = []
    for v in dec:
        got = [a if view == "addr" else n for n, a in email.utils.getaddresses([v]) if (a if view == "addr" else n)]
        out += got[:1]
    return out


def headers(r):
    return [(cased(r, r.choice(NAMES)), r.choice(VALUES)) for _ in range(r.randint(0, 6))]


@scenario(4)
def rules(r):
    hs = headers(r)
    text = "".join("%s: %s\n" % h for h in hs) + "\nbody\n"
    lines, want = [], []
    for i in range(r.randint(1, 6)):
        kind = r.pick("plain", "plain", "raw", "addr", "name", "exists", "ALL", "ToCc", "MESSAGEID")
        n = cased(r, r.choice(NAMES + ["Absent"]))
        op = r.pick("=~", "=~", "!~")
        p = r.choice(PATS)
        fl = r.pick("", "i")
        sp = r.pick(" ", "  ", "")
        if kind == "exists":
            lines.append("header R%d exists:%s%s" % (i, r.pick("", " "), n))
            want.append(any(x.lower() == n.lower() for x, _ in hs))
            continue
        if kind in ("ALL", "ToCc", "MESSAGEID"):
            hn = kind
        else:
            hn = n + ("" if kind == "plain" else ":" + kind)
        lines.append("header R%d %s%s%s%s/%s/%s" % (i, hn, sp, op, sp, p.replace("/", "\\/"), fl))
        want.append((kind, n, op, p, fl))
    p, rs = load("\n".join(lines) + "\n")
    msg = message(rs, text)
    # what the message carries, by Python's own parser
    import email
    raw = [(a, b) for a, b in email.message_from_string(text)._headers]
    info = dict(message=text, config=lines)
    for i, w in enumerate(want):
        rule = rs.get_rule("R%d" % i)
        got = bool(rule.match(msg))
        if isinstance(w, bool):
            equal(got, w, "an existence rule", rule=lines[i], **info)
            continue
        kind, n, op, pat, fl = w
        if kind == "ALL":
            vals, seen = [], []
            for x, _ in raw:
                if x.lower() not in seen:
                    seen.append(x.lower())
                    vals += ["%s: %s" % (x.lower(), v) for v in views(raw, x, "")]
        elif kind == "ToCc":
            vals = views(raw, "To", "") + views(raw, "Cc", "")
        elif kind == "MESSAGEID":
            vals = sum([views(raw, x, "") for x in ("Message-Id", "Resent-Message-Id", "X-Message-Id")], [])
        else:
            vals = views(raw, n, "" if kind == "plain" else kind)
        c = re.compile(pat, re.I if fl else 0)
        hit = any(bool(c.search(v)) == (op == "=~") for v in vals)
        equal(got, hit, "a header rule", rule=lines[i], values=vals, **info)


@scenario(2)
def mime(r):
    parts = []
    raw = [("Content-Type", 'multipart/mixed; boundary="=b="'), ("X-Top", "top hello")]
    for i in range(r.randint(1, 3)):
        hs = [(cased(r, n), r.choice([v for v in VALUES if v])) for n in r.some(["X-Part", "Content-Disposition", "Content-ID"], 0, 3)]
        parts.append("".join("%s: %s\n" % h for h in hs) + "\npart %d\n" % i)
        raw += hs
    text = 'Content-Type: multipart/mixed; boundary="=b="\nX-Top: top hello\n\n' + \
        "".join("--=b=\n" + p for p in parts) + "--=b=--\n"
    lines, want = ["loadplugin oa.plugins.mime_header.MIMEHeader"], []
    try:
        import oa.plugins.mime_header
    except ImportError:
        lines = []
    for i in range(r.randint(1, 4)):
        n = cased(r, r.pick("X-Part", "Content-Disposition", "X-Top", "Absent"))
        mod = r.pick("", ":raw")
        op, p = r.pick("=~", "!~"), r.choice(PATS)
        lines.append("mimeheader M%d %s%s %s /%s/" % (i, n, mod, op, p.replace("/", "\\/")))
        vals = views([(a, b) for a, b in raw], n, "raw" if mod else "")
        want.append((any(bool(re.search(p, v)) == (op == "=~") for v in vals), vals))
    p, rs = load("\n".join(lines) + "\n")
    msg = message(rs, text)
    for i, (hit, vals) in enumerate(want):
        equal(bool(rs.get_rule("M%d" % i).match(msg)), hit, "a MIME header rule", config=lines, message=text, rule=i, values=vals)


@scenario(1)
def patterns(r):
    pat = r.pick("abc", "a.c", "^ab", "a b", "a\\/b", "(?i:ABC)c", "(?>a)b", "x\\b?y", "[a-c]{2}", "a|zz", "")
    delim = r.pick("//", "{}", "%%", "<>", "''", "~~", ",,", "!!", ";;", "##", "()", "||")
    flags = "".join(r.subset("ismxgo", 0.25))
    pre = r.pick("", "", "m")
    op = r.pick("=~", "!~")
    text = r.pick(" ", "") + pre + delim[0] + pat + delim[1] + flags + r.pick("", " ")
    known = delim[0] in "/{%<'~,!;"
    info = dict(pattern=text, op=op)
    if text.strip().lstrip("mgs")[:1] != delim[0]:
        raise Skip()
    try:
        got = oa.regex.perl2re(text, op)
    except oa.errors.InvalidRegex:
        expect(not known, "a valid pattern is accepted", **info)
        return
    expect(known, "an unknown delimiter is rejected", **info)
    py = pat.replace("(?i:", "(?:").replace("(?>", "(?:").replace("\\b?", "(\\b)?")
    fl = 0
    for f in flags:
        fl |= {"i": re.I, "s": re.S, "m": re.M, "x": re.X}.get(f, 0)
    for s in ("abc", "ABC", "a\nc", "xx\nabc", "a b", "a/b", "ab", "xy", "", "zz", "cab", "ABCc"):
        equal(bool(got.match(s)), bool(re.search(py, s, fl)) == (op == "=~"), "the converted pattern", text=s, **info)


@scenario(1)
def store(r):
    h = oa.message._Headers()
    model = {}
    for _ in range(r.randint(1, 8)):
        n = cased(r, r.choice(NAMES[:4]))
        act = r.pick("add", "set", "get", "in", "item")
        if act == "add":
            h[n].append("v")
            model.setdefault(n.lower(), [])
            model[n.lower()] = model[n.lower()] + ["v"]
        elif act == "set":
            h[n] = ["w"]
            model[n.lower()] = ["w"]
        elif act == "get":
            equal(h.get(n, None), model.get(n.lower()), "get of a header", name=n)
        elif act == "in":
            equal(n in h, n.lower() in model, "presence of a header", name=n)
        else:
            equal(h[n], model.setdefault(n.lower(), []), "a header", name=n)
    equal(dict(h), model, "the header store")


if __name__ == "__main__":
    lib.main("C06")
