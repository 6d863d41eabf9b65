"""C13: requests read from a stream that splits its bytes arbitrarily."""
import io
import zlib
import lib
from lib import *
import oa
import oa.errors
import oa.protocol.base
import oa.protocol.check
import oa.protocol.noop
import oa.protocol.process
import oa.protocol.tell

P, RS = load("body A /hello/\nscore A 3.0\nreport r\n")
P2, RS2 = load("body A /hello/\nscore A 7.0\nreport r\n")
LETTERS = ["a", "hello ", "\n", "\r\n", "\u00e9", "\u20ac", "\U0001f600", "x: y\n", "\n\n", ".", "\0", "Subject: q\n", "b" * 50]


class Stream(object):
    """gives out its bytes in pieces"""

    def __init__(self, data, r):
        self.data, self.pos, self.r, self.asked = data, 0, r, []

    def readline(self, limit=-1):
        n = self.data.find(b"\n", self.pos)
        end = len(self.data) if n < 0 else n + 1
        out, self.pos = self.data[self.pos:end], end
        return out

    def read(self, n=-1):
        self.asked.append(n)
        rest = len(self.data) - self.pos
        if n is None or n < 0:
            n = rest
        k = min(n, rest)
        if k > 1:
            k = self.r.pick(k, 1, self.r.randint(1, k))
        out, self.pos = self.data[self.pos:self.pos + k], self.pos + k
        return out

    def recv_into(self, b):
        raise NotImplementedError()

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


class Server(object):
    log = Quiet()

    def __init__(self):
        self.users = []

    def get_user_ruleset(self, user=None):
        self.users.append(user)
        return RS2 if user == "bob" else RS


class Echo(oa.protocol.base.BaseProtocol):
    has_options = True
    has_message = True
    out = ()
    seen = None

    def handle(self, msg, options):
        self.seen = (msg, dict(options))
        return iter(self.out)


def text_of(r, big=True):
    t = "".join(r.choice(LETTERS) for _ in range(r.randint(0, 12)))
    if big and r.maybe(0.15):
        t = (t + r.choice(LETTERS) + "\u20ac") * r.randint(200, 2500)
    return t


def headers(r, extra):
    """-> lines, the options they amount to, malformed?"""
    lines, opts, bad = list(extra), {}, False
    for i in range(r.randint(0, 4)):
        k = r.pick("User", "user", "X-Opt", "Set", "remove", "Message-Class", "x-opt", "a b")
        lines.append("%s:%s%s%s" % (k, r.pick("", " ", "  "), r.pick("v", "a: b", "", "local, remote", "Caf\u00e9"), r.pick("", " ")))
    if r.maybe(0.1):
        lines.append(r.pick("nocolon", "no colon here", "Content-length 5"))
    r.shuffle(lines)
    for ln in lines:
        if ":" not in ln:
            bad = True
            break
        k, v = ln.split(":", 1)
        opts[k.strip().lower()] = v.strip()
    return lines, opts, bad


@scenario(3)
def request(r):
    text = text_of(r)
    body = text.encode("utf8")
    extra, zl = [], r.maybe(0.25)
    if zl:
        body = zlib.compress(body)
        extra.append(r.pick("Compress: zlib", "compress:zlib"))
    size = None
    if r.maybe(0.7):
        size = r.pick(len(body), len(body), len(body), max(0, len(body) - r.randint(0, 5)), len(body) + r.randint(1, 9),
                      0, -1, -5)
        size = r.pick(str(size), str(size), str(size), "abc", "", "1x", "5.0") if r.maybe(0.2) else str(size)
        extra.append(r.pick("Content-length: %s", "CONTENT-LENGTH:%s", "content-length:  %s ") % size)
        if r.maybe(0.1):
            extra.append("Content-Length: %d" % len(body))
    lines, opts, bad = headers(r, extra)
    trailing = r.pick(b"", b"", b"trailing bytes of the next request") if "content-length" in opts else b""
    raw = "".join(x + r.pick("\r\n", "\r\n", "\n") for x in lines).encode("utf8") + r.pick(b"\r\n", b"\n") + body + trailing
    s, w = Stream(raw, r), io.BytesIO()
    srv = Server()
    Echo.out = [r.pick("one\r\n", "", "caf\u00e9", "x" * 100) for _ in range(r.randint(0, 4))]
    number = None
    if not bad and "content-length" in opts:
        try:
            number = int(opts["content-length"])
            bad = number < 0
        except ValueError:
            bad = True
    info = dict(options=lines, body=repr(body)[:200], size=len(body), replies=Echo.out)
    start = len(raw) - len(body) - len(trailing)
    want = None
    if not bad:
        sent = raw[start:] if number is None else raw[start:start + number]
        try:
            want = (zlib.decompress(sent) if opts.get("compress") == "zlib" else sent).decode("utf8")
        except (zlib.error, UnicodeDecodeError):
            raise Skip()
    c = Echo(s, w, srv)
    got = w.getvalue()
    if bad:
        expect(c.seen is None, "nothing is handled for a malformed request", **info)
        expect(got.startswith(b"SPAMD/%s 76 " % oa.__version__.encode()) and got.count(b"\r\n") == 1 and got.endswith(b"\r\n"),
               "a malformed request is answered with an error", got=repr(got), **info)
        return
    expect(c.seen is not None, "a well-formed request is handled", got=repr(got), **info)
    equal(c.seen[1], opts, "the options", **info)
    msg = c.seen[0]
    norm = oa.message.Message.translate_line_breaks(want)
    expect(msg.raw_msg in (want, norm), "the message text", got=repr(msg.raw_msg)[:300], expected=repr(want)[:300], **info)
    if number is not None:
        expect(s.pos <= start + number, "no more than the announced length is consumed", pos=s.pos - start, **info)
    want_rs = RS2 if opts.get("user") == "bob" else RS
    expect(c.ruleset is want_rs and msg.ctxt is want_rs.ctxt, "the user's rule set", **info)
    equal(srv.users[-1], opts.get("user"), "the user that is asked for", **info)
    equal(got, ("SPAMD/%s 0 EX_OK\r\n" % oa.__version__ + "".join(Echo.out)).encode("utf8"), "the reply", **info)


@scenario(1)
def check_same(r):
    """the verdict does not depend on how the bytes arrive"""
    text = "Subject: x\n\n%s\n" % (text_of(r) + r.pick("hello", ""))
    body = text.encode("utf8")
    head = b"Content-length: %d\r\n\r\n" % len(body) if r.maybe() else b"\r\n"
    cls = r.pick(oa.protocol.check.CheckCommand, oa.protocol.check.SymbolsCommand, oa.protocol.process.ProcessCommand)
    outs = []
    for stream in (Stream(head + body, r), io.BytesIO(head + body)):
        w = io.BytesIO()
        cls(stream, w, Server())
        outs.append(w.getvalue())
    equal(outs[0], outs[1], "the reply does not depend on the reads", text=text[:200])
    m = message(RS, text)
    RS.match(m)
    expect(b"%.1f" % m.score in outs[0].split(b"\r\n")[1], "the checked message is the one sent", got=repr(outs[0])[:200])


@scenario(1)
def simple(r):
    for cls, want in ((oa.protocol.noop.PingCommand, b"SPAMD/%s 0 PONG\r\n" % oa.__version__.encode()),):
        w = io.BytesIO()
        cls(io.BytesIO(r.pick(b"", b"x: y\r\n\r\nbody")), w, Server())
        equal(w.getvalue(), want, "the reply to PING")


if __name__ == "__main__":
    lib.main("C13")
