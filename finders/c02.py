"""C02: replies of the check family on real rule sets."""
import io
import email
import lib
from lib import *
import oa
import oa.protocol.check as ck
import oa.protocol.process as pr
import oa.protocol.base

CMDS = {"CHECK": ck.CheckCommand, "SYMBOLS": ck.SymbolsCommand, "REPORT": ck.ReportCommand,
        "REPORT_IFSPAM": ck.ReportIfSpamCommand, "PROCESS": pr.ProcessCommand, "HEADERS": pr.HeadersCommand}
BODIES = ["hello world", "h\u00e9llo \u20ac w\u00f6rld", "", "hello\r\nthere\r\n", "\u4e2d\u6587 hello"]


class RS(object):
    """a rule set with chosen outcomes"""

    def __init__(self, after, thr, results, text):
        self.after, self.results, self.text = after, results, text
        self.conf = {"required_score": thr}
        self.log = []

    def match(self, msg):
        self.log.append(("match", id(msg)))
        msg.score = self.after
        msg.rules_checked = dict(self.results)

    def get_report(self, msg):
        self.log.append(("report", id(msg)))
        return self.text

    def get_adjusted_message(self, msg, header_only=False):
        self.log.append(("adjusted", id(msg), header_only))
        return self.text + ("H" if header_only else "")


@scenario(2)
def replies(r):
    thr = r.pick(5.0, 0.0, -1.0, 5, 3.3, 100.0, 4.95)
    after = r.pick(thr, thr - 0.001, thr + 0.001, thr + 10, thr - 10, 0, -thr, thr - 0.04, thr + 0.04, -0.0)
    names = r.sample(["A", "B", "C", "Z1", "__D", "b"], r.randint(0, 5))
    results = [(n, r.pick(True, False, 0, 1, None, "txt", "")) for n in names]
    text = r.choice(BODIES) * r.randint(1, 3)
    cmd = r.choice(sorted(CMDS))
    rs = RS(after, thr, results, text)
    c = CMDS[cmd].__new__(CMDS[cmd])
    c.ruleset, c.log, c.server = rs, Quiet(), None
    msg = Obj(score=r.pick(0, 99.0), rules_checked={"OLD": True})
    out = "".join(c.handle(msg, {}))
    spam = after >= thr
    want = {"CHECK": "", "SYMBOLS": ",".join(n for n, x in results if x), "REPORT": text,
            "REPORT_IFSPAM": text if spam else "", "PROCESS": text, "HEADERS": text + "H"}[cmd]
    info = dict(command=cmd, score=after, threshold=thr, results=results, text=text)
    equal([x for x in rs.log if x[0] == "match"], [("match", id(msg))], "the message is checked once", **info)
    expect(all(x[1] == id(msg) for x in rs.log), "details of the checked message", **info)
    equal(out, "Spam: %s ; %.1f / %s\r\nContent-length: %d\r\n\r\n%s" % (
        spam, after, thr, len(want.encode("utf8")), want), "reply of %s" % cmd, **info)


class Server(object):
    def __init__(self, rs):
        self.rs, self.log = rs, Quiet()

    def get_user_ruleset(self, user=None):
        return self.rs


@scenario(1)
def real(r):
    lines = ["report " + r.pick("plain", "_SCORE_ of _REQD_: _YESNO_", "\u00e9 _TESTS_"), "report_safe " + r.pick("0", "1", "2"),
             "add_header all Flag " + r.pick("_YESNO_", "_YESNOCAPS_", "_SCORE_")]
    thr = r.pick(5.0, 1.0, 2.5)
    lines.append("required_score %s" % thr)
    exp, names = 0, []
    for i in range(r.randint(0, 5)):
        hit, s = r.maybe(), r.pick(1.0, 2.5, 0.5, -1.0, 1.5)
        lines += ["body R%d /%s/" % (i, "hello" if hit else "zzz"), "score R%d %s" % (i, s)]
        if hit:
            exp += s
            names.append("R%d" % i)
    p, rs = load("\n".join(lines) + "\n")
    body = r.choice([b for b in BODIES if "hello" in b])
    raw = "From: a@b.c\nSubject: t\n\n" + body
    cmd = r.choice(sorted(CMDS))
    rf, wf = io.BytesIO(b"\r\n" + raw.encode("utf8")), io.BytesIO()
    info = dict(command=cmd, config=lines, message=raw)
    CMDS[cmd](rf, wf, Server(rs))
    out = wf.getvalue()
    head, rest = out.split(b"\r\n", 1)
    equal(head, ("SPAMD/%s 0 EX_OK" % oa.__version__).encode(), "status line", **info)
    hs, body = rest.split(b"\r\n\r\n", 1)
    spam = exp >= thr
    equal(hs.split(b"\r\n"), [("Spam: %s ; %.1f / %s" % (spam, exp, thr)).encode(),
                              b"Content-length: %d" % len(body)], "verdict and length", **info)
    if cmd == "SYMBOLS":
        equal(body.decode("utf8"), ",".join(names), "matched rules", **info)
    if cmd == "CHECK" or (cmd == "REPORT_IFSPAM" and not spam):
        equal(body, b"", "no body", **info)
    elif cmd != "SYMBOLS":
        expect(len(body) > 0, "a body is sent", **info)
    if cmd in ("PROCESS", "HEADERS"):
        m = email.message_from_string(body.decode("utf8"))
        f = {"_YESNO_": "Yes" if spam else "No", "_YESNOCAPS_": "YES" if spam else "NO", "_SCORE_": "%.1f" % exp}
        equal(m["X-Spam-Flag"], f[lines[2].split()[-1]], "verdict in the adjusted message", **info)


if __name__ == "__main__":
    lib.main("C02")
