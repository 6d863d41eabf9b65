"""C07: body, raw, full, URI and eval rules on whole messages."""
import copy
import re
import lib
from lib import *
import oa.message
import oa.rules.eval_
import oa.errors

WORDS = ["hello", "world", "free", "<b>bold</b>", "caf\u00e9", "http://www.a.com/x", "www.b.org", "a@b.c", "ftp://f.net", "x"]
PATS = ["hello", "hello world", "^free", "bold", "<b>", "www\\.a", "http", "caf", "nothing", "Subject", "world\\shello", "x$", "\\n", "^"]


def build(r):
    subj = " ".join(r.some(WORDS[:3], 0, 3))
    kind = r.pick("plain", "html", "multi", "alt")
    body = r.pick("\n", " ").join(r.some(WORDS, 0, 6))
    enc = r.maybe(0.3)
    import base64
    def part(sub, text):
        h = "Content-Type: text/%s; charset=utf-8\n" % sub
        if enc:
            return h + "Content-Transfer-Encoding: base64\n\n" + base64.b64encode(text.encode("utf8")).decode() + "\n"
        return h + "Content-Transfer-Encoding: 8bit\n\n" + text + "\n"
    head = "From: a@b.c\n" + ("Subject: %s\n" % subj if r.maybe(0.8) else "")
    if kind in ("plain", "html"):
        return head + part(kind, body)
    b2 = " ".join(r.some(WORDS, 0, 4))
    return head + 'Content-Type: multipart/mixed; boundary="=b="\n\n--=b=\n' + part("plain", body) + "--=b=\n" + \
        part("html", b2) + "--=b=\nContent-Type: image/png\n\nhello http://img.com\n--=b=--\n"


def snap(m):
    return dict((k, copy.copy(getattr(m, k))) for k in ("text", "raw_text", "raw_msg", "score", "sender_address")) , \
        sorted(m.uri_list), dict(m.rules_checked), dict(m.plugin_tags)


@scenario(4)
def rules(r):
    text = build(r)
    lines, want = [], []
    for i in range(r.randint(1, 5)):
        k = r.pick("body", "rawbody", "full", "uri")
        p, fl = r.choice(PATS), r.pick("", "i", "m", "s")
        lines.append("%s R%d /%s/%s" % (k, i, p, fl))
        want.append((k, re.compile(p, {"": 0, "i": re.I, "m": re.M, "s": re.S}[fl])))
    p, rs = load("\n".join(lines) + "\n")
    eol = r.pick("\n", "\r\n", "\r")
    msg = message(rs, text.replace("\n", eol))
    info = dict(message=text, config=lines, eol=eol)
    equal(msg.raw_msg, text, "the pristine text, with Unix line ends", **info)
    # the views, from the decoded parts
    import email
    e = email.message_from_string(text)
    body, raw, uris = [str(x) for x in e.get_all("Subject") or []], [], set()
    for part in e.walk():
        if part.get_content_maintype() != "text":
            continue
        t = part.get_payload(decode=True).decode(part.get_content_charset() or "ascii", "ignore")
        raw.append(t)
        uris |= set(re.findall(r"\b(?:(?:https?|ftp)://|(?=ftp\.[^\.\s<>\"'\x7f-\xff])|(?=www\.[^\.\s<>\"'\x7f-\xff]))"
                               r"[^\s<>\"'\x7f-\xff]+", t))
        if part.get_content_subtype() == "html":
            out = []
            oa.message._ParseHTML(out).feed(t.replace("\n", " "))
            body.append(" ".join(out))
        else:
            body.append(t.replace("\n", " "))
    view = dict(body=[" ".join(body)], rawbody=["\n".join(raw)], full=[text], uri=sorted(uris))
    before = snap(msg)
    for i, (k, c) in enumerate(want):
        equal(bool(rs.get_rule("R%d" % i).match(msg)), any(bool(c.search(x)) for x in view[k]), "a %s rule" % k,
              rule=lines[i], view=view[k], **info)
    equal(snap(msg), before, "the message is not changed", **info)


@scenario(2)
def evals(r):
    calls = []
    res = r.pick(True, False, None, 0, 1, "text", [])
    fail = r.maybe(0.25)

    def test(msg, *args, **kw):
        calls.append((msg, args, kw))
        if fail:
            raise r.pick(ValueError, KeyError, RuntimeError, oa.errors.InvalidRule)("x", "y") if False else ValueError("x")
        return res
    args = r.some(["1", "-2.5", "'a'", '"b, c"', "'eval:x'", "'va(l'", "None", "(1, 2)", "'it''s'", "[1]"], 0, 4)
    nm = r.pick("check_x", "evaluate", "_x1", "lava", "value_of", "ev")
    pre = r.pick("eval:", "eval:", "eval: ", "")
    line = "%s%s(%s)" % (pre, nm, r.pick(", ", ",").join(args))
    kind = r.pick("body", "header", "full", "rawbody", "uri")
    try:
        import oa.rules.parser
        data = dict(value=r.pick("", " ") + line + r.pick("", " "), target=kind)
        rule = oa.rules.eval_.EvalRule.get_rule("E", data)
    except Exception as e:
        raise Mismatch("a valid eval rule is accepted", line=line, error=repr(e))
    reg = {nm: test} if r.maybe(0.9) else {"other": test}
    rs = Obj(ctxt=Obj(eval_rules=reg), conf={})
    try:
        rule.preprocess(rs)
    except oa.errors.InvalidRule:
        expect(nm not in reg, "a known test is accepted", line=line)
        return
    expect(nm in reg, "an unknown test is rejected", line=line)
    msg = Obj(ctxt=Obj(log=Quiet()), text="t")
    got = rule.match(msg)
    want = eval("(%s)" % "".join(a + "," for a in args)) if args else ()
    equal(len(calls), 1, "the test is called once", line=line)
    expect(calls[0][0] is msg and calls[0][1] == want and calls[0][2] == dict(target=kind), "the arguments of the test",
           line=line, got=repr(calls[0][1:]), expected=repr(want))
    if fail:
        expect(not got, "a failing test does not match", line=line, got=repr(got))
    else:
        expect(got is res, "the result of the test", line=line, got=repr(got))
    equal(msg.__dict__.get("text"), "t", "the message is not changed")


if __name__ == "__main__":
    lib.main("C07")
