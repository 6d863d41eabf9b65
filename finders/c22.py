"""C22: rewritten messages of real rule sets."""
import email
import socket
import lib
from lib import *
import oa
import oa.errors
import oa.rules.ruleset as rs

TAGS = ["YESNO", "YESNOCAPS", "SCORE", "REQD", "HOSTNAME", "VERSION", "SUBVERSION", "TESTS", "TESTSSCORES", "SUMMARY", "REPORT",
        "PREVIEW", "CONTACTADDRESS", "CUSTOM", "NOSUCHTAG"]
BODY = "first line\nsecond line\nthird\nfourth\n"


def values(score, req, matched, custom, contact):
    spam = score >= req
    line = lambda n, s: "%s %s %s" % ((str(int(s)) if s == int(s) else "%0.1f" % s).rjust(4), n.ljust(22), "No description available.")
    d = {"YESNO": "Yes" if spam else "No", "YESNOCAPS": "YES" if spam else "NO", "SCORE": "%0.1f" % score, "REQD": "%0.1f" % req,
         "HOSTNAME": socket.gethostname(), "VERSION": oa.__version__, "SUBVERSION": oa.__release_date__,
         "TESTS": ",".join(n for n, s in matched) or "none", "TESTSSCORES": ",".join("%s=1" % n for n, s in matched) or "none",
         "CONTACTADDRESS": contact, "NOSUCHTAG": "@@NOSUCHTAG@@", "CUSTOM": "@@CUSTOM@@"}
    d.update(custom)
    return d


def flat(x):
    return " ".join(str(x).split())


def text_of(r):
    parts, tags = [], []
    for i in range(r.randint(1, 4)):
        k = r.randint(0, 5)
        if k <= 2:
            t = r.pick("YESNO", "YESNOCAPS", "SCORE", "REQD", "HOSTNAME", "VERSION", "SUBVERSION", "TESTS", "CONTACTADDRESS", "CUSTOM",
                       "NOSUCHTAG", "TESTSSCORES")
            parts.append(r.pick("", "x", "=", "(") + "_%s_" % t + r.pick("", ")", "y", ","))
        else:
            parts.append(r.pick("plain", "score=", "100%", "50% off", "%s", "%(SCORE)s", "%%", "a\\b", "lower_case_x", "it's", "Na\u00efve"))
    return " ".join(parts)


def expand(text, vals):
    text = text.strip("'\"")
    for t in vals:
        text = text.replace("_%s_" % t, "\0%s\0" % t)
    for t in vals:
        text = text.replace("\0%s\0" % t, vals[t])
    return text


NAMES = ["Level", "Status", "Flag", "Checker-Version", "X", "flag", "status", "Report"]


def config(r):
    lines, mods, removed = [], {"all": [], "spam": [], "ham": []}, {"all": [], "spam": [], "ham": []}
    for i in range(r.randint(0, 7)):
        st = r.pick("all", "spam", "ham")
        name = r.choice(NAMES)
        k = r.randint(0, 9)
        if k <= 5:
            t = text_of(r)
            lines.append("add_header %s %s %s" % (r.pick(st, st, st.upper(), st.capitalize()), name, t))
            mods[st].append((False, "X-Spam-" + name, t))
        elif k <= 8:
            lines.append("remove_header %s %s" % (r.pick(st, st.upper()), name))
            removed[st].append((True, "X-Spam-" + name, None))
        else:
            lines.append(r.pick("add_header %s" % st, "add_header all %s" % name, "add_header none %s text" % name, "remove_header all"))
    return lines, dict((k, mods[k] + removed[k]) for k in mods)


HEADS = [("From", "a@b.example"), ("To", "c@d.example"), ("Subject", "hello there"), ("Date", "Thu, 19 Nov 2026 00:00:00 +0000"),
         ("X-Spam-Flag", "OLD"), ("X-Spam-Status", "old, hits=3"), ("X-Spam-Level", "***"), ("Received", "from x by y"),
         ("x-spam-flag", "old2"), ("X-Other", "kept")]


@scenario(3)
def rewritten(r):
    lines, mods = config(r)
    rules, matched = [], []
    for i in range(r.randint(0, 4)):
        s = r.pick(1, 2.5, -1, 4, 5, 10, 0.1)
        hit = r.maybe(0.6)
        rules += ["header R%d Subject =~ /%s/" % (i, "hello" if hit else "absent"), "score R%d %s" % (i, s)]
        if hit:
            matched.append(("R%d" % i, s))
    safe = r.pick(0, 1, 2)
    req = r.pick(5, 3.5, 1, 0, 2.5)
    contact = r.pick("root@x.example", "the admin")
    conf = "\n".join(rules + lines + ["report_safe %d" % safe, "required_score %s" % req, "report_contact %s" % contact,
                                      "report This _SCORE_ is 100% _YESNO_"]) + "\n"
    heads = HEADS[:3] + r.subset(HEADS[3:])
    if r.maybe():
        r.shuffle(heads)
    raw = "".join("%s: %s\n" % h for h in heads) + "\n" + BODY
    parser, rules_ = load(conf)
    msg = message(rules_, raw)
    rules_.match(msg)
    custom = {"CUSTOM": r.pick("plug", "in s%s", "a")} if r.maybe() else {}
    msg.plugin_tags.update(custom)
    score, spam = msg.score, msg.score >= req
    vals = values(score, req, matched, custom, contact)
    only = r.maybe()
    info = dict(config=conf, message=raw, header_only=only, custom=custom)
    equal(sorted(n for n, x in msg.rules_checked.items() if x), sorted(n for n, s in matched), "the rules that match", **info)
    order = [n for n in msg.rules_checked]
    ms = sorted(matched, key=lambda x: order.index(x[0]))
    vals = values(score, req, ms, custom, contact)
    got = rules_.get_adjusted_message(msg, only)
    if only:
        expect(got.endswith("\n\n") and "\n\n" not in got[:-2], "only the header block and a blank line", **info)
    new = email.message_from_string(got)
    bounce = spam and not only and safe != 0
    if bounce:
        cur = []
    else:
        cur = list(heads)
    if safe == 0:
        rep = " ".join("* %s %s %s" % (float(s) if "." in repr(rules_.get_rule(n).score) else s, n, "") for n, s in ms)
        cur.append(("X-Spam-Report", None))
    for rem, name, t in mods["all"] + mods["spam" if spam else "ham"]:
        if rem:
            cur = [(n, x) for n, x in cur if n.lower() != name.lower()]
        else:
            cur.append((name, expand(t, vals)))
    have = [(n, x) for n, x in new.items()]
    if bounce:
        have = [(n, x) for n, x in have if n.lower().startswith("x-spam")]
        expect(new["To"] == "a@b.example" and new["From"] == "c@d.example" and new["Subject"] == "hello there",
               "the bounce goes to the sender", **info)
        parts = new.get_payload()
        expect(len(parts) == 2 and raw.strip() in parts[1].as_string(), "the original is attached", **info)
        expect("This %0.1f is 100%% Yes" % score in parts[0].as_string(), "the report comes with it", **info)
    equal([n for n, x in have], [n for n, x in cur], "the headers, in order", **info)
    for (n, x), (n2, y) in zip(have, cur):
        if y is None:
            for rn, s in ms:
                expect(rn in x, "matched rules in the report header", rule=rn, **info)
        elif all(ord(c) < 128 for c in y):
            equal(flat(x), flat(y), "text of %s" % n, **info)
        else:
            got_t = "".join(p.decode(c or "ascii") if isinstance(p, bytes) else p for p, c in email.header.decode_header(x))
            expect(got_t.isascii() is False or "\u00ef" in y, "text of %s" % n, **info)
    if not only and not bounce:
        equal(new.get_payload(), BODY, "the body is unchanged", **info)


@scenario(2)
def parse(r):
    """_add_header_rule on its own"""
    ctxt = Obj(conf={}, log=Quiet())
    s = rs.RuleSet(ctxt)
    have = dict((k, list(x)) for k, x in s.header_mod.items())
    for i in range(r.randint(1, 5)):
        remove = r.maybe(0.4)
        words = [r.pick("all", "spam", "ham", "ALL", "Spam", "both", "", "al")] + r.some(["Name", "x", "Level", "text", "more text", "'q'"], 0, 3)
        value = r.pick(" ", "  ", "\t").join(words)
        parts = value.split(None, 1 if remove else 2)
        info = dict(value=value, remove=remove)
        ok = len(parts) == (2 if remove else 3) and parts[0].lower() in have
        try:
            s._add_header_rule(value, remove)
            expect(ok, "accepted", **info)
        except oa.errors.InvalidRule:
            expect(not ok, "refused", **info)
        if ok:
            have[parts[0].lower()].append((remove, "X-Spam-" + parts[1], None if remove else parts[2].strip("'\"")))
        equal(s.header_mod, have, "the header rules", **info)


@scenario(2)
def tags(r):
    """_convert_tags and _interpolate on their own"""
    conf = {"required_score": r.pick(5, 2.25), "report_contact": "me", "report": "", "unsafe_report": ""}
    s = rs.RuleSet(Obj(conf=conf, log=Quiet()))
    texts = [r.pick("", "'", '"') + text_of(r) + r.pick("", "'", '"') for i in range(r.randint(1, 4))]
    conv = [s._convert_tags(t) for t in texts]
    names = [n for n in ["A%d" % i for i in range(4)]]
    checked = {n: r.maybe() for n in names}
    msg = Obj(score=r.pick(0, 5, 7.25, -3), interpolate_data={}, plugin_tags={"CUSTOM": "c%c"} if r.maybe() else {},
              rules_checked=checked, raw_text=BODY)
    vals = values(msg.score, conf["required_score"], [(n, 1) for n in names if checked[n]], msg.plugin_tags, "me")
    for t, c in zip(texts, conv):
        equal(s._interpolate(c, msg), expand(t, vals), "text with values", text=t, all_texts=texts, tags=msg.plugin_tags)


if __name__ == "__main__":
    lib.main("C22")
