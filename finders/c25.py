"""C25: character sets and range tests on real messages."""
import re
import lib
from lib import *
import oa.locales

CYRILLIC = ["KOI8-R", "KOI8-U", "KOI8-T", "ISO-IR-111", "CP1251", "GEORGIAN-PS", "PT154", "CP866"]
USUAL = {"ja": ["EUC-JP", "JIS_X0201-1976-0", "JIS_X0208-1983-0", "JIS_X0208-1990-0", "JIS_X0208-1997-0", "JIS_X0212-1990-0",
                "JIS_X0213-2000-1", "JIS_X0213-2000-2", "Shift_JIS", "ISO-2022-JP", "SJIS", "JIS7", "JIS_X0201", "JIS_X0208", "JIS_X0212"],
         "ko": ["EUC-KR", "KSC5601-1987"], "th": ["TIS-620"],
         "zh": ["GB1988", "GB2312", "GB2312-1980-0", "GB18030", "GBK", "BIG5-HKSCS", "Big5", "EUC-TW", "ISO-2022-CN"]}
for k in ("ru", "ka", "tg", "be", "uk", "bg"):
    USUAL[k] = CYRILLIC
ALWAYS = ["us-ascii", "iso-8859-1", "ISO-8859-15", "iso-10646-1", "utf-8", "UTF-16", "utf-7", "cp1252", "windows-1252", "windows-1251",
          "unicode-1-1-utf-7", "x-unknown", "iso", "cp1250", "USC-4"]
NEVER = ["us-ascii-2", "x-unknowns", "isoo", "ibm850", "unicode", "macintosh", "xx-utf-8", "my-iso-8859-1", "big6", "koi8", "euc", "", "gbk2",
         "isojp", "ansi", "unicode-1-1-utf-9"]
LOCALES = sorted(USUAL) + ["en", "C", "de", "fr", "xx", "ja_JP", "zh_TW.Big5", "ru_RU.KOI8-R", "j", ""]


def clean(x):
    return re.sub("[^A-Z0-9]", "", (x or "").upper())


def accepted(charset, locales):
    c = clean(charset)
    if c in ("USASCII", "XUNKNOWN", "ISO") or c.startswith(("ISO8859", "ISO10646", "UTF", "USC", "CP125", "WINDOWS", "UNICODE11UTF7",
                                                           "UNICODE11UTF8")):
        return True
    return any(c in [clean(x) for x in USUAL.get(l[:2], [])] for l in locales)


def mangle(r, x):
    if r.maybe(0.4):
        x = "".join(r.choice([c.upper(), c.lower()]) for c in x)
    if r.maybe(0.3):
        x = re.sub("[-_]", lambda m: r.choice(["", "-", "_", ":", " "]), x)
    if r.maybe(0.1):
        i = r.randint(0, len(x))
        x = x[:i] + r.choice("-_ .'") + x[i:]
    return x


def charset(r):
    k = r.pick("usual", "usual", "always", "never")
    x = r.choice(USUAL[r.choice(sorted(USUAL))]) if k == "usual" else r.choice(ALWAYS if k == "always" else NEVER)
    return mangle(r, x)


@scenario(4)
def charsets(r):
    x = charset(r) if r.maybe(0.97) else None
    ls = [r.choice(LOCALES) for i in range(r.pick(0, 1, 1, 2, 3, 4))]
    equal(bool(oa.locales.charset_ok_for_locales(x, ls)), accepted(x, ls), "charset_ok_for_locales", charset=x, locales=ls)


PLUGINS = ("loadplugin oa.plugins.body_eval.BodyEval\nloadplugin oa.plugins.mime_eval.MIMEEval\n"
           "loadplugin oa.plugins.header_eval.HeaderEval\n")


def quoted(r, x):
    x = repr(x) if not isinstance(x, str) else x
    return x if r.maybe(0.5) and x != "inf" else "'%s'" % x


def near(r, x, percent=False):
    """bounds around a measured value"""
    d = r.pick(0, 0, 0, 1, -1, 0.5, -0.5, 1e-3, -1e-3, 10, -10)
    if x * 8 != int(x * 8) or percent and x % 12.5:
        # not a binary fraction: equality would depend on the rounding
        return round(x, 4) + (d or r.pick(1e-3, -1e-3))
    return x + d


def run_rules(rules, text, conf=""):
    """the results of eval rules on a message"""
    parser, rs = load(PLUGINS + conf + "".join("%s R%d eval:%s\n" % (t, i, e) for i, (t, e) in enumerate(rules)))
    msg = message(rs, text)
    return parser, rs, msg, [bool(rs.get_rule("R%d" % i).match(msg)) for i in range(len(rules))]


WORDS = ["alpha", "beta", "Gamma", "delta!", "x", "42", "stock", "ticker", "company", "weeks", "\u00e9t\u00e9", "UPPER", "CASE"]


@scenario(4)
def measured(r):
    """range tests on values that were measured"""
    vals = dict(madiff=r.pick(0.0, 100.0, 50.0, 33.25), mime_multipart_ratio=r.pick(1, 0.5, 2.0, 0.0), mime_text_unicode_ratio=r.pick(0, 0.25, 1.0),
                mime_qp_ratio=r.pick(0, 0.125, 1.0), base64_length=r.pick(0, 76, 79, 500), line_count=r.pick(0, 1, 2, 4, 10),
                blank_line_count=r.pick(0, 1, 2, 4))
    plug = {"madiff": "BodyEval", "line_count": "BodyEval", "blank_line_count": "BodyEval"}
    rules, want = [], []
    for fn, x, half in (("multipart_alternative_difference", "madiff", 0), ("check_mime_multipart_ratio", "mime_multipart_ratio", 1),
                        ("check_abundant_unicode_ratio", "mime_text_unicode_ratio", 0), ("check_qp_ratio", "mime_qp_ratio", 0),
                        ("check_base64_length", "base64_length", 0)):
        lo, hi = near(r, vals[x]), near(r, vals[x])
        if fn in ("check_abundant_unicode_ratio", "check_qp_ratio", "check_base64_length") and r.maybe(0.3):
            hi = None
        rules.append(("body", "%s(%s)" % (fn, ", ".join(quoted(r, y) for y in (lo, hi) if y is not None))))
        want.append(lo <= vals[x] and (hi is None or vals[x] < hi or (vals[x] == hi and not half)))
    part = vals["blank_line_count"] * 100.0 / vals["line_count"] if vals["line_count"] else None
    lo, hi, least = near(r, part or 0, True), near(r, part or 0, True), r.pick(None, 0, 1, vals["line_count"], vals["line_count"] + 1)
    rules.append(("body", "check_blank_line_ratio(%s)" % ", ".join(quoted(r, y) for y in (lo, hi, least) if y is not None)))
    want.append(part is not None and vals["line_count"] >= (1 if least is None else least) and lo <= part <= hi)
    parser, rs, msg, _ = run_rules(rules, "Subject: s\n\nbody\n")
    for n in sorted(vals):
        parser.ctxt.plugins[plug.get(n, "MIMEEval")].set_local(msg, n, vals[n])
    for i, (t, e) in enumerate(rules):
        equal(bool(rs.get_rule("R%d" % i).match(msg)), bool(want[i]), e.split("(")[0], rule=e, values=vals)


def body(r, chars=" \n"):
    return "".join(r.choice(WORDS) + "".join(r.choice(chars) for j in range(r.pick(1, 1, 2, 3))) for i in range(r.pick(0, 1, 3, 10, 60)))


def upper_share(raw):
    """as the eval rule documents it: paragraphs with blanks only, letters that upper() leaves alone count as uppercase, digits do not"""
    low = up = length = 0
    for para in raw.split("\n\n"):
        flat = para.replace("\n", " ")
        if " " not in para.strip("\n").replace("\n", " "):
            continue
        length += len(flat)
        for c in flat:
            if re.match(r"[\W_]", c):
                continue
            if c != c.upper() or c.isdigit():
                low += 1
            else:
                up += 1
    if length < 200 or not low + up:
        return None
    return up * 100.0 / (low + up)


@scenario(3)
def texts(r):
    text = body(r) + ("\n\n" + body(r, "\n ") if r.maybe(0.5) else "")
    text = "".join(c for c in text if ord(c) < 128)
    parser, rs, msg, _ = run_rules([], "Subject: s\n\n" + text)
    rules, want = [], []
    for kind in ("body", "rawbody"):
        t = msg.raw_text if kind == "rawbody" else msg.text
        sp = len(re.findall(r"\s", t))
        part = sp * 100.0 / (len(t) - sp) if len(t) != sp else None
        lo, hi = near(r, part or 0, True), near(r, part or 0, True)
        rules.append((kind, "tvd_vertical_words(%s, %s)" % (quoted(r, lo), quoted(r, hi))))
        want.append(part is not None and lo <= part <= hi)
        plugin = parser.ctxt.plugins["BodyEval"]
        import oa.plugins.body_eval as B
        n = len(B.STOCK_RE.findall(t))
        least = max(0, n + r.pick(0, 0, 1, -1))
        rules.append((kind, "check_stock_info(%s)" % quoted(r, least)))
        want.append(n >= least)
    up = upper_share(msg.raw_text)
    lo, hi = near(r, up or 0, True), near(r, up or 0, True)
    rules.append(("body", "check_for_uppercase(%s, %s)" % (quoted(r, lo), quoted(r, hi))))
    want.append(up is not None and lo < up <= hi)
    _, _, _, got = run_rules(rules, "Subject: s\n\n" + text)
    for (t, e), g, w in zip(rules, got, want):
        equal(g, bool(w), e.split("(")[0], target=t, rule=e, text=text)


@scenario(2)
def parts(r):
    """the ratio of the characters of the text and of the html parts, and of the unicode characters"""
    plain, html = body(r), body(r)
    plain, html = ["".join(c for c in x if ord(c) < 128) for x in (plain, html)]
    ps = []
    if r.maybe(0.8):
        ps.append(("plain", plain))
    if r.maybe(0.8):
        ps.append(("html", html))
    r.shuffle(ps)
    text = "Subject: s\nMIME-Version: 1.0\nContent-Type: multipart/alternative; boundary=XX\n\n" + "".join(
        "--XX\nContent-Type: text/%s\n\n%s\n" % p for p in ps) + "--XX--\n"
    parser, rs, msg, _ = run_rules([], text)
    m = parser.ctxt.plugins["MIMEEval"]
    n = {k: m.get_local(msg, k) for k in ("html_characters_count", "plain_characters_count", "unicode_count", "ascii_count", "qp_chars", "qp_bytes")}
    ratio = n["plain_characters_count"] * 1.0 / n["html_characters_count"] if n["html_characters_count"] and n["plain_characters_count"] else 1
    equal(m.get_local(msg, "mime_multipart_ratio"), ratio, "ratio of text to html", text=text)
    kinds = [p[0] for p in ps]
    equal(bool(m.check_for_mime_html(msg)), "html" in kinds, "check_for_mime_html", text=text)
    equal(bool(m.check_for_mime_html_only(msg)), kinds == ["html"], "check_for_mime_html_only", text=text)


@scenario(3)
def faraway(r):
    ok = r.pick("all", "en", "ja", "ru", "zh th", "en ko", "en ja zh")
    cs = charset(r)
    if not re.match("^[A-Za-z][-_A-Za-z0-9]*$", cs):
        raise Skip()
    high = r.maybe(0.7)
    text = "Subject: s\nMIME-Version: 1.0\nContent-Type: text/plain; charset=%s\nContent-Transfer-Encoding: base64\n\n%s\n" % (
        cs, __import__("base64").b64encode(b"caf\xe9 \xe9\xe9" if high else b"plain").decode())
    _, _, msg, got = run_rules([("body", "check_for_faraway_charset()")], text, "ok_locales %s\n" % ok)
    equal(got[0], high and "all" not in ok.split() and not accepted(cs, ok.split()), "check_for_faraway_charset", charset=cs, ok_locales=ok,
          high=high)


@scenario(3)
def headers(r):
    ok = r.pick("all", "ALL", "en", "ja", "ru", "zh th", "en ko", "en ja zh")
    hs, far = [], False
    for i in range(r.pick(0, 1, 2, 3)):
        n = r.pick("Subject", "From", "To", "subject")
        vals = []
        for j in range(r.pick(1, 1, 2)):
            cs = charset(r)
            if not re.match("^[A-Za-z][-_A-Za-z0-9]*$", cs):
                raise Skip()
            vals.append("=?%s?Q?abc?=" % cs)
            far = far or (n.lower() in ("subject", "from") and not accepted(cs, ok.split()))
        hs.append("%s: %s\n" % (n, " x ".join(vals)))
        if n.lower() in ("subject", "from") and len(vals) > 1:
            far = far or not accepted(None, ok.split())
    _, _, msg, got = run_rules([("header", "check_for_faraway_charset_in_headers()")], "".join(hs) + "X-A: b\n\nbody\n", "ok_locales %s\n" % ok)
    if any(" x " in h for h in hs) and ok.lower() != "all":
        # the text between two encoded words has no character set
        return
    equal(got[0], ok.lower() != "all" and far, "check_for_faraway_charset_in_headers", headers=hs, ok_locales=ok)


if __name__ == "__main__":
    lib.main("C25")
