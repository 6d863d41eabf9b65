"""C21: each message's outcome after different other messages (each history in its own process)."""
import os
import re
import json
import zlib
import lib
from lib import *
import dns.exception
import dkim
import spf

PLUGINS = [("RelayEval", "relay_eval", "RelayEval"), ("FreeMail", "free_mail", "FreeMail"), ("DKIM", "dkim", "DKIMPlugin"), ("SPF", "spf", "SpfPlugin"),
           ("HeaderEval", "header_eval", "HeaderEval"), ("BodyEval", "body_eval", "BodyEval"), ("MIMEEval", "mime_eval", "MIMEEval"),
           ("WLBLEval", "wlbl_eval", "WLBLEvalPlugin"), ("URIEval", "uri_eval", "URIEvalPlugin"), ("URIDetail", "uri_detail", "URIDetailPlugin"),
           ("WhiteListSubject", "whitelist_subject", "WhiteListSubjectPlugin"), ("ImageInfo", "image_info", "ImageInfoPlugin"),
           ("PDFInfo", "pdf_info", "PDFInfoPlugin"), ("DNSEval", "dns_eval", "DNSEval"), ("Shortcircuit", "short_circuit", "ShortCircuit"),
           ("DumpText", "dump_text", "DumpText")]
RULES = {
    "RelayEval": ["check_for_numeric_helo()", "check_all_trusted()", "check_no_relays()", "check_for_sender_no_reverse()",
                  "check_for_from_domain_in_received_headers('free.example', 'true')", "check_for_from_domain_in_received_headers('free.example', 'false')",
                  "check_for_forged_received_trail()", "check_for_forged_received_ip_helo()", "helo_ip_mismatch()", "check_for_no_rdns_dotcom_helo()"],
    "FreeMail": ["check_freemail_replyto('replyto')", "check_freemail_replyto('reply')", "check_freemail_replyto()", "check_freemail_from()",
                 "check_freemail_from('joe')", "check_freemail_header('From')", "check_freemail_header('Reply-To', 'joe')", "check_freemail_body()",
                 "check_freemail_body('ann')"],
    "DKIM": ["check_dkim_signed()", "check_dkim_signed('free.example')", "check_dkim_valid()", "check_dkim_valid('one.example')",
             "check_dkim_valid_author_sig()", "check_dkim_valid_author_sig('free.example')", "check_dkim_dependable()", "check_for_dkim_whitelist_from()",
             "check_for_def_dkim_whitelist_from()", "check_dkim_adsp('*')", "check_dkim_adsp('D')", "check_dkim_adsp('U')", "check_dkim_adsp('A')",
             "check_dkim_adsp('*', 'one.example')"],
    "SPF": ["check_for_spf_" + x for x in ["pass()", "neutral()", "none()", "fail()", "softfail()", "permerror()", "temperror()", "helo_pass()",
            "helo_neutral()", "helo_none()", "helo_fail()", "helo_softfail()", "helo_permerror()", "helo_temperror()", "whitelist_from()"]] +
           ["check_for_def_spf_whitelist_from()"],
    "HeaderEval": ["check_for_fake_aol_relay_in_rcvd()", "check_for_faraway_charset_in_headers()", "check_for_unique_subject_id()",
                   "check_illegal_chars('Subject', 0.1, 1)", "check_illegal_chars('From', 0.1, 1)", "check_for_forged_hotmail_received_headers()",
                   "check_illegal_chars('ALL', 0.01, 2)",
                   "check_for_no_hotmail_received_headers()", "check_for_msn_groups_headers()", "check_for_forged_eudoramail_received_headers()",
                   "check_for_forged_yahoo_received_headers()", "check_for_forged_juno_received_headers()", "check_for_matching_env_and_hdr_from()",
                   "sorted_recipients()", "similar_recipients('0.5', 'undef')", "check_for_missing_to_header()", "check_for_forged_gw05_received_headers()",
                   "check_for_shifted_date('3', '6')", "check_for_shifted_date('undef', '-6')", "subject_is_all_caps()",
                   "check_for_to_in_subject('address')", "check_for_to_in_subject('user')", "check_outlook_message_id()", "check_messageid_not_usable()",
                   "check_header_count_range('Subject', 2, 9)", "check_header_count_range('Received', 1, 1)", "check_unresolved_template()",
                   "check_ratware_name_id()", "check_ratware_envelope_from()", "gated_through_received_hdr_remover()", "check_equal_from_domains()",
                   "received_within_months('1', '2')"],
    "BodyEval": ["multipart_alternative_difference('10', '100')", "multipart_alternative_difference_count(3, 1)", "check_blank_line_ratio('10', '90', '2')",
                 "tvd_vertical_words('1', '50')", "check_stock_info('1')"],
    "MIMEEval": ["check_for_mime('mime_base64_blanks')", "check_for_mime('mime_qp_long_line')", "check_for_mime('mime_missing_boundary')",
                 "check_for_mime_html()", "check_for_mime_html_only()", "check_mime_multipart_ratio('0.1', '0.9')",
                 "check_msg_parse_flags('missing_head_body_separator')", "check_msg_parse_flags('missing_mime_headers')", "check_for_ascii_text_illegal()",
                 "check_abundant_unicode_ratio(0.02)", "check_for_faraway_charset()", "check_for_uppercase('50', '100')", "check_ma_non_text()",
                 "check_base64_length('10', '100')", "check_qp_ratio('0.01')"],
    "WLBLEval": ["check_from_in_whitelist()", "check_to_in_whitelist()", "check_from_in_blacklist()", "check_to_in_blacklist()",
                 "check_from_in_list('whitelist_from')", "check_to_in_list('whitelist_to')", "check_to_in_all_spam()", "check_mailfrom_matches_rcvd()",
                 "check_from_in_default_whitelist()", "check_forged_in_whitelist()", "check_to_in_more_spam()", "check_forged_in_default_whitelist()",
                 "check_uri_host_listed('MY')", "check_uri_host_in_whitelist()", "check_uri_host_in_blacklist()"],
    "URIEval": ["check_for_http_redirector()", "check_https_ip_mismatch()", "check_uri_truncated()"],
    "WhiteListSubject": ["check_subject_in_whitelist()", "check_subject_in_blacklist()"],
    "ImageInfo": ["image_count('all', 1)", "image_named('a.png')", "image_size_range('all', 1, 1)", "image_to_text_ratio('all', 0.0, 5)"],
    "PDFInfo": ["pdf_count(1)", "pdf_named('a.pdf')", "pdf_name_regex('/a/')", "pdf_is_empty_body('1')", "pdf_is_encrypted()"],
    "DNSEval": ["check_rbl('z', 'l1.example.')", "check_rbl('y', 'l2.example.', '^127')", "check_rbl_sub('z', '2')", "check_dns_sender()",
                "check_rbl_envfrom('e', 'l3.example.')", "check_rbl_from_host('h', 'l4.example.')", "check_rbl_txt('t', 'l5.example.')"],
}
DOMAINS = ["free.example", "one.example", "hotmail.com", "aol.com", "mail.corp.example", "freebie.example", "yahoo.com", "juno.com", "eudoramail.com"]
USERS = ["joe", "ann", "abuse", "bob.smith", "x-1"]
IPS = ["10.0.0.1", "66.33.22.11", "127.0.0.1", "66.33.44.1", "192.168.1.5", "212.17.35.15", "5.6.7.8"]


def addr(r):
    return "%s@%s" % (r.choice(USERS), r.choice(DOMAINS))


def received(r):
    helo = r.pick(r.choice(DOMAINS), r.choice(IPS), "mx.%s" % r.choice(DOMAINS), "!12.34.56.78!", "msn.com")
    rdns, ip, by = r.pick("", r.choice(DOMAINS), "a.b." + r.choice(DOMAINS)), r.choice(IPS), r.pick("by.example", "mx." + r.choice(DOMAINS), r.choice(DOMAINS))
    k = r.randint(0, 7)
    if k == 0:
        return "from mail pickup service by hotmail.com with Microsoft SMTPSVC; Thu, 19 Nov 2026 00:00:00 +0000"
    if k == 1:
        return "from %s (HELO %s) (%s) by %s with SMTP; %s" % (rdns or "unknown", helo, ip, by, date(r))
    return "from %s (%s [%s]) by %s with ESMTP id x%d for <%s>; %s" % (helo, rdns, ip, by, r.randint(1, 99), addr(r), date(r))


def date(r):
    return "%s, %d %s %d %02d:00:00 %s" % (r.pick("Thu", "Mon"), r.randint(1, 28), r.pick("Nov", "Jan", "Sep"), r.pick(2025, 2026, 2026), r.randint(0, 23), r.pick("+0000", "-0800"))


def text(r):
    out = []
    for i in range(r.randint(0, 5)):
        out.append(r.pick("Write to %s now" % addr(r), "http://%s/x?y=http://%s/" % (r.choice(DOMAINS), r.choice(DOMAINS)), "PLAIN TEXT IN CAPITALS", "", "",
                          "a plain line of text", "price target: 3 symbol: ABCD", "v\ni\na", "%s and %s" % (addr(r), addr(r)), "caf\xe9 \u0416\u0416", "%FROM_NAME"))
    return "\n".join(out)


def html(r):
    u = "http://%s/" % r.choice(DOMAINS)
    return "<html><body><p>%s</p><a href=\"%s\">%s</a><a href='http://%s/'>https://5.6.7.8/</a></body></html>" % (text(r), u, r.pick("click", u, "http://other.example/"), r.choice(IPS))


def mail(r):
    h = ["Received: " + received(r) for i in range(r.randint(0, 4))]
    f = addr(r)
    if r.maybe(.9):
        h.append("From: " + r.pick(f, "Joe <%s>" % f, '"%s" <%s>' % (addr(r), f)))
    if r.maybe(.85):
        h.append("To: " + ", ".join(r.pick(addr(r), "X <%s>" % addr(r), "<x@groups.msn.com>") for i in range(r.randint(1, 6))))
    if r.maybe(.8):
        h.append("Subject: " + r.pick("hello", "FREE OFFER TODAY", "caf\xe9 \xe9\xe9\xe9", "good news", "bad news", "id 12345ab", "%s" % f, "", "Re: [x] hello 1234567"))
    if r.maybe(.1):
        h.append("Subject: second")
    if r.maybe(.3):
        h.append("Reply-To: " + addr(r))
    if r.maybe(.5):
        h.append("Date: " + date(r))
    if r.maybe(.3):
        h.append("Return-Path: <%s>" % addr(r))
    if r.maybe(.3):
        h.append("X-Envelope-From: <%s>" % addr(r))
    if r.maybe(.5):
        h.append("DKIM-Signature: v=1; a=rsa-sha256; d=%s; s=sel; h=from:to; bh=abc=; b=%s" % (r.pick(f.split("@")[1], r.choice(DOMAINS)), r.pick("good", "bad")))
    for i in range(r.pick(0, 0, 1, 2, 3)):
        h.append("Received-SPF: %s%s" % (r.pick("pass", "fail", "softfail", "neutral", "none", "permerror", "temperror", "bogus"),
                                         r.pick("", " (x) identity=%s; client-ip=1.2.3.4" % r.pick("mfrom", "helo", "none", "mailfrom", "pra"))))
    if r.maybe(.2):
        h.append("Authentication-Results: mx.example; spf=%s%s" % (r.pick("pass", "hardfail", "softfail"), r.pick("", " smtp.%s=x@y" % r.pick("mfrom", "helo", "mailfrom"))))
    if r.maybe(.3):
        h.append("Message-ID: " + r.pick("<%s>" % f, "<000a01c2$1234abcd$0100007f@x>", "<x@y>"))
    if r.maybe(.2):
        h.append(r.pick("X-Originating-IP: [%s]" % r.choice(IPS), "X-Mailer: Microsoft Outlook", "Sender: " + addr(r), "X-Sender: " + addr(r), "Accreditor: abc"))
    r.shuffle(h)
    k = r.randint(0, 7)
    if k < 4:
        return "\n".join(h) + r.pick("\n\n", "\n\n", "\n\n", "\nno separator\n") + text(r) + "\n"
    if k == 4:
        return "\n".join(h + ["MIME-Version: 1.0", "Content-Type: text/html; charset=%s" % r.pick("utf-8", "koi8-r", "us-ascii")]) + "\n\n" + html(r) + "\n"
    if k == 5:
        import base64
        return "\n".join(h + ["MIME-Version: 1.0", "Content-Type: text/plain; charset=utf-8", "Content-Transfer-Encoding: base64"]) + "\n\n" + \
            base64.b64encode(text(r).encode("utf8")).decode("ascii") + "\n"
    parts = ["Content-Type: text/plain; charset=%s\n\n%s" % (r.pick("utf-8", "koi8-r", "us-ascii"), text(r)), "Content-Type: text/html\n\n" + html(r)]
    if r.maybe(.3):
        parts.append("Content-Type: %s; name=\"%s\"\nContent-Transfer-Encoding: base64\nContent-Disposition: attachment; filename=\"%s\"\n\nAAAA" % r.choice([
            ("image/png", "a.png", "a.png"), ("application/pdf", "a.pdf", "a.pdf"), ("image/gif", "b.gif", "b.gif")]))
    r.shuffle(parts)
    return "\n".join(h + ["MIME-Version: 1.0", "Content-Type: multipart/%s; boundary=\"bb\"" % r.pick("alternative", "mixed")]) + "\n\n--bb\n" + "\n--bb\n".join(parts) + "\n--bb--\n"


def config(r):
    mods = [p for p in PLUGINS if r.maybe(.35)] or [r.choice(PLUGINS)]
    for p in PLUGINS[:4]:
        if p not in mods and r.maybe(.5):
            mods.append(p)
    L, names = ["loadplugin oa.plugins.%s.%s" % p[1:] for p in mods], []
    for p in mods:
        pool = RULES.get(p[0], [])
        for e in (pool if not pool or r.maybe(.5) else r.some(pool)):
            n = "R%d" % len(names)
            names.append(n)
            L += ["%s %s eval:%s" % (r.pick("header", "header", "body", "full", "rawbody"), n, e), "score %s %s" % (n, r.pick("1", "2", "0.5", "-1"))]
            if r.maybe(.1):
                L.append("priority %s %d" % (n, r.randint(-2, 2)))
    loaded = {p[0] for p in mods}
    opts = ["required_score %s" % r.pick("1", "3", "5"), "trusted_networks 10.0.0.0/8", "internal_networks 10.0.0.0/8", "trusted_networks 66.33.22.11",
            "report_safe %d" % r.randint(0, 2), "add_header all Tests _TESTS_", "report _SCORE_ _SUMMARY_", "ok_locales en"]
    if "FreeMail" in loaded:
        L.append("util_rb_tld example com")
        L.append("freemail_domains %s" % " ".join(r.some(["free.example", "hotmail.com", "*.example", "fr?e*.example", "inv*_.example", "yahoo.com", "aol.*"])))
        opts += ["freemail_max_body_emails %d" % r.randint(0, 5), "freemail_max_body_freemails %d" % r.randint(1, 4), "freemail_skip_when_over_max %d" % r.randint(0, 1),
                 "freemail_skip_bulk_envfrom 0", "freemail_add_describe_email %d" % r.randint(0, 1), "freemail_whitelist joe@free.example"]
    if "SPF" in loaded:
        opts += ["ignore_received_spf_header %d" % r.randint(0, 1), "use_newest_received_spf_header %d" % r.randint(0, 1), "whitelist_from_spf *@one.example",
                 "def_whitelist_from_spf *@free.example"]
    if "DKIM" in loaded:
        opts += ["whitelist_from_dkim *@one.example", "def_whitelist_from_dkim *@free.example", "adsp_override one.example all"]
    if "WLBLEval" in loaded:
        opts += ["whitelist_from *@one.example", "blacklist_from *@free.example", "whitelist_to ann@*", "all_spam_to abuse@*", "whitelist_from_rcvd *@one.example one.example",
                 "def_whitelist_from_rcvd *@hotmail.com hotmail.com", "blacklist_uri_host free.example", "enlist_uri_host (MY) one.example", "more_spam_to joe@*"]
    if "WhiteListSubject" in loaded:
        opts += ["whitelist_subject good news", "blacklist_subject bad news"]
    L += [o for o in opts if r.maybe(.6)]
    L += ["header __S Subject =~ /hello|news/", "body B1 /text/i", "score B1 1", "meta M1 __S && B1", "score M1 1", "header H1 exists:Reply-To", "uri U1 /example/"]
    if names:
        L += ["meta M2 %s || (%s && B1)" % (r.choice(names), r.choice(names)), "score M2 2"]
        if "Shortcircuit" in loaded:
            L.append("shortcircuit %s %s" % (r.choice(names), r.pick("on", "spam", "ham")))
    return "\n".join(L) + "\n"


class Rec(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def answer(q, qtype):
    h = zlib.crc32(("%s %s" % (q, qtype)).encode())
    return [Rec("127.0.0.%d" % (h % 7))] if h % 3 == 0 else []


class fakes(object):
    """the network's answers are functions of the question"""
    def __enter__(self):
        self.old = spf.check2, dkim.verify
        spf.check2 = lambda i, s, h, **k: (["pass", "fail", "none", "softfail", "error"][zlib.crc32(("%s %s %s" % (i, s, h)).encode()) % 5], "")
        dkim.verify = lambda m, **k: b"b=good" in m
        return self

    def __exit__(self, *a):
        spf.check2, dkim.verify = self.old


def outcome(rs, txt):
    try:
        m = message(rs, txt)
        rs.match(m)
    except Exception as e:
        return ["EXC %s %s" % (type(e).__name__, e)]
    res = [repr(m.score), list(map(str, m.rules_checked)), sorted((str(k), str(x)) for k, x in m.rules_descriptions.items()),
           sorted((str(k), str(x)) for k, x in m.plugin_tags.items())]
    try:
        res.append(re.sub(r"=={5,}\d+==|\d\d:(?!00:00)\d\d:\d\d", "VARIES", str(rs.get_adjusted_message(m))))
    except Exception as e:
        res.append("EXC %s %s" % (type(e).__name__, e))
    return json.loads(json.dumps(res))


def history(rs, texts):
    """the outcomes of the messages, checked one after the other in a process of their own"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            out = [outcome(rs, t) for t in texts]
        except BaseException as e:
            out = ["DIED %r" % (e,)]
        try:
            data = json.dumps(out).encode("utf8")
            while data:
                data = data[os.write(wr, data):]
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data.decode("utf8"))


def differ(a, b):
    d = [j for j in range(max(len(a), len(b))) if a[j:j + 1] != b[j:j + 1]][0]
    part = ["the score", "the rules checked", "the rules that hit", "the tags", "the rewritten message"][d]
    a, b = a[d] if d < len(a) else None, b[d] if d < len(b) else None
    if isinstance(a, list) and isinstance(b, list):
        a, b = [x for x in a if x not in b], [x for x in b if x not in a]
    return part, a, b


@scenario(1)
def same_after_others(r):
    text = config(r)
    parser, rs = load(text)
    rs.ctxt.dns.query = lambda q, t="A": answer(q, t)
    texts = [mail(r) for i in range(r.randint(3, 6))]
    order = list(range(len(texts)))
    orders = [order, order[::-1], [r.choice(order) for i in range(2 * len(order))]]
    seen = {}
    with fakes():
        for o in orders:
            for k, got in enumerate(history(rs, [texts[i] for i in o])):
                i = o[k]
                if i not in seen:
                    seen[i] = got, o[:k]
                elif got != seen[i][0]:
                    part, a, b = differ(got, seen[i][0])
                    equal(a, b, part + " of a message depends on the messages before", config=text, message=texts[i],
                          messages_before=[texts[j] for j in o[:k]], messages_before_then=[texts[j] for j in seen[i][1]])


# import and compile what every message needs, once: no plugin is loaded, so no plugin has seen a message
message(load("required_score 5\n")[1], "From: x@y.example\nReceived: from a.example (a.example [1.2.3.4]) by c.example; Thu, 19 Nov 2026 00:00:00 +0000\n\nhttp://x.example/\n")
lib.main("C21")
