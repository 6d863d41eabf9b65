"""C11: two configurations of one process, on the real parser.

Every history runs in forked children of a process that has not loaded any configuration: one child loads only the last
configuration, another loads all of them in order.  What can be seen of the last one has to be the same, and what can be seen of
each earlier one has to be the same before and after the later ones are loaded and used.
"""
import json
import os
import re
import lib
from lib import *
import oa.conf
import oa.message
import oa.rules.parser
import oa.plugins.wlbl_eval
import oa.plugins.short_circuit
import oa.plugins.free_mail
import oa.plugins.replace_tags
import oa.plugins.header_eval
import oa.plugins.body_eval
import oa.plugins.mime_eval
import oa.plugins.uri_detail
import oa.plugins.uri_eval
import oa.plugins.auto_learn_threshold
import oa.plugins.whitelist_subject

PLUGINS = {"oa.plugins.wlbl_eval.WLBLEvalPlugin": oa.plugins.wlbl_eval.WLBLEvalPlugin,
           "oa.plugins.short_circuit.ShortCircuit": oa.plugins.short_circuit.ShortCircuit,
           "oa.plugins.replace_tags.ReplaceTags": oa.plugins.replace_tags.ReplaceTags,
           "oa.plugins.auto_learn_threshold.AutoLearnThreshold": oa.plugins.auto_learn_threshold.AutoLearnThreshold}
for mod, cls in (("free_mail", "FreeMail"), ("body_eval", "BodyEval"), ("mime_eval", "MIMEEval"), ("uri_detail", "URIDetailPlugin"),
                 ("uri_eval", "URIEvalPlugin"), ("header_eval", "HeaderEval"), ("dkim", "DKIMPlugin")):
    try:
        m = __import__("oa.plugins.%s" % mod, fromlist=["x"])
        PLUGINS["oa.plugins.%s.%s" % (mod, cls)] = getattr(m, cls)
    except (ImportError, AttributeError):
        pass
SUBJECT = "oa.plugins.whitelist_subject.WhiteListSubjectPlugin"

ADDR = ["*@example.com", "alice@example.com", "bob@example.org", "*@example.org"]
NETS = ["10.0.0.0/8", "!10.1.0.0/16", "192.0.2.0/24", "198.51.100.1", "2001:db8::/32", "172.16.0.0/12"]
SPECIAL = {
    "trusted_networks": NETS, "internal_networks": NETS, "msa_networks": NETS, "shortcircuit": ["A spam", "B ham", "A on"],
    "dns_query_restriction": ["deny example.com", "allow sub.example.com", "deny a b"], "add_header": [
        "all Who _SCORE_", "spam Flag _YESNO_", "ham Flag _YESNO_"], "remove_header": ["all Who", "spam Flag"],
    "dns_server": ["127.0.0.1", "[127.0.0.2]:53"], "dns_available": ["no"], "dns_test_interval": ["600", "10m"],
    "report": ["text", "more _SCORE_"], "unsafe_report": ["unsafe"], "replace_tag": ["V x", "W y"], "replace_rules": ["A", "B A"],
    "originating_ip_headers": ["X-Ip", "X-Ip X-Other"], "envelope_sender_header": ["X-Sender", "X-Env"],
    "autolearn": ["0"], "training": ["0"], "freemail_domains": ["example.com", "example.org gmail.com"], "ok_locales": ["en", "all"],
    "def_whitelist_from_rcvd": ["alice@example.com example.net"], "whitelist_from_rcvd": ["bob@example.org example.net"],
    "enlist_uri_host": ["(L) example.com"], "dns_options": ["norotate", "rotate, edns=1024"], "required_score": ["1", "3", "7.5"],
    "util_rb_tld": ["zz"], "dns_local_ports_permit": ["1024-1030"], "dns_local_ports_avoid": ["1024"],
    "util_rb_2tld": ["com.zz"], "util_rb_3tld": ["a.com.zz", "b.com.zz"],
    "lang": ["en describe A other"], "user_awl_dsn": [], "bayes_sql_dsn": [], "report_safe": ["0", "1", "2"]}
RULES = ["body A /hello/\nscore A %(n)s", "body B /example/\nscore B %(n)s", "score A %(n)s", "priority A %(n)s",
         "meta M (A || B)\nscore M %(n)s", "header H From:addr =~ /alice/\nscore H %(n)s", "describe A text %(n)s",
         "header W eval:check_from_in_whitelist()\nscore W %(n)s", "header V eval:check_from_in_blacklist()\nscore V %(n)s",
         "header T eval:check_to_in_whitelist()\nscore T %(n)s", "uri U /example/\nscore U %(n)s",
         "header F eval:check_freemail_from()\nscore F %(n)s", "tflags A noautolearn"]
MSGS = ["Received: from x (x [10.1.2.3]) by y with SMTP id z; Thu, 1 Jan 2015 00:00:00 +0000\r\n"
        "Received: from u (u [192.0.2.7]) by v with SMTP id w; Thu, 1 Jan 2015 00:00:00 +0000\r\n"
        "From: alice@example.com\nTo: bob@example.org\nSubject: hello\nX-Ip: 198.51.100.1\nX-Sender: q@example.net\n\n"
        "hello http://example.com/\n",
        "From: bob@example.org\nTo: alice@example.com\nSubject: other\nX-Env: r@example.net\n\nnothing\n"]


def options(cls):
    return dict(cls.options or {})


def value(r, key, kind):
    if key in SPECIAL:
        return r.choice(SPECIAL[key]) if SPECIAL[key] else None
    if kind in ("int", "float", "timevalue"):
        return r.pick("1", "2", "7", "0", "30")
    if kind == "bool":
        return r.pick("0", "1", "true")
    if kind in ("list", "append", "append_split"):
        return r.choice(ADDR)
    if kind == "clear":
        return ""
    if kind == "str":
        return r.pick("one", "two")
    return None


def config(r, loaded):
    """a configuration text"""
    out = ["loadplugin " + p for p in loaded]
    tables = [options(oa.conf.PADConf)] + [options(PLUGINS[p]) for p in loaded if p in PLUGINS]
    for i in range(r.randint(0, 8)):
        if r.maybe(0.3):
            out.append(r.choice(RULES) % {"n": r.pick("1", "0.5", "-2", "3", "5", "0")})
            continue
        t = r.choice(tables)
        lists = [k for k in sorted(t) if t[k][0] in ("append", "append_split", "list", "clear")]
        if r.maybe(0.25) and t is tables[0]:
            k = r.pick("trusted_networks", "internal_networks", "msa_networks", "dns_query_restriction", "add_header")
        else:
            k = r.choice(lists if lists and r.maybe(0.7) else sorted(t)) if t else None
        if k is None:
            continue
        v = value(r, k, t[k][0])
        if v is not None:
            out.append("%s %s" % (k, v))
    if r.maybe(0.8) or any("replace_rules" in x for x in out):
        out[len(loaded):len(loaded)] = ["body A /hello/\nbody B /example/"]
    return "\n".join(out) + "\n"


def plain(x, depth=0):
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, bytes):
        return repr(x)
    if isinstance(x, dict):
        return sorted([str(k), plain(v, depth + 1)] for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(i, depth + 1) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted(json.dumps(plain(i, depth + 1)) for i in x)
    return re.sub("0x[0-9a-f]+", "", str(x))[:200]


def describe(rs, use=True):
    c = rs.ctxt
    out = {"plugins": sorted(c.plugins), "eval": sorted(c.eval_rules), "cmds": sorted(c.cmds),
           "headers": plain(rs.header_mod), "tags": sorted(rs.tags), "dns": plain(c.dns.query_restrictions),
           "rules": [[n, type(x).__name__, x.score, x.description, x.priority, plain(x.tflags)] for n, x in rs.checked.items()],
           "other rules": sorted(rs.not_checked)}
    for name in sorted(c.plugin_data):
        if name == "WhiteListSubjectPlugin":
            continue
        owner = c.conf if name == "PADConf" else c.plugins.get(name)
        known = set(getattr(owner, "options", None) or ())
        out["options of " + name] = plain(dict((k, x) for k, x in c.plugin_data[name].items() if k in known))
    for name in ("trusted", "internal", "msa"):
        net = getattr(c.networks, name)
        out["networks " + name] = [bool(net.configured), [bool(oa.message.ipaddress.ip_address(a) in net) for a in (
            "127.0.0.1", "10.1.2.3", "10.9.9.9", "192.0.2.7", "198.51.100.1", "198.51.100.2", "172.16.3.3", "8.8.8.8", "::1",
            "2001:db8::1")]]
    out["restricted"] = [bool(c.dns.is_query_restricted(n)) for n in ("example.com", "sub.example.com", "x.sub.example.com", "a", "z.org")]
    if use:
        for n, m in enumerate(MSGS):
            msg = oa.message.Message(c, m)
            rs.match(msg)
            out["message %d" % n] = [round(msg.score, 6), sorted(k for k, x in msg.rules_checked.items() if x),
                                     len(msg.trusted_relays), len(msg.internal_relays), msg.sender_address,
                                     str(rs.get_adjusted_message(msg, header_only=True))]
    return out


def child(fn):
    """the value of fn() in a forked child"""
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(rd)
            try:
                res = json.dumps(fn())
            except Exception as e:
                import traceback
                res = json.dumps({"exception": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-1500:]})
            with os.fdopen(wr, "w") as f:
                f.write(res)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        txt = f.read()
    os.waitpid(pid, 0)
    return json.loads(txt)


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:3]
    return (a, b)


def run(configs, kw):
    """all the configurations in order; describes each when it is loaded and again at the end"""
    first, sets = [], []
    for c, k in zip(configs, kw):
        p, rs = load(c)
        if k.get("use", True):
            first.append(describe(rs))
        else:
            first.append(describe(rs, False))
        sets.append(rs)
    return [first, [describe(rs, k.get("use", True)) for rs, k in zip(sets, kw)]]


@scenario(4)
def histories(r):
    names = sorted(PLUGINS)
    loaded = r.subset(names, 0.5)
    n = r.randint(2, 3)
    configs = [config(r, loaded if r.maybe(0.7) else r.subset(names, 0.5)) for i in range(n)]
    if r.maybe(0.3):
        configs[-1] = "".join("loadplugin %s\n" % p for p in loaded)
    kw = [{"use": r.maybe(0.15)} for c in configs]
    lib.scratch()
    alone = child(lambda: run(configs[-1:], kw[-1:]))
    both = child(lambda: run(configs, kw))
    info = dict(configs=configs)
    if isinstance(alone, dict) or isinstance(both, dict):
        equal(both.get("exception") if isinstance(both, dict) else None, alone["exception"], "an error that depends on an earlier configuration", **info) if isinstance(alone, dict) else expect(
            False, "an error", key="error", error=both, **info)
        raise Skip()
    equal(diff(alone[0][0], both[0][-1]), [], "a configuration shows something of one loaded before it", **info)
    for i in range(n):
        equal(diff(both[0][i], both[1][i]), [], "a configuration is changed by one loaded later", **info)


@scenario(1)
def subject_lists(r):
    """the same for the subject lists"""
    def conf():
        return "loadplugin %s\nheader A eval:check_subject_in_whitelist()\nscore A 1\nheader B eval:check_subject_in_blacklist()\nscore B 2\n" % SUBJECT + "".join(
            "%s %s\n" % (r.pick("whitelist_subject", "blacklist_subject"), r.pick("hello", "^other", "x")) for i in range(r.randint(0, 2)))
    configs = [conf(), conf()]

    def hits(rs):
        out = []
        for m in MSGS:
            msg = oa.message.Message(rs.ctxt, m)
            rs.match(msg)
            out.append(sorted(k for k, x in msg.rules_checked.items() if x))
        return out

    def seq(cs):
        sets, first = [], []
        for c in cs:
            sets.append(load(c)[1])
            first.append(hits(sets[-1]))
        return [first, [hits(x) for x in sets]]
    alone = child(lambda: seq(configs[-1:]))
    both = child(lambda: seq(configs))
    equal(both[0][-1], alone[0][0], "the subject lists of an earlier configuration are used by a later one",
          key="subject lists of an earlier configuration", configs=configs)
    equal(both[1][0], both[0][0], "the subject lists of a later configuration are used by an earlier one",
          key="subject lists of a later configuration", configs=configs)


# compile the expressions that parsing a message needs, which depend on no configuration
try:
    import oa.received_parser
    oa.received_parser.ReceivedParser(["from x (x [10.1.2.3]) by y with SMTP id z; Thu, 1 Jan 2015 00:00:00 +0000"])
except Exception:
    pass


if __name__ == "__main__":
    lib.main("C11")
