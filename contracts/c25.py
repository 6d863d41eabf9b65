"""C25: character sets and locales, range tests on measured values"""
from .common import *

PROPERTY = "C25"
BODY, MIME = "oa.plugins.body_eval:BodyEval", "oa.plugins.mime_eval:MIMEEval"
BOUNDED = ("MIMEEval.check_for_uppercase, the counting of characters in the parts of a message",)
F = lambda f, n="f": PyFn(f, n)
INF = float("inf")

CYRILLIC = ("KOI8R", "KOI8U", "KOI8T", "ISOIR111", "CP1251", "GEORGIANPS", "PT154", "CP866")
USUAL = {"ja": ("EUCJP", "JISX020119760", "JISX020819830", "JISX020819900", "JISX020819970", "JISX021219900", "JISX021320001",
                "JISX021320002", "SHIFT_JIS", "SHIFTJIS", "ISO2022JP", "SJIS", "JIS7", "JISX0201", "JISX0208", "JISX0212"),
         "ko": ("EUCKR", "KSC56011987"), "ru": CYRILLIC, "ka": CYRILLIC, "tg": CYRILLIC, "be": CYRILLIC, "uk": CYRILLIC, "bg": CYRILLIC,
         "th": ("TIS620",), "zh": ("GB1988", "GB2312", "GB231219800", "GB18030", "GBK", "BIG5HKSCS", "BIG5", "EUCTW", "ISO2022CN")}

CHARSETS = '''
def run(charset, locales, env):
    if env.always(env.clean(charset)):
        return True
    for locale in locales:
        if env.usual(locale, charset):
            return True
    return False
'''


class Charset(SpecContract):
    """a character set is accepted exactly when it is one of the always accepted ones or one of the usual ones of an accepted locale
    (by its first two letters), whatever the case and the punctuation"""
    qual = "oa.locales:charset_ok_for_locales"
    spec = CHARSETS
    trusts = ("str.upper, removing the punctuation and the pattern of the always accepted names are functions of the text (the patterns "
              "are compared with the documented names by the search)",)

    def __init__(self, none):
        self.none = none
        self.name = self.qual + ("[no name]" if none else "")

    def setup(self, v):
        self.charset = Const(None) if self.none else v.fresh(Str, "charset")
        self.locales = new_list(v, Str, "locales")
        return [self.charset, self.locales], {}

    def spec_args(self, v, a):
        return list(a) + [obj(v, "Env", "env")]

    def cleaned(self, v, x):
        return v.uf("cleaned", v.term(x, Str), STR)

    def clean(self, v, x):
        none = self.cleaned(v, Const(""))
        if isinstance(x, Const):
            return Sym("str", none)
        return Sym("str", z3.If(v.term(x, Str) == z3.StringVal(""), none, self.cleaned(v, v.call_method(x, "upper", []))))

    def usual(self, v, loc, x):
        t = v.term(self.clean(v, x), Str)
        two = z3.SubString(loc, 0, 2)
        return z3.Or(*[z3.And(two == z3.StringVal(k), z3.Or(*[t == z3.StringVal(c) for c in cs])) for k, cs in sorted(USUAL.items())])

    def schemas(self):
        return {"Env": {"methods": {"clean": F(lambda v, a, k: self.clean(v, a[1])),
            "always": F(lambda v, a, k: Sym("bool", v.uf("always", v.term(a[1], Str), BOOL))),
            "usual": F(lambda v, a, k: Sym("bool", self.usual(v, v.term(a[1], Str), a[2])))}}}

    def uses(self):
        return {"oa.regex:Regex.sub": Model(lambda v, f, a, k: Sym("str", self.cleaned(v, a[2]))),
                "oa.regex:Regex.match": Model(lambda v, f, a, k: Sym("bool", v.uf("always", v.term(a[1], Str), BOOL)))}

    def candidates(self, v, L):
        if L.kind != "for" or L.origin != self.locales.id:
            return
        r = v.rec(self.locales)
        yield "none before", forall(v, [INT], lambda j: z3.Implies(rng(0, j, L.i), z3.Not(self.usual(v, sel(r.arr, j), self.charset))),
                                    lambda j: [sel(r.arr, j)])


RANGE = '''
def run(self, msg, low, high, target):
    low = float(low)
    high = float(high)
    %s
'''


class Range(SpecContract):
    """the test hits exactly when the measured value lies in the range (closed, unless the specification says otherwise)"""
    trusts = ("the bounds of the rule are numbers, quoted or not",)
    args = ("low", "high")

    def __init__(self, qual, spec, locals_, args="low high", kinds="", defaults=(), note=""):
        self.qual, self.body, self.locals_, self.args, self.kinds, self.defaults = qual, spec, locals_, args.split(), kinds, dict(defaults)
        self.name = qual + note
        self.spec = "def run(self, msg, env, %s):\n" % ", ".join(self.args) + spec

    def setup(self, v):
        self.msg = obj(v, "Message", "msg", text=v.fresh(Str, "text"), raw_text=v.fresh(Str, "raw_text"))
        self.vals = [Const(self.defaults[n]) if n in self.defaults else v.fresh(Str if k == "s" else Real, n)
                     for n, k in zip(self.args, self.kinds)]
        self.me = obj(v, self.qual.rsplit(".", 1)[0], "plugin", ctxt=obj(v, "Ctxt", "ctxt", log=obj(
            v, "Logger", "log")))
        for k, x in zip(self.kinds, self.vals):
            if k == "s" and isinstance(x, Sym):
                v.assume(v.uf("float_ok", x.t, BOOL))
                v.assume(v.uf("int_ok", x.t, BOOL))
        pos = [x for n, x in zip(self.args, self.vals) if n not in self.defaults]
        return [self.me, self.msg] + pos, {"target": Const(self.target)}

    target = "body"

    def spec_args(self, v, a):
        return [self.me, self.msg, obj(v, "Env", "env")] + self.vals

    def local(self, v, name):
        t = self.locals_[name]
        if t == "tokens":
            return v.obj_ref(v.uf("local_" + name, z3.IntVal(0), OBJ), "Tokens")
        return Sym(t.k, v.uf("local_" + name, z3.IntVal(0), sort_of(t)))

    def measure(self, fn):
        def f(v, a, k):
            return Sym("int", v.uf(fn, v.term(a[1], Str), INT))
        return F(f, fn)

    def schemas(self):
        n = lambda v, a, k: Sym("int", v.uf("how_many", v.rec(a[0]).term, INT))
        return {"Message": {}, "Ctxt": {}, "Logger": {"methods": {n_: noop_method(n_) for n_ in ("debug", "info", "warning", "warn")}},
                "Tokens": {"methods": {"__len__": F(n)}},
                "Env": {"methods": {"local": F(lambda v, a, k: self.local(v, a[1].v))}}}

    def uses(self):
        def get(v, f, a, k):
            if not isinstance(a[2], Const) or a[2].v not in self.locals_:
                raise Unsupported("another measurement: %r" % (a[2],))
            return self.local(v, a[2].v)
        return {"oa.conf:Conf.get_local": Model(get)}

    def extra_assume(self, v):
        pass


CLOSED = '''
    return float(low) <= env.local("%s") and env.local("%s") <= float(high)
'''


def closed(x):
    return CLOSED % (x, x)


COUNT = '''
    ratio = float(ratio)
    least = int(least)
    text = len(env.local("text_tokens"))
    html = len(env.local("html_tokens"))
    if html < least or html == 0:
        return False
    return text / html > ratio
'''
BLANK = '''
    low = float(low)
    high = float(high)
    least = int(least)
    lines = env.local("line_count")
    if lines < least or lines < 1:
        return False
    part = env.local("blank_line_count") / lines * 100
    return low <= part and part <= high
'''


def ranges():
    out = []
    for kinds in ("rr", "ss"):
        note = "[numbers]" if kinds == "rr" else "[quoted numbers]"
        out.append(Range(BODY + ".multipart_alternative_difference", closed("madiff"), {"madiff": Real}, kinds=kinds, note=note))
        out.append(Range(BODY + ".multipart_alternative_difference_count", COUNT, {"text_tokens": "tokens", "html_tokens": "tokens"},
                         args="ratio least", kinds=kinds, note=note))
        out.append(Range(BODY + ".check_blank_line_ratio", BLANK, {"line_count": Int, "blank_line_count": Int}, args="low high least",
                         kinds=kinds + kinds[0], note=note))
        out.append(Range(BODY + ".check_blank_line_ratio", BLANK, {"line_count": Int, "blank_line_count": Int}, args="low high least",
                         kinds=kinds + kinds[0], defaults={"least": 1}, note=note[:-1] + ", any number of lines]"))
        out.append(Range(MIME + ".check_mime_multipart_ratio", '''
    return float(low) <= env.local("mime_multipart_ratio") and env.local("mime_multipart_ratio") < float(high)
''', {"mime_multipart_ratio": Real}, kinds=kinds, note=note))
        for fn, x in (("check_base64_length", "base64_length"), ("check_abundant_unicode_ratio", "mime_text_unicode_ratio"),
                      ("check_qp_ratio", "mime_qp_ratio")):
            t = Int if x == "base64_length" else Real
            out.append(Range(MIME + "." + fn, closed(x), {x: t}, kinds=kinds, note=note))
            out.append(Range(MIME + "." + fn, '''
    return float(low) <= env.local("%s")
''' % x, {x: t}, kinds=kinds, defaults={"high": "inf"}, note=note[:-1] + ", no upper bound]"))
    return out



VERTICAL = """
    text = %s
    spaces = env.found("SPACE_COUNT", text)
    if len(text) == spaces:
        return False
    part = spaces / (len(text) - spaces) * 100
    return float(low) <= part and part <= float(high)
"""
STOCK = """
    return env.found("STOCK_RE", %s) >= int(least)
"""


class Found(Range):
    """how much of the text matches decides; of the rendered text, or the raw one when asked for"""

    def __init__(self, qual, spec, target, **k):
        Range.__init__(self, qual, spec % ("msg.raw_text" if target == "rawbody" else "msg.text"), {}, **k)
        self.target = target

    def found(self, v, pat, t):
        """how often the pattern is found in the text (a blank is one character)"""
        n = v.uf("found", z3.StringVal(pat), t, INT)
        v.assume(n >= 0)
        if pat == "SPACE_COUNT":
            v.assume(n <= z3.Length(t))
        return n

    def patterns(self):
        return {"global:oa.plugins.body_eval:" + n: (lambda v, n=n: v.obj_ref(v.uf("pattern_" + n, z3.IntVal(0), OBJ), "Pattern" + n))
                for n in ("SPACE_COUNT", "STOCK_RE", "SPLIT_WORDS", "REMOVE_OTHER")}

    def ext(self):
        return self.patterns()

    def schemas(self):
        d = Range.schemas(self)

        def finditer(pat):
            def f(v, a, k):
                t = v.term(a[1], Str)
                return v.alloc(SymList(self.found(v, pat, t), v.uf("matches", z3.StringVal(pat), t, z3.ArraySort(INT, OBJ)), ObjT("Hit")))
            return F(f)
        d["Hit"] = {}
        for n in ("SPACE_COUNT", "STOCK_RE"):
            d["Pattern" + n] = {"methods": {"finditer": finditer(n), "findall": finditer(n)}}
        d["Env"] = {"methods": {"found": F(lambda v, a, k: Sym("int", self.found(v, a[1].v, v.term(a[2], Str))))}}
        return d


class Stored(TraceContract):
    """the test answers from what was measured; a measurement is stored as specified and nothing else is"""

    def __init__(self, qual, spec, locals_, args=(), defaults=(), note="", confs=()):
        self.qual, self.locals_, self.arg_names, self.defaults, self.confs = qual, locals_, list(args), dict(defaults), dict(confs)
        self.name = qual + note
        self.spec = "def run(%s, env):\n" % ", ".join(["self", "msg"] + self.arg_names) + spec

    def setup(self, v):
        self.msg = obj(v, "Message", "msg", raw_text=v.fresh(Str, "raw_text"), missing_header_body_separator=v.fresh(Bool, "no_separator"),
                       missing_boundary_header=v.fresh(Bool, "no_boundary_header"))
        self.me = obj(v, self.qual.rsplit(".", 1)[0], "plugin", ctxt=obj(v, "Ctxt", "ctxt", log=obj(v, "Logger", "log"), conf=obj(
            v, "Conf", "conf")))
        return [self.me, self.msg] + [Const(self.defaults[n]) if n in self.defaults else v.fresh(Str, n) for n in self.arg_names], {}

    def spec_args(self, v, a):
        return list(a) + [obj(v, "Env", "env")]

    def local(self, v, name):
        t = self.locals_[name]
        for tag, vals in reversed(v.trace):
            if tag == "stored" and vals[0][1].v == name:
                return vals[1][1]
        x = Sym(t.k, v.uf("local_" + name, z3.IntVal(0), sort_of(t)))
        if t.k == "int":
            v.assume(x.t >= 0)
        return x

    def put(self, v, name, x):
        if not isinstance(name, Const):
            raise Unsupported("a computed measurement name")
        self.emit(v, "stored", name, x)
        return NONE

    def schemas(self):
        return {"Message": {}, "Ctxt": {}, "Logger": {"methods": {n_: noop_method(n_) for n_ in ("debug", "info", "warning", "warn")}},
                "Conf": {"methods": {"get_global": F(lambda v, a, k: Sym("str", v.uf("conf_" + a[1].v, z3.IntVal(0), STR)))}},
                "Env": {"methods": {"local": F(lambda v, a, k: self.local(v, a[1].v)), "put": F(lambda v, a, k: self.put(v, a[1], a[2])),
                    "letter_first": F(lambda v, a, k: Sym("bool", v.uf("letter_first", v.term(a[1], Str), BOOL))),
                    "ok": F(lambda v, a, k: Sym("bool", self.ok(v, a[1], a[2]))), "conf": F(lambda v, a, k: Sym("str", v.uf(
                        "conf_" + a[1].v, z3.IntVal(0), STR)))}}}

    def ok(self, v, charset, locales):
        r = v.rec(locales)
        if isinstance(r, ListRec):
            r = v.as_symlist(r, Str)
        return v.uf("charset_ok", v.term(charset, Str), r.n, r.arr, BOOL)

    def uses(self):
        def get(v, f, a, k):
            if not isinstance(a[2], Const) or a[2].v not in self.locals_:
                raise Unsupported("another measurement: %r" % (a[2],))
            return self.local(v, a[2].v)
        nothing = Model(lambda v, f, a, k: NONE)
        return {"oa.conf:Conf.get_local": Model(get), "oa.conf:Conf.set_local": Model(lambda v, f, a, k: self.put(v, a[2], a[3])),
                "oa.plugins.base:BasePlugin.parsed_metadata": nothing,
                "oa.locales:charset_ok_for_locales": Model(lambda v, f, a, k: Sym("bool", self.ok(v, a[0], a[1])))}

    def ext(self):
        return {"re.match": lambda v, a, k: Sym("bool", v.uf("letter_first", v.term(a[1], Str), BOOL))}


RATIOS = """
    html = env.local("html_characters_count")
    plain = env.local("plain_characters_count")
    if html > 0 and plain > 0:
        env.put("mime_multipart_ratio", plain / html)
    if env.local("ascii_count") > 0:
        env.put("mime_text_unicode_ratio", env.local("unicode_count") / env.local("ascii_count"))
    if env.local("qp_chars") > 0 and env.local("qp_bytes") > 0:
        env.put("mime_qp_ratio", env.local("qp_chars") / env.local("qp_bytes"))
"""
FARAWAY = """
    if not charset:
        return
    if not env.letter_first(charset):
        return
    if env.local("mime_faraway_charset"):
        return
    locales = env.conf("ok_locales").split()
    if "all" in locales:
        return
    env.put("mime_faraway_charset", not env.ok(charset, locales))
"""


def stored():
    S = Stored
    return [S(MIME + ".parsed_metadata", RATIOS, {n: Int for n in ("html_characters_count", "plain_characters_count", "ascii_count",
                                                                   "unicode_count", "qp_chars", "qp_bytes")}),
            S(MIME + ".check_for_faraway_charset", """
    return env.local("more_high_bits_than_low") and env.local("mime_faraway_charset")
""", {"more_high_bits_than_low": Bool, "mime_faraway_charset": Bool}),
            S(MIME + "._update_faraway_charset", FARAWAY, {"mime_faraway_charset": Bool}, args=["charset"]),
            S(MIME + "._update_faraway_charset", FARAWAY, {"mime_faraway_charset": Bool}, args=["charset"], defaults={"charset": None},
              note="[no name]"),
            S(MIME + ".check_for_mime_html", """
    return env.local("mime_body_html_count") > 0
""", {"mime_body_html_count": Int}),
            S(MIME + ".check_for_mime_html_only", """
    return env.local("mime_body_html_count") > 0 and env.local("mime_body_text_count") == 0
""", {"mime_body_html_count": Int, "mime_body_text_count": Int})]


HEADERS = """
def run(self, msg, env):
    wanted = env.conf("ok_locales")
    if not wanted or wanted.lower() == "all":
        return False
    for name in ("Subject", "From"):
        for header in env.raw(name):
            if env.bad(header):
                return True
    return False
"""
PAIR = TupT(Str, Str)
VALUE = ObjT("HeaderValue")
PLUGIN = "oa.plugins.header_eval:HeaderEval"


class InHeaders(SpecContract):
    """the Subject or the From header of a message is in a far-away character set exactly when some decodable value of it has a part in a
    character set that is not accepted for the configured locales"""
    qual = PLUGIN + ".check_for_faraway_charset_in_headers"
    spec = HEADERS
    trusts = ("email.header.decode_header is a function of the text, or fails with one of its two documented errors",)

    def setup(self, v):
        self.msg = obj(v, "Message", "msg")
        self.me = obj(v, PLUGIN, "plugin", ctxt=obj(v, "Ctxt", "ctxt", log=obj(v, "Logger", "log"), conf=obj(v, "Conf", "conf")))
        BAD, W = self.bad(v), z3.Function("bad_part", OBJ, INT)
        lst = ListT(PAIR)

        def part(h, k):
            r = v.rec(v.from_term(v.uf("decoded", h, sort_of(lst)), lst, snap=False))
            return r, self.refused(v, sel(r.arr, k))

        def ax1(h):
            r, p = part(h, W(h))
            return z3.Implies(BAD(h), z3.And(self.decodable(v, h), rng(0, W(h), r.n), p))

        def ax2(h, k):
            r, p = part(h, k)
            return z3.Implies(z3.And(self.decodable(v, h), rng(0, k, r.n), p), BAD(h))
        v.assume(forall(v, [OBJ], ax1, lambda h: [BAD(h)]))
        v.assume(forall(v, [OBJ, INT], ax2, lambda h, k: [sel(v.rec(v.from_term(v.uf("decoded", h, sort_of(lst)), lst, snap=False)).arr, k)]))
        return [self.me, self.msg], {}

    def decodable(self, v, h):
        return v.uf("decodable", h, BOOL)

    def bad(self, v):
        return z3.Function("bad_header", OBJ, BOOL)

    def refused(self, v, pair):
        cs = v.from_term(pair, PAIR, snap=False).items[1]
        return z3.Not(v.uf("charset_ok", v.term(cs, Str), BOOL))

    def spec_args(self, v, a):
        return [self.me, self.msg, obj(v, "Env", "env")]

    def raw(self, v, name):
        t = ListT(VALUE)
        return v.from_term(v.uf("raw", v.term(name, Str), sort_of(t)), t, snap=False)

    def schemas(self):
        conf = F(lambda v, a, k: Sym("str", v.uf("conf_" + a[1].v, z3.IntVal(0), STR)))
        return {"Message": {"methods": {"get_raw_header": F(lambda v, a, k: self.raw(v, a[1]))}}, "Ctxt": {}, "Logger": LOG,
                "Conf": {"methods": {"get_global": conf}}, "HeaderValue": {}, "Env": {"methods": {
                    "conf": conf, "raw": F(lambda v, a, k: self.raw(v, a[1])),
                    "bad": F(lambda v, a, k: Sym("bool", self.bad(v)(v.term(a[1], VALUE))))}}}

    def uses(self):
        def ok(v, f, a, k):
            r = v.rec(a[1])
            r = v.as_symlist(r, Str) if isinstance(r, ListRec) else r
            if self.locs is None:
                w = v.call_method(Sym("str", v.uf("conf_ok_locales", z3.IntVal(0), STR)), "split", [])
                self.locs = v.rec(w)
            v.check("for the configured locales", z3.And(r.n == self.locs.n, r.arr == self.locs.arr))
            return Sym("bool", v.uf("charset_ok", v.term(a[0], Str), BOOL))
        return {"oa.locales:charset_ok_for_locales": Model(ok)}

    locs = None

    def ext(self):
        def decode(v, a, k):
            h = v.term(a[0], VALUE)
            if v.decide(self.decodable(v, h)):
                t = ListT(PAIR)
                return v.from_term(v.uf("decoded", h, sort_of(t)), t, snap=False)
            if v.decide(v.uf("which_error", h, BOOL)):
                raise v.exc("ValueError")
            raise v.exc("email.errors.HeaderParseError")
        return {"email.header.decode_header": decode}

    def candidates(self, v, L):
        if L.kind != "for":
            return
        r = L.rec if hasattr(L, "rec") else None
        for n in ("Subject", "From"):
            rr = v.rec(self.raw(v, Const(n)))
            yield "no bad value of %s before" % n, forall(v, [INT], lambda j: z3.Implies(rng(0, j, L.i), z3.Not(self.bad(v)(sel(rr.arr, j)))),
                                                        lambda j: [sel(rr.arr, j)])
            if v.idx:
                h = sel(rr.arr, v.idx[0])
                d = v.rec(v.from_term(v.uf("decoded", h, sort_of(ListT(PAIR))), ListT(PAIR), snap=False))
                yield "no refused part of %s before" % n, forall(v, [INT], lambda j: z3.Implies(rng(0, j, L.i), z3.Not(self.refused(v, sel(
                    d.arr, j)))), lambda j: [sel(d.arr, j)])


LOG = {"methods": {n_: noop_method(n_) for n_ in ("debug", "info", "warning", "warn", "error")}}


def contracts():
    out = [Charset(False), Charset(True)] + ranges() + stored() + [InHeaders()]
    for kinds in ("rr", "ss"):
        for target in ("body", "rawbody"):
            note = "[%s, %s]" % ("numbers" if kinds == "rr" else "quoted numbers", target)
            out.append(Found(BODY + ".tvd_vertical_words", VERTICAL, target, kinds=kinds, note=note))
            out.append(Found(BODY + ".check_stock_info", STOCK, target, args="least", kinds=kinds, note=note))
    return out
