"""C06: header rules"""
from .common import *

PROPERTY = "C06"
H = "oa.rules.header:"
MSG = "oa.message:Message"

VIEWS = {
    "_PatternHeaderRule": "msg.get_decoded_header(self._header_name)",
    "_PatternRawHeaderRule": "msg.get_raw_header(self._header_name)",
    "_PatternAddrHeaderRule": "msg.get_addr_header(self._header_name)",
    "_PatternNameHeaderRule": "msg.get_name_header(self._header_name)",
    "_PatternMimeHeaderRule": "msg.get_decoded_mime_header(self._header_name)",
    "_PatternMimeRawHeaderRule": "msg.get_raw_mime_header(self._header_name)",
    "_AllHeaderRule": "msg.iter_decoded_headers()",
}
MULTI = {"_ToCcHeaderRule": ("To", "Cc"), "_MessageIDHeaderRule": ("Message-Id", "Resent-Message-Id", "X-Message-Id")}

FNAMES = ("get_decoded_header", "get_raw_header", "get_addr_header", "get_name_header", "get_decoded_mime_header",
          "get_raw_mime_header")


def view_schema():
    def mk(name):
        def f(v, a, k):
            x = v.uf("Message." + name, v.rec(a[0]).term, v.term(a[1], Str), sort_of(ListT(Str)))
            return v.from_term(x, ListT(Str), snap=False)
        return PyFn(f, "Message." + name)

    def it(v, a, k):
        x = v.uf("Message.iter_decoded_headers", v.rec(a[0]).term, sort_of(ListT(Str)))
        return v.from_term(x, ListT(Str), snap=False)
    ms = dict((n, mk(n)) for n in FNAMES)
    ms["iter_decoded_headers"] = PyFn(it, "Message.iter_decoded_headers")
    return {"methods": ms}


def pattern_schema():
    def match(v, a, k):
        r = v.uf("Pattern.match", v.rec(a[0]).term, v.term(a[1], Str), INT)
        v.assume(z3.Or(r == 0, r == 1))
        return Sym("int", r)
    return {"methods": {"match": PyFn(match, "Pattern.match")}}


class Match(SpecContract):
    """a header rule matches iff some value of its view satisfies the pattern"""

    def __init__(self, cls):
        self.cls = cls
        base = "_PatternMimeHeaderRule" if cls == "_PatternMimeHeaderRule" else cls
        self.qual = H + base + ".match"
        if cls in MULTI:
            self.qual = H + "_MultiplePatternHeaderRule.match"
            self.spec = "def match(self, msg):\n    return %s\n" % " or ".join(
                "any(self._pattern.match(value) for value in msg.get_decoded_header(%r))" % h for h in MULTI[cls])
        else:
            self.spec = "def match(self, msg):\n    return any(self._pattern.match(value) for value in %s)\n" % VIEWS[cls]
        self.name = "%s[%s]" % (self.qual, cls)

    def setup(self, v):
        self.msg = obj(v, "Message", "msg")
        self.pat = obj(v, "Pattern", "pattern")
        f = dict(_pattern=self.pat)
        if self.cls not in MULTI and self.cls != "_AllHeaderRule":
            f["_header_name"] = v.fresh(Str, "header_name")
        self.me = obj(v, H + self.cls, "rule", **f)
        return [self.me, self.msg], {}

    def schemas(self):
        return {"Message": view_schema(), "Pattern": pattern_schema()}


class Exists(SpecContract):
    """an existence rule matches iff the header is present"""
    qual = H + "_ExistsHeaderRule.match"
    spec = '''
def match(self, msg):
    return msg.present(self._header_name.lower())
'''

    def setup(self, v):
        self.d = new_dict(v, Str, ListT(Str), "raw_headers")
        self.hdr = v.alloc(ObjRec("oa.message:_Headers", v.fresh_term("hdr", OBJ), dict(data=self.d)))
        self.msg = obj(v, "Message", "msg", raw_headers=self.hdr)
        self.me = obj(v, H + "_ExistsHeaderRule", "rule", _header_name=v.fresh(Str, "header_name"))
        return [self.me, self.msg], {}

    def schemas(self):
        def present(v, a, k):
            return v.b(v.contains(self.d, a[1]))

        return {"Message": {"methods": {"present": PyFn(present, "spec.present")}},
                "oa.message:_Headers": {"methods": {}}}

    def ext(self):
        return headers_ext()


def headers_ext():
    """dict methods of collections.defaultdict on the contents of a _Headers object"""
    def under(name):
        def f(v, a, k):
            d = v.getattr(a[0], "data")
            if name == "__contains__":
                return v.b(v.contains(d, a[1]))
            if name == "__getitem__":
                return v.index(d, a[1])
            if name == "__setitem__":
                v.setitem(d, a[1], a[2])
                return NONE
            return v.call_method(d, name, a[1:], k)
        return f
    return {"super:oa.message:_Headers." + n: under(n) for n in ("__contains__", "__getitem__", "__setitem__", "get")}


class HeadersStore(SpecContract):
    """the header store ignores the case of names"""

    def __init__(self, meth):
        self.meth = meth
        self.qual = "oa.message:_Headers." + meth
        self.spec = {
            "__contains__": "def f(self, k):\n    return k.lower() in self.data\n",
            "__getitem__": "def f(self, k):\n    return self.data[k.lower()]\n",
            "__setitem__": "def f(self, k, x):\n    self.data[k.lower()] = x\n",
            "get": "def f(self, k, d):\n    return self.data.get(k.lower(), d)\n",
        }[meth]
        self.name = self.qual

    def setup(self, v):
        self.d = new_dict(v, Str, Any, "contents")
        self.hdr = v.alloc(ObjRec("oa.message:_Headers", v.fresh_term("hdr", OBJ), dict(data=self.d)))
        a = [self.hdr, v.fresh(Str, "name")]
        if self.meth in ("__setitem__", "get"):
            a.append(v.fresh(Any, "value"))
        return a, {}

    def observe(self, v, a):
        return [("contents", self.d)]

    def ext(self):
        return headers_ext()


class PatternMatch(SpecContract):
    """a pattern matches as its regular expression says, a negated one exactly otherwise"""
    def __init__(self, cls, neg):
        self.cls = cls
        self.qual = "oa.regex:%s.match" % cls
        self.name = self.qual
        self.spec = "def match(self, text):\n    found = self._pattern.search(text)\n    return %s\n" % (
            "0 if found else 1" if neg else "1 if found else 0")

    def setup(self, v):
        self.me = obj(v, "oa.regex:" + self.cls, "pattern", _pattern=obj(v, "Compiled", "compiled"))
        return [self.me, v.fresh(Str, "text")], {}

    def schemas(self):
        def search(v, a, k):
            if v.decide(v.uf("re.found", v.rec(a[0]).term, v.term(a[1], Str), BOOL)):
                return v.new_obj("re.Match")
            return NONE
        return {"Compiled": {"methods": {"search": PyFn(search, "re.Pattern.search")}}}


def contracts():
    return [Match(c) for c in list(VIEWS) + list(MULTI)] + [Exists()] + \
        [HeadersStore(m) for m in ("__contains__", "__getitem__", "__setitem__", "get")] + \
        [PatternMatch("MatchPattern", False), PatternMatch("NotMatchPattern", True)] + views() + \
        [GetRule("HeaderRule", HEADER_RULE_SPEC), GetRule("MimeHeaderRule", MIME_RULE_SPEC)]


def message_schema():
    def dec(v, a, k):
        return Sym("str", v.uf("decoded_value", v.term(a[-1], Str), STR))

    def it(v, a, k):
        x = v.uf("Message.get_decoded_header", v.rec(a[0]).term, v.term(a[1], Str), sort_of(ListT(Str)))
        return v.from_term(x, ListT(Str), snap=False)
    return dec, it


class View(SpecContract):
    """a header view: which values of which headers"""

    def __init__(self, meth, spec, owner):
        self.meth, self.spec = meth, "import email.utils\n\n\ndef f(self, header_name):\n" + spec
        self.qual = MSG + "." + meth
        self.name = self.qual

    def setup(self, v):
        self.raw, self.plug, self.mime = [new_dict(v, Str, ListT(Str), n) for n in ("raw", "plug", "mime")]
        h = lambda d: v.alloc(ObjRec("oa.message:_Headers", v.fresh_term("hdr", OBJ), dict(data=d)))
        self.me = obj(v, MSG, "msg", raw_headers=h(self.raw), headers=h(self.plug), raw_mime_headers=h(self.mime))
        return [self.me] + ([] if self.meth.startswith("iter") else [v.fresh(Str, "header_name")]), {}

    def schemas(self):
        dec, get = message_schema()
        ms = {"_decode_header": PyFn(dec, "Message._decode_header")}
        if self.meth not in ("get_decoded_header", "get_raw_header"):
            ms["get_decoded_header"] = PyFn(get, "Message.get_decoded_header")
        return {MSG: {"methods": ms}}

    def ext(self):
        e = headers_ext()

        def getaddresses(v, a, k):
            x = v.term(v.index(a[0], Const(0)), Str)
            t = ListT(TupT(Str, Str))
            return v.from_term(v.uf("getaddresses", x, sort_of(t)), t, snap=False)
        e["email.utils.getaddresses"] = getaddresses
        return e


def views():
    pick = '''
    out = []
    for value in self.get_decoded_header(header_name):
        found = [%s for (name, addr) in email.utils.getaddresses([value]) if %s]
        out.extend(found%s)
    return out
'''
    first = '''
    out = []
    for value in self.get_decoded_header(header_name):
        for (name, addr) in email.utils.getaddresses([value]):
            if %s:
                out.append(%s)
                break
    return out
'''
    return [
        View("get_raw_header", "    return self.raw_headers.data.get(header_name.lower(), [])\n", None),
        View("get_raw_mime_header", "    return self.raw_mime_headers.data.get(header_name.lower(), [])\n", None),
        View("get_decoded_header", "    return [self._decode_header(x) for x in "
             "self.raw_headers.data.get(header_name.lower(), [])] + self.headers.data.get(header_name.lower(), [])\n", None),
        View("get_decoded_mime_header", "    return [self._decode_header(x) for x in "
             "self.raw_mime_headers.data.get(header_name.lower(), [])]\n", None),
        View("get_addr_header", first % ("addr", "addr"), None),
        View("get_name_header", first % ("name", "name"), None),
        View("get_all_addr_header", pick % ("addr", "addr", ""), None),
    ]


HEADER_RULE_SPEC = '''
import oa.errors

def kind(data):
    value = data["value"]
    if "=~" in value:
        op = "=~"
    elif "!~" in value:
        op = "!~"
    elif value.startswith("exists:"):
        return ("_ExistsHeaderRule", value[len("exists:"):].strip(), None, None)
    else:
        raise oa.errors.InvalidRule("", "")
    name, pattern = value.split(op, 1)
    name = name.strip()
    if name == "ALL":
        return ("_AllHeaderRule", None, pattern, op)
    if name == "ToCc":
        return ("_ToCcHeaderRule", None, pattern, op)
    if name == "MESSAGEID":
        return ("_MessageIDHeaderRule", None, pattern, op)
    if ":" not in name:
        return ("_PatternHeaderRule", name.strip(), pattern, op)
    name, mod = name.rsplit(":", 1)
    if mod == "raw":
        return ("_PatternRawHeaderRule", name.strip(), pattern, op)
    if mod == "addr":
        return ("_PatternAddrHeaderRule", name.strip(), pattern, op)
    if mod == "name":
        return ("_PatternNameHeaderRule", name.strip(), pattern, op)
    raise oa.errors.InvalidRule("", "")
'''

MIME_RULE_SPEC = '''
import oa.errors

def kind(data):
    value = data["value"].strip()
    if "=~" in value:
        op = "=~"
    elif "!~" in value:
        op = "!~"
    else:
        raise oa.errors.InvalidRule("", "")
    name, pattern = value.split(op, 1)
    name = name.strip()
    if ":" not in name:
        return ("_PatternMimeHeaderRule", name.strip(), pattern, op)
    name, mod = name.rsplit(":", 1)
    if mod == "raw":
        return ("_PatternMimeRawHeaderRule", name.strip(), pattern, op)
    raise oa.errors.InvalidRule("", "")
'''


class GetRule(Contract):
    """the configured line decides the view, the header and the (negated) pattern"""

    def __init__(self, cls, spec):
        self.qual = H + cls + ".get_rule"
        self.cls, self.spec = cls, spec
        self.name = self.qual

    def setup(self, v):
        self.data = conf_dict(v, value=Str)
        self.rname = v.fresh(Str, "name")
        self.extras = dict(score=new_list(v, Real, "scores"), desc=v.fresh(Str, "desc"),
                           priority=v.fresh(Str, "priority"), tflags=new_list(v, Str, "tflags"))
        return [v.getattr(ModV("oa.rules.header"), self.cls), self.rname, self.data], {}

    def schemas(self):
        return {}

    def uses(self):
        return {"oa.rules.base:BaseRule.get_rule_kwargs": Model(self.kwargs_model),
                "oa.regex:perl2re": Model(self.perl_model),
                "oa.rules.base:BaseRule.__init__": Model(self.init_model)}

    def kwargs_model(self, v, f, args, kwargs):
        v.check("the line's own data", equal_values(v, args[-1], self.data))
        return v.alloc(DictRec([(Const(k), x) for k, x in sorted(self.extras.items())]))

    def perl_model(self, v, f, args, kwargs):
        op = args[1] if len(args) > 1 else kwargs.get("match_op", Const("=~"))
        t = v.uf("perl2re", v.term(args[0], Str), v.term(op, Str), OBJ)
        if v.decide(v.uf("perl2re.bad", v.term(args[0], Str), BOOL)):
            raise v.exc("oa.errors:InvalidRegex")
        return v.obj_ref(t, "Pattern")

    def init_model(self, v, f, args, kwargs):
        names = ["self", "name", "score", "desc", "priority", "tflags"]
        d = dict(zip(names, args))
        d.update(kwargs)
        for k in names[1:]:
            v.setattr(d["self"], "base_" + k, d.get(k, NONE))
        return NONE

    def post(self, v, a, old, out):
        want = spec_call(v, self.spec, [self.data])
        if out.kind == "raise":
            bad = want.kind == "raise"
            if not bad:
                p = want.value.items[2]
                bad = v.uf("perl2re.bad", v.term(p, Str), BOOL) if not (isinstance(p, Const) and p.v is None) else False
            elif exc_class(out) == "oa.errors:InvalidRegex":
                pass
            v.check("only an invalid line is rejected", bad)
            return
        v.check("an invalid line is rejected", want.kind == "return")
        if want.kind != "return":
            return
        kind, hdr, pat, op = want.value.items
        got = out.value
        v.check("the rule looks at the view of its line", v.rec(got).cls == H + kind.v)
        v.check("the header of its line", same_value(v, v.rec(got).fields.get("_header_name", NONE), hdr))
        if not (isinstance(pat, Const) and pat.v is None):
            t = v.uf("perl2re", v.term(pat, Str), v.term(op, Str), OBJ)
            v.check("the pattern and its negation", v.rec(v.getattr(got, "_pattern")).term == t)
        v.check("the name of its line", equal_values(v, v.getattr(got, "base_name"), self.rname))
        for k, x in self.extras.items():
            v.check("the %s of its line" % k, equal_values(v, v.getattr(got, "base_" + k), x))
