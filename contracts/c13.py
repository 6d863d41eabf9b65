"""C13: reading a request"""
from .common import *

PROPERTY = "C13"
BASE = "oa.protocol.base:BaseProtocol"
CMDS = {"CheckCommand": "oa.protocol.check:CheckCommand", "TellCommand": "oa.protocol.tell:TellCommand",
        "PingCommand": "oa.protocol.noop:PingCommand", "BaseProtocol": BASE}


def log_schema():
    return {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error", "critical")}}


class Options(Contract):
    """the lines up to the first blank one, each 'Name: value', name in lower case, the last one of a name wins"""
    qual = BASE + ".get_options"
    STEP = '''
def step(raw, options):
    line = raw.decode("utf8").strip()
    if not line:
        return 1
    if ":" not in line:
        return 2
    name, value = line.split(":", 1)
    options[name.lower()] = value.strip()
    return 0
'''

    def setup(self, v):
        self.want = empty_symdict(v, Str, Str)
        self.rfile = obj(v, "RFile", "rfile", status=Const(0))
        self.me = obj(v, BASE, "command", rfile=self.rfile, log=obj(v, "Log", "log"))
        return [self.me], {}

    def readline(self, v, a, k):
        v.check("nothing is read after the end of the options", v.eq(v.getattr(self.rfile, "status"), Const(0)))
        raw = v.fresh(Bytes, "line")
        out = spec_call(v, self.STEP, [raw, self.want])
        if out.kind == "raise":
            v.setattr(self.rfile, "status", Const(3))
        else:
            v.setattr(self.rfile, "status", out.value)
        return raw

    def schemas(self):
        return {"RFile": {"methods": {"readline": PyFn(self.readline, "readline")}}, "Log": log_schema()}

    def same(self, v, ref):
        r, w = v.rec(ref), v.rec(self.want)
        if isinstance(r, DictRec):
            r = v.as_symdict(r, DictT(Str, Str))
        if isinstance(w, DictRec):
            w = v.as_symdict(w, DictT(Str, Str))
        if (r.kt, r.vt) != (w.kt, w.vt):
            return None
        return z3.And(r.n == w.n, r.has == w.has, r.val == w.val, r.keys == w.keys)

    def candidates(self, v, L):
        if L.kind != "while":
            return
        yield "more lines", v.k(v.term(v.getattr(self.rfile, "status"), Int)) == 0
        for name, x in sorted(v.store[v.env].vars.items()):
            if isinstance(x, Ref) and isinstance(v.rec(x), (DictRec, SymDict)):
                c = self.same(v, x)
                if c is not None:
                    yield "options:" + name, c

    def post(self, v, a, old, out):
        st = v.term(v.getattr(self.rfile, "status"), Int)
        if out.kind == "return":
            v.check("ends at the first blank line", st == 1)
            v.check("exactly the options that were sent", same_frozen(v, freeze(v, out.value), freeze(v, self.want)))
        elif "oa.errors:InvalidOption" in v.exc_supers(out.exc.cls):
            v.check("an error for a line that is not 'Name: value', and only then", st == 2)
        else:
            v.check("no other error, except for undecodable bytes", z3.And(
                st == 3, z3.BoolVal("UnicodeDecodeError" in v.exc_supers(out.exc.cls))))


class Message(Contract):
    """exactly the bytes sent (at most the announced number), decoded as one text"""
    qual = BASE + ".get_message"

    def __init__(self, announced, compressed):
        self.announced, self.compressed = announced, compressed
        self.name = "%s[%s%s]" % (self.qual, "announced length" if announced else "no length",
                                  ", zlib" if compressed else "")

    def setup(self, v):
        self.data = v.fresh_term("sent", STR)
        self.rfile = obj(v, "RFile", "rfile", pos=Const(0))
        self.me = obj(v, BASE, "command", rfile=self.rfile, log=obj(v, "Log", "log"))
        items = []
        if self.announced:
            self.text = v.fresh(Str, "content_length")
            items.append((Const("content-length"), self.text))
        if self.compressed is not None:
            comp = v.fresh(Str, "compress")
            v.assume((comp.t == z3.StringVal("zlib")) == z3.BoolVal(self.compressed))
            items.append((Const("compress"), comp))
        self.limit = None
        return [self.me, v.alloc(DictRec(items))], {}

    def number(self, v):
        """the announced length -> Out of int(text)"""
        return spec_call(v, "def f(text):\n    return int(text)\n", [self.text])

    def read(self, v, a, k):
        pos = v.term(v.getattr(self.rfile, "pos"), Int)
        n = v.term(a[1], Int)
        got = v.fresh_term("got", INT)
        rest = z3.Length(self.data) - pos
        v.assume(z3.And(0 <= got, got <= rest, z3.Implies(n >= 0, got <= n),
                        z3.Implies(z3.And(n != 0, rest > 0), got > 0), z3.Implies(n < 0, got == rest)))
        if self.announced:
            lim = self.announced_length(v)
            v.check("never reads beyond the announced length", z3.And(n >= 0, pos + n <= lim))
        v.setattr(self.rfile, "pos", Sym("int", pos + got))
        piece = v.fresh_term("piece", STR)
        v.assume(z3.And(z3.Length(piece) == got, piece == z3.SubString(self.data, pos, got)))
        v.assume(self.prefix(v, pos + got) == z3.Concat(self.prefix(v, pos), piece))
        return Sym("bytes", piece)

    def announced_length(self, v):
        o = self.number(v)
        return v.term(o.value, Int) if o.kind == "return" else z3.IntVal(0)

    def schemas(self):
        return {"RFile": {"methods": {"read": PyFn(self.read, "read")}}, "Log": log_schema()}

    def ext(self):
        def decompress(v, a, k):
            return Sym("bytes", v.uf("zlib.decompress", v.term(a[0], Bytes), STR))
        return {"zlib.decompress": decompress}

    def prefix(self, v, n):
        """the first n bytes that were sent"""
        p = v.uf("sent_prefix", v.k(z3.simplify(n)), STR)
        v.assume(z3.Implies(z3.And(0 <= n, n <= z3.Length(self.data)), z3.And(
            p == z3.SubString(self.data, z3.IntVal(0), n), z3.Length(p) == n)))
        return p

    def joined(self, v, ref):
        """what the pieces collected so far make up; the laws of concatenation are assumed of join"""
        r = v.rec(ref)
        if isinstance(r, ListRec):
            if not r.items:
                return z3.StringVal("")
            if not all(isinstance(x, Sym) and x.kind == "bytes" for x in r.items):
                return None
            return z3.Concat(*[x.t for x in r.items]) if len(r.items) > 1 else r.items[0].t
        if r.et != Bytes:
            return None
        J = lambda n, arr: v.uf("strb.join", z3.StringVal(""), n, arr, STR)
        arr, n = r.arr, z3.simplify(r.n)
        if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
            a0, i, x = arr.children()
            if z3.simplify(n - i).eq(z3.IntVal(1)):
                v.assume(J(r.n, arr) == z3.Concat(J(i, a0), x))
                v.assume(J(n, arr) == J(r.n, arr))
                v.assume(z3.Implies(i == 0, J(i, a0) == z3.StringVal("")))
        v.assume(z3.Implies(r.n == 0, J(r.n, arr) == z3.StringVal("")))
        return J(r.n, arr)

    def candidates(self, v, L):
        if L.kind != "while":
            return
        pos = v.term(v.getattr(self.rfile, "pos"), Int)
        yield "position", z3.And(0 <= pos, pos <= z3.Length(self.data))
        lim = None
        if self.announced:
            lim = self.announced_length(v)
            yield "limit", z3.And(pos <= lim)
        for name, x in sorted(v.store[v.env].vars.items()):
            if isinstance(x, Ref) and isinstance(v.rec(x), (ListRec, SymList)):
                j = self.joined(v, x)
                if j is not None:
                    yield "pieces:" + name, j == self.prefix(v, pos)
            elif isinstance(x, Sym) and x.kind == "int" and lim is not None:
                yield "left:" + name, x.t == lim - pos
                yield "done:" + name, x.t == pos
            elif isinstance(x, Sym) and x.kind == "bytes" or isinstance(x, Const) and isinstance(x.v, bytes):
                yield "text:" + name, v.term(x, Bytes) == self.prefix(v, pos)

    def post(self, v, a, old, out):
        size = z3.Length(self.data)
        if self.announced:
            o = self.number(v)
            bad = o.kind == "raise"
            if not bad:
                bad = v.decide(v.term(o.value, Int) < 0)
            if bad:
                v.check("a malformed length is an error", out.kind == "raise" and
                        "oa.errors:InvalidOption" in v.exc_supers(out.exc.cls))
                v.check("nothing is read", v.eq(v.getattr(self.rfile, "pos"), Const(0)))
                return
            lim = v.term(o.value, Int)
            size = z3.If(lim < size, lim, size)
        raw = self.prefix(v, size)
        if self.compressed:
            raw = v.uf("zlib.decompress", raw, STR)
        want = spec_call(v, "def f(raw):\n    return raw.decode('utf8')\n", [Sym("bytes", v.k(raw))])
        same_outcome(v, out, want, "the message")


HANDLE = '''
import oa.errors
import oa.message

def run(self):
    message = None
    options = {}
    try:
        if self.has_options:
            options = self.get_options()
        self.ruleset = self.server.get_user_ruleset(options.get("user"))
        if self.has_message:
            message = oa.message.Message(self.ruleset.ctxt, self.get_message(options))
    except oa.errors.InvalidOption as e:
        self.wfile.write(("SPAMD/%s 76 Bad header line: (%s)\\r\\n" % (self.version, e)).encode("utf8"))
        return
    self.wfile.write(("SPAMD/%s 0 %s\\r\\n" % (self.version, self.ok_code)).encode("utf8"))
    for response in self.handle(message, options):
        self.wfile.write(response.encode("utf8"))
'''


class Handle(TraceContract):
    """options, then the user's rule set, then the message; a malformed request is answered with an error and
    never handled; otherwise the command is run once and everything it yields is written in order"""
    qual = BASE + ".get_and_handle"
    spec = HANDLE
    result = False

    def __init__(self, cls):
        self.cls = CMDS[cls]
        self.name = "%s[%s]" % (self.qual, cls)

    def setup(self, v):
        self.written = v.alloc(ListRec([]))
        self.wfile = obj(v, "WFile", "wfile", written=empty_symlist(v, Bytes))
        self.ctxt = obj(v, "Ctxt", "ctxt")
        self.server = obj(v, "Server", "server")
        self.me = obj(v, self.cls, "command", wfile=self.wfile, server=self.server, log=obj(v, "Log", "log"),
                      ruleset=obj(v, "RuleSet", "default_ruleset"))
        self.opts = new_dict(v, Str, Str, "options")
        self.responses = new_list(v, Str, "responses")
        self.text = v.fresh(Str, "text")
        self.message = obj(v, "Message", "message")
        self.errors, self._rs = {}, None
        return [self.me], {}

    def spec_args(self, v, a):
        return [self.me]

    def observe(self, v, a):
        return [("what is written", v.getattr(self.wfile, "written")), ("the rule set", v.getattr(self.me, "ruleset"))]

    def schemas(self):
        def write(v, a, k):
            v.call_method(v.getattr(self.wfile, "written"), "append", [a[1]])
            return NONE

        def fails(tag):
            def f(v):
                if v.decide(v.uf(tag + "_bad", z3.IntVal(0), BOOL)):
                    raise self.error(v, tag)
                if v.decide(v.uf(tag + "_fails", z3.IntVal(0), BOOL)):
                    raise v.exc("OTHER")
            return f

        def get_options(v, a, k):
            self.emit(v, "options")
            fails("options")(v)
            return self.opts

        def get_message(v, a, k):
            self.emit(v, "message", a[1] if len(a) > 1 else k["options"])
            fails("message")(v)
            return self.text

        def user(v, a, k):
            u = a[1] if len(a) > 1 else k.get("user", NONE)
            self.emit(v, "user", u)
            return obj(v, "RuleSet", "user_ruleset", ctxt=self.ctxt) if False else self.rs(v)

        def handle(v, a, k):
            m = a[1]
            if isinstance(m, Ref) and isinstance(v.rec(m), ObjRec):
                m = Tup((v.getattr(m, "made_ctxt"), v.getattr(m, "made_text")))
            self.emit(v, "handle", m, a[2])
            if v.decide(v.uf("handle_fails", z3.IntVal(0), BOOL)):
                raise v.exc("OTHER")
            return self.responses

        m = {"get_options": PyFn(get_options, "get_options"), "get_message": PyFn(get_message, "get_message"),
             "handle": PyFn(handle, "handle")}
        return {"WFile": {"methods": {"write": PyFn(write, "write")}}, "Log": log_schema(), "Ctxt": {},
                "RuleSet": {}, "Message": {},
                "Server": {"methods": {"get_user_ruleset": PyFn(user, "get_user_ruleset")}},
                self.cls: {"methods": m, "fields": {"version": Str}}}

    def error(self, v, tag):
        if tag not in self.errors:
            self.errors[tag] = v.exc("oa.errors:InvalidOption")
        return self.errors[tag]

    def rs(self, v):
        if getattr(self, "_rs", None) is None or self._rs.id not in v.store:
            self._rs = obj(v, "RuleSet", "user_ruleset", ctxt=self.ctxt)
        return self._rs

    def uses(self):
        def init(v, f, a, k):
            v.setattr(a[0], "made_ctxt", a[1])
            v.setattr(a[0], "made_text", a[2])
            self.emit(v, "make", a[1], a[2])
            return NONE
        return {"oa.message:Message.__init__": Model(init)}

    def ext(self):
        return {"global:oa:__version__": lambda v: v.getattr(self.me, "version")}


def contracts():
    return [Options()] + [Message(x, c) for x in (True, False) for c in (None, True, False)] + \
        [Handle(c) for c in ("CheckCommand", "TellCommand", "PingCommand")]
