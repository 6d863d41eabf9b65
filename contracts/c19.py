"""C19: the auto-whitelist"""
import re

from .common import *

PROPERTY = "C19"
PLUGIN = "oa.plugins.awl:AutoWhiteListPlugin"
F = lambda f, n="f": PyFn(f, n)
KEY = ("username", "email", "signedby", "ip")
COLS = KEY + ("count", "totscore")
RELAY, IP, PARAM, ENGINE = ObjT("Relay"), ObjT("Ip"), ObjT("Param"), ObjT("Engine")
LOG = {"methods": {n: noop_method(n) for n in ("debug", "info", "warning", "warn", "error", "critical")}}
DB = ("the table holds at most one row per (username, email, signedby, ip), its primary key",
      "the data base answers (no connection or statement fails)")


def row(v, what, key, sort):
    return v.uf("row." + what, *([v.term(k, Str) for k in key] + [sort]))


def tags_code(total, count):
    """what happens to the score, the tags and the totals, as Python text"""
    return '''
    mean = %(t)s / %(c)s if %(c)s else 0
    if mean:
        delta = factor * (mean - score)
        msg.plugin_tags["AWL"] = "%%2.1f" %% delta
        msg.plugin_tags["AWLMEAN"] = "%%2.1f" %% mean
        msg.plugin_tags["AWLCOUNT"] = "%%2.1f" %% %(c)s
        msg.plugin_tags["AWLPRESCORE"] = "%%2.1f" %% msg.score
        msg.score = msg.score + delta
''' % dict(t=total, c=count)


class Awl(object):
    trusts = DB

    def base_schemas(self):
        return {"Ctxt": {}, "Log": LOG, "Msg": {}, "Ip": {}}

    def emit_row(self, v, tag, d):
        self.emit(v, tag, *[d[k] for k in COLS if k in d])

    def message(self, v):
        self.tags = v.alloc(DictRec([]))
        self.msg = obj(v, "Msg", "msg", score=v.fresh(Real, "msg_score"), plugin_tags=self.tags)
        return self.msg

    def plugin(self, v, **fields):
        self.ctxt = obj(v, "Ctxt", "ctxt", log=obj(v, "Log", "log"), username=v.fresh(Str, "username"))
        return obj(v, PLUGIN, "plugin", ctxt=self.ctxt, **fields)

    def adjust_args(self, v):
        """origin_ip, addr, signed_by, score, factor"""
        return [self.origin, v.fresh(Str, "addr"), v.fresh(Str, "signed_by"), v.fresh(Real, "score"), v.fresh(Real, "factor")]

    def observe(self, v, a):
        return [("score", v.getattr(self.msg, "score")), ("tags", self.tags)]


class Adjust(Awl, TraceContract):
    """the score moves toward the mean of the sender, and the message counts once in the history"""
    qual = PLUGIN + ".plugin_tags_sqlalch"
    result = False
    spec = "def run(self, msg, origin_ip, addr, signed_by, score, factor, entry, env):" + tags_code("entry.totscore", "entry.count") + '''
    entry.count = entry.count + 1
    entry.totscore = entry.totscore + score
    env.merge(entry)
    env.commit()
'''

    def setup(self, v):
        self.origin = v.obj_ref(v.fresh_term("origin", OBJ), "Ip") if v.decide(v.fresh_term("has_origin", BOOL)) else NONE
        self.entry = obj(v, "Entry", "entry", count=v.fresh(Int, "count"), totscore=v.fresh(Real, "totscore"),
                         **{k: v.fresh(Str, k) for k in KEY})
        self.session = obj(v, "Session", "session")
        return [self.plugin(v), self.message(v)] + self.adjust_args(v) + [self.entry], {}

    def schemas(self):
        merge = lambda v, a, k: self.emit_row(v, "merge", {c: v.getattr(a[1], c) for c in COLS}) or a[1]
        m = {"merge": F(merge), "add": F(merge), "commit": F(lambda v, a, k: self.emit(v, "commit") or NONE)}
        return dict(self.base_schemas(), Entry={}, Env={"methods": m}, Session={"methods": dict(m, close=noop_method("close"))})

    def uses(self):
        return {"oa.plugins.base:BasePlugin.get_session": Model(lambda v, f, a, k: self.session)}

    def observe(self, v, a):
        return Awl.observe(self, v, a) + [(c, v.getattr(self.entry, c)) for c in COLS]

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]


# ------------------------------------------------------------ the statements sent to MySQL
def statement(v, text, params):
    """(kind, columns or {column: value}, {column: value} of the condition)"""
    if not isinstance(text, Const) or not isinstance(text.v, str):
        raise Unsupported("a computed statement")
    s = " ".join(text.v.split())
    if isinstance(params, Ref):
        params = v.rec(params)
        if not isinstance(params, ListRec):
            raise Unsupported("the parameters of a statement")
    params = list(params.items) if isinstance(params, (Tup, ListRec)) else [params]
    v.check("as many parameters as the statement has places", s.count("%s") == len(params))
    it = iter(params)

    def value(x):
        x = x.strip()
        if x == "%s":
            return next(it)
        if re.match(r"^'[^']*'$", x):
            return Const(x[1:-1])
        if re.match(r"^\d+$", x):
            return Const(int(x))
        raise Unsupported("SQL value " + x)

    def assigned(x, sep):
        d = {}
        for part in re.split(sep, x, flags=re.I):
            col, val = part.split("=", 1)
            d[col.strip(" `").lower()] = value(val)
        return d
    cond = lambda x: assigned(x, r"\s+AND\s+") if x else {}
    m = re.match(r"SELECT (.*?) FROM awl(?: WHERE (.*))?$", s, re.I)
    if m:
        cols = [c.strip(" `").lower() for c in m.group(1).split(",")]
        return "select", cols, cond(m.group(2))
    m = re.match(r"UPDATE awl SET (.*?)(?: WHERE (.*))?$", s, re.I)
    if m:
        sets = assigned(m.group(1), ",")
        return "update", sets, cond(m.group(2))
    m = re.match(r"INSERT INTO awl ?(?:\(([^)]*)\))? ?VALUES ?\(([^)]*)\)$", s, re.I)
    if m:
        cols = [c.strip(" `").lower() for c in m.group(1).split(",")] if m.group(1) else [
            "username", "email", "ip", "count", "totscore", "signedby"]
        return "insert", dict(zip(cols, [value(x) for x in m.group(2).split(",")])), {}
    raise Unsupported("SQL statement " + s)


class MySql(Awl):
    """A table of rows that are functions of their key; statements are read from their text"""
    trusts = DB + ("the SQL statements the plugin uses do what SQL says (SELECT, UPDATE, INSERT of one table)",)

    def schemas(self):
        return dict(self.base_schemas(), Conn={"methods": {"cursor": F(lambda v, a, k: self.cursor), "close": noop_method("close"),
                                                           "commit": F(lambda v, a, k: self.emit(v, "commit") or NONE)}},
                    Cursor={"methods": {"execute": F(self.execute), "close": noop_method("close"),
                                        "fetchall": F(lambda v, a, k: v.alloc(ListRec(list(self.rows)))),
                                        "fetchone": F(lambda v, a, k: self.rows[0] if self.rows else NONE)}},
                    Env={"methods": {"commit": F(lambda v, a, k: self.emit(v, "commit") or NONE),
                                     "exists": F(lambda v, a, k: Sym("bool", row(v, "exists", a[1:], BOOL))),
                                     "count": F(lambda v, a, k: Sym("int", row(v, "count", a[1:], INT))),
                                     "totscore": F(lambda v, a, k: Sym("real", row(v, "totscore", a[1:], REAL))),
                                     "row": F(lambda v, a, k: self.the_row(v, a[1:], COLS)),
                                     "key": F(self.masked),
                                     "update": F(lambda v, a, k: self.emit(v, "update", *a[1:]) or NONE),
                                     "insert": F(lambda v, a, k: self.emit(v, "insert", *a[1:]) or NONE)}})

    def masked(self, v, a, k):
        ip = a[1]
        if isinstance(ip, Const) and ip.v is None:
            return Const("none")
        return Sym("str", v.uf("masked", v.term(ip), STR))

    def the_row(self, v, key, cols):
        full = dict(zip(KEY, key))
        val = {"count": lambda: Sym("int", row(v, "count", key, INT)), "totscore": lambda: Sym("real", row(v, "totscore", key, REAL))}
        order = ["username", "email", "ip", "count", "totscore", "signedby"]
        return Tup([val[c]() if c in val else full[c] for c in (order if list(cols) == ["*"] or cols is COLS else cols)])

    def execute(self, v, a, k):
        kind, what, cond = statement(v, a[1], a[2] if len(a) > 2 else Tup([]))
        if kind != "insert":
            v.check("%s: the row of one sender only" % kind, set(cond) == set(KEY))
        if kind == "insert":
            v.check("a row is complete", set(what) == set(COLS))
            self.emit_row(v, "insert", what)
            return Const(1)
        key = [cond[c] for c in KEY]
        there = v.decide(row(v, "exists", key, BOOL))
        if kind == "select":
            self.rows = [self.the_row(v, key, what)] if there else []
            return Const(len(self.rows))
        if there:
            self.emit(v, "update", *(key + [what.get(c, NONE) for c in COLS]))
        return Const(1 if there else 0)

    def uses(self):
        return {PLUGIN + ".ip_to_awl_key": Model(lambda v, f, a, k: Sym("str", v.uf("masked", v.term(a[1]), STR)))}

    def ext(self):
        return {"pymysql.connect": lambda v, a, k: self.conn}

    def connection(self, v):
        self.rows = []
        self.conn, self.cursor = obj(v, "Conn", "conn"), obj(v, "Cursor", "cursor")
        self.engine = conf_dict(v, hostname=Str, user=Str, password=Str, db_name=Str)

    def spec_args(self, v, a):
        self.rows = []
        return a + [obj(v, "Env", "env")]


class AdjustMySql(MySql, TraceContract):
    """the same with the history in MySQL: the row of this sender is read and written, no other"""
    qual = PLUGIN + ".plugin_tags_mysql"
    result = False
    spec = '''
def run(self, msg, origin_ip, addr, signed_by, score, factor, env):
    key = env.key(origin_ip)
    user = self.ctxt.username
    total, count = env.totscore(user, addr, signed_by, key), env.count(user, addr, signed_by, key)
''' + tags_code("total", "count") + '''
    env.update(user, addr, signed_by, key, None, None, None, None, count + 1, total + score)
    env.commit()
'''

    def setup(self, v):
        self.connection(v)
        self.origin = v.obj_ref(v.fresh_term("origin", OBJ), "Ip") if v.decide(v.fresh_term("has_origin", BOOL)) else NONE
        args = self.adjust_args(v)
        me = self.plugin(v, engine=self.engine)
        # get_entry has made sure that there is a row
        ip = Const("none") if self.origin is NONE else Sym("str", v.uf("masked", v.term(self.origin), STR))
        v.assume(row(v, "exists", [v.getattr(self.ctxt, "username"), args[1], args[2], ip], BOOL))
        return [me, self.message(v)] + args, {}


class EntryMySql(MySql, TraceContract):
    """there is a row for the key afterwards: the one there was, the one of the unknown origin moved here, or a new one"""
    qual = PLUGIN + ".get_mysql_entry"
    result = False
    spec = '''
def run(self, address, ip, signed_by, env):
    user = self.ctxt.username
    if env.exists(user, address, signed_by, ip):
        return
    if env.exists(user, address, signed_by, "none"):
        env.update(user, address, signed_by, "none", None, None, None, ip, None, None)
        env.commit()
        return
    env.insert(user, address, signed_by, ip, 0, 0)
    env.commit()
'''

    def setup(self, v):
        self.connection(v)
        return [self.plugin(v, engine=self.engine), v.fresh(Str, "address"), v.fresh(Str, "ip"), v.fresh(Str, "signed_by")], {}

    def observe(self, v, a):
        return []

    def emit(self, v, tag, *vals):
        # a commit without a change before it does nothing
        if tag == "commit" and not (v.trace and v.trace[-1][0] != "commit"):
            return
        TraceContract.emit(self, v, tag, *vals)


# ------------------------------------------------------------ SQLAlchemy
class Entry(Awl, Contract):
    """the entry of the key, the one of the unknown origin moved here, or a new one without history"""
    name = qual = PLUGIN + ".get_sqlalch_entry"

    def schemas(self):
        def cond(col):
            return F(lambda v, a, k: v.alloc(ObjRec("Cond", v.fresh_term("cond", OBJ), {"col": Const(col), "val": a[1]})))

        def filtered(v, a, k):
            conds = list(v.getattr(a[0], "conds").items)
            for c in a[1:]:
                conds.append(Tup([v.getattr(c, "col"), v.getattr(c, "val")]))
            for n, x in k.items():
                conds.append(Tup([Const(n), x]))
            return v.alloc(ObjRec("Query", v.fresh_term("query", OBJ), {"conds": Tup(conds)}))

        def first(v, a, k):
            d = {}
            for c in v.getattr(a[0], "conds").items:
                v.check("one condition per column", c.items[0].v not in d)
                d[c.items[0].v] = c.items[1]
            v.check("looked up by the whole key", set(d) == set(KEY))
            key = [d[c] for c in KEY]
            if not v.decide(row(v, "exists", key, BOOL)):
                return NONE
            return v.alloc(ObjRec("Entry", v.fresh_term("entry", OBJ), dict(
                d, count=Sym("int", row(v, "count", key, INT)), totscore=Sym("real", row(v, "totscore", key, REAL)))))
        query = F(lambda v, a, k: v.alloc(ObjRec("Query", v.fresh_term("query", OBJ), {"conds": Tup([])})))
        s = dict(self.base_schemas(), Entry={}, Cond={}, Table={"methods": {"__call__": F(lambda v, a, k: v.alloc(
            ObjRec("Entry", v.fresh_term("entry", OBJ), dict({c: NONE for c in COLS}, **k))))}},
            Session={"methods": {"query": query, "close": noop_method("close")}},
            Query={"methods": {"filter": F(filtered), "filter_by": F(filtered), "first": F(first), "one_or_none": F(first)}})
        for c in KEY:
            s["Column " + c] = {"methods": {"__eq__": cond(c)}}
        return s

    def ext(self):
        return {"global:oa.plugins.awl:AWL": lambda v: self.table}

    def uses(self):
        return {"oa.plugins.base:BasePlugin.get_session": Model(lambda v, f, a, k: self.session)}

    def setup(self, v):
        self.table = obj(v, "Table", "AWL", **{c: obj(v, "Column " + c, c) for c in KEY})
        self.session = obj(v, "Session", "session")
        return [self.plugin(v), v.fresh(Str, "address"), v.fresh(Str, "ip"), v.fresh(Str, "signed_by")], {}

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        v.check("an entry is returned", isinstance(out.value, Ref))
        want = dict(username=v.getattr(self.ctxt, "username"), email=a[1], signedby=a[3], ip=a[2])
        for c in KEY:
            v.check("%s of the entry" % c, equal_values(v, v.getattr(out.value, c), want[c]))
        key = [want[c] for c in KEY]
        none = key[:3] + [Const("none")]
        for c, sort, t in (("count", INT, Int), ("totscore", REAL, Real)):
            v.check("%s of the entry" % c, v.term(v.getattr(out.value, c), t) == z3.If(
                row(v, "exists", key, BOOL), row(v, c, key, sort), z3.If(row(v, "exists", none, BOOL), row(v, c, none, sort), 0)))


class GetEntry(Awl, TraceContract):
    """the store the configuration names is asked for the entry"""
    qual = PLUGIN + ".get_entry"
    spec = '''
def run(self, address, ip, signed_by, env):
    self.engine = env.engine()
    if env.only_mysql():
        self.has_mysql = True
        return env.mysql(address, ip, signed_by)
    return env.sqlalch(address, ip, signed_by)
'''

    def setup(self, v):
        self.sqlalchemy = v.fresh(Bool, "has_sqlalchemy")
        self.me = self.plugin(v, has_mysql=FALSE, engine=NONE)
        self.is_dict = v.decide(v.fresh_term("mysql_engine", BOOL))
        self.engine = new_dict(v, Str, Str, "engine", default=Const("")) if self.is_dict else obj(v, "Engine", "engine")
        return [self.me, v.fresh(Str, "address"), v.fresh(Str, "ip"), v.fresh(Str, "signed_by")], {}

    def schemas(self):
        return dict(self.base_schemas(), Engine={}, Entry={}, Env={"methods": {
            "engine": F(lambda v, a, k: self.engine), "mysql": F(lambda v, a, k: self.ask(v, "mysql", a)),
            "sqlalch": F(lambda v, a, k: self.ask(v, "sqlalch", a)),
            "only_mysql": F(lambda v, a, k: Sym("bool", z3.And(z3.BoolVal(self.is_dict), z3.Not(v.term(self.sqlalchemy)))))}})

    def ask(self, v, which, a):
        self.emit(v, which, *a[1:])
        return v.obj_ref(v.uf("entry_" + which, *[v.term(x, Str) for x in a[1:]] + [OBJ]), "Entry")

    def uses(self):
        return {"oa.plugins.base:BasePlugin.get_engine": Model(lambda v, f, a, k: self.engine),
                PLUGIN + ".get_mysql_entry": Model(lambda v, f, a, k: self.ask(v, "mysql", a)),
                PLUGIN + ".get_sqlalch_entry": Model(lambda v, f, a, k: self.ask(v, "sqlalch", a))}

    def ext(self):
        return {"global:oa.plugins.awl:has_sqlalchemy": lambda v: self.sqlalchemy}

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]

    def observe(self, v, a):
        return [("engine", v.getattr(self.me, "engine")), ("has_mysql", v.getattr(self.me, "has_mysql"))]


class Check(Awl, TraceContract):
    """the entry of the sender, signer and masked origin is used, with the score as it was"""
    qual = PLUGIN + ".check_from_in_auto_whitelist"
    spec = '''
def run(self, msg, target, env):
    score, factor = msg.score, env.factor()
    ip = env.local("originip")
    key = env.key(ip) if ip else "none"
    entry = env.entry(env.local("from"), key, env.local("signedby"))
    if self.has_mysql:
        env.mysql(msg, ip, env.local("from"), env.local("signedby"), score, factor)
    else:
        env.sqlalch(msg, ip, env.local("from"), env.local("signedby"), score, factor, entry)
    return False
'''

    def setup(self, v):
        self.origin = v.obj_ref(v.fresh_term("origin", OBJ), "Ip") if v.decide(v.fresh_term("has_origin", BOOL)) else NONE
        self.locals = {"originip": self.origin, "from": v.fresh(Str, "addr"), "signedby": v.fresh(Str, "signed")}
        self.factor = v.fresh(Real, "factor")
        return [self.plugin(v, has_mysql=v.fresh(Bool, "has_mysql")), self.message(v), NONE], {}

    def local(self, v, n):
        if not isinstance(n, Const) or n.v not in self.locals:
            raise Unsupported("stored under another name: %r" % (n,))
        return self.locals[n.v]

    def key(self, v, x):
        return Sym("str", v.uf("masked", v.term(x), STR))

    def entry(self, v, a):
        self.emit(v, "entry", *a)
        return v.obj_ref(v.uf("entry", *[v.term(x, Str) for x in a] + [OBJ]), "Entry")

    def adjust(self, v, kind, a):
        self.emit(v, kind, *a)
        # the score afterwards is given by the contract of that function
        v.setattr(a[0], "score", Sym("real", v.uf("score_after_" + kind, v.term(a[4], Real), REAL)))
        return NONE

    def conf(self, v, n):
        if not (isinstance(n, Const) and n.v == "auto_whitelist_factor"):
            raise Unsupported("another option: %r" % (n,))
        return self.factor

    def schemas(self):
        return dict(self.base_schemas(), Entry={}, Env={"methods": {
            "factor": F(lambda v, a, k: self.factor), "local": F(lambda v, a, k: self.local(v, a[1])),
            "key": F(lambda v, a, k: self.key(v, a[1])), "entry": F(lambda v, a, k: self.entry(v, a[1:])),
            "mysql": F(lambda v, a, k: self.adjust(v, "mysql", a[1:])), "sqlalch": F(lambda v, a, k: self.adjust(v, "sqlalch", a[1:]))}})

    def uses(self):
        return {"oa.conf:Conf.__getitem__": Model(lambda v, f, a, k: self.conf(v, a[1])),
                "oa.conf:Conf.get_global": Model(lambda v, f, a, k: self.conf(v, a[1])),
                "oa.conf:Conf.get_local": Model(lambda v, f, a, k: self.local(v, a[2])),
                PLUGIN + ".ip_to_awl_key": Model(lambda v, f, a, k: self.key(v, a[1])),
                PLUGIN + ".get_entry": Model(lambda v, f, a, k: self.entry(v, a[1:])),
                PLUGIN + ".plugin_tags_mysql": Model(lambda v, f, a, k: self.adjust(v, "mysql", a[1:])),
                PLUGIN + ".plugin_tags_sqlalch": Model(lambda v, f, a, k: self.adjust(v, "sqlalch", a[1:]))}

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]


# ------------------------------------------------------------ the key
class Key(SpecContract):
    """the network of the address by the mask of its version, without the zeros at the end"""
    qual = PLUGIN + ".ip_to_awl_key"
    trusts = ("ipaddress gives the network of an address", "Regex.sub removes the ending .0 parts")
    spec = '''
def run(self, ip, env):
    return env.stripped(env.network(ip, env.v4() if ip.version == 4 else env.v6()))
'''

    def setup(self, v):
        self.masks = {"auto_whitelist_ipv%d_mask_len" % n: v.fresh(Int, "mask%d" % n) for n in (4, 6)}
        return [obj(v, PLUGIN, "plugin"), obj(v, "Ip", "ip", version=v.fresh(Int, "version"))], {}

    def network(self, v, ip, mask):
        return v.obj_ref(v.uf("network", v.term(ip), v.term(mask, Int), OBJ), "Net")

    def interface(self, v, a, k):
        # made of "address/length" or of the pair
        x = a[0]
        if isinstance(x, Tup) and len(x.items) == 2:
            ip, mask = x.items
            return v.alloc(ObjRec("Interface", v.fresh_term("interface", OBJ), {"network": self.network(v, ip, mask)}))
        return v.alloc(ObjRec("Interface", v.fresh_term("interface", OBJ), {"network": v.obj_ref(
            v.uf("network_of_text", v.term(x, Str), OBJ), "Net")}))

    def schemas(self):
        def stripped(v, a, k):
            return Sym("str", v.uf("stripped", v.term(a[-1], Str), STR))
        return {"Ip": {}, "Interface": {}, "Net": {"fields": {"network_address": ObjT("Address")}}, "Address": {},
                "Regex": {"methods": {"sub": F(lambda v, a, k: v.check("the zeros are removed", v.eq(a[1], Const(""))) or stripped(v, a[2:3], k))}},
                "Env": {"methods": {
                    "stripped": F(lambda v, a, k: stripped(v, a[1:], k)),
                    "network": F(lambda v, a, k: Sym("str", v.str_of(v.getattr(v.obj_ref(v.uf("network_of_text", v.term(self.text(v, a[1], a[2]), Str), OBJ), "Net"),
                                                                    "network_address")))),
                    "v4": F(lambda v, a, k: self.masks["auto_whitelist_ipv4_mask_len"]),
                    "v6": F(lambda v, a, k: self.masks["auto_whitelist_ipv6_mask_len"])}}}

    def text(self, v, ip, mask):
        return v.binop(I.ast.Mod(), Const("%s/%s"), Tup([ip, mask]))

    def uses(self):
        def conf(v, f, a, k):
            if not isinstance(a[1], Const) or a[1].v not in self.masks:
                raise Unsupported("another option: %r" % (a[1],))
            return self.masks[a[1].v]
        return {"oa.conf:Conf.__getitem__": Model(conf), "oa.conf:Conf.get_global": Model(conf)}

    def ext(self):
        return {"ipaddress.ip_interface": self.interface, "ipaddress.ip_network": self.interface,
                "global:oa.plugins.awl:IPV4SUFFIXRE": lambda v: obj(v, "Regex", "suffix")}

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]


class Origin(Contract):
    """the address of the relay farthest away that has a public one"""
    name = qual = PLUGIN + "._get_origin_ip"
    trusts = ("the ip of a relay is the text of an address, and ipaddress reads it",)

    def setup(self, v):
        self.trusted, self.untrusted = new_list(v, RELAY, "trusted"), new_list(v, RELAY, "untrusted")
        return [obj(v, PLUGIN, "plugin"), obj(v, "Msg", "msg", trusted_relays=self.trusted, untrusted_relays=self.untrusted)], {}

    def schemas(self):
        ipkey = lambda v, x: v.eq(x, Const("ip")) is True

        def contains(v, a, k):
            if not ipkey(v, a[1]):
                raise Unsupported("another key")
            return Sym("bool", v.uf("has_ip", v.term(a[0], RELAY), BOOL))

        def get(v, a, k):
            if not ipkey(v, a[1]):
                raise Unsupported("another key")
            if not v.decide(v.uf("has_ip", v.term(a[0], RELAY), BOOL)):
                raise v.exc("KeyError")
            return Sym("str", v.uf("relay_ip", v.term(a[0], RELAY), STR))

        def get_default(v, a, k):
            if not ipkey(v, a[1]):
                raise Unsupported("another key")
            if not v.decide(v.uf("has_ip", v.term(a[0], RELAY), BOOL)):
                return a[2] if len(a) > 2 else NONE
            return Sym("str", v.uf("relay_ip", v.term(a[0], RELAY), STR))
        return {"Relay": {"methods": {"__contains__": F(contains), "__getitem__": F(get), "get": F(get_default)}}, "Msg": {},
                "Ip": {"fields": {"is_private": Bool}}}

    def ext(self):
        return {"ipaddress.ip_address": lambda v, a, k: v.obj_ref(v.uf("address", v.term(a[0], Str), OBJ), "Ip")}

    def ip(self, v, r):
        return v.uf("address", v.uf("relay_ip", r, STR), OBJ)

    def public(self, v, r):
        return z3.And(v.uf("has_ip", r, BOOL), z3.Not(v.uf("Ip.is_private", self.ip(v, r), BOOL)))

    def at(self, v, j):
        """the j-th relay, the farthest away first"""
        t, u = v.rec(self.trusted), v.rec(self.untrusted)
        return z3.If(j < u.n, sel(u.arr, u.n - 1 - j), sel(t.arr, t.n - 1 - (j - u.n)))

    def candidates(self, v, L):
        if L.kind == "for":
            yield "none before is public", forall(v, [INT], lambda j: z3.Implies(rng(0, j, L.i), z3.Not(self.public(v, self.at(v, j)))))

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        n = v.rec(self.trusted).n + v.rec(self.untrusted).n
        none = forall(v, [INT], lambda j: z3.Implies(rng(0, j, n), z3.Not(self.public(v, self.at(v, j)))))
        if isinstance(out.value, Const):
            v.check("no address only if no relay has a public one", z3.And(z3.BoolVal(out.value.v is None), none))
            return
        v.check("the address of the farthest relay with a public one", exists(v, [INT], lambda j: z3.And(
            rng(0, j, n), self.public(v, self.at(v, j)), self.ip(v, self.at(v, j)) == v.term(out.value),
            forall(v, [INT], lambda i: z3.Implies(rng(0, i, j), z3.Not(self.public(v, self.at(v, i))))))))
        v.check("the relays are left as they are", z3.And(v.rec(self.trusted).n == old[self.trusted.id].n, v.rec(self.untrusted).n == old[
            self.untrusted.id].n))


class Metadata(Awl, TraceContract):
    """the sender, the signer and the origin are stored for the message"""
    qual = PLUGIN + ".parsed_metadata"
    spec = '''
def run(self, msg, env):
    env.store("from", env.sender(msg))
    env.store("signedby", env.signer(msg))
    env.store("originip", env.origin(msg))
'''

    values = dict.fromkeys(("sender", "signer", "origin"))

    def setup(self, v):
        self.values = {"sender": v.fresh(Str, "sender"), "signer": v.fresh(Str, "signer"), "origin": obj(v, "Ip", "origin")}
        return [self.plugin(v), self.message(v)], {}

    def schemas(self):
        return dict(self.base_schemas(), Env={"methods": dict(
            {n: F(lambda v, a, k, n=n: self.values[n]) for n in self.values}, store=F(lambda v, a, k: self.store(v, a[1:])))})

    def store(self, v, a):
        self.kept[a[0].v] = freeze(v, a[1])
        return NONE

    def uses(self):
        m = lambda n: Model(lambda v, f, a, k: self.values[n])
        return {PLUGIN + "._get_from": m("sender"), PLUGIN + "._get_signed_by": m("signer"), PLUGIN + "._get_origin_ip": m("origin"),
                "oa.conf:Conf.set_local": Model(lambda v, f, a, k: self.emit(v, a[2].v, a[1], a[3]) or NONE)}

    def post(self, v, a, old, out):
        no_exception(v, out)
        want = {"from": "sender", "signedby": "signer", "originip": "origin"}
        v.check("each is stored once", sorted(t for t, x in v.trace) == sorted(want))
        for t, xs in v.trace:
            v.check("%s: for this message" % t, same_frozen(v, xs[0], freeze(v, a[1])))
            v.check("%s as found" % t, same_frozen(v, xs[1], freeze(v, self.values[want[t]])))


class Sender(SpecContract):
    """the first address of From, if there is one"""
    qual = PLUGIN + "._get_from"
    spec = '''
def run(self, msg, env):
    found = env.addresses()
    return found[0] if len(found) else ""
'''

    def setup(self, v):
        self.found = new_list(v, Str, "addresses")
        return [obj(v, PLUGIN, "plugin"), obj(v, "Msg", "msg")], {}

    def schemas(self):
        def addr(v, a, k):
            v.check("the header From", v.eq(a[1], Const("From")))
            return self.found
        return {"Msg": {"methods": {"get_addr_header": F(addr)}}, "Env": {"methods": {"addresses": F(lambda v, a, k: self.found)}}}

    def spec_args(self, v, a):
        return a + [obj(v, "Env", "env")]


class Signer(Contract):
    """the domain (d=) of the DKIM signature, if it has one: the first part that is one"""
    name = qual = PLUGIN + "._get_signed_by"
    trusts = ("str.split, strip and startswith of the parts are functions of their arguments",)

    def setup(self, v):
        self.parts = new_list(v, PARAM, "parts")
        self.msg = obj(v, "Mail", "mail")
        return [obj(v, PLUGIN, "plugin"), obj(v, "Msg", "msg", msg=self.msg)], {}

    def text(self, v, x):
        return v.term(x, PARAM)

    def schemas(self):
        def get(v, a, k):
            v.check("the header DKIM-Signature", v.eq(a[1], Const("DKIM-Signature")))
            v.check("without a signature there is no text", len(a) > 2 and v.eq(a[2], Const("")) is True)
            return v.obj_ref(v.fresh_term("dkim", OBJ), "Header")

        def split(v, a, k):
            v.check("split at the semicolons", v.eq(a[1], Const(";")))
            return self.parts

        def strip(v, a, k):
            chars = a[1].v if len(a) > 1 else " "
            return v.obj_ref(v.uf("strip" + chars, self.text(v, a[0]), OBJ), "Param")

        def starts(v, a, k):
            return Sym("bool", v.uf("startswith", self.text(v, a[0]), v.term(a[1], Str), BOOL))

        def part(v, a, k):
            v.check("split at the first =", len(a) > 2 and v.eq(a[1], Const("=")) is True and v.eq(a[2], Const(1)) is True)
            t = self.text(v, a[0])
            return v.alloc(ListRec([v.obj_ref(v.uf("before_eq", t, OBJ), "Param"), v.obj_ref(v.uf("after_eq", t, OBJ), "Param")]))
        return {"Mail": {"methods": {"get": F(get)}}, "Header": {"methods": {"split": F(split)}}, "Msg": {},
                "Param": {"methods": {"strip": F(strip), "startswith": F(starts), "split": F(part)}}}

    def is_domain(self, v, p):
        return v.uf("startswith", v.uf("strip ", p, OBJ), z3.StringVal("d="), BOOL)

    def candidates(self, v, L):
        if L.kind == "for":
            yield "none before is the domain", forall(v, [INT], lambda j: z3.Implies(
                rng(0, j, L.i), z3.Not(self.is_domain(v, sel(v.rec(self.parts).arr, j)))))

    def post(self, v, a, old, out):
        no_exception(v, out)
        if out.kind != "return":
            return
        r = v.rec(self.parts)
        if isinstance(out.value, Const):
            v.check("no signer only without a domain", z3.And(z3.BoolVal(out.value.v == ""), forall(v, [INT], lambda j: z3.Implies(
                rng(0, j, r.n), z3.Not(self.is_domain(v, sel(r.arr, j)))))))
            return
        v.check("the value of the first domain part", exists(v, [INT], lambda j: z3.And(
            rng(0, j, r.n), self.is_domain(v, sel(r.arr, j)),
            v.uf("strip ;\r\n", v.uf("after_eq", sel(r.arr, j), OBJ), OBJ) == v.term(out.value),
            forall(v, [INT], lambda i: z3.Implies(rng(0, i, j), z3.Not(self.is_domain(v, sel(r.arr, i))))))))


def contracts():
    return [c() for c in (Adjust, AdjustMySql, EntryMySql, Entry, GetEntry, Check, Key, Origin, Metadata, Sender, Signer)]
