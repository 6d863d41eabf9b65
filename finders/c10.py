"""C10: every option of the main configuration and of the shipped plugins, one line at a time."""
import copy
import importlib
import lib
from lib import *
import oa.conf
import oa.context
import oa.errors
import oa.plugins.base

PLUGINS = {}
for m, c in (("short_circuit", "ShortCircuit"), ("wlbl_eval", "WLBLEvalPlugin"), ("replace_tags", "ReplaceTags"),
             ("free_mail", "FreeMail"), ("pyzor", "PyzorPlugin"), ("razor2", "Razor2Plugin"), ("awl", "AutoWhiteListPlugin"),
             ("spf", "SpfPlugin"), ("dkim", "DkimPlugin"), ("header_eval", "HeaderEval"), ("spam_cop", "SpamCopPlugin"),
             ("auto_learn_threshold", "AutoLearnThreshold"), ("textcat", "TextCatPlugin")):
    try:
        mod = importlib.import_module("oa.plugins." + m)
        for k, v in vars(mod).items():
            if isinstance(v, type) and issubclass(v, oa.plugins.base.BasePlugin) and v.__module__ == mod.__name__ \
                    and v.parse_config in (oa.plugins.base.BasePlugin.parse_config, oa.conf.Conf.parse_config):
                PLUGINS[k] = v
    except ImportError:
        pass

INTS = ["5", "-3", "0", "007", "12", " 4 ", "", "x", "1.5", "1e3", "--2", "9999999999999", "+8", "\u0665", "0x10", "1_0"]
FLOATS = ["5.0", "-3", "0", ".5", "1e3", "", "x", "1.5.2", " 2.5 ", "inf", "-0", "1,5"]
BOOLS = ["1", "0", "true", "True", "TRUE", "false", "yes", "", "11", "t", " 1", "truee"]
STRS = ["", "abc", "a b", " x ", "0", "caf\u00e9", "no"]
LISTS = ["", "a", "a,b", "a, b", ",", "a b,c", "a,,b"]
SPLITS = ["", "a", "a b", "  a\tb  ", "a,b c", "!10.0.0.0/8 127.0.0.1"]
POOL = dict(int=INTS, float=FLOATS, bool=BOOLS, str=STRS, list=LISTS, append=STRS, append_split=SPLITS, clear=STRS)


def oracle(kind, opts, key, value, data, owner=None):
    """-> error?; changes `data` (this owner's options) as documented"""
    if kind in ("int", "float"):
        if value:
            try:
                data[key] = {"int": int, "float": float}[kind](value)
            except ValueError:
                return True
    elif kind == "bool":
        data[key] = value.lower() in ("1", "true")
    elif kind == "str":
        data[key] = value
    elif kind == "list":
        data[key] = value.split(None if owner == "TextCatPlugin" else ",")
    elif kind == "append":
        data[key] = data[key] + [value]
    elif kind == "append_split":
        data[key] = data[key] + value.split()
    elif kind == "clear":
        for k in opts[key][1]:
            data[k] = []
    return False


OPTS = copy.deepcopy(dict([("PADConf", oa.conf.PADConf.options)] + [(k, v.options or {}) for k, v in PLUGINS.items()]))


class Own(oa.plugins.base.BasePlugin):
    options = {"o_int": ("int", 7), "o_float": ("float", 0.5), "o_bool": ("bool", True), "o_str": ("str", "d"),
               "o_list": ("list", ["d"]), "o_append": ("append", ["d"]), "o_split": ("append_split", ["d"]),
               "o_clear": ("clear", ["o_append", "o_split", "o_list"]), "report": ("append", [])}


class Other(oa.plugins.base.BasePlugin):
    options = {"o_int": ("int", 1), "x_str": ("str", "x"), "x_append": ("append", [])}


OPTS["Own"], OPTS["Other"] = copy.deepcopy(Own.options), copy.deepcopy(Other.options)
CLS = dict(PLUGINS, Own=Own, Other=Other)


def same(a, b):
    return a == b and repr(a) == repr(b)


@scenario(3)
def sequence(r):
    ctxt = oa.context.GlobalContext()
    names = ["Own", "Other"] if r.maybe() else []
    names += r.sample(sorted(PLUGINS), r.randint(0, 2))
    r.shuffle(names)
    for n in names:
        try:
            ctxt.plugins[n] = CLS[n](ctxt)
        except Exception:
            raise Skip()
    owners = ["PADConf"] + names
    want = dict((o, dict((k, copy.deepcopy(v[1])) for k, v in OPTS[o].items())) for o in owners)
    before = dict((o, dict(ctxt.plugin_data[o])) for o in owners)
    for o in owners:
        for k, v in want[o].items():
            expect(same(before[o].get(k), v), "the default of an option", owner=o, option=k, got=repr(before[o].get(k)), expected=repr(v))
        want[o] = copy.deepcopy(before[o])
    keys = sorted(set(k for o in owners for k in OPTS[o])) + ["unknown", "O_INT", "o_int ", ""]
    done = []
    for i in range(r.randint(1, 8)):
        key = r.choice(keys)
        owner = next((o for o in owners if key in OPTS[o]), None)
        kind = OPTS[owner][key][0] if owner else None
        if kind == "timevalue":
            continue
        value = r.choice(POOL[kind] if kind else STRS + INTS)
        done.append((key, value))
        if owner:
            err = oracle(kind, OPTS[owner], key, value, want[owner], owner)
        try:
            got = ctxt.hook_parse_config(key, value)
            raised = False
        except oa.errors.PluginError:
            raised = True
        info = dict(plugins=names, lines=done)
        equal(raised, bool(owner) and err, "a malformed value is an error, and nothing else is", **info)
        if not raised:
            equal(got, owner is not None, "the line is consumed iff the option is known", **info)
        for o in owners:
            now = ctxt.plugin_data[o]
            for k in set(now) | set(want[o]):
                if k not in now or k not in want[o] or not same(now[k], want[o][k]):
                    raise Mismatch("option values after the line", got=repr(now.get(k)), owner=o, option=k,
                                   expected=repr(want[o].get(k)), **info)


@scenario(1)
def parsed_file(r):
    """the same through the parser: every line of a file, values stripped"""
    lines, want = ["loadplugin oa.plugins.short_circuit.ShortCircuit"], {}
    opts = dict(OPTS["PADConf"], **OPTS.get("ShortCircuit", {}))
    want = dict((k, copy.deepcopy(v[1])) for k, v in opts.items())
    for i in range(r.randint(1, 12)):
        k = r.choice(sorted(opts))
        kind = opts[k][0]
        if k in ("trusted_networks", "internal_networks", "msa_networks", "add_header", "remove_header", "dns_server",
                 "dns_query_restriction", "clear_dns_query_restriction", "clear_headers", "dns_options", "report_safe", "report", "unsafe_report",
                 "shortcircuit"):
            continue
        v = r.choice(POOL[kind])
        if kind == "append" and not v.strip():
            v = "z"
        v = v.strip()
        if any(ord(ch) > 126 for ch in v):
            continue
        if not v and kind not in ("clear",):
            continue
        lines.append("%s%s%s" % (k, r.pick(" ", "  ", "\t"), v))
        oracle(kind, opts, k, v, want)
    text = "\n".join(lines) + "\n"
    p, rs = load(text)
    for k in sorted(set(want) - {"report", "unsafe_report", "add_header", "remove_header"}):
        o = "PADConf" if k in OPTS["PADConf"] else "ShortCircuit"
        got = p.ctxt.plugin_data[o][k]
        expect(same(got, want[k]), "value of the option after loading", config=text, option=k, got=repr(got), expected=repr(want[k]))


if __name__ == "__main__":
    lib.main("C10")
