"""C26: pyzor and razor rules end to end, with a recording client in place of pyzor's and a recording program in place of razor-check."""
import subprocess
import threading
import lib
from lib import *
import pyzor
import pyzor.client
import pyzor.digest
import oa.plugins.razor2

# the installed release of pyzor predates Python 3
pyzor.digest.xrange = range

SERVERS = ["a.example:24441", "b.example:1", "127.0.0.1:24441", "[::1]:5", "c.example:99"]
CALLS = []
WORLD = {}


class Client(object):
    def __init__(self, *a, **k):
        pass

    def answer(self, what, digest, address):
        address = tuple(str(x) for x in address)
        CALLS.append((what, digest, ":".join(address)))
        kind = WORLD["servers"].get(":".join(address))
        if kind == "down":
            raise pyzor.CommError("down")
        if kind == "late":
            raise pyzor.TimeoutError("late")
        return kind

    def check(self, digest, address=None):
        k = self.answer("check", digest, address)
        if k == "error":
            return {"Code": "400", "Count": None, "WL-Count": None}
        return {"Count": str(k[0]), "WL-Count": str(k[1])}

    def report(self, digest, address=None):
        self.answer("report", digest, address)

    def whitelist(self, digest, address=None):
        self.answer("whitelist", digest, address)


class Process(object):
    def __init__(self, args, **k):
        CALLS.append(("run", tuple(args)))
        if WORLD["program"] == "missing":
            raise OSError(2, "No such file")
        self.returncode = None

    def communicate(self, input=None, timeout=None):
        CALLS.append(("input", input))
        self.returncode = WORLD["program"]
        return b"", b""

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def kill(self):
        pass


class Timer(object):
    def __init__(self, *a, **k):
        pass

    def start(self):
        pass

    def cancel(self):
        pass


class Patched(object):
    def __enter__(self):
        self.old = pyzor.client.BatchClient, subprocess.Popen, threading.Timer
        pyzor.client.BatchClient, subprocess.Popen, threading.Timer = Client, Process, Timer

    def __exit__(self, *a):
        pyzor.client.BatchClient, subprocess.Popen, threading.Timer = self.old


def mail(r):
    body = "\n".join(r.pick("hello this is some text of the message", "buy now at http://x.example/ for less", "line %d of the text here" % r.randint(0, 99), "",
                            "short", "caf\xe9 au lait and more words here") for i in range(r.randint(0, 6)))
    return "Subject: %s\nFrom: a@b.example\n\n%s\n" % (r.pick("hi", "offer", ""), body)


def world(r, servers, limit):
    WORLD["servers"] = {s: r.pick("down", "late", "error", (limit, 0), (limit - 1, 0), (limit + 1, 0), (limit, 1), (limit + 3, 2), (0, 0), (r.randint(0, 9), r.randint(0, 1)))
                        for s in set(servers)}
    WORLD["program"] = r.pick(0, 0, 1, 1, 2, -9, "missing")


@scenario(4)
def digest_test(r):
    limit = r.pick(1, 2, 5, 5, 7)
    servers = [r.choice(SERVERS) for i in range(r.randint(1, 4))]
    off = r.maybe(.15)
    conf = "loadplugin oa.plugins.pyzor.PyzorPlugin\nfull P eval:check_pyzor()\nfull Q eval:check_pyzor()\nscore P 1\nscore Q 1\n"
    conf += "pyzor_servers %s\n" % ",".join(servers)
    if limit != 5 or r.maybe():
        conf += "pyzor_max %d\n" % limit
    if off:
        conf += "use_pyzor 0\n"
    with Patched():
        parser, rs = load(conf, True)
        for k in range(r.randint(1, 3)):
            world(r, servers, limit)
            info = dict(servers=servers, answers=dict(WORLD["servers"]), pyzor_max=limit, disabled=off)
            msg = message(rs, mail(r))
            digest = pyzor.digest.DataDigester(msg.msg).value
            want = not off and any(isinstance(WORLD["servers"][s], tuple) and WORLD["servers"][s][0] >= limit and WORLD["servers"][s][1] == 0 for s in servers)
            steps = [r.pick("check", "check", "report", "revoke") for i in range(r.randint(1, 4))]
            info["steps"] = steps
            for s in steps:
                del CALLS[:]
                if s == "check":
                    rule = r.pick("P", "Q")
                    equal(bool(rs.get_rule(rule).match(msg)), want, "the digest test", calls=list(CALLS), **info)
                    if not off:
                        expect(CALLS and all(c[0] == "check" and c[1] == digest and c[2] in servers for c in CALLS), "asks the servers for the message's own digest",
                               calls=list(CALLS), **info)
                else:
                    plugin = parser.ctxt.plugins["PyzorPlugin"]
                    (plugin.plugin_report if s == "report" else plugin.plugin_revoke)(msg)
                    what = "report" if s == "report" else "whitelist"
                    if not off:
                        equal(sorted(CALLS), sorted((what, digest, x) for x in servers), "every server gets the %s" % s, **info)
                if off:
                    equal(CALLS, [], "nothing is sent when the test is disabled", **info)


@scenario(2)
def catalogue_test(r):
    off, cfg = r.maybe(.2), r.pick("", "", "/etc/razor.conf")
    conf = "loadplugin oa.plugins.razor2.Razor2Plugin\nfull P eval:check_razor2()\nfull Q eval:check_razor2()\nscore P 1\nscore Q 1\n"
    if cfg:
        conf += "razor_config %s\n" % cfg
    if off:
        conf += "use_razor2 0\n"
    with Patched():
        parser, rs = load(conf, True)
        for k in range(r.randint(1, 3)):
            world(r, [], 1)
            program = WORLD["program"]
            text = mail(r)
            msg = message(rs, text)
            info = dict(program=program, disabled=off, text=text)
            want = not off and program == 0
            runs = []
            for i in range(r.randint(1, 4)):
                del CALLS[:]
                s = r.pick("check", "check", "check", "report", "revoke")
                extra = () if not cfg else ("-conf=" + cfg,)
                if s == "check":
                    equal(bool(rs.get_rule(r.pick("P", "Q")).match(msg)), want, "the catalogue test, evaluation %d" % (len(runs) + 1), **info)
                    runs += [c for c in CALLS if c[0] == "run"]
                    expect(len(runs) <= 1, "the program is asked once per message", **info)
                    if not off:
                        equal(runs, [("run", ("razor-check",) + extra)], "the program that is run", **info)
                    # a changed answer of the program is no new answer for the message
                    if r.maybe(.3):
                        WORLD["program"] = r.pick(0, 1)
                else:
                    plugin = parser.ctxt.plugins["Razor2Plugin"]
                    (plugin.plugin_report if s == "report" else plugin.plugin_revoke)(msg)
                    if not off:
                        equal([c for c in CALLS if c[0] == "run"], [("run", ("razor-" + s,) + extra)], "the %s" % s, **info)
                if not off:
                    for c in CALLS:
                        if c[0] == "input":
                            equal(c[1], msg.raw_msg.encode("utf8"), "what is sent is the message", **info)
                if off:
                    equal(CALLS, [], "nothing is run when the test is disabled", **info)


lib.main("C26")
