"""C14: TELL requests on the real command, with plugins that record what they receive."""
import io
import lib
from lib import *
import oa
import oa.context
import oa.errors
import oa.protocol.tell
import oa.plugins.base
import oa.rules.ruleset


@scenario(1)
def tell(r):
    calls, hooks = [], []
    ctxt = oa.context.GlobalContext()
    stop = []
    for i in range(r.randint(0, 4)):
        name = "P%d" % i
        st = r.maybe(0.2)

        class Plug(oa.plugins.base.BasePlugin):
            def plugin_report(self, msg, _n=name, _s=st):
                calls.append(("report", _n, msg))
                if _s:
                    self.inhibit_further_callbacks()

            def plugin_revoke(self, msg, _n=name, _s=st):
                calls.append(("revoke", _n, msg))
                if _s:
                    self.inhibit_further_callbacks()
        Plug.__name__ = name
        ctxt.plugins[name] = Plug(ctxt)
        stop.append((name, st))
    direct = r.maybe()
    if direct:
        def hk(tag):
            real = getattr(ctxt, tag)

            def f(msg, spam=True, local=True, remote=True):
                hooks.append((tag, msg, spam, local, remote))
                return real(msg, spam, local, remote)
            return f
        ctxt.hook_report, ctxt.hook_revoke = hk("hook_report"), hk("hook_revoke")
    rs = oa.rules.ruleset.RuleSet(ctxt)

    class Server(object):
        log = Quiet()

        def get_user_ruleset(self, user=None):
            return rs
    opts = {}
    targets = ["local", "remote", "local, remote", "remote,local", "local ,remote", "", "LOCAL", "locale", "remote, x", "nonlocal",
               "local,local", " remote ", "local remote"]
    if r.maybe(0.7):
        opts["Set"] = r.choice(targets)
    if r.maybe(0.5):
        opts["Remove"] = r.choice(targets)
    if r.maybe(0.6):
        opts["Message-class"] = r.pick("spam", "ham", "Spam", "SPAM", "Ham", "", "x", "nospam")
    lines = ["%s: %s" % (r.pick(k, k.lower(), k.upper()), v) for k, v in opts.items()]
    r.shuffle(lines)
    raw = "".join(x + "\r\n" for x in lines) + "\r\nSubject: x\r\n\r\nbody\r\n"
    w = io.BytesIO()
    oa.protocol.tell.TellCommand(io.BytesIO(raw.encode()), w, Server())
    spam = opts.get("Message-class", "spam").lower() == "spam"
    want_hooks, want_calls, reply = [], [], "SPAMD/%s 0 EX_OK\r\n" % oa.__version__
    for o, tag, did in (("Set", "report", "DidSet"), ("Remove", "revoke", "DidRemove")):
        if o in opts:
            t = [x.strip() for x in opts[o].split(",")]
            want_hooks.append(("hook_" + tag, spam, "local" in t, "remote" in t))
            for n, st in stop:
                want_calls.append((tag, n))
                if st:
                    break
            reply += "%s: %s\r\n" % (did, opts[o].strip())
    info = dict(request=raw, plugins=stop)
    equal(w.getvalue().decode(), reply, "the reply", **info)
    equal([c[:2] for c in calls], want_calls, "the plugins that are called", **info)
    expect(len(set(id(c[2]) for c in calls)) <= 1, "one message", **info)
    if direct:
        equal([(h[0], bool(h[2]), bool(h[3]), bool(h[4])) for h in hooks], want_hooks, "class and targets", **info)


if __name__ == "__main__":
    lib.main("C14")
