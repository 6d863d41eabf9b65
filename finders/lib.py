"""Counterexample search and replay on the real code (runs under the repository's PyPy 3.9).

A finder script holds the executable form of a property's contract: scenarios that build an
input, run the real functions of /repo on it and compare with the specification.  Inputs are
drawn from value pools, enriched with the constants that occur in the current source of the
functions, from a seed; the case number alone reproduces a case.
"""
import argparse
import ast
import json
import logging
import os
import random
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
import warnings
warnings.simplefilter("ignore")

SCEN = []


class Mismatch(Exception):
    def __init__(self, what, key=None, **info):
        Exception.__init__(self, what)
        self.what, self.key, self.info = what, key or what, info


class Skip(Exception):
    """not a case (a generator dead end)"""


def scenario(weight=1, exhaustive=None):
    def deco(fn):
        SCEN.append((fn.__name__, fn, weight, exhaustive))
        return fn
    return deco


def expect(cond, what, key=None, **info):
    if not cond:
        raise Mismatch(what, key, **info)


def equal(got, want, what, key=None, **info):
    if not (got == want):
        raise Mismatch(what, key, got=repr(got)[:600], expected=repr(want)[:600], **info)


class Rng(random.Random):
    def maybe(self, p=0.5):
        return self.random() < p

    def pick(self, *xs):
        return self.choice(xs)

    def some(self, pool, lo=0, hi=4):
        return [self.choice(pool) for _ in range(self.randint(lo, hi))]

    def subset(self, pool, p=0.5):
        return [x for x in pool if self.random() < p]


def mined(*modules):
    """(numbers, strings) that occur as constants in the current source of the modules"""
    nums, strs = set(), set()
    for m in modules:
        path = os.path.join(REPO, *m.split(".")) + ".py"
        try:
            tree = ast.parse(open(path, encoding="utf8").read())
        except (OSError, SyntaxError):
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, bool) or n.value is None:
                    continue
                if isinstance(n.value, (int, float)):
                    nums.add(n.value)
                elif isinstance(n.value, str) and len(n.value) < 60:
                    strs.add(n.value)
    return sorted(nums), sorted(strs)


def num_pool(nums, extra=()):
    out = set(extra)
    for n in nums:
        out.update((n, n - 1, n + 1))
        if isinstance(n, float):
            out.update((n - 0.001, n + 0.001, n - 0.1, n + 0.1))
    return sorted(out)


class Obj(object):
    """a plain stand-in with the given attributes"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "Obj(%r)" % (self.__dict__,)


class Quiet(object):
    """stands for a logger"""

    def __getattr__(self, name):
        return lambda *a, **k: None


def run_case(name, fn, seed, i, known, arg=None):
    r = Rng("%s:%s:%d" % (seed, name, i))
    try:
        fn(r) if arg is None else fn(r, arg)
        return None
    except Skip:
        return "skip"
    except Mismatch as e:
        return dict(scenario=name, case=i, seed=seed, what=e.what, key=e.key, info=e.info)
    except Exception as e:
        tb = traceback.format_exc().strip().split("\n")
        return dict(scenario=name, case=i, seed=seed, key="exception %s" % type(e).__name__,
                    what="unexpected exception %s: %s" % (type(e).__name__, e), info=dict(traceback=tb[-8:]))


def main(prop):
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--budget", type=float, default=8.0)
    ap.add_argument("--only")
    ap.add_argument("--case", type=int)
    ap.add_argument("--out")
    ap.add_argument("--known", default="")
    ap.add_argument("--replay", help="a replay file written by run.py")
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        a.only, a.case, a.seed = d["failing"]["scenario"], d["failing"]["case"], d["failing"]["seed"]
    known = [k for k in a.known.split("\x1f") if k]
    fails, counts, skipped, knowns = [], {}, 0, {}
    t0 = time.time()
    scen = [s for s in SCEN if not a.only or s[0] == a.only]
    if a.case is not None:
        name, fn, w, ex = scen[0]
        arg = list(ex())[a.case] if ex else None
        f = run_case(name, fn, a.seed, a.case, known, arg)
        print(json.dumps(f, indent=1, default=repr))
        sys.exit(1 if isinstance(f, dict) else 0)
    total = float(sum(s[2] for s in scen)) or 1.0
    for name, fn, w, ex in scen:
        t1 = time.time()
        i = n = 0
        if ex:
            cases = list(ex())
        while True:
            if ex:
                if i >= len(cases):
                    break
            elif time.time() - t1 > a.budget * w / total and i >= 20:
                break
            f = run_case(name, fn, a.seed, i, known, cases[i] if ex else None)
            if f == "skip":
                skipped += 1
            elif f is not None:
                n += 1
                if "%s/%s" % (name, f["key"]) in known:
                    knowns.setdefault("%s/%s" % (name, f["key"]), f)
                else:
                    fails.append(f)
                    break
            else:
                n += 1
            i += 1
        counts[name] = n
    res = dict(property=prop, seed=a.seed, evaluations=sum(counts.values()), per_scenario=counts, skipped=skipped,
               fails=fails, known=sorted(knowns), wall_s=round(time.time() - t0, 2))
    txt = json.dumps(res, indent=1, default=repr)
    if a.out:
        with open(a.out, "w") as f:
            f.write(txt)
    else:
        print(txt)
    sys.exit(0)


# ------------------------------------------------------------ helpers on the real system
_SCRATCH = []


def scratch():
    """a scratch directory, removed at exit"""
    if not _SCRATCH:
        import atexit
        import shutil
        import tempfile
        _SCRATCH.append(tempfile.mkdtemp(prefix="oa-verif-"))
        atexit.register(lambda: shutil.rmtree(_SCRATCH[0], ignore_errors=True))
    return _SCRATCH[0]


def load(text, paranoid=False, get=True, files=None):
    """parse a configuration text with the real parser -> (parser, rule set)"""
    import oa.rules.parser
    path = os.path.join(scratch(), "conf.cf")
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("utf8"))
    for n, t in (files or {}).items():
        with open(os.path.join(scratch(), n), "w") as f:
            f.write(t)
    p = oa.rules.parser.PADParser(paranoid=paranoid)
    p.parse_file(path)
    return (p, p.get_ruleset()) if get else (p, None)


def message(ruleset, text):
    import oa.message
    return oa.message.Message(ruleset.ctxt, text)
