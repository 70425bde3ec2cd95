"""Behaviours of CallMode.tla on real trees of modules (C17)."""
import random
import traceback

import torch

from blocks import Blocks, guarded, spec_check, spec_walks
from core import Violation
from realize import co, nn

NAMES = ("forward", "forward_steps", "forward_step")
METHODS = dict(zip(range(3), NAMES))
T = 3


class Boom(Exception):
    pass


class Log:
    ran, boom, back = [], 0, []

    @classmethod
    def leaf(cls, ix, mode):
        cls.ran.append([ix, mode])
        if cls.boom == ix:
            raise Boom()


class Probe(co.CoModule, nn.Module):
    """A continual leaf which says what it was asked to do."""

    def __init__(self, ix, mute=False):
        nn.Module.__init__(self)
        self.ix, self.mute = ix, mute

    def forward(self, input):
        Log.leaf(self.ix, 0)
        return input

    def forward_steps(self, input, pad_end=False, update_state=True):
        Log.leaf(self.ix, 1)
        return None if self.mute else input

    def forward_step(self, input, update_state=True):
        Log.leaf(self.ix, 2)
        return None if self.mute else input

    def get_state(self):
        return None

    def set_state(self, state):
        pass

    def clean_state(self):
        pass


class Plain(nn.Module):
    """A plain module: one function, given clips, or single frames as clips of length one."""

    def __init__(self, ix):
        nn.Module.__init__(self)
        self.ix = ix

    def forward(self, input):
        if input.dim() != 3 or input.shape[2] not in (1, T):
            raise Violation("a plain module was handed an input of shape %s" % (tuple(input.shape),))
        Log.leaf(self.ix, 2 if input.shape[2] == 1 else 0)
        return input


co.convert.NAIVE_MAPPING.add(Plain)


def identity(xs):
    return xs[0]


def build(tree, rng):
    """The real modules of a tree, by node number."""
    mods = {}
    convertible = all(n["k"] in ("seq", "plain", "probe", "mute") for n in tree)
    late = convertible and rng.random() < 0.5     # build with torch.nn, then convert

    def make(ix, parent=None):
        n = tree[ix - 1]
        kids = [make(c, n["k"]) for c in n["kids"]]
        if n["k"] == "seq":
            m = (nn.Sequential if late else co.Sequential)(*kids)
        elif n["k"] == "br":
            m = co.BroadcastReduce(*kids, reduce=identity)
        elif n["k"] == "cond":
            sel = n["sel"]
            m = co.Conditional(lambda *a: sel == 1, *kids)
        elif n["k"] in ("probe", "mute"):
            m = Probe(ix, n["k"] == "mute")
        else:
            m = Plain(ix)
            if parent == "br" or rng.random() < 0.5:
                m = co.forward_stepping(m)
        return m
    top = make(1)
    top = co.continual(top) if late else top
    if isinstance(top, Plain):
        top = co.forward_stepping(top)

    def find(ix, m):
        mods[ix] = m
        for c, k in zip(tree[ix - 1]["kids"], list(m.children())):
            find(c, k)
    find(1, top)
    for ix, n in enumerate(tree, 1):
        if n["hook"]:
            def hook(mod, args, out, ix=ix, change=n["hook"] == 2):
                Log.ran.append([ix, 9])
                if change:
                    return (args[0] if out is None else out) + 2 * 4 ** (ix - 1)
            if rng.random() < 0.3:
                mods[ix].register_forward_hook(lambda mod, args, kwargs, out, hook=hook: hook(mod, args, out), with_kwargs=True)
            else:
                mods[ix].register_forward_hook(hook)
        if n["pre"]:
            def pre(mod, args, ix=ix, change=n["pre"] == 2, bare=rng.random() < 0.5):
                Log.ran.append([ix, 8])
                if change:
                    return args[0] + 4 ** (ix - 1) if bare else (args[0] + 4 ** (ix - 1), *args[1:])
            if rng.random() < 0.3:
                def pre_kw(mod, args, kwargs, pre=pre):
                    new = pre(mod, args)
                    return None if new is None else (new if isinstance(new, tuple) else (new,), kwargs)
                mods[ix].register_forward_pre_hook(pre_kw, with_kwargs=True)
            else:
                mods[ix].register_forward_pre_hook(pre)
        if n["grad"]:
            def grad(mod, ins, outs, ix=ix, change=n["grad"] == 2):
                Log.back.append([ix, 0])
                if change:
                    return tuple(None if g is None else 2 * g for g in ins)
            mods[ix].register_full_backward_hook(grad)
        if n["pgrad"]:
            def pgrad(mod, outs, ix=ix, change=n["pgrad"] == 2):
                Log.back.append([ix, 1])
                if change:
                    return tuple(None if g is None else 2 * g for g in outs)
            mods[ix].register_full_backward_pre_hook(pgrad)
    return mods


def opened(tree, ix=1):
    n = tree[ix - 1]
    out = {ix}
    if n["k"] != "cond":
        for c in n["kids"]:
            out |= opened(tree, c)
    return out


class Replayer(Blocks):
    def __init__(self, tree, h, seed):
        self.tree, self.h = tree, h
        self.rng = random.Random(seed)
        self.mods = build(tree, self.rng)
        self.open = opened(tree)
        self.done = self.compared = 0

    def spell(self, m):
        return self.rng.choice([NAMES[m], NAMES[m].upper(), m, torch.tensor(m)])

    def run(self):
        Log.ran = []
        self.replay()
        self.after()

    def context(self, r):
        return co.call_mode(self.spell(r["m"]))

    def act(self, r):
        if r["a"] == "set":
            self.mods[r["x"]].call_mode = self.spell(r["m"])
        elif r["a"] == "refused":
            self.refused(r)
        else:
            return self.call(r)

    def refused(self, r):
        bad = self.rng.choice(["step", "", "forward_", 3, -1, 17])
        try:
            if r["x"] == 0:
                with co.call_mode(bad):
                    pass
            else:
                self.mods[r["x"]].call_mode = bad
        except Exception:
            return
        raise Violation("the unknown call mode %r is accepted" % (bad,))

    def call(self, r):
        m = self.mods[r["x"]]
        Log.ran, Log.boom = [], r["boom"]
        # the mode in which the call is expected to run decides the input
        first = next((e[1] for e in r["ran"] if e[1] < 8), None)
        if first is None:    # nothing runs (a conditional without a branch): any input will do
            first = r["via"] if r["via"] < 3 else 0
        x = torch.randint(0, 9, (2, 3) if first == 2 else (2, 3, T)).double()
        failed = False
        diff = any(n["grad"] or n["pgrad"] for n in self.tree)
        x.requires_grad_(diff)
        try:
            with torch.set_grad_enabled(diff):
                got = m(x) if r["via"] == 3 else getattr(m, METHODS[r["via"]])(x)
        except Boom:
            failed = True
        except Violation:
            raise
        except Exception as e:
            raise Violation("the call raised %s: %s" % (type(e).__name__, e), where=traceback.format_exc()[-1500:],
                            ran=Log.ran)
        finally:
            Log.boom = 0
        self.compared += 1
        kind = {ix: n["k"] for ix, n in enumerate(self.tree, 1)}
        want = [e for e in r["ran"]]
        ran = list(Log.ran)
        # the function of a plain module is the same for both kinds of clips
        want = [[e[0], 0] if kind[e[0]] == "plain" and e[1] == 1 else e for e in want]
        if ran != want:
            say = lambda l: ["%s %d%s" % (kind[a], a, {8: "'s pre-hook", 9: "'s hook"}[b] if b > 7 else " in " + NAMES[b]) for a, b in l]  # noqa: E731
            raise Violation("a call (%s) of %s %d ran %s, should run %s" % (
                METHODS.get(r["via"], "__call__"), kind[r["x"]], r["x"], say(ran), say(want)))
        if failed != r["fail"]:
            raise Violation("an error of a leaf %s" % ("appeared" if failed else "was lost"))
        if failed:
            return failed
        if r["ret"] == -1:
            if got is not None:
                raise Violation("the call returned something, where there is no output")
        elif not isinstance(got, torch.Tensor) or not torch.equal(got, x + r["ret"]):
            raise Violation("the call returned %s, should return its input with %d added by hooks" % (
                got if got is None else "the input with %s added" % (got - x).flatten()[0].item()
                if isinstance(got, torch.Tensor) and got.shape == x.shape else type(got), r["ret"]))
        elif diff:
            self.differentiate(r, x, got)
        return failed

    def differentiate(self, r, x, got):
        g = torch.randint(1, 9, x.shape).double()
        Log.back = []
        got.backward(g)
        if Log.back != r["back"]:
            say = lambda l: ["%s %d's %s" % (self.tree[a - 1]["k"], a, "backward pre-hook" if b else "backward hook") for a, b in l]  # noqa: E731
            raise Violation("differentiating what a call of %s %d returned ran %s, should run %s" % (
                self.tree[r["x"] - 1]["k"], r["x"], say(Log.back), say(r["back"])))
        if not torch.equal(x.grad, g * r["gain"]):
            raise Violation("differentiating what a call of %s %d returned gives a wrong gradient" % (
                self.tree[r["x"] - 1]["k"], r["x"]), got=x.grad.tolist(), want=(g * r["gain"]).tolist())
        self.compared += 1

    def check(self, r):
        want = r["own"]
        for ix in self.open:
            cm = self.mods[ix].call_mode
            cm = cm if isinstance(cm, (int, str)) else int(cm)
            if cm != want[ix - 1] and not (isinstance(cm, str) and cm.lower() == NAMES[want[ix - 1]]):
                raise Violation("the mode of %s %d is %s, should be %s" % (
                    self.tree[ix - 1]["k"], ix, cm, want[ix - 1]), action={k: v for k, v in r.items() if k != "own"})

    def after(self):
        own = self.h[-1]["own"]
        for ix in sorted(self.open):
            if self.tree[ix - 1]["k"] in ("probe",):
                Log.ran = []
                try:
                    self.mods[ix](torch.randn(2, 3) if own[ix - 1] == 2 else torch.randn(2, 3, T))
                except Exception as e:
                    raise Violation("after all contexts were left, calling probe %d raised %s: %s" % (ix, type(e).__name__, e))
                if [ix, own[ix - 1]] not in Log.ran:
                    raise Violation("after all contexts were left, probe %d ran %s instead of its own mode %s" % (
                        ix, Log.ran, NAMES[own[ix - 1]]))
                self.compared += 1


def node(k, *kids, sel=0, hook=0, pre=0, grad=0, pgrad=0):
    return dict(k=k, kids=list(kids), sel=sel, hook=hook, pre=pre, grad=grad, pgrad=pgrad)


def flatten(t):
    """A nested tree (k, kids, sel, hook) as a list of nodes, root first."""
    out = []

    def go(n):
        out.append(None)
        ix = len(out)
        kids = [go(c) for c in n["kids"]]
        out[ix - 1] = dict(n, kids=kids)
        return ix
    go(t)
    assert len(out) < 15    # numbers of TLC
    return out


def rand_tree(rng, size, top=True):
    t = rand_shape(rng, size, top)
    t["hook"] = rng.choice([0, 0, 0, 1, 2])
    t["pre"] = rng.choice([0, 0, 0, 0, 1, 2])
    t["grad"] = rng.choice([0, 0, 0, 0, 1, 2])
    t["pgrad"] = rng.choice([0, 0, 0, 0, 0, 0, 1, 2])
    return t


def rand_shape(rng, size, top):
    if size <= 1 or not top and rng.random() < 0.15:
        return node(rng.choice(["probe", "probe", "probe", "plain", "plain", "mute"]))
    k = rng.choice(["seq", "seq", "br", "cond"])
    if k == "cond":
        kids = [rand_tree(rng, size - 1, False)]
        sel = rng.choice([0, 1, 1])
        if size > 3 and rng.random() < 0.6:
            kids = [rand_tree(rng, (size - 1) // 2, False), rand_tree(rng, (size - 1) // 2, False)]
            sel = rng.choice([1, 2])
        return node("cond", *kids, sel=sel)
    n = 2 if k == "br" else rng.choice([1, 2, 3])
    return node(k, *[rand_tree(rng, max(1, (size - 1) // n), False) for _ in range(n)])


def model_check(rep, trees, cmax):
    spec_check(rep, "CallMode", trees, CMAX=cmax)


def walks(trees, num, length, cmax=4):
    return spec_walks("CallMode", trees, num, length, CMAX=cmax)


def replay_one(a):
    with torch.no_grad():
        out = guarded(lambda: Replayer(*a))
    co.call_mode.__init__()     # whatever happened, the next replay starts afresh
    return out


def replay(d):
    o = replay_one(d["item"])
    print(o["error"] or (("reproduced: %s" % o["violation"]["what"]) if o["violation"] else "not reproduced"))
    return 1 if o["violation"] else 0
