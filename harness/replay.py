"""Replaying behaviours of Stream.tla on a real network."""
import collections
import contextlib
import copy
import random
import traceback

import torch

from core import MachineryError, Violation
from realize import NONE, co

MODES = ("forward", "forward_steps", "forward_step")


def tol(dtype):
    return dict(atol=1e-9, rtol=1e-9) if dtype == torch.float64 else dict(atol=2e-3, rtol=2e-3)


def clone(v):
    if isinstance(v, torch.Tensor):
        return v.detach().clone()
    if isinstance(v, (tuple, list)):
        return type(v)(clone(x) for x in v)
    return v


def same(got, want, dtype):
    """None if equal up to rounding, else a description."""
    if want is None:
        return None if got is None else "expected nothing, got %s" % describe(got)
    if isinstance(want, list):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return "expected %d streams, got %s" % (len(want), describe(got))
        for j, (g, w) in enumerate(zip(got, want)):
            r = same(g, w, dtype)
            if r:
                return "stream %d: %s" % (j, r)
        return None
    if not isinstance(got, torch.Tensor):
        return "expected a tensor of shape %s, got %s" % (tuple(want.shape), describe(got))
    if tuple(got.shape) != tuple(want.shape):
        return "expected shape %s, got %s" % (tuple(want.shape), tuple(got.shape))
    if got.dtype != want.dtype:
        return "expected dtype %s, got %s" % (want.dtype, got.dtype)
    g = got.detach()
    if not torch.allclose(g, want, equal_nan=True, **tol(dtype)):
        fin = torch.nan_to_num(g - want, nan=float("inf")).abs().max().item()
        return "values differ by up to %.3g" % fin
    return None


def tensors(v):
    if isinstance(v, torch.Tensor):
        return [v]
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in tensors(x)]
    return []


def equal(a, b):
    """Exactly the same values (or no number in the same places, as padding with minus infinity makes in convolutions)."""
    return torch.equal(a, b) or a.shape == b.shape and a.dtype == b.dtype and torch.equal(a.isnan(), b.isnan()) and \
        torch.equal(a.nan_to_num(0.0, 1.0, -1.0), b.nan_to_num(0.0, 1.0, -1.0)) and torch.equal(a.isinf(), b.isinf())


def kept_value(a, b):
    """Whether a weight is what it was.  PyTorch writes the running statistics of instance normalisation back, averaged
    over the copies it made, which may change their last bit."""
    if equal(a, b):
        return True
    e = 1e-12 if a.dtype == torch.float64 else 1e-5
    return a.shape == b.shape and a.is_floating_point() and torch.allclose(a, b, atol=e, rtol=e, equal_nan=True)


def storage(t):
    return t.untyped_storage().data_ptr()


def laid_out(x, rng):
    """The same values, sometimes in another memory layout."""
    k = rng.random()
    if k < 0.6 or x.dim() < 2:
        return x.clone()
    if k < 0.8:    # a transposed view
        return x.transpose(0, -1).clone(memory_format=torch.contiguous_format).transpose(0, -1)
    big = torch.full((*x.shape[:-1], 2 * x.shape[-1] + 1), float("nan"), dtype=x.dtype)   # a strided view
    v = big[..., 1::2]
    v.copy_(x)
    return v


def scaled(v, by):
    """By a power of two, which is exact."""
    if isinstance(v, torch.Tensor):
        return v * by
    if isinstance(v, (list, tuple)):
        return type(v)(scaled(x, by) for x in v)
    return v


def describe(v):
    if isinstance(v, torch.Tensor):
        return "a tensor of shape %s" % (tuple(v.shape),)
    if isinstance(v, (list, tuple)):
        return "a %s of %d" % (type(v).__name__, len(v))
    return type(v).__name__ if v is not None else "nothing"


CONTAINERS = (co.Sequential, co.Parallel, co.BroadcastReduce, co.Conditional)


def states(module):
    """The state every part exposes."""
    return {n: (clone(m.get_state()) if hasattr(m, "get_state") else None) for n, m in module.named_modules()}


def put_states(module, saved):
    for n, m in module.named_modules():
        if n in saved and hasattr(m, "set_state"):
            if saved[n] is None:
                if not isinstance(m, CONTAINERS):
                    m.clean_state()
            else:
                m.set_state(clone(saved[n]))


# training changes what these compute
MODAL = (torch.nn.modules.batchnorm._NormBase, torch.nn.modules.dropout._DropoutNd, torch.nn.modules.rnn.RNNBase,
         torch.nn.MultiheadAttention, torch.nn.RReLU)


class Walk:
    """One stream through one real network, following edges of a state graph."""

    def __init__(self, real, graph, seed, batch=2, styles=("method",), scale=1.0):
        self.real, self.graph, self.batch = real, graph, batch
        self.rng = random.Random(seed)
        self.gen = torch.Generator().manual_seed(seed)
        self.m = real.module
        self.styles, self.scale = styles, scale
        self.at, self.hist, self.base = graph.init, collections.deque(maxlen=512), 0
        self.snap = None
        self.saved = None
        self.kept = collections.deque(maxlen=12)
        self.log = collections.deque(maxlen=400)
        self.calls = self.compared = self.nonempty = 0
        self.kinds = {}    # what was done how often
        self.tap = None
        self.others = []
        self.modal = any(isinstance(m, MODAL) for m in real.module.modules())
        self.special, self.nothing = False, 0.0     # whether there are unusual frames, and not a number among them
        self.vary = False       # whether streams may differ in their number of batch entries

    # -- tokens ------------------------------------------------------------
    def frame(self, sw):
        x = torch.randn((self.batch, *self.real.shape), generator=self.gen, dtype=torch.float64) * self.scale
        if self.special:
            x = self.unusual(x)
        if self.real.net["k"] == "cond":   # the decision can be read off the first frame of the call
            f = x.view(-1)
            f[0] = abs(f[0]) + 0.01 if sw else -abs(f[0]) - 0.01
        return x.to(self.real.dtype)

    def unusual(self, x):
        """Now and then a frame of zeros, of one value, without negative values, like the one before, or without a value."""
        r = self.rng.random()
        if r < 0.06:
            return torch.zeros_like(x)
        if r < 0.10:
            return torch.full_like(x, self.rng.choice([1.0, -2.0]))
        if r < 0.14:
            return x.abs()
        if r < (0.18 if self.scale < 10 else 0.6):
            return -x.abs() - self.scale / 10
        if r < 0.24 and self.hist and isinstance(self.hist[-1], torch.Tensor) and self.hist[-1].shape == x.shape:
            return self.hist[-1].to(x.dtype).clone()
        if r < self.nothing:
            x = x.clone()
            x.view(-1)[self.rng.randrange(x.numel())] = self.rng.choice([float("nan"), float("inf"), -float("inf")])
        return x

    def tok(self, peek):
        hist = self.hist

        def get(k, a):
            if k == "x":
                if a >= len(hist):
                    raise MachineryError("frame of age %d is not kept" % a)
                return hist[-1 - a]
            return peek[a - 1]
        return get

    def want(self, out, peek, steps):
        memo, tok = {}, self.tok(peek)
        ev = lambda t: self.real.evaluate(t, tok, memo, self.batch)  # noqa: E731

        def go(v):
            if steps:
                if v and v[0] == "list":
                    return [go(s) for s in v[1:]]
                return torch.stack([ev(t) for t in v], 2) if v else None
            if v == NONE or v == ():
                return None
            if v[0] == "list":
                return [go(s) for s in v[1:]]
            return ev(v)
        with torch.no_grad():
            try:
                return go(out)
            except MachineryError:
                raise
            except Exception:
                raise MachineryError("reference evaluation failed: " + traceback.format_exc())

    # -- calls -------------------------------------------------------------
    def invoke(self, mode, x, kw, more=()):
        """Call the network in one of the equivalent ways the library offers."""
        style = self.rng.choice(self.styles)
        m = self.m
        kw = {k: v for k, v in kw.items() if v != (k == "update_state") or self.rng.random() < 0.5}
        sw = self.real.sw
        sw.mode, sw.wrong = mode, []
        self.log.append((style, mode, None if isinstance(x, (list, tuple)) else tuple(x.shape), dict(kw)))
        try:
            if style == "method":
                if not isinstance(m, co.CoModule):   # a plain module made streamable runs its instance's mode
                    m.call_mode = "forward"
                return getattr(m, mode)(x, *more, **kw)
            if style == "ctx":
                with co.call_mode(mode):
                    return m(x, *more, **kw)
            if style == "ctx_nested":
                with co.call_mode(self.rng.choice(MODES)):
                    with co.call_mode(mode):
                        return m(x, *more, **kw)
            if style == "mode":
                m.call_mode = mode
                return m(x, *more, **kw)
            if style == "method_in_ctx":    # the context says something else
                with co.call_mode(self.rng.choice([k for k in MODES if k != mode])):
                    return getattr(m, mode)(x, *more, **kw)
            if style == "hook":
                how = self.rng.choice(["watch", "before", "after"])
                if how == "before" and isinstance(x, torch.Tensor):   # a hook which replaces the input
                    h = m.register_forward_pre_hook(lambda mod, args: (args[0] / 2, *args[1:]))
                    x = x * 2
                elif how == "after":    # a hook which replaces the output
                    h = m.register_forward_hook(lambda mod, args, out: scaled(out, 4))
                else:
                    h = m.register_forward_hook(lambda *a: None)
                try:
                    with co.call_mode(mode):
                        got = m(x, *more, **kw)
                    return scaled(got, 0.25) if how == "after" else got
                finally:
                    h.remove()
            raise MachineryError(style)
        except MachineryError:
            raise
        except Exception as e:
            raise Violation("%s raised %s: %s" % (mode, type(e).__name__, e), where=traceback.format_exc()[-1500:])

    def check(self, what, got, want, e):
        r = same(got, want, self.real.dtype)
        self.compared += 1
        if want is not None:
            self.nonempty += 1
        if r:
            raise Violation("%s: %s" % (what, r), edge=dict(state=e.s, action=e.a, c=e.c, pe=e.pe, upd=e.upd))

    def do(self, e):
        """Follow an edge; whole-clip calls and streams after cleaning may have any number of batch entries."""
        k = e.a + ("" if e.upd or e.a == "forward" else "+peek") + ("+end padding" if e.pe else "")
        self.kinds[k] = self.kinds.get(k, 0) + 1
        if not self.vary:
            return self.follow(e)
        before = self.batch
        if e.a in ("forward", "clean") and self.rng.random() < 0.4:
            self.batch = self.rng.choice([1, 2, 3, 4])
        self.follow(e)
        if e.a == "forward":
            self.batch = before
        elif e.a == "save":
            self.saved_batch = before
        elif e.a == "restore":
            self.batch = self.saved_batch

    def follow(self, e):
        if e.s != self.at:
            raise MachineryError("edge does not start here")
        self.calls += 1
        if not self.modal and self.rng.random() < 0.03:    # no part of this network minds
            self.m.train(self.rng.random() < 0.5)
        self.real.sw.sw, self.real.sw.calls, self.real.sw.seen = e.sw, 0, None
        m = self.m
        if self.real.fed is not None:
            self.real.fed[:] = [0] * len(self.real.fed)
        if e.a in ("step", "steps", "forward"):
            new = [self.frame(e.sw) for _ in range(e.c)]
            if e.a == "step":
                x = laid_out(new[0], self.rng)
                keep = x.clone()
                got = self.invoke("forward_step", x, dict(update_state=e.upd))
            else:
                x = laid_out(torch.stack(new, 2), self.rng)
                keep = x.clone()
                if e.a == "steps":
                    got = self.invoke("forward_steps", x, dict(pad_end=e.pe, update_state=e.upd))
                else:
                    got = self.invoke("forward", x, {})
            if self.tap is not None:
                name = dict(step="forward_step", steps="forward_steps", forward="forward")[e.a]
                kw = dict(update_state=e.upd) if e.a != "forward" else {}
                if e.a == "steps":
                    kw["pad_end"] = e.pe
                self.tap.append(("call", name, keep, kw, clone(got)))
            if self.real.fed is not None and e.fed:
                if tuple(self.real.fed) != e.fed:
                    raise Violation("the modules of the sequence were handed %s frames, should be %s" % (
                        self.real.fed, list(e.fed)), edge=dict(state=e.s, action=e.a, c=e.c, upd=e.upd))
            if not equal(x, keep):
                raise Violation("%s changed its input" % e.a)
            if self.real.net["k"] == "cond" and self.real.single_cond:
                sw = self.real.sw
                if sw.calls != 1:
                    raise Violation("the predicate was evaluated %d times in one call" % sw.calls)
                if not (isinstance(sw.seen, torch.Tensor) and sw.seen.shape == keep.shape and equal(sw.seen, keep)):
                    raise Violation("the predicate was not evaluated on the input of the call")
            if e.upd:
                self.hist.extend(new)
            if self.real.net["k"] == "rnn" and e.a == "forward" and isinstance(got, tuple):
                got = got[0]
            if not (e.stall and e.pe and not self.graph.clean(e.s)):
                want = self.want(e.out, new, e.a != "step")
                if want is None and e.a == "forward":    # a clip without frames
                    want = torch.empty((self.batch, self.real.out_shape[0], 0, *self.real.out_shape[1:]), dtype=self.real.dtype)
                self.check({"step": "single-step call", "steps": "multi-step call", "forward": "whole-clip call"}[e.a]
                           + ("" if e.upd or e.a == "forward" else " without state update")
                           + (" with end padding" if e.pe else ""), got, want, e)
                if e.a == "forward" and self.real.twin is not None:
                    with torch.no_grad():
                        self.check("whole-clip call against torch.nn", got, self.real.twin(x), e)
            self.keep(got, [x])
        elif e.a == "clean":
            self.call("clean_state", m.clean_state)
            if self.tap is not None:
                self.tap.append(("clean", None, None, None, None))
        elif e.a == "warm":
            self.call("warm_up", lambda: m.warm_up((self.batch, *self.real.shape)))
        elif e.a == "save":
            self.snap = list(self.hist)
            self.saved = self.call("get_state", lambda: states(m))
        elif e.a == "restore":
            self.hist = collections.deque(self.snap, maxlen=512)
            if self.others:   # resume on another instance with the same weights
                self.others.append(self.m)
                self.m = m = self.others.pop(0)
            self.call("set_state", lambda: put_states(m, self.saved))
            self.kept.clear()
        elif e.a == "refuse":
            self.refuse()
        else:
            raise MachineryError(e.a)
        self.at = e.d

    # -- calls which fail ------------------------------------------------------
    def bad_args(self):
        """Arguments which the network has reason to refuse, and what is wrong with them."""
        x = self.frame(True)
        shape = list(x.shape)
        how = self.rng.choice(self.real.opts.get("refuse") or ["channels", "space", "batch", "rank", "dtype"])
        if how == "channels":
            shape[1] += 1
        elif how == "space" and len(shape) > 2:
            shape[self.rng.randrange(2, len(shape))] += self.rng.choice([1, 2])
        elif how == "batch":
            shape[0] += 1
        elif how == "rank":
            shape.append(2)
        return how, [torch.ones(shape, dtype=torch.long if how == "dtype" else x.dtype)], lambda xs: torch.stack(xs, 2)

    def refuse(self):
        """Make a call with bad arguments; if it fails, go on with the same network, else with a copy made before."""
        how, bad, pack = self.bad_args()
        mode = self.rng.choice(MODES)
        kw = dict(update_state=self.rng.random() < 0.8) if mode != "forward" else {}
        if mode != "forward_step":
            T = self.rng.choice([1, 2, 3])
            bad = [pack([b] * T) for b in bad]
        aside = copy.deepcopy(self.m, {id(t): t.detach().clone() for m in self.m.modules()
                                       for v in (*m._buffers.values(), *vars(m).values()) for t in tensors(v) if t.grad_fn is not None})
        before = {n: p.detach().clone() for n, p in self.m.state_dict().items()}
        self.log.append(("refused", mode, [tuple(b.shape) for b in bad], dict(kw, how=how)))
        try:
            if self.rng.random() < 0.5:
                getattr(self.m, mode)(*bad, **kw)
            else:
                with co.call_mode(mode):
                    self.m(*bad, **kw)
        except Exception:
            self.kinds["refused: " + how] = self.kinds.get("refused: " + how, 0) + 1
            after = self.m.state_dict()
            if list(after) != list(before) or any(not kept_value(v, after[n]) for n, v in before.items()):
                raise Violation("a call that failed changed the weights")
            self.compared += 1
        else:
            self.m = aside
            self.kept.clear()
        finally:
            self.real.sw.wrong = []

    def keep(self, got, args):
        if self.real.sw.wrong:
            raise Violation(self.real.sw.wrong[0])
        self.kept_outputs(got, args)

    def kept_outputs(self, got, args):
        """Outputs stay what they were, and the caller may use the memory of the arguments for something else."""
        for g, k in self.kept:
            if isinstance(g, list):
                if len(g) != len(k) or any(a is not b for a, b in zip(g, k)):
                    raise Violation("a list returned by an earlier call changed later")
            elif not equal(g, k):
                raise Violation("an output returned by an earlier call changed later")
        if isinstance(got, list):
            self.kept.append((got, list(got)))
        mine = {storage(a) for a in args}
        new = [t.detach() for t in tensors(got)]
        for a in args:
            if not any(storage(t) == storage(a) for t in new):
                a.detach().fill_(float("nan"))
        if any(storage(t) in mine for t in new) or self.rng.random() < 0.3:    # so he may with the memory of results
            for t in new:
                t.fill_(float("nan"))
        else:
            self.kept.extend((t, t.clone()) for t in new)

    def call(self, name, f):
        self.log.append(("method", name, None, {}))
        try:
            return f()
        except MachineryError:
            raise
        except Exception as ex:
            raise Violation("%s raised %s: %s" % (name, type(ex).__name__, ex), where=traceback.format_exc()[-1500:])

    # -- strategies ----------------------------------------------------------
    def out_edges(self, keep):
        return [e for e in self.graph.edges.get(self.at, []) if keep(e)]

    def random_walk(self, n, keep=lambda e: True, weight=None):
        for _ in range(n):
            es = self.out_edges(keep)
            if not es:   # the specification's stream ends here: start over
                es = [e for e in self.graph.edges.get(self.at, []) if e.a == "clean"]
                if not es:
                    return
            if weight:
                e = self.rng.choices(es, [weight(x) for x in es])[0]
            else:
                e = self.rng.choice(es)
            self.do(e)

    def tour(self, keep=lambda e: True, limit=100000):
        """Take every edge (that keep accepts) of the graph at least once."""
        todo = {e.key for es in self.graph.edges.values() for e in es if keep(e)}
        total, steps = len(todo), 0
        while todo and steps < limit:
            es = [e for e in self.graph.edges.get(self.at, []) if e.key in todo]
            if not es:
                path = self.path(todo, keep)
                if path is None:
                    break
                for e in path:
                    todo.discard(e.key)
                    self.do(e)
                    steps += 1
                continue
            e = self.rng.choice(es)
            todo.discard(e.key)
            self.do(e)
            steps += 1
        return total - len(todo), total

    def path(self, todo, keep):
        """Shortest way to a state with an edge still to take."""
        prev, q = {self.at: None}, collections.deque([self.at])
        while q:
            s = q.popleft()
            if any(e.key in todo for e in self.graph.edges.get(s, [])):
                out = []
                while prev[s] is not None:
                    out.append(prev[s])
                    s = prev[s].s
                return out[::-1]
            for e in self.graph.edges.get(s, []):
                if e.d not in prev and (keep(e) or e.a == "clean"):
                    if e.a == "restore" and self.snap is None:
                        continue
                    prev[e.d] = e
                    q.append(e.d)
        return None

    def path_to(self, target):
        prev, q = {self.at: None}, collections.deque([self.at])
        while q:
            s = q.popleft()
            if s == target:
                out = []
                while prev[s] is not None:
                    out.append(prev[s])
                    s = prev[s].s
                return out[::-1]
            es = list(self.graph.edges.get(s, []))
            self.rng.shuffle(es)
            for e in es:
                if e.d not in prev and e.a != "restore":
                    prev[e.d] = e
                    q.append(e.d)
        return None

    def to_clean(self):
        e = [e for e in self.graph.edges[self.at] if e.a == "clean"]
        self.do(e[0])

    def fork(self, seed):
        """A deep copy of the network and of the walk's knowledge about it."""
        w = copy.copy(self)
        w.m = self.call("deepcopy", lambda: copy.deepcopy(self.m))
        w.hist = collections.deque(self.hist, maxlen=512)
        w.rng, w.gen = random.Random(seed), torch.Generator().manual_seed(seed)
        w.kept, w.log = collections.deque(maxlen=12), collections.deque(self.log, maxlen=400)
        w.others = []
        w.saved = clone_saved(self.saved)
        return w


def clone_saved(s):
    return None if s is None else {k: clone(v) for k, v in s.items()}

