"""Streams whose state is passed in and returned (C18): functional stepping, the ONNX wrapper, exported models."""
import collections
import copy
import io
import os
import random
import tempfile
import traceback

import torch

from core import MachineryError, Violation
from realize import co, nn
from replay import clone, equal, same, states
from streamcheck import KEEP
from strategies import plan


def tensors(state):
    """All tensors of a nested state, in order; None for parts that are not there yet."""
    if state is None:
        return [None]
    if isinstance(state, torch.Tensor):
        return [state]
    return [t for s in state for t in tensors(s)]


def total(shape):
    return shape if isinstance(shape, int) else sum(total(s) for s in shape)


def nested_as(state, shape, full, path="state"):
    """What is wrong with the nesting of a state, compared with the declared one."""
    if isinstance(shape, int):
        if state is None or isinstance(state, (tuple, list)) and len(state) == 0:
            return "%s is missing, %d tensors are declared" % (path, shape) if full and shape else None
        if not isinstance(state, (tuple, list)):
            return "%s is a %s, %d tensors are declared" % (path, type(state).__name__, shape)
        if len(state) != shape or not all(isinstance(t, torch.Tensor) for t in state):
            return "%s holds %s, %d tensors are declared" % (path, [type(t).__name__ for t in state], shape)
        return None
    if state is None:
        return "%s is missing" % path if full and total(shape) else None
    if not isinstance(state, (tuple, list)) or len(state) != len(shape):
        return "%s should have %d parts" % (path, len(shape))
    for j, (s, h) in enumerate(zip(state, shape)):
        r = nested_as(s, h, full, "%s[%d]" % (path, j))
        if r:
            return r


def identical(a, b):
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.shape == b.shape and equal(a, b)
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b) and all(
            identical(x, y) for x, y in zip(a, b))
    return a is b or a == b


class Explicit:
    """One stream of explicit state through the network of a walk."""

    def __init__(self, w, seed):
        self.w = copy.copy(w)       # its own place in the graph and its own frames; the same network
        self.w.hist = collections.deque(maxlen=512)
        self.w.rng, self.w.gen = random.Random(seed), torch.Generator().manual_seed(seed)
        self.w.at = w.graph.init
        self.state, self.flat, self.steps = None, False, 0
        self.session = None
        m = w.m
        self.branches = any(isinstance(c, co.Conditional) for c in m.modules())
        self.queries = hasattr(w, "args") and w.real.g["kind"] in ("single", "retro")   # key and value come before the state
        self.shape = m._state_shape
        dyn = m._dynamic_state_inds
        if not isinstance(self.shape, int) and len(dyn) != len(self.shape) or total(self.shape) != len(
                [d for d in co.utils.flatten(dyn)] if not isinstance(dyn, bool) else [dyn]):
            raise Violation("%s state tensors are declared, but %s say which depend on the batch" % (self.shape, dyn))

    def restart(self):
        self.state, self.flat, self.session, self.steps = None, False, None, 0
        self.w.at = self.w.graph.init
        self.w.hist = collections.deque(maxlen=512)

    def twin(self, other):
        """Continue from a copy of another stream's state."""
        self.state, self.flat, self.session, self.steps = clone(other.state), other.flat, None, other.steps
        self.w.at, self.w.hist = other.w.at, collections.deque(other.w.hist, maxlen=512)

    def call(self, f):
        try:
            return f()
        except Exception as e:
            raise Violation("stepping with explicit state raised %s: %s" % (type(e).__name__, e),
                            where=traceback.format_exc()[-1500:])

    def step(self):
        w = self.w
        es = [e for e in w.out_edges(KEEP["step"])]
        if not es:
            return self.restart()
        e = w.rng.choice(es)
        w.real.sw.sw = e.sw
        if hasattr(w, "args"):
            flat = self.flat or self.session is not None    # these take one input only
            w.form = 1 if flat else w.rng.choice([1, 3])
            new = [w.frame(e.sw)]
            args = w.args(new, lambda ts: ts[0].clone())[:1 if flat else 3]
        else:
            new = [w.frame(e.sw)]
            args = [new[0].clone()]
        keep = [a.clone() for a in args]
        m = w.m
        full = all(t is not None for t in tensors(self.state)) and self.state is not None \
            and nested_as(self.state, self.shape, True) is None if not self.flat else True
        if self.session is not None:
            got = self.run_onnx(args)
        elif self.flat or full and w.rng.random() < 0.2 and len(args) == 1:
            if not self.flat:
                self.state, self.flat = [t for t in tensors(self.state) if t is not None], True
            got, *self.state = self.call(lambda: co.onnx.OnnxWrapper(m)(args[0], *self.state))
            if len(self.state) != total(self.shape):
                raise Violation("%d state tensors are returned, %d are declared" % (len(self.state), total(self.shape)))
        else:
            if w.rng.random() < 0.5 or len(args) > 1:
                got, self.state = self.call(lambda: m._forward_step(*args, prev_state=self.state))
            elif self.state is not None or w.rng.random() < 0.5:
                got, self.state = self.call(lambda: m._forward_step(args[0], self.state) if not self.queries
                                            else m._forward_step(args[0], prev_state=self.state))
            else:
                got, self.state = self.call(lambda: m._forward_step(args[0], prev_state=None))
        if not all(equal(a, b) for a, b in zip(args, keep)):
            raise Violation("stepping with explicit state changed its input")
        w.hist.extend(new)
        self.steps += 1
        w.log.append(("explicit", "step", tuple(args[0].shape), dict(flat=self.flat, steps=self.steps)))
        r = same(got, w.want(e.out, new, False), w.real.dtype)
        w.compared += 1
        if r:
            raise Violation("stepping with explicit state%s: %s" % (
                " (exported to ONNX)" if self.session is not None else " (OnnxWrapper)" if self.flat else "", r),
                edge=dict(state=e.s, action=e.a))
        w.at = e.d
        if not self.flat:
            # every part has stepped once something comes out, except for branches not taken yet
            r = nested_as(self.state, self.shape, got is not None and self.steps > 1 and not self.branches)
            if r:
                raise Violation("the returned state is not nested as declared: " + r)

    # -- exported models -----------------------------------------------------
    def export(self, opset, fold):
        import onnxruntime
        w = self.w
        x = w.frame(True)
        x = (x[0] if isinstance(x, tuple) else x).clone()
        flat = self.state if self.flat else [t for t in tensors(self.state) if t is not None]
        fd, path = tempfile.mkstemp(suffix=".onnx")
        os.close(fd)
        try:
            def go():
                import contextlib
                with contextlib.redirect_stdout(io.StringIO()):
                    co.onnx.export(w.m, (x, *clone(list(flat))), path, opset_version=opset, do_constant_folding=fold)
            self.call(go)
            o = onnxruntime.SessionOptions()
            o.intra_op_num_threads = o.inter_op_num_threads = 1
            o.log_severity_level = 4
            self.session = self.call(lambda: onnxruntime.InferenceSession(path, o, providers=["CPUExecutionProvider"]))
        finally:
            os.unlink(path)
        self.names = ["s%d" % j for j in range(total(self.shape))]
        outs = [o.name for o in self.session.get_outputs()]
        if len(outs) != 1 + len(self.names):
            raise Violation("the exported model returns %d state tensors, %d are declared" % (len(outs) - 1, len(self.names)))
        self.state, self.flat = [t.detach().clone() for t in flat], True

    def run_onnx(self, args):
        takes = [i.name for i in self.session.get_inputs()]
        feed = dict(zip(["input", *self.names], [args[0].numpy(), *[t.numpy() for t in self.state]]))
        # inputs without influence are left out by the exporter
        got, *st = self.call(lambda: self.session.run(None, {k: v for k, v in feed.items() if k in takes}))
        self.state = [torch.from_numpy(s.copy()) if hasattr(s, "copy") else torch.tensor(s) for s in st]
        return torch.from_numpy(got.copy())


@plan
def explicit(w, n):
    """Streams of explicit state beside the stream of internal state."""
    sts = [Explicit(w, w.rng.randrange(1 << 30)) for _ in range(3)]
    for s in sts:
        s.w.graph = w.graph
    for k in range(n):
        x = w.rng.random()
        if x < 0.3:
            w.random_walk(1, KEEP["peek"])
            continue
        s = w.rng.choice(sts)
        if x < 0.33:
            s.restart()
        elif x < 0.37:
            s.twin(w.rng.choice(sts))
        else:
            watch = w.rng.random() < 0.3
            before = states(w.m) if watch else None
            s.step()
            if watch and not identical_states(before, states(w.m)):
                raise Violation("stepping with explicit state changed the internal state")
    for s in sts:
        w.calls += s.w.calls + s.steps
        w.compared += s.w.compared


def identical_states(a, b):
    return a.keys() == b.keys() and all(identical(a[k], b[k]) for k in a)


@plan
def exported(w, n, opset, fold):
    """The exported model, fed its own states, goes on where the network was."""
    s = Explicit(w, w.rng.randrange(1 << 30))
    want_steps = w.graph.info["settled"] + w.rng.randrange(4)
    while s.steps < want_steps or nested_as(s.state, s.shape, True) is not None and not s.flat:
        s.step()
        if s.steps > want_steps + 30:
            raise MachineryError("the state does not fill up")
    if s.flat and s.session is None:
        pass
    s.export(opset, fold)
    before = states(w.m)
    for _ in range(n):
        s.step()
    if not identical_states(before, states(w.m)):
        raise Violation("exporting changed the internal state")
    w.calls += s.steps
    w.compared += s.w.compared
