"""Replaying behaviours of Memory.tla: a network whose caller reuses memory, beside one for which nothing is ever reused."""
import copy
import random

import torch

from attention import AttnReal
from blocks import guarded
from core import MachineryError, Violation
from realize import Real, co
from replay import MODAL, describe, kept_value, storage, tensors, tol
from streamcheck import DT


def given(item):
    """What Memory.tla needs to know of a network."""
    g = item["given"]
    attn = "net" not in g
    kinds = ["frame", "chunk"] + (["clip"] if g["clips"] else [])
    k = None if attn else g["net"]["k"]
    return dict(kinds=kinds, again=not attn and item["again"], pads=not attn, passes=k in ("point", "delay", "cond", "skip"))


def alike(a, b, dtype):
    """None if the same up to rounding."""
    if isinstance(b, torch.Tensor):
        if not isinstance(a, torch.Tensor) or a.shape != b.shape or a.dtype != b.dtype:
            return "%s instead of %s" % (describe(a), describe(b))
        if not torch.allclose(a.detach(), b.detach(), equal_nan=True, **tol(dtype)):
            return "values differ by up to %.3g" % torch.nan_to_num(a.detach() - b.detach(), nan=float("inf")).abs().max().item()
        return None
    if isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return "%s instead of %s" % (describe(a), describe(b))
        return next((r for r in (alike(x, y, dtype) for x, y in zip(a, b)) if r), None)
    return None if a is b or a == b else "%s instead of %s" % (describe(a), describe(b))


class Cell:
    def __init__(self, kind, parts, bases=()):
        self.kind, self.parts, self.bases = kind, parts, list(bases)
        self.list = self.items = None
        self.look()

    def look(self):
        self.vals = [p.detach().clone() for p in self.parts]

    def places(self):
        return {storage(p) for p in self.parts}

    def usable(self):
        return bool(self.parts) and not any(p.isnan().any() for p in self.parts)

    def spoil(self):
        for p in self.bases or self.parts:
            p.detach().fill_(float("nan"))


class Replayer:
    def __init__(self, item, h, seed):
        self.item, self.h, self.seed = item, h, seed
        self.rng = random.Random(seed)
        self.gen = torch.Generator().manual_seed(seed)
        self.done = self.compared = 0
        g = item["given"]
        j = dict(seed=seed, build="direct", dtype=self.rng.choice(["f64", "f64", "f32"]), train=item["train"], opts=dict(item["opts"]))
        self.attn = "net" not in g
        self.batch = self.rng.choice([1, 2, 3])
        self.dtype = DT[j["dtype"]]
        if self.attn:
            self.real = AttnReal(g, j)
        else:
            j["opts"].setdefault("batch", self.batch)
            self.real = Real(g["net"], item["shape"], seed, "direct", self.dtype, item["train"], j["opts"])
        self.m = self.real.module
        self.twin = copy.deepcopy(self.m)
        self.weights = {k: v.clone() for k, v in torch.nn.Module.state_dict(self.m).items()}
        self.cells = {}
        self.form = self.rng.choice([1, 3]) if self.attn and g["kind"] in ("single", "retro") else 1

    # -- memory ------------------------------------------------------------
    def values(self, kind):
        """Fresh values for the arguments of a call."""
        g, real = self.item["given"], self.real
        T = {"frame": 1, "chunk": self.rng.choice(g["chunks"] or [1]), "clip": self.rng.choice(g["clips"] or [1])}[kind]
        out = []
        for _ in range(self.form):
            fs = [torch.randn((self.batch, *(real.shape if not self.attn else (real.E,))), generator=self.gen,
                              dtype=torch.float64).to(self.dtype) for _ in range(T)]
            out.append(fs[0] if kind == "frame" else (real.pack(fs) if self.attn else torch.stack(fs, 2)))
        return out

    def somewhere(self, v):
        """Memory for it: on its own, a part of something larger, or oddly arranged."""
        k = self.rng.random()
        if k < 0.4 or v.dim() < 2:
            return v.clone(), None
        if k < 0.6:
            return v.transpose(0, -1).contiguous().transpose(0, -1), None
        ax = self.rng.randrange(1, v.dim() + 1)
        if ax == v.dim():      # one of several, like a frame of a clip
            big = torch.full((*v.shape, 3), float("nan"), dtype=v.dtype)
            x = big[..., 1]
        else:
            s = list(v.shape)
            s[ax] += 3
            big = torch.full(s, float("nan"), dtype=v.dtype)
            x = big.narrow(ax, 2, v.shape[ax])
        x.copy_(v)
        return x, big

    def watch(self, what):
        for c, cell in self.cells.items():
            if cell.list is not None and (len(cell.list) != len(cell.items) or any(a is not b for a, b in zip(cell.list, cell.items))):
                raise Violation("%s changed a list returned earlier" % what)
            for p, v in zip(cell.parts, cell.vals):
                if not torch.equal(p.detach().nan_to_num(12345.0), v.nan_to_num(12345.0)):
                    raise Violation("%s changed %s" % (what, "a result returned earlier" if c in self.results else
                                                       "what the caller had handed over"))
                self.compared += 1

    def run(self):
        self.results = set()
        self.log = []
        for r in self.h:
            self.done += 1
            self.log.append(r)
            getattr(self, "do_" + r["a"])(r)

    def do_end(self, r):
        for k, v in torch.nn.Module.state_dict(self.m).items():
            if not kept_value(v, self.weights[k]):
                raise Violation("streaming changed the weights %s" % k)

    def do_fill(self, r):
        c, kind = r["c"], r["kind"]
        vals, old = self.values(kind), self.cells.get(c)
        if old is not None and old.kind == kind and [p.shape for p in old.parts] == [v.shape for v in vals]:
            for p, v in zip(old.parts, vals):
                p.copy_(v)
        else:
            made = [self.somewhere(v) for v in vals]
            self.cells[c] = Cell(kind, [x for x, _ in made], [x if b is None else b for x, b in made])
        self.after(c)

    def after(self, c):
        """Those who are in the same place see what the caller wrote."""
        at = self.cells[c].places()
        for d in self.cells.values():
            if d.places() & at:
                d.look()

    def do_spoil(self, r):
        cell = self.cells.get(r["c"])
        if cell is None or not cell.parts:
            return
        cell.spoil()
        self.after(r["c"])

    def do_clean(self, r):
        for m in (self.m, self.twin):
            m.clean_state()
        self.watch("clean_state")

    def fits(self, parts, way):
        """Whether a result can be the next input."""
        s = list(parts[0].shape)
        if len(parts) != 1 or len(s) < 2 or s[0] != self.batch:
            return False
        if way == "step":
            return s[1:] == list(self.real.shape)
        return len(s) > 2 and s[1:2] + s[3:] == list(self.real.shape) and s[2] > 0 and (
            way == "steps" and s[2] <= max(self.item["given"]["chunks"]) or s[2] in self.item["given"]["clips"])

    def do_call(self, r):
        cell = self.cells.get(r["c"])
        if cell is None or not cell.usable():     # a call that returned nothing, or a neighbour in the same place was spoilt
            return
        if r["c"] in self.results and not self.fits(cell.parts, r["way"]):
            return
        mode = dict(step="forward_step", steps="forward_steps", forward="forward")[r["way"]]
        kw = {} if r["way"] == "forward" else dict(update_state=r["upd"])
        if r["way"] == "steps" and not self.attn:
            kw["pad_end"] = r["pe"]
        self.real.sw.sw = self.rng.random() < 0.5
        if not any(isinstance(m, MODAL) for m in self.m.modules()) and self.rng.random() < 0.1:
            self.m.train(not self.m.training)
            self.twin.train(self.m.training)
        got, failed = [], []
        with torch.set_grad_enabled(self.rng.random() < 0.2):
            for m, args in ((self.twin, [v.clone() for v in cell.vals]), (self.m, [p.detach() for p in cell.parts])):
                self.real.sw.mode, self.real.sw.wrong = mode, []
                try:
                    got.append(getattr(m, mode)(*args, **kw))
                except Exception as e:
                    failed.append("%s: %s" % (type(e).__name__, e))
        if len(failed) == 2:      # not a call this network is for
            return self.do_clean(r)
        if failed:
            raise Violation("%s raised %s" % (mode, failed[0]))
        e = alike(got[1], got[0], self.dtype)
        self.compared += 1
        if e:
            raise Violation("%s returns something else when the caller reuses memory: %s" % (mode, e))
        self.watch(mode)
        # the twin's results are nobody's, and are not kept
        self.results.add(r["r"])
        c = self.cells[r["r"]] = Cell(cell.kind, [t.detach() for t in tensors(got[1])])
        if isinstance(got[1], list):
            c.list, c.items = got[1], list(got[1])


def replay_one(a):
    with torch.no_grad():
        r = Replayer(*a)
        o = guarded(lambda: r)
        if o["violation"]:
            o["violation"]["detail"] = dict(o["violation"]["detail"] or {}, behaviour=r.log[-30:])
        return o


def replay(d):
    o = replay_one(d["item"])
    print(o["error"] or (("reproduced: %s" % o["violation"]["what"]) if o["violation"] else "not reproduced"))
    return 1 if o["violation"] else 0
