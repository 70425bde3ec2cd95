"""Behaviours of Convert.tla on real networks (C20, C23)."""
import contextlib
import copy
import random
from collections import OrderedDict

import torch

from blocks import guarded
from core import Violation
from realize import co, nn
from replay import same

C = 4
T = 12
SPACE = {1: (), 2: (9,), 3: (9, 8)}


def time_padding(rng, options):
    """Streams only follow the whole clip if nothing is padded in time (C04 is about those that are)."""
    return rng.choice(options) if getattr(rng, "time_padding", True) else 0


def dims(rng, nd, t, s):
    return (t, *[rng.choice(s) for _ in range(nd - 1)])


def simple(v):
    return v[0] if isinstance(v, tuple) and len(v) == 1 else v


# -- generators of modules: (rng, nd) -> module; all keep channels, so that they can follow each other ----------------
def g_conv(rng, nd, **kw):
    k = dims(rng, nd, rng.choice([1, 2, 3]), [1, 3])
    d = dims(rng, nd, 1, [1, 1, 2])
    kw = {**dict(kernel_size=k, padding=(time_padding(rng, range(k[0])), *[x // 2 * y for x, y in zip(k[1:], d[1:])]),
                 bias=rng.random() < 0.7, stride=dims(rng, nd, rng.choice([1, 1, 2]), [1, 1, 2]), groups=rng.choice([1, 2, 4]),
                 dilation=d if "kernel_size" not in kw else 1,
                 padding_mode=rng.choice(["zeros", "zeros", "replicate"])), **kw}
    if nd == 1 and rng.random() < 0.5:    # (torch makes tuples of numbers)
        kw = {k: simple(v) if isinstance(v, tuple) else v for k, v in kw.items()}
    return getattr(nn, "Conv%dd" % nd)(C, C, **kw)


def g_conv_named(rng, nd):
    if rng.random() < 0.5:
        return g_conv(rng, nd, padding="valid", padding_mode="zeros", kernel_size=dims(rng, nd, rng.choice([1, 2, 3]), [1]))
    k = rng.choice([1, 3, 5]) if getattr(rng, "time_padding", True) else 1
    return g_conv(rng, nd, padding="same", stride=1, kernel_size=dims(rng, nd, k, [1, 3]))


def g_pool(rng, nd):
    k = dims(rng, nd, rng.choice([1, 2, 3]), [1, 2, 3])
    kw = dict(kernel_size=k, stride=dims(rng, nd, rng.choice([1, 1, 2]), [1, 2]),
              padding=(time_padding(rng, [0, k[0] // 2]), *[rng.choice([0, x // 2]) for x in k[1:]]),
              ceil_mode=rng.random() < 0.4)
    if kw["ceil_mode"] and not getattr(rng, "time_padding", True):
        kw["stride"] = (1, *kw["stride"][1:])
    if rng.random() < 0.5:
        kw["dilation"] = dims(rng, nd, rng.choice([1, 2]), [1, 1, 2])
        return getattr(nn, "MaxPool%dd" % nd)(**{k: simple(v) for k, v in kw.items()})
    kw["count_include_pad"] = rng.random() < 0.5
    if nd > 1 and rng.random() < 0.3:
        kw["divisor_override"] = rng.choice([1, 2, 5])
    return getattr(nn, "AvgPool%dd" % nd)(**{k: simple(v) for k, v in kw.items()})


def g_rnn(rng, nd, **kw):
    k = rng.choice(["RNN", "GRU", "LSTM"])
    kw = dict(num_layers=rng.choice([1, 2]), bias=rng.random() < 0.7, batch_first=rng.random() < 0.5, **kw)
    if kw["num_layers"] > 1:
        kw["dropout"] = rng.choice([0.0, 0.5])
    if k == "RNN":
        kw["nonlinearity"] = rng.choice(["tanh", "relu"])
    if k == "LSTM" and rng.random() < 0.3:
        kw["proj_size"] = 1
    return getattr(nn, k)(C, C, **kw)


def g_plain(rng, nd):
    return rng.choice([
        lambda: nn.ReLU(), lambda: nn.PReLU(), lambda: nn.Sigmoid(), lambda: nn.ELU(0.5), lambda: nn.GELU(),
        lambda: nn.LeakyReLU(0.3), lambda: nn.Softmax(dim=1), lambda: nn.Dropout(0.5), lambda: nn.Hardtanh(-0.3, 0.4),
        lambda: nn.Threshold(0.1, 0.2), lambda: nn.LogSoftmax(dim=1), lambda: nn.RReLU(), lambda: nn.Softplus(2.0),
        lambda: getattr(nn, "BatchNorm%dd" % nd)(C),
        lambda: getattr(nn, "BatchNorm%dd" % nd)(C, affine=False),
        lambda: getattr(nn, "InstanceNorm%dd" % nd)(C, affine=True, track_running_stats=True),
    ])()


class SubConv(nn.Conv1d):
    pass


class SubReLU(nn.ReLU):
    pass


class SubSequential(nn.Sequential):
    pass


class SubPool(nn.AvgPool1d):
    pass


def g_other(rng, nd):
    one = [lambda: SubConv(C, C, 1), lambda: SubSequential(nn.Tanh(), nn.ReLU())] if nd == 1 else []
    return rng.choice([lambda: nn.Identity(), lambda: nn.Mish(), lambda: SubReLU(), lambda: SubSequential(nn.ReLU()),
                       lambda: nn.LocalResponseNorm(2), *one])()


def g_still(rng, nd):
    """Modules that are known no more, and cannot be run here either."""
    return rng.choice([lambda: nn.ModuleList([nn.ReLU()]), lambda: nn.Bilinear(2, 2, 2), lambda: nn.Embedding(3, 2),
                       lambda: nn.MultiheadAttention(2, 1), lambda: nn.Flatten(), lambda: nn.LazyConv1d(2, 2),
                       lambda: nn.ConvTranspose1d(2, 2, 2), lambda: nn.TransformerEncoderLayer(2, 1), lambda: nn.RNNCell(2, 2),
                       lambda: nn.AdaptiveAvgPool1d(1), lambda: nn.Upsample(2), lambda: nn.ModuleDict(), lambda: SubPool(2)])()


def g_linear(rng, nd):
    return nn.Linear((T, *SPACE[nd])[-1], rng.choice([1, 3, 5]), bias=rng.random() < 0.8)


def g_bad(rng, nd):
    inorm = getattr(nn, "InstanceNorm%dd" % nd)
    return rng.choice([
        lambda: inorm(C), lambda: inorm(C, affine=True), lambda: inorm(C, track_running_stats=True),
        lambda: g_conv(rng, nd, padding_mode=rng.choice(["reflect", "circular"])),
        lambda: g_conv(rng, nd, kernel_size=dims(rng, nd, rng.choice([2, 3]), [1]), padding=0, dilation=dims(rng, nd, 2, [1])),
        lambda: g_conv(rng, nd, padding="same", stride=1, kernel_size=dims(rng, nd, rng.choice([2, 4]), [1])),
        lambda: inorm(C)])()


def g_bad_root(rng, nd):
    return rng.choice([lambda: g_rnn(rng, nd, bidirectional=True),
                       lambda: nn.AdaptiveAvgPool3d((2, 1, 1)), lambda: nn.AdaptiveMaxPool2d((3, 1)),
                       lambda: nn.TransformerEncoder(nn.TransformerEncoderLayer(2, 1, norm_first=True), 1)])()


def g_co(rng, nd):
    x = rng.random()
    if x < 0.4:
        return getattr(co, "Conv%dd" % nd)(C, C, (rng.choice([1, 2]), *[1] * (nd - 1)))
    if x < 0.6:
        return co.Delay(1)
    if x < 0.8:
        return co.Sequential(nn.ReLU(), co.Delay(1))
    return co.Residual(getattr(co, "Conv%dd" % nd)(C, C, 3, padding=1))


def g_fn(rng, nd):
    return rng.choice([lambda x: x * 2, torch.relu, nn.functional.gelu, torch.tanh, nn.functional.hardtanh])


GEN = dict(plain=g_plain, other=g_other, bad=g_bad, co=g_co, fn=g_fn, rnn=g_rnn, still=g_still, badroot=g_bad_root,
           linear=g_linear)
LAYERS = dict(local=lambda r, n: g_conv(r, n, kernel_size=dims(r, n, 1, [1, 3]), padding=0, stride=1), conv=g_conv, pool=g_pool, named=g_conv_named)


def rand_tree(rng, size, root=True):
    """A list of [k, ch] and the paths of the names; the root first."""
    nodes = []

    def go(size, root):
        n = len(nodes) + 1
        k = rng.choice(["layer", "layer", "plain", "plain", "custom", "other", "bad", "co"])
        if root and rng.random() < 0.1:
            k = rng.choice(["fn", "rnn", "badroot", "still", "linear"])
        elif size > 1:
            k = "seq"
        me = dict(k=k, ch=[], names=[])
        nodes.append(me)
        if k == "seq":
            for j in range(rng.choice([1, 2, 3])):
                me["ch"].append(go((size - 1) // 2, False))
            if rng.random() < 0.4:
                me["names"] = rng.sample(["a", "b", "conv", "5", "x1", "1x1"], len(me["ch"]))
            else:
                me["names"] = [str(j) for j in range(len(me["ch"]))]
        return n
    go(size, root)
    # most trees should convert
    if rng.random() < 0.7:
        for m in nodes[1:]:
            if m["k"] in ("other", "bad"):
                m["k"] = rng.choice(["layer", "plain"])
    return settle(nodes, rng)


def settle(nodes, rng):
    for m in nodes:
        if m["k"] == "layer":
            m["g"] = rng.choice(["conv", "conv", "local", "pool", "named"])
    return nodes


SPEC_KIND = dict(rnn="layer", linear="layer", badroot="bad", still="other")


def given(tree):
    # only what is local in time may be made streamable by hand
    return [dict(k=SPEC_KIND.get(m["k"], m["k"]), ch=m["ch"],
                 hand=m["k"] in ("plain", "custom", "other", "co") or m.get("g") == "local") for m in tree]


def settings(m):
    names = [n for n in getattr(m, "__constants__", ()) if hasattr(m, n)]
    if isinstance(m, nn.RNNBase):
        names = ["input_size", "hidden_size", "num_layers", "bias", "dropout", "proj_size", "mode"]
    out = {}
    for n in names:
        v = getattr(m, n)
        if isinstance(v, int) and not isinstance(v, bool):
            v = (v,)
        out[n] = set(v) if isinstance(v, tuple) and len(set(v)) == 1 else v
    return out


class Replayer:
    def __init__(self, tree, h, seed):
        self.tree, self.h, self.rng = tree, h, random.Random(seed)
        torch.manual_seed(seed)
        self.done = self.compared = 0
        rng = self.rng
        self.nd = rng.choice([1, 2, 3])
        self.dtype = rng.choice([torch.float32, torch.float64])
        rng.time_padding = rng.random() < 0.5

        class Custom(nn.Module):
            def __init__(self, c=3.0):
                nn.Module.__init__(self)
                self.c = c

            def forward(self, x):
                return x * self.c

        class CoCustom(co.CoModule, nn.Module):
            def __init__(self, c):
                nn.Module.__init__(self)
                self.c = c

            def forward(self, x):
                return x * self.c

            forward_steps = lambda self, x, pad_end=False, update_state=True: x * self.c   # noqa: E731
            forward_step = lambda self, x, update_state=True: x * self.c                   # noqa: E731

            @staticmethod
            def build_from(m):
                return CoCustom(m.c)
        self.Custom, self.CoCustom = Custom, CoCustom
        self.obj = {}
        self.build(1)
        root = self.obj[1]
        if isinstance(root, nn.Module):
            root.to(self.dtype)
            for m in root.modules():
                for n, b in m.named_buffers(recurse=False):
                    if b is not None and b.dtype.is_floating_point and b.numel():
                        b.copy_(torch.rand_like(b) + 0.5)
            for p in root.parameters():     # as freshly initialised, or all equal, for instance
                if not isinstance(p, nn.UninitializedParameter) and rng.random() < 0.2:
                    nn.init.constant_(p, rng.choice([0.0, 0.0, 1.0, -0.5]))
        self.run_it = tree[0]["k"] not in ("rnn", "badroot", "still")
        # the original, untouched
        self.pristine = {n: copy.deepcopy(o) if isinstance(o, nn.Module) else o for n, o in self.obj.items()}
        self.marked = set()
        self.result = None

    def build(self, n):
        m = self.tree[n - 1]
        if m["k"] == "seq":
            kids = [self.build(c) for c in m["ch"]]
            default = m["names"] == [str(j) for j in range(len(kids))]
            o = nn.Sequential(*kids) if default else nn.Sequential(OrderedDict(zip(m["names"], kids)))
        elif m["k"] == "custom":
            o = self.Custom()
        elif m["k"] == "layer":
            o = LAYERS[m.get("g", "conv")](self.rng, self.nd)
        else:
            o = GEN[m["k"]](self.rng, self.nd)
        self.obj[n] = o
        return o

    def run(self):
        try:
            for r in self.h:
                self.done += 1
                getattr(self, "do_" + r["a"])(r)
        finally:
            co.convert.MODULE_MAPPING.pop(self.Custom, None)

    def do_end(self, r):
        pass

    def do_mark(self, r):
        o = self.obj[r["n"]]
        try:
            got = co.forward_stepping(o)
        except Exception as e:
            raise Violation("making %s streamable raised %s: %s" % (type(o).__name__, type(e).__name__, e))
        if got is not o:
            raise Violation("making %s streamable gave another object" % type(o).__name__)
        self.marked.add(r["n"])
        if self.tree[r["n"] - 1]["k"] in ("plain", "custom") or isinstance(o, (nn.Identity, nn.Mish)):
            self.alike(r["n"], o, steps=True)

    def do_register(self, r):
        if r["good"]:
            try:
                got = co.convert.register(self.Custom, self.CoCustom)
            except Exception as e:
                raise Violation("registering a complete type raised %s: %s" % (type(e).__name__, e))
            if got is not self.CoCustom:
                raise Violation("registering gives %s" % got)
            return
        lack = self.rng.choice(["build_from", "forward_step", "forward_steps", "forward", "get_state", "set_state", "clean_state",
                                "delay", "receptive_field", "stride", "padding"])
        ns = {n: (lambda self, *a, **k: None) for n in ("forward_step", "forward_steps", "forward", "get_state", "set_state",
                                                       "clean_state")}
        ns.update(delay=0, receptive_field=1, stride=(1,), padding=(0,), build_from=staticmethod(lambda m: m), _state_shape=0,
                  _dynamic_state_inds=[])
        ns.pop(lack)
        cls = type("Lacks", (), ns)
        try:
            co.convert.register(self.Custom, cls)
        except Exception:
            return
        raise Violation("a type without %s can be registered" % lack)

    def do_mode(self, r):
        self.obj[r["n"]].train(r["b"])

    def convert(self, o, via):
        if via == "continual":
            return co.continual(o)
        if via == "builder":
            return co.Sequential.build_from(o)
        if via == "container":
            return co.Sequential(o)[0]
        if via == "branches":
            return next(iter(co.Parallel(o, auto_delay=False)))
        if via == "append":
            s = co.Sequential()
            if self.rng.random() < 0.5:
                s.append(o)
                return s[0]
            s.add_module("x", o)
            return s.x
        return co.Conditional(lambda *a: True, o)._modules["0"]

    def do_convert(self, r):
        n = r["n"]
        o = self.obj[n]
        own = {p.data_ptr() for p in o.parameters() if p.numel()} if isinstance(o, nn.Module) and not any(
            isinstance(p, nn.UninitializedParameter) for p in o.parameters()) else set()
        flags = self.flags()
        try:
            got = self.convert(o, r["via"])
        except Exception as e:
            if r["ok"]:
                raise Violation("converting %s (by %s) raised %s: %s" % (self.name(n), r["via"], type(e).__name__, e))
            got = None
        else:
            if not r["ok"]:
                raise Violation("%s should be refused (by %s), became %s" % (self.name(n), r["via"], type(got).__name__))
        self.compared += 1
        if self.flags() != flags:
            raise Violation("converting changed the modes of the original")
        for m in range(1, len(self.tree) + 1):
            if self.tree[m - 1]["k"] == "plain" and r["ok"] and r["out"][m - 1]:
                self.marked.add(m)
        # the original still does what it did
        self.alike(1, self.obj[1])
        if not r["ok"]:
            self.result = None
            return
        self.compare(n, got, r["out"], own, r["via"])
        self.result = (n, got)
        self.alike(n, got, steps=self.steady(n))

    def steady(self, n):
        """Streaming gives exactly the frames of the whole clip."""
        o = self.pristine[n]
        if not isinstance(o, nn.Module):
            return True
        return not self.rng.time_padding and not (isinstance(o, nn.Linear) and self.nd == 1) and not any(isinstance(m, (co.CoModule, self.Custom)) for m in o.modules())

    def name(self, n):
        o = self.obj[n]
        return repr(o).replace("\n", " ")[:200]

    def flags(self):
        return {n: [m.training for m in o.modules()] for n, o in self.obj.items() if isinstance(o, nn.Module)}

    def compare(self, n, got, out, own, via):
        o, want = self.obj[n], out[n - 1]
        k = self.tree[n - 1]["k"]
        if not isinstance(got, co.CoModule) and not co.CoModule.is_valid(got):
            raise Violation("%s became a %s, which cannot stream" % (self.name(n), type(got).__name__))
        if want["same"] != (got is o):
            raise Violation("%s should%s be itself after conversion" % (self.name(n), "" if want["same"] else " not"))
        if want["as"] == "counterpart":
            cls = self.CoCustom if k == "custom" else getattr(co, type(o).__name__)
            if type(got) is not cls:
                raise Violation("%s became a %s" % (self.name(n), type(got).__name__))
            if k != "custom":
                a, b = settings(o), settings(got)
                for s in a:
                    if s in ("return_indices",) or s == "padding" and isinstance(a[s], str):
                        continue
                    if a[s] != b.get(s):
                        raise Violation("%s of %s is %s after conversion" % (s, self.name(n), b.get(s)))
                pa, pb = dict(o.named_parameters()), dict(got.named_parameters())
                if pa.keys() != pb.keys():
                    raise Violation("parameters of %s are named %s after conversion" % (self.name(n), sorted(pb)))
                for p in pa:
                    if pa[p].dtype != pb[p].dtype or not torch.equal(pa[p], pb[p]):
                        raise Violation("%s of %s is not copied%s" % (p, self.name(n), " in its data type" if pa[p].dtype != pb[p].dtype else ""))
                    if pb[p].data_ptr() in own:
                        raise Violation("%s of %s is shared with the original" % (p, self.name(n)))
        elif want["as"] == "container":
            if type(got) is not co.Sequential or list(got._modules) != self.tree[n - 1]["names"]:
                raise Violation("%s became a %s with children %s" % (self.name(n), type(got).__name__, list(got._modules)))
            for c, g in zip(self.tree[n - 1]["ch"], got._modules.values()):
                self.compare(c, g, out, own, "continual")
        elif want["as"] == "wrapper" and type(got) is not co.Lambda:
            raise Violation("a function became a %s" % type(got).__name__)
        if k != "fn" and via != "builder" and got.training != want["train"]:
            raise Violation("%s is in %s mode after conversion" % (self.name(n), "training" if got.training else "evaluation"))
        self.compared += 1

    def alike(self, n, got, steps=False):
        """got computes what module n of the original does."""
        if not self.run_it:
            return
        ref = self.pristine[n]
        x = torch.randn(2, C, T, *SPACE[self.nd], dtype=self.dtype)
        with self.evaluating([got, ref]):
            try:
                want = ref(x)
            except RuntimeError:
                return      # too short a clip for this chain
            try:
                have = [got(x)]
                if steps:
                    have.append(got.forward_steps(x))
                    got.clean_state()
                    outs = [got.forward_step(x[:, :, t]) for t in range(T)]
                    have.append(torch.stack([y for y in outs if y is not None], 2))
                    got.clean_state()
            except Exception as e:
                raise Violation("%s raised %s: %s" % (self.name(n), type(e).__name__, e))
        for y in have:
            e = same(y, want, self.dtype)
            if e:
                raise Violation("%s computes something else: %s" % (self.name(n), e))
        self.compared += 1

    @staticmethod
    @contextlib.contextmanager
    def evaluating(ms):
        keep = [(m, m.training) for o in ms if isinstance(o, nn.Module) for m in o.modules()]
        for m, _ in keep:
            m.training = False
        try:
            yield
        finally:
            for m, t in keep:
                m.training = t

    def do_again(self, r):
        n, got = self.result
        try:
            again = self.convert(got, r["via"])
        except Exception as e:
            raise Violation("converting what was converted raised %s: %s" % (type(e).__name__, e))
        if again is not got:
            raise Violation("converting what was converted (%s) gave a new object" % type(got).__name__)
        self.compared += 1


def replay_one(a):
    with torch.no_grad():
        return guarded(lambda: Replayer(*a))


def replay(d):
    o = replay_one(d["item"])
    print(o["error"] or (("reproduced: %s" % o["violation"]["what"]) if o["violation"] else "not reproduced"))
    return 1 if o["violation"] else 0
