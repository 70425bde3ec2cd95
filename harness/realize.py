"""Turning an abstract network of CoNet.tla into a real network, and giving the
specification's frame operators their numeric meaning in terms of torch.nn.

Nothing here calls code of the library under test to compute an expected value.
"""
import copy
import os
import random
import sys
from collections import OrderedDict

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
from core import REPO  # noqa: E402

sys.path.insert(0, REPO)
import logging  # noqa: E402
import warnings  # noqa: E402

warnings.filterwarnings("ignore")
logging.disable(logging.WARNING)
import torch  # noqa: E402
import torch.nn.functional as F  # noqa: E402
from torch import nn  # noqa: E402

torch.set_num_threads(1)
import continual as co  # noqa: E402

ZERO, NINF, NONE, H0 = ("zero",), ("ninf",), ("none",), ("h0",)


class Switch:
    """The decision of Conditional predicates, set by the replay before each call."""

    def __init__(self):
        self.sw, self.calls, self.seen = True, 0, None
        self.mode, self.wrong = None, []     # the mode of the call under way; functions which ran in another one

    def __deepcopy__(self, memo):
        return self


class Leaf:
    """Reference functions of one node; w is a snapshot of its weights."""

    def __init__(self, fn=None, cell=None, out=None, pos=None, in_shape=None, h0=None, twin=None):
        self.fn, self.cell, self.out, self.pos = fn, cell, out, pos
        self.in_shape, self.h0, self.twin = in_shape, h0, twin


REDUCERS = {
    "sum": lambda fs: sum(fs[1:], fs[0]),
    "concat": lambda fs: torch.cat(fs, 1),
    "mul": lambda fs: _prod(fs),
    "max": lambda fs: _max(fs),
    "first_minus_rest": lambda fs: fs[0] - sum(fs[2:], fs[1]),
}


def _prod(fs):
    r = fs[0]
    for f in fs[1:]:
        r = r * f
    return r


def _max(fs):
    r = fs[0]
    for f in fs[1:]:
        r = torch.maximum(r, f)
    return r


def first_minus_rest(inputs):
    r = inputs[0]
    for i in inputs[1:]:
        r = r - i
    return r


def _center(x):
    return x - x.mean(dim=1, keepdim=True)


def _f(fn):
    return lambda w, f: fn(f[0])


def _norm(w, f):
    x = f[0]
    v = (1, x.shape[1]) + (1,) * (x.dim() - 2)
    return ((x - w["running_mean"].view(v)) / torch.sqrt(w["running_var"].view(v) + 1e-5)
            * w["weight"].view(v) + w["bias"].view(v))


_ALL = lambda C, nd: True  # noqa: E731
# Plain torch.nn modules which can be made streamable: constructor for a frame shape, the
# frame function (by formula or by torch.nn.functional), and the frame shapes it is for
NAIVE = {
    "Threshold": (lambda s: nn.Threshold(0.1, -0.7), _f(lambda x: torch.where(x > 0.1, x, torch.full_like(x, -0.7))), _ALL),
    "ReLU": (lambda s: nn.ReLU(), _f(lambda x: x.clamp(min=0)), _ALL),
    "RReLU": (lambda s: nn.RReLU(0.1, 0.3), _f(lambda x: F.leaky_relu(x, 0.2)), _ALL),
    "Hardtanh": (lambda s: nn.Hardtanh(-0.5, 0.8), _f(lambda x: x.clamp(-0.5, 0.8)), _ALL),
    "ReLU6": (lambda s: nn.ReLU6(), _f(lambda x: x.clamp(0, 6)), _ALL),
    "Sigmoid": (lambda s: nn.Sigmoid(), _f(torch.sigmoid), _ALL),
    "Hardsigmoid": (lambda s: nn.Hardsigmoid(), _f(F.hardsigmoid), _ALL),
    "Tanh": (lambda s: nn.Tanh(), _f(torch.tanh), _ALL),
    "SiLU": (lambda s: nn.SiLU(), _f(lambda x: x * torch.sigmoid(x)), _ALL),
    "Hardswish": (lambda s: nn.Hardswish(), _f(F.hardswish), _ALL),
    "ELU": (lambda s: nn.ELU(0.7), _f(lambda x: F.elu(x, 0.7)), _ALL),
    "CELU": (lambda s: nn.CELU(0.6), _f(lambda x: F.celu(x, 0.6)), _ALL),
    "SELU": (lambda s: nn.SELU(), _f(F.selu), _ALL),
    "GLU": (lambda s: nn.GLU(dim=1), _f(lambda x: F.glu(x, 1)), lambda C, nd: C % 2 == 0),
    "GELU": (lambda s: nn.GELU(), _f(F.gelu), _ALL),
    "Hardshrink": (lambda s: nn.Hardshrink(0.3), _f(lambda x: F.hardshrink(x, 0.3)), _ALL),
    "LeakyReLU": (lambda s: nn.LeakyReLU(0.3), _f(lambda x: F.leaky_relu(x, 0.3)), _ALL),
    "LogSigmoid": (lambda s: nn.LogSigmoid(), _f(F.logsigmoid), _ALL),
    "Softplus": (lambda s: nn.Softplus(2.0), _f(lambda x: F.softplus(x, 2.0)), _ALL),
    "Softshrink": (lambda s: nn.Softshrink(0.2), _f(lambda x: F.softshrink(x, 0.2)), _ALL),
    "PReLU": (lambda s: nn.PReLU(s[0]), lambda w, f: F.prelu(f[0], w["weight"]), _ALL),
    "PReLU1": (lambda s: nn.PReLU(), lambda w, f: F.prelu(f[0], w["weight"]), _ALL),
    "Softsign": (lambda s: nn.Softsign(), _f(lambda x: x / (1 + x.abs())), _ALL),
    "Tanhshrink": (lambda s: nn.Tanhshrink(), _f(lambda x: x - torch.tanh(x)), _ALL),
    "Softmin": (lambda s: nn.Softmin(dim=1), _f(lambda x: torch.softmax(-x, 1)), _ALL),
    "Softmax": (lambda s: nn.Softmax(dim=1), _f(lambda x: torch.softmax(x, 1)), _ALL),
    "SoftmaxLast": (lambda s: nn.Softmax(dim=-1), _f(lambda x: torch.softmax(x, -1)), lambda C, nd: nd > 1),
    "Softmax2d": (lambda s: nn.Softmax2d(), _f(lambda x: torch.softmax(x, 1)), lambda C, nd: nd == 2),
    "LogSoftmax": (lambda s: nn.LogSoftmax(dim=1), _f(lambda x: torch.log_softmax(x, 1)), _ALL),
    "BatchNorm1d": (lambda s: nn.BatchNorm1d(s[0]), _norm, lambda C, nd: nd == 1),
    "BatchNorm2d": (lambda s: nn.BatchNorm2d(s[0]), _norm, lambda C, nd: nd == 2),
    "BatchNorm3d": (lambda s: nn.BatchNorm3d(s[0]), _norm, lambda C, nd: nd == 3),
    "InstanceNorm1d": (lambda s: nn.InstanceNorm1d(s[0], affine=True, track_running_stats=True), _norm,
                       lambda C, nd: nd == 1),
    "InstanceNorm2d": (lambda s: nn.InstanceNorm2d(s[0], affine=True, track_running_stats=True), _norm,
                       lambda C, nd: nd == 2),
    "InstanceNorm3d": (lambda s: nn.InstanceNorm3d(s[0], affine=True, track_running_stats=True), _norm,
                       lambda C, nd: nd == 3),
    "LayerNorm": (lambda s: nn.LayerNorm(s[-1]), lambda w, f: F.layer_norm(f[0], f[0].shape[-1:], w["weight"], w["bias"]),
                  lambda C, nd: nd > 1),
    "LayerNorm2": (lambda s: nn.LayerNorm(s[-2:]), lambda w, f: F.layer_norm(f[0], f[0].shape[-2:], w["weight"], w["bias"]),
                   lambda C, nd: nd > 2),
    "Dropout": (lambda s: nn.Dropout(0.6), _f(lambda x: x), _ALL),
    "Dropout1d": (lambda s: nn.Dropout1d(0.6), _f(lambda x: x), lambda C, nd: nd == 1),
    "Dropout2d": (lambda s: nn.Dropout2d(0.6), _f(lambda x: x), lambda C, nd: nd == 2),
    "Dropout3d": (lambda s: nn.Dropout3d(0.6), _f(lambda x: x), lambda C, nd: nd == 3),
    "AlphaDropout": (lambda s: nn.AlphaDropout(0.6), _f(lambda x: x), _ALL),
    "FeatureAlphaDropout": (lambda s: nn.FeatureAlphaDropout(0.6), _f(lambda x: x), _ALL),
}


class Gain(nn.Module):
    """Somebody's own module, with names of its own."""

    def __init__(self, C):
        super().__init__()
        self.gain = nn.Parameter(torch.randn(C))
        self.register_buffer("shift", torch.randn(C))
        self.delays = self.step = self.state = 3

    def forward(self, x, bend=1.0):
        v = (1, -1) + (1,) * (x.dim() - 2)
        return torch.tanh(bend * x * self.gain.view(v)) + self.shift.view(v)


def _gain(w, f):
    v = (1, -1) + (1,) * (f[0].dim() - 2)
    return torch.tanh(f[0] * w["gain"].view(v)) + w["shift"].view(v)


def _conv2(**kw):
    return lambda w, f: F.conv2d(f[0], w["weight"].squeeze(2), w.get("bias"), **kw)


# Modules without a conversion of their own which do nothing over time: (module, function of a frame, applicable, shape after)
WRAPPED = {
    "w_gain": (lambda s: Gain(s[0]), _gain, _ALL, lambda s: s),
    "w_identity": (lambda s: nn.Identity(), _f(lambda x: x), _ALL, lambda s: s),
    "w_maxpool": (lambda s: nn.MaxPool3d((1, 2, 2)), _f(lambda x: F.max_pool2d(x, 2)),
                  lambda C, nd: nd == 3, lambda s: (s[0], s[1] // 2, s[2] // 2)),
    "w_maxpool2": (lambda s: nn.MaxPool2d((1, 2)), _f(lambda x: F.max_pool1d(x, 2)),
                   lambda C, nd: nd == 2, lambda s: (s[0], s[1] // 2)),
    "w_avgpool": (lambda s: nn.AvgPool3d((1, 2, 2), (1, 2, 1)), _f(lambda x: F.avg_pool2d(x, 2, (2, 1))),
                  lambda C, nd: nd == 3, lambda s: (s[0], s[1] // 2, s[2] - 1)),
    "w_avgpool1": (lambda s: nn.AvgPool1d(1, 1), _f(lambda x: x), lambda C, nd: nd == 1, lambda s: s),
    "w_lppool": (lambda s: nn.LPPool2d(2, (1, 2)), _f(lambda x: F.lp_pool1d(x, 2, 2)),
                 lambda C, nd: nd == 2, lambda s: (s[0], s[1] // 2)),
    "w_conv": (lambda s: nn.Conv3d(s[0], s[0] + 1, (1, 3, 2), (1, 2, 1), (0, 1, 1)), _conv2(stride=(2, 1), padding=(1, 1)),
               lambda C, nd: nd == 3, lambda s: (s[0] + 1, (s[1] - 1) // 2 + 1, s[2] + 1)),
    "w_conv_same": (lambda s: nn.Conv3d(s[0], s[0], (1, 3, 3), padding="same"), _conv2(padding=1),
                    lambda C, nd: nd == 3, lambda s: s),
    "w_conv_valid": (lambda s: nn.Conv3d(s[0], s[0], (1, 2, 2), padding="valid"), _conv2(),
                     lambda C, nd: nd == 3, lambda s: (s[0], s[1] - 1, s[2] - 1)),
    "w_conv_circular": (lambda s: nn.Conv3d(s[0], s[0], (1, 3, 1), padding=(0, 1, 0), padding_mode="circular", bias=False),
                        lambda w, f: F.conv2d(F.pad(f[0], (0, 0, 1, 1), mode="circular"), w["weight"].squeeze(2)),
                        lambda C, nd: nd == 3, lambda s: s),
    "w_upsample": (lambda s: nn.Upsample(scale_factor=(1, 2, 2)), _f(lambda x: F.interpolate(x, scale_factor=2)),
                   lambda C, nd: nd == 3, lambda s: (s[0], 2 * s[1], 2 * s[2])),
    "w_flatten": (lambda s: nn.Flatten(3), _f(lambda x: x.flatten(2)), lambda C, nd: nd == 3, lambda s: (s[0], s[1] * s[2])),
    "w_shuffle": (lambda s: nn.ChannelShuffle(2), _f(lambda x: x.unflatten(1, (2, -1)).transpose(1, 2).flatten(1, 2)),
                  lambda C, nd: C % 2 == 0 and nd > 1, lambda s: s),
}
PLAIN_POINTS = ["relu", "sigmoid", "lambda", "bn", "add", "mul", "linear", "lambda_time", "dropout", "identity",
                "softmax", "lambda_modes", "constant", "lambda_chan", "lambda_chan_time", "lambda_functor",
                "lambda_built", "reshape", "linear_last"]


class Real:
    """A real network with the reference semantics of its nodes."""

    def __init__(self, net, shape, seed, build="direct", dtype=torch.float64, train=False, opts=None):
        self.net, self.shape, self.seed, self.build = net, tuple(shape), seed, build
        self.dtype, self.train = dtype, train
        self.opts = opts or {}
        self.rng = random.Random(seed)
        self.sw = Switch()
        self.fed = None
        self.leaves, self.mods = {}, {}
        self.auto_id = 0
        state = torch.random.get_rng_state()
        torch.manual_seed(seed)
        try:
            old = torch.get_default_dtype()
            torch.set_default_dtype(dtype)
            try:
                m, self.out_shape, self.twin = self.node(net, self.shape, False)
                if build == "convert":
                    m = self.randomise(m)
                    self.source = m
                    with torch.no_grad():
                        self.module = co.continual(copy.deepcopy(m))
                else:
                    self.source = None
                    self.module = self.randomise(m)
            finally:
                torch.set_default_dtype(old)
        finally:
            torch.random.set_rng_state(state)
        self.single_cond = str(net).count("'cond'") == 1
        self.module.train(train)
        if self.source is not None:
            self.source.train(train)
        self.snapshot()

    # -- weights ---------------------------------------------------------
    def randomise(self, m):
        """Weights and statistics away from their special initial values."""
        g = torch.Generator().manual_seed(self.seed + 1)
        with torch.no_grad():
            for n, p in sorted(m.named_parameters()):
                p.copy_(torch.randn(p.shape, generator=g, dtype=torch.float64).to(p.dtype) * 0.5)
            for mod in m.modules():
                if isinstance(mod, nn.modules.batchnorm._NormBase):
                    mod.running_mean.copy_(torch.randn(mod.running_mean.shape, generator=g, dtype=torch.float64))
                    mod.running_var.copy_(torch.rand(mod.running_var.shape, generator=g, dtype=torch.float64) + 0.5)
        return m

    def snapshot(self):
        """Clone the weights the reference uses from where they came from."""
        src = self.source if self.source is not None else self.module
        names = {id(s): n for n, s in src.named_modules()}
        self.names, self.w = {}, {}
        for i, mod in self.mods.items():
            if id(mod) not in names:
                continue
            self.names[i] = names[id(mod)]
            self.w[i] = {k: v.detach().clone() for k, v in list(mod.named_parameters()) + list(mod.named_buffers())
                         if not k.split(".")[-1].startswith(("state_", "stride_index"))}

    def resnapshot(self, module):
        """Weights of another copy of the network."""
        self.w = {i: {k: v.detach().clone() for k, v in
                      list(module.get_submodule(n).named_parameters()) + list(module.get_submodule(n).named_buffers())
                      if not k.split(".")[-1].startswith(("state_", "stride_index"))}
                  for i, n in self.names.items()}

    # -- construction ----------------------------------------------------
    def nid(self, m):
        if "id" in m:
            return m["id"]
        self.auto_id += 1
        return "auto%d" % self.auto_id

    def opt(self, m, key, choices):
        v = m.get("o", {}).get(key, self.opts.get(key))
        return v if v is not None else self.rng.choice(choices)

    def node(self, m, shape, keep):
        """-> module, output frame shape, twin(w, clip) or None.  keep: the output must have the input's shape."""
        mod, out, leaf, twin = getattr(self, "n_" + m["k"])(m, shape, keep)
        i = self.nid(m)
        if leaf is not None:
            self.leaves[i], self.mods[i] = leaf, mod
            leaf.in_shape = shape
            if twin is None and leaf.twin is not None:
                lt = leaf.twin
                twin = lambda x, i=i, lt=lt: lt(self.w[i], x)  # noqa: E731
        return mod, out, twin

    def convert(self):
        return self.build == "convert"

    def n_conv(self, m, shape, keep):
        nd = len(shape)
        C, S = shape[0], shape[1:]
        groups = self.opt(m, "groups", [1, 1, C] if C > 1 else [1])
        cout = C if keep else self.opt(m, "cout", [C, 2 * C] if groups == 1 else [C, 2 * C])
        ks, ss, ps, ds, out = [], [], [], [], []
        for s in S:
            if keep:
                k, st, p, d = self.rng.choice([(1, 1, 0, 1), (3, 1, 1, 1), (3, 1, 2, 2)])
                if d * (k - 1) + 1 > s + 2 * p:
                    k, st, p, d = 1, 1, 0, 1
            else:
                k, st, p, d = self.rng.choice([(1, 1, 0, 1), (2, 1, 0, 1), (3, 1, 1, 1), (3, 2, 1, 1), (2, 2, 1, 1),
                                               (3, 1, 2, 2), (2, 1, 1, 2)])
                if d * (k - 1) + 1 > s + 2 * p:
                    k, st, p, d = 1, 1, 0, 1
            ks.append(k), ss.append(st), ps.append(p), ds.append(d)
            out.append((s + 2 * p - d * (k - 1) - 1) // st + 1)
        bias = self.opt(m, "bias", [True, True, False])
        pm = "zeros" if m["fpad"] == "zero" else "replicate"
        tf = "zeros" if m["fill"] == "zero" else "replicate"
        kw = dict(kernel_size=(m["K"], *ks), stride=(m["s"], *ss), padding=(m["p"], *ps), dilation=(1, *ds),
                  groups=groups, bias=bias, padding_mode=pm)
        words = [v for v, pads in (("valid", [0] * (nd + 1)), ("same", [d * (k - 1) / 2 for k, d in zip(
            kw["kernel_size"], kw["dilation"])] + [0])) if list(kw["padding"]) + [0] == list(pads)]
        if set(kw["stride"]) != {1}:
            words = [v for v in words if v == "valid"]
        if len(set(kw["kernel_size"])) == 1 and self.rng.random() < 0.3:
            kw["kernel_size"] = kw["kernel_size"][0]
        if words and self.rng.random() < 0.4:
            kw["padding"] = self.rng.choice(words)
        elif len(set(kw["padding"])) == 1 and self.rng.random() < 0.3:
            kw["padding"] = kw["padding"][0]
        ref = getattr(nn, "Conv%dd" % nd)(C, cout, **kw)
        if self.convert():
            mod = ref
        elif self.opts.get("build_from", self.rng.random() < 0.3):
            src = getattr(nn, "Conv%dd" % nd)(C, cout, **kw)
            mod = getattr(co, "Conv%dd" % nd).build_from(src, **({} if tf == pm else dict(temporal_fill=tf)))
        else:
            mod = getattr(co, "Conv%dd" % nd)(C, cout, temporal_fill=tf, **kw)
        conv = {1: F.conv1d, 2: F.conv2d, 3: F.conv3d}[nd]
        fpad = []
        for p in reversed(ps):
            fpad += [p, p]

        def fn(w, frames):
            x = torch.stack(frames, 2)
            if any(ps):
                if pm == "zeros":
                    x = F.pad(x, fpad + [0, 0])
                else:
                    x = F.pad(x, fpad + [0, 0], mode="replicate")
            return conv(x, w["weight"], w.get("bias"), stride=(1, *ss), dilation=(1, *ds), groups=groups)[:, :, 0]

        def twin(w, x):
            with torch.no_grad():
                ref.to(x.dtype)
                ref.weight.copy_(w["weight"])
                if bias:
                    ref.bias.copy_(w["bias"])
                return ref(x)

        return mod, (cout, *out), Leaf(fn, twin=twin), None

    def n_pool(self, m, shape, keep):
        nd = len(shape)
        C, S = shape[0], shape[1:]
        kind = m["as"]
        dil = kind == "max"
        ks, ss, ps, ds, out = [], [], [], [], []
        ceil = self.opt(m, "ceil", [False, False, True]) if m["s"] == 1 else False
        for s in S:
            if keep:
                opts = [(1, 1, 0, 1), (3, 1, 1, 1)]
            else:
                opts = [(1, 1, 0, 1), (2, 1, 0, 1), (3, 1, 1, 1), (3, 2, 1, 1), (2, 2, 1, 1), (2, 2, 0, 1)]
                if dil:
                    opts += [(3, 1, 1, 2), (2, 1, 0, 2)]
            k, st, p, d = self.rng.choice(opts)
            if d * (k - 1) + 1 > s + (0 if kind == "avg" and nd == 3 else 2 * p):
                k, st, p, d = 1, 1, 0, 1
            ks.append(k), ss.append(st), ps.append(p), ds.append(d)
        kw, kd = dict(kernel_size=(m["K"], *ks), stride=(m["s"], *ss), padding=(m["p"], *ps)), {}
        if kw["stride"] == kw["kernel_size"] and self.rng.random() < 0.5:
            del kw["stride"]
        for k in list(kw):
            if len(set(kw[k])) == 1 and self.rng.random() < 0.3:
                kw[k] = kw[k][0]
        if ceil:
            kw["ceil_mode"] = True
        if dil:
            kw["dilation"] = (m["d"], *ds)
            kw = {k: (v if nd > 1 or not isinstance(v, tuple) else v[0]) for k, v in kw.items()}
        else:
            cip = True if m["p"] else self.opt(m, "cip", [True, False])
            kw["count_include_pad"] = cip
            if m["d"] > 1:     # torch.nn does not have this
                kd = dict(dilation=(m["d"],) + (1,) * (nd - 1))
            div = self.opt(m, "divisor", [None, None, 3]) if nd > 1 else None
            if div:
                kw["divisor_override"] = div
        name = {"avg": "AvgPool%dd", "max": "MaxPool%dd"}[kind] % nd
        ref = getattr(nn, name)(**kw)
        std_fill = "zero" if kind == "avg" else "ninf"
        if self.convert():
            mod = getattr(nn, name)(**kw)
        else:
            kk = {}
            if m["fill"] != std_fill or self.rng.random() < 0.3:
                kk["temporal_fill"] = {"zero": "zeros", "ninf": "neg_inf", "rep": "replicate"}[m["fill"]]
            kk.update(kd)
            if self.opts.get("build_from", self.rng.random() < 0.3):
                mod = getattr(co, name).build_from(getattr(nn, name)(**kw), **kk)
            else:
                mod = getattr(co, name)(**kw, **kk)
        pool = {("avg", 1): F.avg_pool1d, ("avg", 2): F.avg_pool2d, ("avg", 3): F.avg_pool3d,
                ("max", 1): F.max_pool1d, ("max", 2): F.max_pool2d, ("max", 3): F.max_pool3d}[kind, nd]
        fkw = dict(kernel_size=(m["K"], *ks), stride=(1, *ss), padding=(0, *ps), ceil_mode=ceil)
        if dil:
            fkw["dilation"] = (1, *ds)
        else:
            fkw["count_include_pad"] = cip
            if div:
                fkw["divisor_override"] = div

        def fn(w, frames):
            return pool(torch.stack(frames, 2), **fkw)[:, :, 0]

        o = fn(None, [torch.zeros(1, *shape)] * m["K"])
        return mod, tuple(o.shape[1:]), Leaf(fn, twin=None if kd else lambda w, x: ref(x)), None

    def n_win(self, m, shape, keep):
        return getattr(self, "win_" + m["as"])(m, shape, keep)

    def win_adaptive(self, m, shape, keep):
        nd = len(shape)
        assert nd in (2, 3)
        kind = self.opt(m, "kind", ["Avg", "Max"])
        outs = tuple(self.rng.choice([1, 2, s]) for s in shape[1:])
        if keep:
            outs = shape[1:]
        name = "Adaptive%sPool%dd" % (kind, nd)
        ref = getattr(nn, name)((1, *outs))
        if self.opts.get("build_from", self.rng.random() < 0.4):
            mod = getattr(co, name).build_from(getattr(nn, name)((1, *outs)), kernel_size=m["L"])
        else:
            mod = getattr(co, name)((1, *outs), kernel_size=m["L"])
        return mod, (shape[0], *outs), Leaf(lambda w, fs: ref(torch.stack(fs, 2))[:, :, 0],
                                            twin=lambda w, x: ref(x)), None

    def win_somha(self, m, shape, keep):
        """Single-output attention inside a network: N, E frames, N, E, T clips."""
        E, L = shape[0], m["L"]
        q = m.get("q", -1)
        heads = self.opt(m, "heads", [1, 2] if E % 2 == 0 else [1])
        mod = co.SingleOutputMultiheadAttention(
            E, heads, batch_first=True, embed_dim_second=True, query_index=q, sequence_len=L,
            forward_returns_attn_mask=False, single_output_forward=True)
        ref = nn.MultiheadAttention(E, heads, batch_first=True)

        def fn(w, fs):
            with torch.no_grad():
                ref.to(fs[0].dtype).load_state_dict({k: v for k, v in w.items() if k in dict(ref.state_dict())})
                x = torch.stack(fs, 1)
                return ref(x, x, x, need_weights=False)[0][:, q]

        return mod, shape, Leaf(fn), None

    def n_delay(self, m, shape, keep):
        kw = {}
        sh = {"no": [False], "cen": [True, "centered"], "lag": ["lagging"]}[m["shrink"]]
        if m["shrink"] != "no" or self.rng.random() < 0.5:
            kw["auto_shrink"] = self.rng.choice(sh)
        if self.rng.random() < 0.5:
            kw["temporal_fill"] = self.rng.choice(["zeros", "replicate"])
        return co.Delay(m["n"], **kw), shape, None, None if m["shrink"] != "no" else (lambda x: x)

    def n_skip(self, m, shape, keep):
        return co.Skip(m["n"]), shape, None, None

    def n_point(self, m, shape, keep):
        kinds = ["relu", "sigmoid", "lambda", "bn", "add", "mul", "linear", "lambda_time", "dropout", "identity",
                 "softmax", "lambda_modes", "w_gain"]
        conv = ["relu", "sigmoid", "bn", "dropout", "softmax"]
        if self.opts.get("probes") or self.opts.get("no_reshape"):
            kinds = [k for k in kinds if k != "reshape"]
        if len(shape) > 3:
            kinds, conv = ([k for k in ks if k != "bn"] for ks in (kinds, conv))
        kind = m.get("as") or self.rng.choice(conv if self.convert() else kinds)
        C, nd = shape[0], len(shape)
        twin = fn = None
        if kind == "relu":
            mod, fn = nn.ReLU(), lambda w, f: torch.relu(f[0])
        elif kind == "sigmoid":
            mod, fn = nn.Sigmoid(), lambda w, f: torch.sigmoid(f[0])
        elif kind == "dropout":
            mod, fn = nn.Dropout(0.5), lambda w, f: f[0]
        elif kind == "softmax":
            mod, fn = nn.Softmax(dim=1), lambda w, f: torch.softmax(f[0], 1)
        elif kind == "lambda":
            mod, fn = co.Lambda(torch.tanh), lambda w, f: torch.tanh(f[0])
        elif kind == "lambda_time":
            mod = co.Lambda(lambda x: x * 2.0 + 1.0, takes_time=True)
            fn = lambda w, f: f[0] * 2.0 + 1.0  # noqa: E731
        elif kind == "lambda_modes":
            # functions which are for particular modes, and one for the others, report where they ran
            sw, axes = self.sw, nd + 2
            only = [n for n in ("forward", "forward_step", "forward_steps") if self.rng.random() < 0.6]
            rest = [n for n in ("forward", "forward_step", "forward_steps") if n not in only]
            if self.rng.random() < 0.3:
                only, rest = only + rest, []
            time = self.rng.random() < 0.5

            def reporter(modes, dims):
                def f(x):
                    if sw.mode not in modes or x.dim() not in dims:
                        sw.wrong.append("a function for %s ran in %s on %d axes" % (modes, sw.mode, x.dim()))
                    return x - 0.5
                return f
            kw = {n + "_only_fn": reporter([n], [axes - (n == "forward_step")]) for n in only}
            if rest or self.rng.random() < 0.5:
                kw["fn"] = reporter(rest, [axes if time else axes - 1])
            mod = (co.Lambda if self.rng.random() < 0.7 else co.Lambda.build_from)(**dict(dict(fn=None), **kw), takes_time=time)
            fn = lambda w, f: f[0] - 0.5  # noqa: E731
        elif kind == "identity":
            mod, fn = co.Identity(), lambda w, f: f[0]
        elif kind == "add":
            mod, fn = co.Add(0.75), lambda w, f: f[0] + 0.75
        elif kind == "mul":
            mod, fn = co.Multiply(-1.5), lambda w, f: f[0] * -1.5
        elif kind == "bn":
            mod = [nn.BatchNorm1d, nn.BatchNorm2d, nn.BatchNorm3d][nd - 1](C)

            def fn(w, f):
                v = (1, C) + (1,) * (nd - 1)
                return ((f[0] - w["running_mean"].view(v)) / torch.sqrt(w["running_var"].view(v) + 1e-5)
                        * w["weight"].view(v) + w["bias"].view(v))
        elif kind == "constant":
            c = m.get("o", {}).get("value", 2.5)
            mod = {0: co.Zero, 1: co.One}.get(c, lambda: co.Constant(c))()
            fn = lambda w, f: torch.full_like(f[0], c)  # noqa: E731
        elif kind == "lambda_chan":
            mod = co.Lambda(_center)
            fn = lambda w, f: _center(f[0])  # noqa: E731
        elif kind == "lambda_chan_time":
            mod = co.Lambda(_center, takes_time=True)
            fn = lambda w, f: _center(f[0])  # noqa: E731
        elif kind == "lambda_functor":
            mod = co.Lambda(nn.Sigmoid())
            fn = lambda w, f: torch.sigmoid(f[0])  # noqa: E731
        elif kind == "lambda_built":
            mod = co.Lambda.build_from(torch.tanh, takes_time=self.rng.random() < 0.5)
            fn = lambda w, f: torch.tanh(f[0])  # noqa: E731
        elif kind == "reshape":
            shapes = m.get("o", {}).get("shapes")
            n = 1
            for v in shape:
                n *= v
            cands = [s for s in ((n,), (1, n), (n, 1), (n // shape[0], shape[0]), (*shape, 1), tuple(reversed(shape)))]
            out = tuple(self.rng.choice(shapes or cands)) if not keep else shape
            b = self.opts.get("batch", 2)
            c = self.rng.random() < 0.5
            arg = (b, *out)
            mod = co.Reshape(*arg, contiguous=c) if self.rng.random() < 0.5 else co.Reshape(list(arg), contiguous=c)
            fn = lambda w, f: f[0].reshape(arg)  # noqa: E731
            shape = out
        elif kind == "linear_last":
            # the documented default: features last; the time axis is any other one
            cout = shape[-1] if keep else shape[-1] + 1
            mod = co.Linear(shape[-1], cout, bias=self.opt(m, "bias", [True, False]))
            fn = lambda w, f: F.linear(f[0], w["weight"], w.get("bias"))  # noqa: E731
            shape = (*shape[:-1], cout)
        elif kind in NAIVE:
            src, fn, need = NAIVE[kind]
            assert need(C, nd), (kind, shape)
            mod = src(shape)
            if mod.__class__ is nn.GLU:
                shape = (C // 2, *shape[1:])
        elif kind in WRAPPED:
            src, fn, need, after = WRAPPED[kind]
            assert need(C, nd), (kind, shape)
            mod = co.forward_stepping(src(shape))
            shape = after(shape)
        elif kind == "linear":
            # the channels, or any other axis but time's, counted from the front or from the back of a clip
            axis = self.opt(m, "axis", [0] + list(range(nd)))
            at = axis + 1 + (axis > 0)      # batch, channels, time, the rest
            cout = shape[axis] if keep else self.opt(m, "cout", [shape[axis], shape[axis] + 1])
            mod = co.Linear(shape[axis], cout, channel_dim=at if self.rng.random() < 0.6 else at - nd - 2,
                            bias=self.opt(m, "bias", [True, False]))

            def fn(w, f):
                return F.linear(f[0].transpose(axis + 1, -1), w["weight"], w.get("bias")).transpose(axis + 1, -1)
            shape = (*shape[:axis], cout, *shape[axis + 1:])
        else:
            raise KeyError(kind)
        twin = lambda w, x: torch.stack([fn(w, [x[:, :, t]]) for t in range(x.shape[2])], 2)  # noqa: E731
        if not self.convert() and isinstance(mod, nn.Module) and not isinstance(mod, co.CoModule):
            if self.rng.random() < 0.5 or self.top(m):
                mod = co.forward_stepping(mod)
        return mod, shape, Leaf(fn, twin=twin), None

    def top(self, m):
        return m is self.net

    def n_rnn(self, m, shape, keep):
        C = shape[0]
        assert len(shape) == 1
        kind = m["as"]
        H = C if keep else self.opt(m, "hidden", [C, C + 1])
        layers = self.opt(m, "layers", [1, 2])
        bias = self.opt(m, "bias", [True, False])
        kw = dict(num_layers=layers, bias=bias)
        if kind == "RNN":
            kw["nonlinearity"] = self.opt(m, "nonlin", ["tanh", "relu"])
        O = H
        if kind == "LSTM" and H > 1:
            O = C if keep and C < H else self.opt(m, "proj", [0, 0, H - 1]) if not keep else 0
            kw["proj_size"], O = O, O or H
        ref = getattr(nn, kind)(C, H, batch_first=True, **kw)
        if self.convert() or self.opts.get("build_from", self.rng.random() < 0.4):
            src = getattr(nn, kind)(C, H, batch_first=True, **kw)
            mod = src if self.convert() else getattr(co, kind).build_from(src)
        else:
            mod = getattr(co, kind)(C, H, **kw)

        def load(w, x):
            ref.to(x.dtype)
            for k, v in w.items():
                if k in ref._parameters:
                    getattr(ref, k).copy_(v)

        def cell(w, x, h):
            with torch.no_grad():
                load(w, x)
                return ref(x.unsqueeze(1), h)[1]

        def out(w, h):
            return (h[0] if kind == "LSTM" else h)[-1]

        def h0(x):
            z = x.new_zeros(layers, x.shape[0], O)
            return (z, x.new_zeros(layers, x.shape[0], H)) if kind == "LSTM" else z

        def twin(w, x):
            with torch.no_grad():
                load(w, x)
                return ref(x.transpose(1, 2))[0].transpose(1, 2)
        return mod, (O,), Leaf(None, cell, out, h0=h0, twin=twin), None

    def n_rpe(self, m, shape, keep):
        C = shape[0]
        learned = self.opt(m, "learned", [True, False] if C % 2 == 0 else [True])
        kw = {}
        if "fadv" in m:
            kw["forward_update_index_steps"] = m["fadv"]
        mod = co.RecyclingPositionalEncoding(C, m["num"], learned=learned, **kw)

        def pos(w, p, x):
            table = next(v for v in w.values() if v.dim() == 2)
            return x + table[p]
        return mod, shape, Leaf(pos=pos), None

    def n_bcast(self, m, shape, keep):
        # inside a sequence followed by parallel streams, the number may be left to be inferred
        n = m["n"] if not m.get("infer") or self.rng.random() < 0.5 else None
        return (co.Broadcast(n) if n or self.rng.random() < 0.5 else co.Broadcast()), [shape] * m["n"], None, None

    def n_dispatch(self, m, shape, keep):
        conv = lambda t: t["i"] if "i" in t else [conv(x) for x in t["g"]]  # noqa: E731
        sh = lambda t: shape[t["i"]] if "i" in t else [sh(x) for x in t["g"]]  # noqa: E731
        mp = m["map"]
        return co.ParallelDispatch([conv(t) for t in mp]), [sh(t) for t in mp], None, None

    def reducer(self, m, shapes):
        same = len(set(shapes)) == 1
        name = m.get("red") or self.rng.choice(["sum", "concat", "mul", "max", "first_minus_rest"] if same
                                               else ["concat"])
        arg = name
        if name == "first_minus_rest":
            arg = first_minus_rest
        elif self.rng.random() < 0.3:
            arg = co.container.Reduction(name)
        out = shapes[0] if name != "concat" else (sum(s[0] for s in shapes), *shapes[0][1:])
        return arg, out, Leaf(lambda w, fs: REDUCERS[name](fs)), (lambda cs: REDUCERS[name](cs))

    def n_reduce(self, m, shape, keep):
        if keep and "red" not in m:
            m = dict(m, red=self.rng.choice(["sum", "mul", "max", "first_minus_rest"]))
        arg, out, leaf, _ = self.reducer(m, shape)
        return co.Reduce(arg), out, leaf, None

    def n_seq(self, m, shape, keep):
        mods, twins, raw, build = [], [], {}, self.build
        style = self.rng.choice(["args", "dict", "append"])
        probed = self.opts.get("probes") and self.top(m) and not any(c["k"] == "bcast" for c in m["ch"])
        for c, after in zip(m["ch"], m["ch"][1:] + [None]):
            if c["k"] == "bcast" and after and after["k"] == "par" and style != "append" and not probed:
                c = dict(c, infer=True)
            asis = not self.convert() and not probed and self.plain(c) and self.rng.random() < 0.25
            if asis:    # a torch.nn module, which the container converts
                self.build = "convert"
            mod, shape, tw = self.node(c, shape, keep)
            if asis:
                self.build = build
                raw[len(mods)] = mod
            mods.append(mod)
            twins.append(tw)
        twin = None
        if all(t is not None for t in twins):
            def twin(x):
                for t in twins:
                    x = t(x)
                return x
        if self.convert():
            return nn.Sequential(*mods), shape, None, twin
        if probed:   # count the frames handed to each child
            fed = self.fed = [0] * len(mods)

            def count(i):
                def f(x):
                    fed[i] += x.shape[2]
                    return x
                return co.Lambda(f, takes_time=True)
            mods = [y for i, x in enumerate(mods) for y in (count(i), x)]
        if style == "args" or (style == "append" and len(mods) < 2):
            s = co.Sequential(*mods)
        elif style == "dict":
            s = co.Sequential(OrderedDict(("m%d" % i, x) for i, x in enumerate(mods)))
        else:
            s = co.Sequential(mods[0])
            for x in mods[1:]:
                s.append(x)
        for j, mod in raw.items():
            for i in [i for i, x in self.mods.items() if x is mod]:
                self.mods[i] = s[j]
        return s, shape, None, twin

    @staticmethod
    def plain(m):
        """Whether torch.nn has this module."""
        if m["k"] == "conv":
            return m["fill"] == m["fpad"]
        if m["k"] == "pool":
            return m["fill"] == ("zero" if m["as"] == "avg" else "ninf") and (m["as"] == "max" or m["d"] == 1)
        return m["k"] == "rnn"

    def branches(self, m, shape, keep):
        mods, shapes, twins = [], [], []
        for c in m["ch"]:
            mod, sh, tw = self.node(c, shape, True)
            mods.append(self.stepping(mod))
            shapes.append(tuple(sh))
            twins.append(tw)
        return mods, shapes, twins

    @staticmethod
    def stepping(mod):
        return mod if isinstance(mod, co.CoModule) or co.CoModule.is_valid(mod) else co.forward_stepping(mod)

    def n_br(self, m, shape, keep):
        mods, shapes, twins = self.branches(m, shape, keep)
        if keep and "red" not in m:
            m = dict(m, red=self.rng.choice(["sum", "mul", "max", "first_minus_rest"]))
        arg, out, leaf, red = self.reducer(m, shapes)
        args = [OrderedDict(("b%d" % i, x) for i, x in enumerate(mods))] if self.rng.random() < 0.4 else mods
        mod = co.BroadcastReduce(*args, reduce=arg, auto_delay=m["auto"])
        twin = None
        if all(t is not None for t in twins):
            twin = lambda x: red([t(x) for t in twins])  # noqa: E731
        return mod, out, leaf, twin

    def n_par(self, m, shape, keep):
        mods, shapes = [], []
        for c, sh in zip(m["ch"], shape):
            mod, o, _ = self.node(c, sh, True)
            mods.append(self.stepping(mod))
            shapes.append(tuple(o))
        args = [OrderedDict(("b%d" % i, x) for i, x in enumerate(mods))] if self.rng.random() < 0.4 else mods
        return co.Parallel(*args, auto_delay=m["auto"]), shapes, None, None

    def n_residual(self, m, shape, keep):
        c = m["ch"][0]
        mod, sh, tw = self.node(c, shape, True)
        mod = self.stepping(mod)
        if "red" not in m:
            m = dict(m, red=self.rng.choice(["sum", "sum", "mul", "max", "first_minus_rest"]))
        arg, out, leaf, red = self.reducer(m, [tuple(shape), tuple(sh)])
        kw = {}
        rs = {"no": [False], "cen": [True, "centered"], "lag": ["lagging"], "leading": ["leading"]}[m["shrink"]]
        if m["shrink"] != "no":
            kw["residual_shrink"] = self.rng.choice(rs)
        if arg != "sum" or self.rng.random() < 0.5:
            kw["reduce"] = arg
        twin = None
        if tw is not None and m["shrink"] == "no":
            twin = lambda x: red([x, tw(x)])  # noqa: E731
        return co.Residual(mod, **kw), out, leaf, twin

    def n_cond(self, m, shape, keep):
        mods = []
        for c in m["ch"]:
            mod, sh, _ = self.node(c, shape, True)
            mods.append(mod)
        sw = self.sw
        if m.get("pred") == "data":
            def pred(mod, x):
                sw.calls += 1
                sw.seen = x
                return bool(x.flatten()[0] > 0)
        else:
            def pred(mod, x):
                sw.calls += 1
                sw.seen = x
                return sw.sw
        return co.Conditional(pred, *mods), shape, None, None

    # -- evaluation of the specification's frames -------------------------
    def evaluate(self, term, tok, memo, batch):
        """term: a frame of the specification; tok(kind, index) -> tensor."""
        v = memo.get(term)
        if v is not None:
            return v
        k = term[0]
        if k in ("x", "y"):
            v = tok(k, term[1])
        elif k == "f":
            leaf = self.leaves[term[1]]
            fs = []
            for j, t in enumerate(term[2]):
                if t in (ZERO, NINF):
                    shape = leaf.in_shape[j] if isinstance(leaf.in_shape[0], (tuple, list)) else leaf.in_shape
                    fs.append(torch.full((batch, *shape), 0.0 if t == ZERO else -float("inf"),
                                         dtype=self.dtype))
                else:
                    fs.append(self.evaluate(t, tok, memo, batch))
            v = leaf.fn(self.w.get(term[1]), fs)
        elif k == "h":
            leaf = self.leaves[term[1]]
            x = torch.zeros((batch, *leaf.in_shape), dtype=self.dtype) if term[2] == ZERO else \
                self.evaluate(term[2], tok, memo, batch)
            h = leaf.h0(x) if term[3] == H0 else self.evaluate(term[3], tok, memo, batch)
            v = leaf.cell(self.w[term[1]], x, h)
        elif k == "o":
            v = self.leaves[term[1]].out(self.w[term[1]], self.evaluate(term[2], tok, memo, batch))
        elif k == "pe":
            v = self.leaves[term[1]].pos(self.w[term[1]], term[2], self.evaluate(term[3], tok, memo, batch))
        elif term == ZERO:
            v = torch.zeros((batch, *self.out_shape), dtype=self.dtype)
        else:
            raise KeyError(term)
        memo[term] = v
        return v
