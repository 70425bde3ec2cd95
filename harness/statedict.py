"""Behaviours of StateDict.tla on real nested containers (C21)."""
import contextlib
import copy
import io
import random
from collections import OrderedDict

import torch

from blocks import Blocks, guarded, spec_check, spec_walks
from core import MachineryError, Violation
from realize import co, nn
from replay import same

C = 2
# leaf: how to build it, and the names of its weights in a state dict, as torch.nn documents them
LEAVES = {
    "conv": (lambda: co.Conv1d(C, C, 2), ["weight", "bias"]),
    "conv1": (lambda: co.Conv1d(C, C, 1, bias=False), ["weight"]),
    "bn": (lambda: co.continual(nn.BatchNorm1d(C)), ["weight", "bias", "running_mean", "running_var", "num_batches_tracked"]),
    "linear": (lambda: co.Linear(C, C, channel_dim=1), ["weight", "bias"]),
    "gru": (lambda: co.GRU(C, C), ["weight_ih_l0", "weight_hh_l0", "bias_ih_l0", "bias_hh_l0"]),
    "mha": (lambda: co.SingleOutputMultiheadAttention(
        C, 1, sequence_len=2, batch_first=True, embed_dim_second=True, forward_returns_attn_mask=False,
        single_output_forward=False), ["in_proj_weight", "in_proj_bias", "out_proj.weight", "out_proj.bias"]),
    "lstm": (lambda: co.LSTM(C, C, num_layers=2, bias=False), ["weight_ih_l0", "weight_hh_l0", "weight_ih_l1", "weight_hh_l1"]),
    "rnn": (lambda: co.RNN(C, C), ["weight_ih_l0", "weight_hh_l0", "bias_ih_l0", "bias_hh_l0"]),
    "maxpool": (lambda: co.MaxPool1d(2, 1), []),
    "skip": (lambda: co.Skip(2), []),
    "stretch": (lambda: co.Conv1d(C, C, 3, padding=1, temporal_fill="zeros"), ["weight", "bias"]),
    "wrap": (lambda: co.Lambda(nn.Linear(C, C)), ["fn.weight", "fn.bias"]),
    "relu": (lambda: co.continual(nn.ReLU()), []),
    "delay": (lambda: co.Delay(1), []),
    "pool": (lambda: co.AvgPool1d(2, 1), []),
    "pe": (lambda: co.RecyclingPositionalEncoding(C, 5), ["pe.weight"]),
}
STILL = ["conv1", "bn", "linear", "relu", "wrap"]      # without delay, for branches
NAMES = ["a", "b", "conv", "1x1", "2nd", "x1", "fn", "0a", "res", "1_0", "00x"]


def rand_tree(rng, size, still=False, top=True):
    if not top and (size <= 1 or rng.random() < 0.2):
        return dict(k=rng.choice(STILL if still else sorted(LEAVES)))
    k = rng.choice(["seq", "seq", "seq", "br", "cond"])
    n = 2 if k != "seq" else rng.choice([1, 2, 3])
    kids = [rand_tree(rng, (size - 1) // n, still or k != "seq", False) for _ in range(n)]
    names = [str(j) for j in range(n)]
    if k != "cond" and rng.random() < 0.6:
        names = rng.sample(NAMES, n)
        if rng.random() < 0.4:
            j = rng.randrange(n)
            names[j] = rng.choice(["7", "03", "11"])    # a number of one's own choice
    return dict(k=k, kids=kids, names=names)


def make(t):
    if "kids" not in t:
        return LEAVES[t["k"]][0]()
    kids = [make(c) for c in t["kids"]]
    if t["k"] == "cond":
        return co.Conditional(lambda *a: True, *kids)
    default = t["names"] == [str(j) for j in range(len(kids))]
    args = kids if default else [OrderedDict(zip(t["names"], kids))]
    return co.Sequential(*args) if t["k"] == "seq" else co.BroadcastReduce(*args)


def listing(t):
    """All keys, as tuples of parts; and the containers with the indices of theirs."""
    keys, conts = [], []

    def go(t, pre):
        start = len(keys)
        if "kids" in t:
            me = dict(path=list(pre), pre=len(pre))
            conts.append(me)
            for n, c in zip(t["names"], t["kids"]):
                go(c, pre + (n,))
            me["ix"] = list(range(start + 1, len(keys) + 1))
        else:
            keys.extend(pre + tuple(k.split(".")) for k in LEAVES[t["k"]][1])
    go(t, ())
    return keys, conts


def given(t):
    keys, conts = listing(t)
    return dict(keys=[[list(p) for p in k] for k in keys], conts=[dict(pre=c["pre"], ix=c["ix"]) for c in conts])


def usable(t, most=40):
    keys, conts = listing(t)
    return 0 < len(keys) <= most and all(c["ix"] for c in conts)


def trees(rng, n, size):
    out = []
    while len(out) < n:
        t = rand_tree(rng, rng.choice(size))
        if usable(t):
            out.append(t)
    return out


def tensors(m):
    return {**dict(m.named_parameters()), **dict(m.named_buffers())}


class Replayer(Blocks):
    def __init__(self, tree, h, seed):
        self.h, self.rng = h, random.Random(seed)
        torch.manual_seed(seed)
        self.keys, self.conts = listing(tree)
        self.names = [".".join(k) for k in self.keys]
        self.m = [make(tree).eval() for _ in range(2)]
        self.versions = {}
        for k, m in enumerate(self.m, 1):
            got = set(nn.Module.state_dict(m))
            if got != set(self.names):
                raise Violation("the network's weights are named %s, should be %s" % (sorted(got), sorted(self.names)))
            self.randomise(m)
            self.remember(k, m)
        self.shadow = [copy.deepcopy(m) for m in self.m]
        self.saved = None
        self.ctx_stack = []

    def randomise(self, m):
        ts = tensors(m)
        for n in self.names:
            t = ts[n]
            if t.dtype.is_floating_point:
                t.data.copy_(torch.randn_like(t).abs() + 0.2 if n.endswith("running_var") else torch.randn_like(t))
            else:
                t.data.copy_(torch.randint(0, 1000, t.shape))

    def remember(self, v, m):
        ts = tensors(m)
        self.versions[v] = {n: ts[n].detach().clone() for n in self.names}

    def cont(self, m, x):
        c = self.m[m - 1]
        for p in self.conts[x - 1]["path"]:
            c = c._modules[p]
        return c

    # -- actions -------------------------------------------------------------
    def run(self):
        self.replay()
        # every flattening request is over: saving gives the plain names again
        for m in self.m:
            for x in range(1, len(self.conts) + 1):
                self.cont(1, x).__dict__.pop("flatten_state_dict", None)
        if list(self.m[0].state_dict()) != list(nn.Module.state_dict(self.m[0])):
            raise Violation("a flattening request outlived its context")
        self.compared += 1

    def context(self, r):
        return co.flat_state_dict

    def act(self, r):
        if r["a"] == "end":
            return None
        return getattr(self, "do_" + r["a"])(r)

    def do_attr(self, r):
        c = self.cont(r["m"], r["x"])
        if r["on"]:
            c.flatten_state_dict = True
        elif self.rng.random() < 0.5:
            c.flatten_state_dict = False
        else:
            del c.flatten_state_dict

    def do_train(self, r):
        self.randomise(self.m[r["m"] - 1])
        self.remember(r["v"], self.m[r["m"] - 1])

    def do_step(self, r):
        m, s = self.m[r["m"] - 1], self.shadow[r["m"] - 1]
        a, b = tensors(m), tensors(s)
        for n in self.names:
            b[n].data.copy_(a[n])
        x = torch.randn(2, C)
        if self.rng.random() < 0.7:
            got, want = m.forward_step(x), s.forward_step(x)
        else:
            x = torch.stack([x, torch.randn(2, C)], 2)
            got, want = m.forward_steps(x), s.forward_steps(x)
        self.compared += 1
        e = same(got, want, torch.float32)
        if e:
            raise Violation("the stream does not continue as it would have without saving and loading: " + e)

    def do_save(self, r):
        c = self.cont(r["m"], r["x"])
        plain = not getattr(c, "flatten_state_dict", False) and self.rng.random() < 0.3
        try:
            if plain:
                sd = co.state_dict(c, flatten=r["arg"])
            else:
                sd = c.state_dict(**(dict(flatten=r["arg"]) if r["arg"] or self.rng.random() < 0.5 else {}))
        except Exception as e:
            raise Violation("saving raised %s: %s" % (type(e).__name__, e))
        ks = ["".join(".".join(p) for p in [["".join(q) for q in k]]) for k in r["keys"]]
        if sorted(sd) != sorted(ks):
            raise Violation("saved names are %s, should be %s" % (sorted(sd), sorted(ks)))
        ix = self.conts[r["x"] - 1]["ix"]
        have = tensors(self.m[r["m"] - 1])
        for k, j in zip(ks, ix):
            if not torch.equal(sd[k], have[self.names[j - 1]]):
                raise Violation("%s is saved with the values of another weight (%s)" % (self.names[j - 1], k))
        self.compared += len(ks)
        x = self.rng.random()
        if x < 0.4:
            sd = OrderedDict((k, v.clone()) for k, v in sd.items())
        elif x < 0.7:
            sd = copy.deepcopy(sd)
        else:
            f = io.BytesIO()
            torch.save(sd, f)
            f.seek(0)
            sd = torch.load(f, weights_only=False)
        if self.rng.random() < 0.3:      # the order of a dict does not matter
            items = list(sd.items())
            self.rng.shuffle(items)
            sd = OrderedDict(items)
        self.saved = sd

    def load(self, r, sd, strict):
        c = self.cont(r["m"], r["x"])
        if not getattr(c, "flatten_state_dict", False) and self.rng.random() < 0.3:
            return co.load_state_dict(c, sd, strict=strict, flatten=r["arg"])
        return c.load_state_dict(sd, strict=strict, **(dict(flatten=True) if r["arg"] else {}))

    def do_load(self, r):
        keep = {k: v.clone() for k, v in self.saved.items()}
        try:
            res = self.load(r, self.saved, r["strict"])
        except Exception as e:
            raise Violation("loading raised %s: %s" % (type(e).__name__, e))
        if res.missing_keys or res.unexpected_keys:
            raise Violation("loading missed %s and did not expect %s" % (res.missing_keys, res.unexpected_keys))
        if list(keep) != list(self.saved) or any(not torch.equal(keep[k], self.saved[k]) for k in keep):
            raise Violation("loading changed the dict")

    def do_bad(self, r):
        sd = OrderedDict(self.saved)
        if r["more"]:
            sd["nobody.knows"] = torch.zeros(1)
        else:
            # (torch itself makes up a missing num_batches_tracked)
            ks = [k for k in sorted(sd) if not k.endswith("num_batches_tracked")]
            if not ks:
                return False
            sd.pop(self.rng.choice(ks))
        try:
            self.load(r, sd, True)
        except Exception:
            return True
        raise Violation("a dict with %s is accepted" % ("an unknown weight" if r["more"] else "a missing weight"))

    def check(self, r):
        for m, w in enumerate(r["w"]):
            have = tensors(self.m[m])
            for j, v in enumerate(w):
                n = self.names[j]
                if v and not torch.equal(have[n], self.versions[v][n]):
                    src = next((u for u in self.versions for k in self.names if self.versions[u][k].shape == have[n].shape
                                and torch.equal(self.versions[u][k], have[n])), None)
                    raise Violation("after %s, weight %s of network %d is not as it should be%s" % (
                        {k: v for k, v in r.items() if k in ("a", "m", "x", "arg", "strict", "flat")}, n, m + 1,
                        "" if src is None else " (it has values of version %s)" % src))
        self.compared += 1


def replay_one(a):
    with torch.no_grad():
        out = guarded(lambda: Replayer(*a))
    while getattr(co.flat_state_dict, "outer", None):
        co.flat_state_dict.__exit__(None, None, None)
    co.flat_state_dict.flatten = False
    return out


def replay(d):
    o = replay_one(d["item"])
    print(o["error"] or (("reproduced: %s" % o["violation"]["what"]) if o["violation"] else "not reproduced"))
    return 1 if o["violation"] else 0
