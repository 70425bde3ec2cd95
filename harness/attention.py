"""Real attention modules and transformer encoders bound to Attn.tla."""
import collections
import copy
import random
import re
from types import SimpleNamespace

import torch
import torch.nn.functional as F

from core import MachineryError, Violation
from realize import co, nn
from replay import Walk, clone, laid_out, same
from streamcheck import DT, WALKS

torch.backends.mha.set_fastpath_enabled(False)

ACTS = {"relu": torch.relu, "gelu": F.gelu, "tanh": torch.tanh, "silu": F.silu}


def given(kind, L, qi=-1, layers=1, chunks=(1, 3), clips=(), snap=False, refuse=False):
    return dict(kind=kind, L=L, qi=qi, layers=layers, chunks=sorted(set(chunks)), clips=sorted(set(clips)), snap=snap,
                refuse=refuse)


class AttnReal:
    """A real module for one of the kinds of Attn.tla, and the mathematics of its outputs."""

    def __init__(self, g, job):
        self.g = g
        self.net = dict(g, k=g["kind"])
        o = self.opts = dict(job["opts"])
        rng = random.Random(job["seed"])
        torch.manual_seed(job["seed"])
        self.dtype = DT[job["dtype"]]
        kind, L = g["kind"], g["L"]
        pick = lambda k, vs: o[k] if k in o else rng.choice(vs)  # noqa: E731
        self.heads = pick("heads", [1, 2, 3])
        self.E = self.heads * pick("head_dim", [1, 2, 3])
        self.fed = self.twin = None
        self.sw = SimpleNamespace(sw=True, calls=0, seen=None)
        self.shape = (self.E,)
        self.single_forward = False
        self.weights_out = False
        train = job["train"]
        drop = 0.0 if train else rng.choice([0.0, 0.3])
        if kind in ("single", "retro"):
            self.bf, self.eds = pick("layout", [(False, False), (True, False), (True, True)])
            bias = rng.random() < 0.7
            kw = dict(sequence_len=L, embed_dim_second=self.eds, batch_first=self.bf)
            self.weights_out = rng.random() < 0.5 and not o.get("no_weights")
            kw["forward_returns_attn_mask"] = self.weights_out
            if kind == "single":
                self.single_forward = rng.random() < 0.5
                kw["single_output_forward"] = self.single_forward
                if g["qi"] != -1 or rng.random() < 0.5:
                    kw["query_index"] = g["qi"]
            cls = co.SingleOutputMultiheadAttention if kind == "single" else co.RetroactiveMultiheadAttention
            # the regular module with the same weights
            ref = nn.MultiheadAttention(self.E, self.heads, drop, bias, batch_first=self.bf)
            self.scatter(ref)
            if job["build"] == "convert":
                if rng.random() < 0.5:
                    kw.pop("batch_first")   # taken from the module
                m = cls.build_from(ref, **kw)
            else:
                m = cls(self.E, self.heads, drop, bias, **kw)
                m.load_state_dict(ref.state_dict())
            self.w = [dict(ref.state_dict())]
            self.ref = ref
            self.norm = None
        else:
            self.bf, self.eds = True, True
            layers = g["layers"] if kind == "stack" else 1
            ff = rng.choice([1, 3, 5])
            act = pick("act", sorted(ACTS))
            eps = rng.choice([1e-5, 1e-2])
            norm = kind == "stack" and rng.random() < 0.5
            fn = {"relu": F.relu, "gelu": F.gelu, "tanh": torch.tanh, "silu": F.silu}[act]
            enc = nn.TransformerEncoder(
                nn.TransformerEncoderLayer(self.E, self.heads, ff, drop, fn, eps, batch_first=True), layers,
                nn.LayerNorm(self.E, eps=3e-3) if norm else None, enable_nested_tensor=False)
            self.scatter(enc)
            self.act, self.eps = ACTS[act], eps
            sd = enc.state_dict()
            self.w = [{k[len("layers.%d." % j):].replace("self_attn.", ""): v for k, v in sd.items()
                       if k.startswith("layers.%d." % j)} for j in range(layers)]
            self.norm = (sd["norm.weight"], sd["norm.bias"]) if norm else None
            self.ref = enc
            arg = act if act in ("relu", "gelu") and rng.random() < 0.5 else fn
            if kind == "stack":
                if job["build"] == "convert":
                    # the mode is taken over from the original
                    m = co.TransformerEncoder.build_from(enc.train(train), L)
                    moded = all(x.training == train for x in m.modules())
                    if not moded:
                        raise Violation("an encoder converted in %s mode has parts in the other mode" % ("training" if train else "evaluation"))
                else:
                    f = co.TransformerEncoderLayerFactory(self.E, self.heads, ff, drop, arg, eps, sequence_len=L)
                    m = co.TransformerEncoder(f, layers, nn.LayerNorm(self.E, eps=3e-3) if norm else None)
                    self.load_stack(m, sd)
            else:
                a = (self.E, self.heads, ff, drop, arg, eps)
                if kind == "slayer":
                    self.single_forward = rng.random() < 0.5
                    m = co.SingleOutputTransformerEncoderLayer(
                        *a, sequence_len=L, single_output_forward=self.single_forward, query_index=g["qi"])
                else:
                    m = co.RetroactiveTransformerEncoderLayer(*a, sequence_len=L)
                self.load_by_suffix(m, sd, "layers.0.")
        self.module = m.to(self.dtype).train(train)
        self.ref = self.ref.to(self.dtype).eval()
        cast = lambda v: v.detach().clone().to(self.dtype)  # noqa: E731
        self.w = [{k: cast(v) for k, v in w.items()} for w in self.w]
        if self.norm:
            self.norm = tuple(cast(v) for v in self.norm)

    @staticmethod
    def scatter(m):
        with torch.no_grad():
            for p in m.parameters():
                # scores stay moderate: cancellation of huge exponentials is not what is looked at here (C25)
                p.copy_(torch.randn_like(p).clamp(-2, 2) * (0.7 / p.shape[-1] ** 0.5 if p.dim() > 1 else 0.3) + (0.3 if p.dim() == 1 else 0))

    @staticmethod
    def role(name):
        s = re.search(r"(self_attn\.(?:in_proj_\w+|out_proj\.\w+)|linear[12]\.\w+|norm[12]\.\w+)$",
                      name.replace("fn.", "").replace("_ff_block.", ""))
        if not s:
            raise MachineryError("unknown parameter " + name)
        return s.group(1)

    def load_by_suffix(self, m, sd, prefix):
        new = {k: sd[prefix + self.role(k)] for k in m.state_dict()}
        if len(new) != len([k for k in sd if k.startswith(prefix)]):
            raise MachineryError("parameters do not match: %s" % sorted(new))
        m.load_state_dict(new)

    def load_stack(self, m, sd):
        new = {}
        for k in m.state_dict():
            s = re.match(r"layers\.(\d+)\.", k)
            if s:
                new[k] = sd["layers.%s.%s" % (s.group(1), self.role(k))]
            else:
                new[k] = sd["norm." + k.split(".")[-1]]
        if len(new) != len(sd):
            raise MachineryError("parameters do not match: %s" % sorted(new))
        m.load_state_dict(new)

    def resnapshot(self, m):
        """Take over the weights of another instance."""
        sd = {k: v.detach().clone() for k, v in m.state_dict().items()}
        if self.g["kind"] in ("single", "retro"):
            self.w = [sd]
            self.ref = copy.deepcopy(self.ref)
            self.ref.load_state_dict(sd)
            return
        self.w = [{} for _ in self.w]
        ref = {}
        for k, v in sd.items():
            s = re.match(r"layers\.(\d+)\.", k) if self.g["kind"] == "stack" else re.match("()", k)
            if s:
                j = int(s.group(1) or 0)
                self.w[j][self.role(k).replace("self_attn.", "")] = v
                ref["layers.%d.%s" % (j, self.role(k))] = v
            else:
                ref["norm." + k.split(".")[-1]] = v
        if self.norm:
            self.norm = (ref["norm.weight"], ref["norm.bias"])
        self.ref = copy.deepcopy(self.ref)
        self.ref.load_state_dict(ref)

    # -- mathematics, on tensors (N, E) ------------------------------------
    def attention(self, w, q, ks, vs):
        E, h = self.E, self.heads
        wq, wk, wv = w["in_proj_weight"].split(E)
        b = w.get("in_proj_bias")
        bq, bk, bv = b.split(E) if b is not None else (0, 0, 0)
        N = q.shape[0]
        Q = (q @ wq.T + bq).view(N, h, 1, E // h)
        K = torch.stack([(k @ wk.T + bk).view(N, h, E // h) for k in ks], 2)
        V = torch.stack([(v @ wv.T + bv).view(N, h, E // h) for v in vs], 2)
        a = (Q * K).sum(-1) / (E // h) ** 0.5
        a = (a - a.max(-1, keepdim=True).values).exp()
        a = a / a.sum(-1, keepdim=True)
        o = (a.unsqueeze(-1) * V).sum(2).reshape(N, E) @ w["out_proj.weight"].T
        return o + w["out_proj.bias"] if w.get("out_proj.bias") is not None else o

    def layer_norm(self, x, g, b, eps):
        c = x - x.mean(-1, keepdim=True)
        return c / (c.pow(2).mean(-1, keepdim=True) + eps).sqrt() * g + b

    def row(self, w, x, att):
        y = self.layer_norm(x + att, w["norm1.weight"], w["norm1.bias"], self.eps)
        f = self.act(y @ w["linear1.weight"].T + w["linear1.bias"]) @ w["linear2.weight"].T + w["linear2.bias"]
        return self.layer_norm(y + f, w["norm2.weight"], w["norm2.bias"], self.eps)

    def value(self, t, tok, memo, part=0):
        """A token as query (0), key (1) or value (2); or a computed row."""
        if t[0] in ("x", "y"):
            return tok(*t)[part]
        key = t
        if key in memo:
            return memo[key]
        if t[0] == "att":
            v = self.attention(self.w[0], self.value(t[1], tok, memo), [self.value(k, tok, memo, 1) for k in t[2]],
                               [self.value(k, tok, memo, 2) for k in t[2]])
        elif t[0] == "row":
            l, x, att = t[1], t[2], t[3]
            w = {k.replace("self_attn.", ""): v for k, v in self.w[l - 1].items()}
            ws = [self.value(k, tok, memo) for k in att[2]]
            v = self.row(w, self.value(x, tok, memo), self.attention(w, self.value(att[1], tok, memo), ws, ws))
        else:
            raise MachineryError("no meaning: %s" % (t,))
        memo[key] = v
        return v

    def out(self, t, tok, memo):
        v = self.value(t, tok, memo)
        if self.norm:
            v = self.layer_norm(v, *self.norm, 3e-3)
        return v

    # -- layouts -------------------------------------------------------------
    def pack(self, xs):
        """Tokens (N, E) along time."""
        return torch.stack(xs, (2 if self.eds else 1) if self.bf else 0)

    def rows(self, rs):
        """One step's output of all queries."""
        return self.pack(rs)

    def stack(self, outs):
        """Outputs of several steps."""
        if outs[0].dim() == 2:
            return self.pack(outs)
        if self.g["kind"] == "retro" and not self.eds:
            return torch.stack(outs, int(self.bf))
        return torch.stack(outs, 2)      # N E T' L


class AttnWalk(Walk):
    make_real = AttnReal

    def frame(self, sw):
        mk = lambda: (torch.randn((self.batch, self.real.E), generator=self.gen, dtype=torch.float64)  # noqa: E731
                      .clamp(-2, 2) * self.scale).to(self.real.dtype)
        q = mk()
        if self.special and self.rng.random() < 0.15:
            q = q * 0 if self.rng.random() < 0.5 else q[:, :1].expand_as(q).clone()
        if self.real.g["kind"] not in ("single", "retro"):
            return (q, q, q)
        form = self.form
        return (q, q, q) if form == 1 else (q, mk(), mk())

    def want(self, out, peek, steps):
        memo, tok, real = {}, self.tok(peek), self.real

        def one(v):
            if v == ("none",):
                return None
            if v and isinstance(v[0], tuple):
                return real.rows([real.out(r, tok, memo) for r in v])
            return real.out(v, tok, memo)
        if not steps:
            return one(out)
        return real.stack([one(v) for v in out]) if out else None

    def args(self, new, pack):
        """The arguments of a call: query only, or all three."""
        qs = [pack([t[j] for t in new]) for j in range(3)]
        if self.real.g["kind"] not in ("single", "retro"):
            return qs[:1]
        n = self.form
        if n == 1 and self.rng.random() < 0.3:   # self-attention spelled out
            n = 3
        return qs[:n]

    def follow(self, e):
        if e.s != self.at:
            raise MachineryError("edge does not start here")
        real, g = self.real, self.real.g
        if e.a in ("step", "steps", "forward"):
            self.calls += 1
            self.form = self.rng.choice([1, 3])      # query only, or query, key and value
            new = [self.frame(True) for _ in range(e.c)]
            kw = dict(update_state=e.upd)
            if e.a == "step":
                args = self.args(new, lambda ts: ts[0])
                mode = "forward_step"
            else:
                args = self.args(new, real.pack)
                mode = "forward_steps" if e.a == "steps" else "forward"
                if e.a == "forward":
                    kw = {}
            args = [laid_out(a, self.rng) for a in args]
            keep = [a.clone() for a in args]
            got = self.invoke(mode, args[0], kw, tuple(args[1:]))
            if self.tap is not None:
                self.tap.append(("call", mode, keep[0], kw, clone(got), keep[1:]))
            if not all(torch.equal(a, b) for a, b in zip(args, keep)):
                raise Violation("%s changed its input" % e.a)
            if e.upd:
                self.hist.extend(new)
            if e.a == "forward":
                self.check_forward(e, got, new, keep)
            else:
                want = self.want(e.out, new, e.a == "steps")
                self.check(("single" if e.a == "step" else "multi") + "-step call" + ("" if e.upd else
                           " without state update"), got, want, e)
            self.keep(got, args)
            self.at = e.d
        else:
            Walk.follow(self, e)

    def bad_args(self):
        N, E = self.batch, self.real.E
        how = self.rng.choice(["channels", "batch", "rank", "dtype"] + ["others"] * (self.real.g["kind"] in ("single", "retro")))
        shape = [N + (how == "batch"), E + (how == "channels")] + [2] * (how == "rank")
        bad = [torch.ones(shape, dtype=torch.long if how == "dtype" else self.real.dtype)]
        if how == "others":    # keys and values which do not go with the query, or with each other
            bad += [torch.ones((N + self.rng.choice([0, 1]), E), dtype=self.real.dtype), torch.ones((N + 1, E), dtype=self.real.dtype)]
        return how, bad, self.real.pack

    def check_forward(self, e, got, new, args):
        real, g = self.real, self.real.g
        if real.weights_out:
            if not (isinstance(got, tuple) and len(got) == 2):
                raise Violation("whole-clip call returned %s instead of output and weights" % type(got).__name__)
            got, weights = got
        rows = list(e.out)
        sel = slice(g["qi"], None if g["qi"] == -1 else g["qi"] + 1)
        if real.single_forward or g["kind"] == "stack" and g["layers"] > 1:
            rows = rows[sel]
        tok, memo = self.tok(new), {}
        want = real.pack([real.out(r, tok, memo) for r in rows])
        self.check("whole-clip call", got, want, e)
        if real.weights_out or g["kind"] == "stack":
            with torch.no_grad():
                if g["kind"] == "stack":
                    o = real.ref(args[0].transpose(1, 2)).transpose(1, 2)
                    self.check("whole-clip call against torch.nn", got, o[:, :, sel] if g["layers"] > 1 else o, e)
                else:
                    a = [x.transpose(1, 2) if real.eds else x for x in (args if len(args) == 3 else args * 3)]
                    o, w = real.ref(*a)
                    self.check("attention weights", weights, w[:, sel] if real.single_forward else w, e)


WALKS["AttnWalk"] = AttnWalk
