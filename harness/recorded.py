"""Records executions of real modules and has them judged by Trace.tla.

The driver knows nothing of the specification's state graph: it makes random calls on real modules with integer weights and
notes what came out.  TLC decides whether that is a behaviour of the specification, computing all expected outputs itself."""
import copy
import json
import random
import re
import traceback

import torch
from torch import nn

from blocks import with_file
from core import MachineryError, Violation, run_tlc
from nets import attrs, kinds
from realize import co

BIG = 10 ** 9


def flen(m, T):
    """Frames of the whole-clip result: 0 where the clip is too short, -1 where parallel branches disagree."""
    k, ch = m["k"], m.get("ch", ())
    if k in ("conv", "pool"):
        r, s, p = attrs(m)
        return max(0, (T + 2 * p - r) // s + 1)
    if k == "delay":
        return max(0, T - m["n"] * dict(no=0, lag=1, cen=2)[m["shrink"]])
    if k == "skip":
        return max(0, T - m["n"])
    if k == "seq":
        for c in ch:
            T = flen(c, T) if T > 0 else T
        return T
    if k == "residual" and m["shrink"] != "no":
        return flen(ch[0], T)
    if ch:
        ls = {flen(c, T) for c in ch} | ({T} if k == "residual" else set())
        return -1 if -1 in ls else 0 if 0 in ls else ls.pop() if len(ls) == 1 else -1
    return T


def aligned(m):
    """Whether parallel branches give equally long clips."""
    r, s, p = attrs(m)
    return all(flen(m, T) >= 0 for T in range(1, r + 2 * s + 3))


def recordable(m):
    """Networks on single channels, with a single stream at the end, and averages that stay integers."""
    s, ks = str(m), kinds(m)
    return not ("'g'" in s or ("par" in ks or "bcast" in ks) and "reduce" not in ks or "win" in ks or "dispatch" in ks and "reduce" not in ks
                or s.count("'as': 'avg'") > 2 or s.count("'rnn'") > 1 or "rnn" in ks and "'as': 'RNN'" not in s)


class Maker:
    """A real module with integer weights, its normalised network and the functions of its nodes."""

    def __init__(self, net, seed):
        self.rng = random.Random(seed)
        self.nd = 1 if kinds(net) & {"rnn", "rpe"} else self.rng.choice([1, 1, 2, 3])
        self.scale = 144 if "'as': 'avg'" in str(net) else 1      # averages of up to four, twice, stay integers
        self.sw = True
        state = torch.random.get_rng_state()
        try:
            for self.most in (2, 2, 1, 1, 1, 0):
                self.ops, self.net = [], copy.deepcopy(net)
                self.module = self.make(self.net).double().eval()
                self.top = 9 if self.most > 1 else 2
                if self.bound(self.net, self.top * self.scale) < BIG:
                    break
            else:
                self.module = None     # TLC's integers are too small for it
        finally:
            torch.random.set_rng_state(state)

    def bound(self, m, b):
        """Largest value in or after m, for inputs (a number, or a list for parallel streams) up to b."""
        k, ch = m["k"], m.get("ch", ())
        o = self.ops[m["id"] - 1] if "id" in m else None
        f = {"avg": lambda bs: m["K"] * b, "max": lambda bs: max(bs), "sum": sum, "first_minus_rest": lambda bs: bs[0] + sum(bs),
             "relu": max, "lin": lambda bs: sum(map(abs, o["w"])) * b + abs(o["b"]), "mul": lambda bs: eval("*".join(map(str, bs))),
             "pos": lambda bs: b + max(map(abs, o["w"])), "cell": lambda bs: 500 * (2 * b + o["b"])}
        if k == "seq":
            for c in ch:
                b = self.bound(c, b)
            return b
        if k in ("br", "residual"):
            return f[o["op"]](([b] if k == "residual" else []) + [self.bound(c, b) for c in ch])
        if k == "bcast":
            return [b] * m["n"]
        if k == "par":
            return [self.bound(c, x) for c, x in zip(ch, b)]
        if k == "cond":
            return max(b, *[self.bound(c, b) for c in ch])
        if k == "dispatch":
            return [b[t["i"]] for t in m["map"]]
        if k == "reduce":
            return f[o["op"]](b)
        return f[o["op"]]([b]) if o else b

    def new(self, m, **op):
        self.ops.append(dict(dict(op="none", w=[], b=0), **op))
        m["id"] = len(self.ops)

    def ints(self, n, most):
        return [self.rng.randint(-most, most) for _ in range(n)]

    def k(self, t, rest=1):
        return (t,) + (rest,) * (self.nd - 1)

    def make(self, m):
        return getattr(self, "n_" + m["k"])(m)

    def fill(self, mod, m):
        self.new(m, op="lin", w=self.ints(m["K"], self.most), b=self.rng.randint(-2, 2) * self.scale)
        with torch.no_grad():
            mod.weight.copy_(torch.tensor(self.ops[-1]["w"]).reshape(mod.weight.shape))
            mod.bias.fill_(self.ops[-1]["b"])
        return mod

    def n_conv(self, m):
        tf, pm = [{"zero": "zeros", "rep": "replicate"}[m[k]] for k in ("fill", "fpad")]
        kw = dict(stride=self.k(m["s"]), padding=self.k(m["p"], 0), padding_mode=pm)
        name = "Conv%dd" % self.nd
        if self.rng.random() < 0.4 and tf == pm:
            return self.fill(getattr(co, name).build_from(getattr(nn, name)(1, 1, self.k(m["K"]), **kw)), m)
        return self.fill(getattr(co, name)(1, 1, self.k(m["K"]), temporal_fill=tf, **kw), m)

    def n_pool(self, m):
        kw = dict(stride=self.k(m["s"]), padding=self.k(m["p"], 0),
                  temporal_fill={"zero": "zeros", "ninf": "neg_inf", "rep": "replicate"}[m["fill"]])
        ks = self.k(m["K"])
        if m["as"] == "max" or m["d"] > 1:
            kw["dilation"] = self.k(m["d"])
        if self.nd == 1:
            ks, kw = ks[0], {k: v[0] if isinstance(v, tuple) else v for k, v in kw.items()}
        self.new(m, op=m["as"])
        return getattr(co, "%sPool%dd" % (dict(avg="Avg", max="Max")[m["as"]], self.nd))(ks, **kw)

    def n_delay(self, m):
        return co.Delay(m["n"], **({} if m["shrink"] == "no" else dict(auto_shrink={"cen": "centered", "lag": "lagging"}[m["shrink"]])))

    def n_skip(self, m):
        return co.Skip(m["n"])

    def n_point(self, m):
        kind = self.rng.choice(["relu", "lrelu", "add", "mul", "lambda"])
        c = self.rng.randint(-2, 2) * self.scale
        if kind == "relu":
            self.new(m, op="relu")
            return co.forward_stepping(nn.ReLU())
        if kind == "lrelu":
            self.new(m, op="relu")
            return co.Lambda(torch.relu)
        if kind == "add":
            self.new(m, op="lin", w=[1], b=c)
            return co.Add(c)
        if kind == "mul":
            c = self.rng.randint(-self.most, self.most)
            self.new(m, op="lin", w=[c], b=0)
            return co.Multiply(c)
        self.new(m, op="lin", w=[-1], b=c)
        return co.Lambda(lambda x: c - x, takes_time=self.rng.random() < 0.5)

    def n_rnn(self, m):
        self.new(m, op="cell", w=[self.rng.randint(-2, 2), self.rng.choice([-1, 0, 1])], b=self.rng.randint(-1, 2) * self.scale)
        o = self.ops[-1]
        mod = co.RNN(1, 1, nonlinearity="relu")
        with torch.no_grad():
            for p, v in ((mod.weight_ih_l0, o["w"][0]), (mod.weight_hh_l0, o["w"][1]), (mod.bias_ih_l0, o["b"]), (mod.bias_hh_l0, 0)):
                p.fill_(v)
        return mod

    def n_rpe(self, m):
        self.new(m, op="pos", w=[v * self.scale for v in self.ints(m["num"], 9)])
        mod = co.RecyclingPositionalEncoding(1, m["num"], learned=True)
        with torch.no_grad():
            for p in mod.parameters():
                p.copy_(torch.tensor(self.ops[-1]["w"]).reshape(p.shape))
        return mod

    def reduction(self, m):
        red = m.pop("red", None) or self.rng.choice(["sum", "max", "mul", "first_minus_rest"])
        if red == "concat" or (self.scale > 1 or self.most < 2) and red == "mul":
            red = "sum"
        self.new(m, op=red)
        return {"first_minus_rest": lambda xs: 2 * xs[0] - sum(xs)}.get(red, red)

    def n_seq(self, m):
        return co.Sequential(*[self.make(c) for c in m["ch"]])

    def n_br(self, m):
        ch = [self.make(c) for c in m["ch"]]
        return co.BroadcastReduce(*ch, reduce=self.reduction(m), auto_delay=m["auto"])

    def n_residual(self, m):
        kw = {}
        if m["shrink"] != "no":
            kw["residual_shrink"] = {"cen": "centered", "lag": "lagging", "leading": "leading"}[m["shrink"]]
        ch = self.make(m["ch"][0])
        return co.Residual(ch, reduce=self.reduction(m), **kw)

    def n_par(self, m):
        return co.Parallel(*[self.make(c) for c in m["ch"]], auto_delay=m["auto"])

    def n_bcast(self, m):
        return co.Broadcast(m["n"])

    def n_reduce(self, m):
        return co.Reduce(self.reduction(m))

    def n_dispatch(self, m):
        plain = lambda t: t["i"] if "i" in t else [plain(x) for x in t["g"]]  # noqa: E731
        return co.ParallelDispatch([plain(t) for t in m["map"]])

    def n_cond(self, m):
        return co.Conditional(lambda *a: self.sw, *[self.make(c) for c in m["ch"]])


class TooBig(Exception):
    pass


class Recorder:
    """Random calls on a module; a trace for each chosen entry of the frames."""

    def __init__(self, net, calls, length, seed):
        self.rng = random.Random(seed)
        self.mk = Maker(net, seed)
        if self.mk.module is None:
            raise TooBig
        self.m, self.calls, self.length = self.mk.module, calls, length
        self.shape = (self.rng.choice([1, 2, 3]), 1) + tuple(self.rng.choice([1, 2]) for _ in range(self.mk.nd - 1))
        n = int(torch.Size(self.shape).numel())
        self.picked = sorted({0, self.rng.randrange(n)})
        self.evs = [[] for _ in self.picked]
        self.log = []

    def frames(self, n):
        g = torch.Generator().manual_seed(self.rng.randrange(1 << 30))
        x = torch.randint(-self.mk.top, self.mk.top + 1, (n, *self.shape), generator=g).double() * self.mk.scale
        return x

    def values(self, x):
        """frames, first axis time -> a list for each picked entry."""
        flat = x.reshape(x.shape[0], -1)
        out = []
        for p in self.picked:
            col = []
            for v in flat[:, p].tolist():
                r = round(v) if abs(v) < BIG else None
                if r is None or abs(r - v) > 1e-6:
                    raise Violation("an output of %s, for integer frames and weights" % v)
                col.append(r)
            out.append(col)
        return out

    def note(self, a, xs=None, out=None, **kw):
        """out: None or a tensor, first axis time."""
        xs = self.values(xs) if xs is not None else [[]] * len(self.picked)
        if out is not None and len(out) and tuple(out.shape[1:]) != self.shape:
            raise Violation("outputs of shape %s for frames of shape %s" % (tuple(out.shape[1:]), self.shape))
        out = self.values(out) if out is not None and len(out) else [[]] * len(self.picked)
        for e, x, o in zip(self.evs, xs, out):
            e.append(dict(dict(a=a, xs=x, pe=False, upd=True, err=False, sw=self.mk.sw, out=o), **kw))

    def call(self, mode, x, **flags):
        """A call in one of the ways there are."""
        how = self.rng.choice(["method", "method", "context", "own mode"])
        if how == "method":
            return getattr(self.m, mode)(x, **flags)
        if how == "context":
            with co.call_mode(mode):
                return self.m(x, **flags)
        old = self.m.call_mode
        try:
            self.m.call_mode = mode
            return self.m(x, **flags)
        finally:
            self.m.call_mode = old

    def run(self):
        net = self.mk.net
        r, s, p = attrs(net)
        ks = kinds(net)
        m = self.m
        for e in self.evs:
            e.append(dict(a="attrs", out=[int(m.receptive_field), s, p, int(m.delay)]))
        saved, explicit = False, None
        for _ in range(self.length):
            self.mk.sw = self.rng.random() < 0.5
            a = self.rng.choice(self.calls)
            flags = {}
            if a in ("peek", "peeks", "peekpad"):
                flags["update_state"] = False
            n = self.rng.choice([1, 1, 2, 3, 5, 8])
            if a in ("pad", "peekpad"):
                if not aligned(net):
                    continue
                flags["pad_end"] = True
                if "'max'" in str(net):
                    n += r - 1      # no window consists of padding only
            self.log.append((a, n))
            if a in ("step", "peek"):
                x = self.frames(1)
                y = self.call("forward_step", x[0], **flags)
                self.note("step", x, y[None] if isinstance(y, torch.Tensor) else None, upd=a == "step")
            elif a in ("steps", "peeks", "pad", "peekpad"):
                if "rpe" in ks:
                    n = min(n, *map(int, re.findall("'num': (\\d+)", str(net))))
                x = self.frames(n)
                try:
                    y = self.call("forward_steps", x.movedim(0, 2), **flags)
                except Exception:
                    if a not in ("pad", "peekpad"):
                        raise
                    self.note("steps", x, upd=a == "pad", pe=True, err=True)
                    break
                self.note("steps", x, y.movedim(2, 0) if isinstance(y, torch.Tensor) else None, upd=a in ("steps", "pad"),
                          pe=a in ("pad", "peekpad"))
            elif a == "forward":
                if ks & {"rpe", "rnn"} or not aligned(net):
                    continue
                x = self.frames(max(1, r) + n)
                self.note("forward", x, self.call("forward", x.movedim(0, 2)).movedim(2, 0), upd=False)
            elif a == "clean":
                m.clean_state()
                self.note("clean")
            elif a == "warm":
                m.clean_state()
                self.note("clean")
                m.warm_up(self.shape)
                self.note("warm")
            elif a == "explicit":
                x = self.frames(1)
                y, explicit = m._forward_step(x[0], explicit)
                self.note("explicit", x, y[None] if isinstance(y, torch.Tensor) else None)
            elif a == "fresh":
                explicit = None
                self.note("fresh")
            elif a == "copy":
                self.m = m = copy.deepcopy(m)
                self.note("copy")
            elif a == "save":
                st = m.get_state()
                if st is not None:
                    saved = True
                    self.snap = copy.deepcopy(st)
                    self.note("save")
            elif a == "restore" and saved:
                m.set_state(copy.deepcopy(self.snap))
                self.note("restore")
        return [dict(net=net, ops=self.mk.ops, evs=e) for e in self.evs]


def record(item):
    net, calls, length, seed = item
    out = dict(traces=[], violation=None, error=None, done=0)
    r = None
    try:
        with torch.no_grad():
            r = Recorder(net, calls, length, seed)
            out["traces"] = r.run()
    except TooBig:
        pass
    except Violation as v:
        out["violation"] = dict(what=v.what, detail=v.detail, log=r.log if r else [])
    except Exception as e:
        out["violation"] = dict(what="recording raised %s: %s" % (type(e).__name__, e), log=r.log if r else [],
                                detail=traceback.format_exc()[-1500:])
    out["done"] = len(r.log) if r else 0
    return out


def judge(traces):
    """TLC's verdict on each trace."""
    r = with_file(traces, lambda p: run_tlc("Trace", env=dict(NETS=p)))
    got = {v["tr"]: v for v in r.records("TRACE")}
    if set(got) != set(range(1, len(traces) + 1)):
        raise MachineryError("verdicts on %d of %d traces" % (len(got), len(traces)))
    return [got[j + 1] for j in range(len(traces))], r


def corrupt(t, rng):
    """The same trace with one output changed, dropped or made up."""
    t = copy.deepcopy(t)
    at = [e for e in t["evs"] if e["a"] in ("step", "steps", "forward")]
    e = rng.choice([e for e in at if e["out"]] or at)
    how = rng.choice(["value", "drop", "extra"]) if e["out"] else "extra"
    if how == "value":
        e["out"][rng.randrange(len(e["out"]))] += rng.choice([-1, 1])
    elif how == "drop":
        e["out"].pop()
    else:
        e["out"].append(0)
    return t


def check(rep, items, rng, pool_map):
    """Record executions, given as (network, calls, length, seed), and have them judged."""
    traces, owner = [], []
    for it, o in zip(items, pool_map(record, items)):
        rep.add("impl_calls", o["done"])
        if o["violation"]:
            rep.violation(o["violation"]["what"], detail=o["violation"].get("detail"), log=o["violation"]["log"], custom="recorded", item=it)
        for t in o["traces"]:
            rep.add("traces_validated_against_impl")
            traces.append(t)
            owner.append(it)
    if not traces:
        return
    bad = [corrupt(t, rng) for t in traces[::max(1, len(traces) // 8)] if any(e["a"] in ("step", "steps") for e in t["evs"])]
    verdicts, r = judge(traces + bad)
    rep.tlc(r)
    rep.add("recorded_traces", len(traces))
    rep.add("recorded_events", sum(len(t["evs"]) for t in traces))
    for t, v, it in zip(traces, verdicts, owner):
        if not v["ok"]:
            e = t["evs"][v["at"] - 1]
            rep.violation("a recorded execution is not a behaviour of the specification: %s; event %d %s gave %s, expected %s" % (
                v["clause"], v["at"], {k: e[k] for k in e if k != "out"}, e["out"], v["expected"]),
                detail=dict(net=t["net"], ops=t["ops"]), log=t["evs"][:v["at"]], custom="recorded", item=it)
    for t, v in zip(bad, verdicts[len(traces):]):
        rep.add("corrupted_traces_rejected", int(not v["ok"]))
        if v["ok"] and not rep.violations:
            raise MachineryError("a corrupted trace was accepted")
    rep.sample(dict(recorded=traces[0]["net"], events=traces[0]["evs"][:5]))


def replay(d):
    from core import Report
    rep = Report(d["property"])
    net, calls, length, seed = d["item"]
    o = record((net, calls, length, seed))
    if o["violation"]:
        print("reproduced:", o["violation"])
        return 1
    for v in judge(o["traces"])[0]:
        if not v["ok"]:
            print("reproduced:", v)
            return 1
    print("not reproduced")
    return 0
