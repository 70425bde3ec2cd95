"""Further ways of driving a real network along the specification, for particular properties."""
import collections
import contextlib
import copy

import torch

from core import MachineryError, Violation
from realize import Real, co, nn
from replay import MODAL, clone, kept_value, same, tensors
from streamcheck import CUSTOM, KEEP, at_start


def plan(f):
    CUSTOM[f.__name__] = f
    return f


def first(v):
    return v[0] if isinstance(v, (tuple, list)) else v


@plan
def attrs(w):
    """Declared attributes are those the specification derives (C06)."""
    def look(info, m, where):
        got = dict(rf=m.receptive_field, delay=m.delay, stride=first(m.stride), pad=first(m.padding))
        for k, v in got.items():
            if int(v) != info[k]:
                raise Violation("declared %s of %s is %s, should be %s" % (
                    dict(rf="receptive field", pad="padding").get(k, k), where, v, info[k]))
        w.compared += 4
        # the modules it was made of keep theirs
        kids = list(m.children())
        if info["parts"] and len(kids) == len(info["parts"]) and not w.real.opts.get("probes"):
            for j, (i, c) in enumerate(zip(info["parts"], kids)):
                if hasattr(c, "receptive_field"):
                    look(i, c, where + ".%d" % j)
    look(w.graph.info["parts"], w.m, "the module")


@plan
def cleans(w, budget):
    """From every state: clean, then follow the stream (C07)."""
    weights = {n: p.detach().clone() for n, p in w.m.state_dict().items()}
    todo = sorted(w.graph.edges)
    w.rng.shuffle(todo)
    settled = w.graph.info["settled"] + 2
    n0 = w.calls
    while todo and w.calls - n0 < budget * 4:
        target = todo.pop()
        path = w.path_to(target)
        if path is None:
            continue
        for e in path:
            w.do(e)
        w.to_clean()
        w.random_walk(min(settled, 30), KEEP["cuts"] if w.rng.random() < 0.5 else KEEP["step"])
        if w.rng.random() < 0.2:
            w.to_clean()
            w.to_clean()   # cleaning twice is cleaning
    w.to_clean()
    for n, p in w.m.state_dict().items():
        if n not in weights or not kept_value(p, weights[n]):
            raise Violation("cleaning the state changed %s" % n)


@plan
def fresh_state(w):
    """A clean module exposes no state (C19)."""
    w.to_clean()
    for n, m in w.m.named_modules():
        if hasattr(m, "get_state") and not isinstance(m, co.RecyclingPositionalEncoding):
            if isinstance(m, co.Skip):   # its state is a count of frames, whose encoding is its own affair
                continue
            s = m.get_state()
            if s is not None and not (isinstance(s, (tuple, list)) and all(v is None for v in s)):
                raise Violation("%s exposes a state before the first input" % (n or type(m).__name__))
    w.compared += 1


@plan
def hidden(w, rounds):
    """Recurrent networks: hidden state set by hand, and exposed afterwards (C12)."""
    real, m, rng = w.real, w.m, w.rng
    leaf = next(iter(real.leaves.values()))
    wt = next(iter(real.w.values()))
    lstm = real.net["as"] == "LSTM"
    layers, H = m.num_layers, m.hidden_size

    def rand_h():
        t = lambda n: torch.randn(layers, w.batch, n, generator=w.gen, dtype=torch.float64).to(real.dtype)  # noqa: E731
        return (t(m.proj_size or H), t(H)) if lstm else t(H)
    h = None
    w.to_clean()
    for _ in range(rounds):
        act = rng.choice(["set", "step", "steps", "peek", "forward", "clean"])
        w.calls += 1
        if act == "set":
            h = rand_h()
            m.set_state(clone(h) if lstm or rng.random() < 0.7 else (clone(h),))
        elif act == "clean":
            m.clean_state()
            h = None
        else:
            T = rng.choice([1, 2, 5]) if act != "step" else 1
            xs = [w.frame(True) for _ in range(T)]
            hh = leaf.h0(xs[0]) if h is None else h
            if act == "forward":
                h_in = rand_h() if rng.random() < 0.5 else None
                got = m.forward(torch.stack(xs, 2), clone(h_in)) if h_in is not None else m.forward(torch.stack(xs, 2))
                hh = leaf.h0(xs[0]) if h_in is None else h_in
            outs = []
            for x in xs:
                hh = leaf.cell(wt, x, hh)
                outs.append(leaf.out(wt, hh))
            if act == "forward":
                r = same(got[0], torch.stack(outs, 2), real.dtype)
                fin = list(zip(got[1] if lstm else [got[1]], hh if lstm else [hh]))
                r = r or next((same(a, b, real.dtype) for a, b in fin if same(a, b, real.dtype)), None)
                if r:
                    raise Violation("whole-clip call of a recurrent layer (output, hidden state): " + r)
            elif act == "step":
                r = same(m.forward_step(xs[0]), outs[0], real.dtype)
                h = hh
            elif act == "steps":
                r = same(m.forward_steps(torch.stack(xs, 2)), torch.stack(outs, 2), real.dtype)
                h = hh
            else:
                r = same(m.forward_steps(torch.stack(xs, 2), update_state=False), torch.stack(outs, 2), real.dtype)
            if r:
                raise Violation("%s from a hidden state: %s" % (act, r))
        got = m.get_state()
        w.compared += 1
        if h is None:
            if got is not None and any(v is not None for v in (got if isinstance(got, (tuple, list)) else [got])):
                raise Violation("a clean recurrent layer exposes a hidden state")
        else:
            g = got if lstm else (got[0] if isinstance(got, (tuple, list)) else got)
            for a, b in zip(g if lstm else [g], h if lstm else [h]):
                r = same(a, b, real.dtype)
                if r:
                    raise Violation("exposed hidden state after %s: %s" % (act, r))
    m.clean_state()
    w.at, w.hist = w.graph.init, collections.deque(maxlen=512)


@plan
def long(w, n):
    """Long streams, cut into single frames and into long chunks, of few or many batch entries: what came out is
    the part of the whole clip's output which the specification (LawStep, LawSteps) puts there."""
    m, rng, real = w.m, w.rng, w.real
    info = w.graph.info
    if not info["lawful"]:
        return
    w.to_clean()
    w.batch = rng.choice([1, 2, 9, 33]) if "batch" not in real.opts else w.batch
    real.sw.wrong = []
    size = max(1, w.batch * int(torch.Size(real.shape).numel()))
    n = max(40, min(n, 400000 // size))
    x = torch.stack([w.frame(True) for _ in range(n)], 2)
    outs, at = [], 0
    with torch.no_grad():
        while at < n:
            T = rng.choice([1, 1, 1, 1, 2, 3, 10, rng.randrange(20, 80), rng.randrange(60, 400)])
            part = x[:, :, at:at + T]
            T = part.shape[2]
            if rng.random() < 0.05:
                w.invoke("forward_steps", part.clone(), dict(pad_end=rng.random() < 0.3, update_state=False))
            if T == 1 and rng.random() < 0.8:
                for _ in range(min(rng.choice([1, 5, 50]), n - at)):
                    o = w.invoke("forward_step", x[:, :, at].clone(), dict(update_state=True))
                    outs += [] if o is None else [o.unsqueeze(2)]
                    at += 1
                    w.calls += 1
                continue
            o = w.invoke("forward_steps", part.clone(), dict(pad_end=False, update_state=True))
            outs += [] if o is None else [o]
            at += T
            w.calls += 1
        top = info["parts"]
        due = max(0, (n + top["pad"] - top["rf"]) // top["stride"] + 1)
        got = torch.cat(outs, 2) if outs else None
        if (0 if got is None else got.shape[2]) != due:
            raise Violation("a stream of %d frames put out %d, should be %d" % (n, 0 if got is None else got.shape[2], due))
        if due:
            whole = real.twin or copy.deepcopy(m).forward
            r = same(got, whole(x.clone())[:, :, :due], real.dtype)
            w.compared += 1
            w.nonempty += 1
            if r:
                raise Violation("a stream of %d frames differs from the clip of its frames: %s" % (n, r))
    w.kinds["frames of long streams"] = w.kinds.get("frames of long streams", 0) + n
    m.clean_state()


@plan
def forks(w, n):
    """Copies taken mid-stream go their own ways (C22)."""
    ws = [w]
    for k in range(n):
        x = w.rng.random()
        if x < 0.06 and len(ws) < 4:
            ws.append(w.rng.choice(ws).fork(w.rng.randrange(1 << 30)))
        elif x < 0.08 and len(ws) > 1:
            v = ws[-1]   # other weights for one copy only
            with torch.no_grad():
                for p in v.m.parameters():
                    p.mul_(-0.7)
                    p.add_(0.1)
            v.real = copy.copy(v.real)
            v.real.resnapshot(v.m)
            v.real.twin = None
            v.to_clean()
            ws.insert(0, ws.pop())
        v = w.rng.choice(ws)
        v.random_walk(1, KEEP["all"])
    for v in ws:
        v.random_walk(5, KEEP["step"])
    w.calls = sum(v.calls for v in ws)
    w.compared = sum(v.compared for v in ws)
    w.nonempty = sum(v.nonempty for v in ws)


def entry(v, b):
    if isinstance(v, torch.Tensor):
        return v[b:b + 1]
    if isinstance(v, (list, tuple)):
        return [entry(x, b) for x in v]
    return v


@plan
def lockstep(w, n):
    """Every batch entry alone gives what it gives in the batch (C22)."""
    alone = [copy.deepcopy(w.m) for _ in range(w.batch)]
    w.tap = tap = []
    for _ in range(n):
        del tap[:]
        at = w.at
        w.random_walk(1, KEEP["all"])
        for what, mode, x, kw, got, *more in tap:
            for b, m in enumerate(alone):
                if what == "call":
                    g = getattr(m, mode)(x[b:b + 1].clone(), *[y[b:b + 1].clone() for y in sum(more, [])], **kw)
                    if isinstance(g, tuple) and isinstance(got, tuple) and w.real.net["k"] == "rnn":
                        g, go = g[0], got[0]
                    else:
                        go = got
                    want = entry(clone(go), b)
                    r = same(g, list(want) if isinstance(want, (list, tuple)) else want, w.real.dtype)
                    w.compared += 1
                    if r:
                        raise Violation("batch entry %d streamed alone differs in %s: %s" % (b, mode, r), state=at)
                else:
                    m.clean_state()
    w.tap = None


@plan
def twice(w):
    """Marking a module as streamable, or converting it, twice is harmless (C23, C20)."""
    m = w.m
    a = co.forward_stepping(m)
    b = co.continual(m)
    if a is not m or b is not m:
        raise Violation("marking or converting a streamable module again gives another object")
    w.compared += 1


@plan
def converted(w):
    """What conversion must keep: names, weights (as copies), data type (C20)."""
    src, m = w.real.source, w.m
    a, b = dict(src.named_parameters()), dict(m.named_parameters())
    if set(a) != set(b):
        raise Violation("parameters after conversion: %s instead of %s" % (sorted(b), sorted(a)))
    for n in a:
        if b[n].dtype != a[n].dtype or not torch.equal(a[n], b[n]):
            raise Violation("parameter %s changed in conversion" % n)
    if [n for n, _ in src.named_children()] != [n for n, _ in m.named_children()][:len(list(src.children()))] \
            and isinstance(src, nn.Sequential):
        raise Violation("child names changed in conversion")
    # the conversion of the network itself (not of a copy of it) shares no converted layer's weights
    orig = copy.deepcopy(src)
    conv = co.continual(orig)
    mine = {id(p): n for n, p in orig.named_parameters()}
    for n, mod in conv.named_modules():
        if isinstance(mod, (co.Conv1d, co.Conv2d, co.Conv3d, co.RNN, co.GRU, co.LSTM, co.Linear)):
            for k, p in mod._parameters.items():
                if id(p) in mine or (p is not None and any(p.data_ptr() == q.data_ptr() for q in orig.parameters())):
                    raise Violation("converted layer %s shares %s with the original" % (n, k))
    if co.continual(conv) is not conv:
        raise Violation("converting a converted network gives another object")
    w.compared += len(a) + 2
    w.fresh_twin = src


@plan
def saving(w, n):
    """Saving and loading in the middle of a stream (C21)."""
    m, rng = w.m, w.rng
    names = set(nn.Module.state_dict(m))
    lacks = {k for k, _ in m.named_parameters()} - names
    if lacks:
        raise Violation("a state dict lacks %s" % sorted(lacks))
    weights = {k: v.detach().clone() for k, v in nn.Module.state_dict(m).items()}
    for _ in range(n):
        w.random_walk(rng.choice([1, 2, 3]), KEEP["peek"])
        try:
            flat = rng.random() < 0.5 and hasattr(m, "flatten_state_dict")
            nested = contextlib.nullcontext() if rng.random() < 0.5 else co.flat_state_dict
            with nested:
                sd = m.state_dict(flatten=True) if flat else m.state_dict()
                sd = copy.deepcopy(sd) if rng.random() < 0.5 else sd
                m.load_state_dict(sd, flatten=True) if flat else m.load_state_dict(sd)
        except Exception as e:
            raise Violation("saving or loading mid-stream raised %s: %s" % (type(e).__name__, e))
        if len(sd) != len(names):
            raise Violation("mid-stream, %d instead of %d weights are saved: %s" % (len(sd), len(names), sorted(sd)))
        now = nn.Module.state_dict(m)
        if set(now) != names:
            raise Violation("a stream in progress changes what is saved: %s" % sorted(set(now) ^ names))
        for k in weights:
            if not kept_value(now[k], weights[k]):
                raise Violation("streaming, saving and loading again changed the saved %s" % k)
        w.compared += 1
    w.random_walk(10, KEEP["peek"])


@plan
def training(w, n):
    """Gradients of whole-clip calls mid-stream, and steps of an optimiser between streams (C28)."""
    for _ in range(n):
        w.random_walk(w.rng.randrange(6), KEEP["plain"])
        fs = [e for e in w.graph.edges.get(w.at, []) if e.a == "forward"]
        if fs:
            gradients(w, w.rng.choice(fs))
            w.random_walk(1, KEEP["plain"])
        if w.rng.random() < 0.4:
            w.to_clean()
            learn(w)


@plan
def backprop(w, n):
    """Gradients of everything a stream in training mode returned (C28)."""
    for _ in range(n):
        w.to_clean()
        for sub in w.m.modules():    # whatever has no other meaning in training mode
            if not any(isinstance(part, MODAL) for part in sub.modules()):
                sub.train(True)
        stream_gradient(w, w.rng.randrange(2, 9))
        w.to_clean()


def stream_gradient(w, n):
    real, m = w.real, w.m
    attn = not hasattr(real, "mods")
    params = {} if attn else dict(m.named_parameters())
    pdir = {k: torch.randn(p.shape, generator=w.gen, dtype=torch.float64) for k, p in params.items()}
    frames, dirs, calls, hist, total = [], [], [], [], 0.0
    first = lambda f: f[0] if isinstance(f, tuple) else f  # noqa: E731
    w.form = 1
    with torch.enable_grad():
        for _ in range(n):
            es = w.out_edges(lambda e: e.a in ("step", "steps") and not (e.pe and e.stall and not w.graph.clean(e.s)))
            if not es:
                break
            e = w.rng.choice(es)
            real.sw.sw, real.sw.mode, real.sw.wrong = e.sw, "forward_step" if e.a == "step" else "forward_steps", []
            new = [first(w.frame(e.sw)) for _ in range(e.c)]
            dirs += [torch.randn(f.shape, generator=w.gen, dtype=torch.float64) for f in new]
            new = [f.requires_grad_(True) for f in new]
            ids = list(range(len(frames), len(frames) + e.c))
            frames += new
            kw = dict(update_state=e.upd)
            w.calls += 1
            w.log.append(("method", real.sw.mode, None, dict(kw, grad=True)))
            try:
                if e.a == "step":
                    got = m.forward_step(new[0], **kw)
                else:
                    if not attn:
                        kw["pad_end"] = e.pe
                    got = m.forward_steps(real.pack(new) if attn else torch.stack(new, 2), **kw)
            except Exception as ex:
                raise Violation("%s raised %s: %s" % (real.sw.mode, type(ex).__name__, ex))
            wts = [torch.randn(g.shape, generator=w.gen, dtype=torch.float64) for g in tensors(got)]
            total = total + sum((g * v).sum() for g, v in zip(tensors(got), wts))
            if e.upd:
                hist += ids
            calls.append((e, ids, list(hist), wts))
            w.at = e.d
        if not isinstance(total, torch.Tensor) or not total.isfinite():    # nothing came out, or the maximum of nothing
            return
        gs = [None] * (len(frames) + len(params))
        if total.requires_grad:
            try:
                gs = torch.autograd.grad(total, frames + list(params.values()), allow_unused=True)
            except Exception as ex:
                raise Violation("the gradient of what a stream returned raised %s: %s" % (type(ex).__name__, ex))
    frames = [f.detach() for f in frames]
    along = [sum((g * d).sum().item() for g, d in zip(gs, dirs) if g is not None)]
    along += [0.0 if g is None else (g * pdir[k]).sum().item() for k, g in zip(params, gs[len(frames):])]

    def at(eps, only):
        keep, out = real.w if params else None, 0.0
        moved = [f + eps * d for f, d in zip(frames, dirs)] if only is None else frames
        if attn:
            moved = [(f, f, f) for f in moved]
        if only is not None:
            real.w = {i: dict(v) for i, v in keep.items()}
            for i, name in real.names.items():
                for k in real.w[i]:
                    if (name + "." + k if name else k) == only:
                        real.w[i][k] = real.w[i][k] + eps * pdir[only]
        try:
            for e, ids, known, wts in calls:
                w.hist = collections.deque([moved[i] for i in known], maxlen=512)
                v = w.want(e.out, [moved[i] for i in ids], e.a != "step")
                out += sum((a * b).sum().item() for a, b in zip(tensors(v), wts))
        finally:
            if params:
                real.w = keep
        return out
    for j, only in enumerate([None] + list(params)):
        for eps in (1e-5, 1e-6, 1e-7):
            fd = (at(eps, only) - at(-eps, only)) / (2 * eps)
            if abs(fd - along[j]) <= 2e-5 * (1 + abs(fd) + total.abs().item()):
                break
        else:
            raise Violation("the derivative of what a stream returned with respect to %s is %.6g, should be %.6g" % (
                only or "its frames", along[j], fd))
        w.compared += 1
        w.nonempty += 1


def learn(w):
    """Change the weights in one of the ways weights are changed."""
    m, rng = w.m, w.rng
    ps = [p for p in m.parameters() if rng.random() < 0.8]
    if not ps:
        return
    rand = lambda p: torch.randn(p.shape, generator=w.gen, dtype=torch.float64).to(p.dtype) * 0.3  # noqa: E731
    how = rng.choice(["sgd", "copy", "data", "load", "assign", "replace", "replace"])
    w.log.append(("method", "weights changed: " + how, None, {}))
    if how == "sgd":
        opt = torch.optim.SGD(m.parameters(), lr=0.5)
        for p in ps:
            p.grad = rand(p)
        opt.step()
        opt.zero_grad()
    elif how == "copy":
        with torch.no_grad():
            for p in ps:
                p.copy_(rand(p))
    elif how == "data":
        for p in ps:
            p.data = rand(p)
    elif how == "replace":
        new = {id(p): torch.nn.Parameter(rand(p)) for p in ps}
        for sub in list(m.modules()):
            for k, p in list(sub._parameters.items()):
                if p is not None and id(p) in new:
                    setattr(sub, k, new[id(p)])
    else:
        new = {k: rand(v) for k, v in m.named_parameters()}
        m.load_state_dict(dict(nn.Module.state_dict(m), **new), **(dict() if isinstance(m, (
            co.Sequential, co.Parallel, co.BroadcastReduce, co.Conditional)) else dict(assign=how == "assign")))
    w.real.resnapshot(m)


def gradients(w, e):
    """The derivative of a whole-clip call in a random direction, against difference quotients of the reference."""
    real, m = w.real, w.m
    attn = not hasattr(real, "mods")
    real.sw.sw, real.sw.mode, real.sw.wrong, w.form = e.sw, "forward", [], 1
    new = [w.frame(e.sw) for _ in range(e.c)]
    dirs = [[torch.randn(t.shape, generator=w.gen, dtype=torch.float64) for t in (f if isinstance(f, tuple) else (f,))]
            for f in new]
    params = {} if attn else dict(m.named_parameters())
    pdir = {k: torch.randn(p.shape, generator=w.gen, dtype=torch.float64) for k, p in params.items()}
    w.calls += 1
    w.log.append(("method", "forward and backward", None, {}))
    if attn:
        fs = [f if not isinstance(f, tuple) else f[0] for f in new]
        x = real.pack(fs).clone()
    else:
        fs = new
        x = torch.stack(new, 2)
    x.requires_grad_(True)
    with torch.enable_grad():
        try:
            got = m.forward(x)
        except Exception as ex:
            raise Violation("forward raised %s: %s" % (type(ex).__name__, ex))
        got = got[0] if isinstance(got, tuple) else got
        wts = [torch.randn(g.shape, generator=w.gen, dtype=torch.float64) for g in tensors(got)]
        total = sum((g * v).sum() for g, v in zip(tensors(got), wts))
        w.at = e.d
        if not total.isfinite():       # the maximum of nothing
            return
        used = [p for p in params.values() if p.requires_grad]
        if len(used) != len(params):
            raise Violation("some weights cannot be trained: %s" % sorted(k for k, p in params.items() if not p.requires_grad))
        if not total.requires_grad:
            gs = [None] * (1 + len(used))
        else:
            try:
                gs = torch.autograd.grad(total, [x] + used, allow_unused=True)
            except Exception as ex:
                raise Violation("the gradient of forward raised %s: %s" % (type(ex).__name__, ex))
    fdir = [d[0] for d in dirs]
    xdir = real.pack(fdir) if attn else torch.stack(fdir, 2)
    gx = torch.zeros_like(x) if gs[0] is None else gs[0]
    along = [(gx * xdir).sum().item()] + [0.0 if g is None else (g * pdir[k]).sum().item() for k, g in zip(params, gs[1:])]

    def at(eps, frames, only):
        """The reference with frames or one weight moved."""
        keep = real.w
        if only is not None:
            real.w = {i: dict(v) for i, v in keep.items()}
            for i, n in real.names.items():
                for k in real.w[i]:
                    if (n + "." + k if n else k) == only:
                        real.w[i][k] = real.w[i][k] + eps * pdir[only]
        moved = [f + eps * d if frames else f for f, d in zip(fs, fdir)]
        try:
            if attn:
                tok, memo = w.tok([(f, f, f) for f in moved]), {}
                rows = list(e.out)
                g = real.g
                if real.single_forward or g["kind"] == "stack" and g["layers"] > 1:
                    rows = rows[slice(g["qi"], None if g["qi"] == -1 else g["qi"] + 1)]
                v = real.pack([real.out(r, tok, memo) for r in rows])
            else:
                v = w.want(e.out, moved, True)
        finally:
            real.w = keep
        return sum((a * b).sum().item() for a, b in zip(tensors(v), wts))
    for j, only in enumerate([None] + list(params)):
        for eps in (1e-5, 1e-6, 1e-7):
            fd = (at(eps, only is None, only) - at(-eps, only is None, only)) / (2 * eps)
            if abs(fd - along[j]) <= 2e-5 * (1 + abs(fd) + total.abs().item()):
                break
        else:
            raise Violation("the derivative of forward with respect to %s is %.6g, should be %.6g" % (
                only or "its input", along[j], fd))
        w.compared += 1
        w.nonempty += 1
