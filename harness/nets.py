"""Constructors for abstract networks (the input format of Stream.tla)."""
import itertools

_ids = itertools.count(1)


def nid():
    return next(_ids)


def conv(K, s=1, p=0, fill="zero", fpad="zero", **kw):
    return dict(k="conv", id=nid(), K=K, s=s, p=p, fill=fill, fpad=fpad, **kw)


def pool(kind, K, s=1, p=0, d=1, fill=None, **kw):
    std = "zero" if kind == "avg" else "ninf"
    return dict(k="pool", id=nid(), K=K, s=s, p=p, d=d, fill=fill or std, fpad=std, **{"as": kind}, **kw)


def win(kind, L, dly=0, **kw):
    return dict(k="win", id=nid(), L=L, dly=dly, **{"as": kind}, **kw)


def delay(n, shrink="no"):
    return dict(k="delay", n=n, shrink=shrink)


def skip(n):
    return dict(k="skip", n=n)


def point(kind=None, **kw):
    return dict(k="point", id=nid(), **({"as": kind} if kind else {}), **kw)


def rnn(kind, **kw):
    return dict(k="rnn", id=nid(), **{"as": kind}, **kw)


def rpe(num, **kw):
    return dict(k="rpe", id=nid(), num=num, fadv=kw.pop("fadv", 1), **kw)


def seq(*ch):
    return dict(k="seq", ch=list(ch))


def br(*ch, auto=True, **kw):
    return dict(k="br", id=nid(), auto=auto, ch=list(ch), **kw)


def par(*ch, auto=True):
    return dict(k="par", auto=auto, ch=list(ch))


def bcast(n):
    return dict(k="bcast", n=n)


def reduce_(**kw):
    return dict(k="reduce", id=nid(), **kw)


def dispatch(*items):
    t = lambda v: dict(i=v) if isinstance(v, int) else dict(g=[t(x) for x in v])  # noqa: E731
    return dict(k="dispatch", map=[t(v) for v in items])


def residual(ch, shrink="no", **kw):
    return dict(k="residual", id=nid(), shrink=shrink, ch=[ch], **kw)


def cond(*ch, **kw):
    return dict(k="cond", ch=list(ch), **kw)


def given(net, chunks=(1, 2, 4), clips=(), cap=60, snap=False, lawful=False, warm=False, refuse=False):
    return dict(net=net, chunks=list(chunks), clips=list(clips), cap=cap, snap=snap, lawful=lawful, warm=warm, refuse=refuse)


# ------------------------------------------------------------- attributes (for choosing networks only)
def attrs(m):
    """(receptive field, stride, padding) of an abstract network as given."""
    k = m["k"]
    if k == "conv":
        return m["K"], m["s"], m["p"]
    if k == "pool":
        return m["d"] * (m["K"] - 1) + 1, m["s"], m["p"]
    if k == "delay":
        return m["n"] + 1, 1, 0
    if k == "win":
        return m["L"], 1, 0
    if k == "residual":
        return attrs(m["ch"][0])
    if k == "seq":
        rf, s, p = 1, 1, 0
        for c in m["ch"]:
            r1, s1, p1 = attrs(c)
            rf, p, s = rf + (r1 - 1) * s, p + p1 * s, s * s1
        return rf, s, p
    if k in ("br", "par", "cond"):
        a = [attrs(c) for c in m["ch"]]
        return max(x[0] for x in a), a[0][1], max(x[2] for x in a)
    return 1, 1, 0


def kinds(m):
    r = {m["k"]}
    for c in m.get("ch", ()):
        r |= kinds(c)
    return r


def rand_conv(rng, s=None, fills=True):
    K = rng.choice([1, 2, 3, 3, 4, 5])
    p = rng.randrange(0, K) if rng.random() < 0.6 else 0
    if s is None:
        s = rng.choice([1, 1, 1, 2, 3])
    f = rng.choice(["zero", "zero", "rep"]) if fills else "zero"
    return conv(K, s, p, f, f)


def rand_pool(rng, s=None):
    kind = rng.choice(["avg", "max"])
    K = rng.choice([1, 2, 3, 4])
    d = rng.choice([1, 1, 2]) if kind == "max" else 1
    p = rng.randrange(0, K // 2 + 1) if rng.random() < 0.5 else 0
    if s is None:
        s = rng.choice([1, 1, 2, 3])
    return pool(kind, K, s, p, d)


def rand_leaf(rng, s=None):
    x = rng.random()
    if s is not None and s > 1:
        return rand_conv(rng, s) if x < 0.6 else rand_pool(rng, s)
    if x < 0.45:
        return rand_conv(rng, s)
    if x < 0.65:
        return rand_pool(rng, s)
    if x < 0.75:
        return delay(rng.choice([1, 2, 3]))
    return point()


def rand_branches(rng, depth, s):
    """Branches of equal stride whose whole-clip outputs are equally long."""
    first = rand_net(rng, depth, s)
    L = attrs(first)[0] - 2 * attrs(first)[2]
    if attrs(first)[1] != s:
        return None
    out = [first]
    for _ in range(rng.choice([1, 1, 2])):
        for _ in range(200):
            b = rand_net(rng, depth, s)
            r, s1, p = attrs(b)
            if r - 2 * p == L and s1 == s:
                out.append(b)
                break
    rng.shuffle(out)
    return out if len(out) > 1 else None


def routed(rng, bs):
    """The same as branches, spelled with explicit routing."""
    ch = [bcast(len(bs)), par(*bs)]
    n = len(bs)
    if rng.random() < 0.5:
        n = rng.choice([2, 2, 3])
        ch.append(dispatch(*[rng.randrange(len(bs)) for _ in range(n)]))
    if rng.random() < 0.3:
        ch.append(par(*[rng.choice([conv(3, 1, 1), conv(1), point()]) for _ in range(n)]))
    return seq(*ch, reduce_())


def rand_net(rng, depth, s=None):
    """A random network for which streaming has a whole-clip meaning."""
    if depth == 0:
        return rand_leaf(rng, s)
    x = rng.random()
    if x < 0.55:
        n = rng.choice([2, 2, 3])
        strided = rng.randrange(n)
        return seq(*[rand_net(rng, depth - 1 if rng.random() < 0.5 else 0, s if i == strided or s is None else 1)
                     for i in range(n)])
    if x < 0.8:
        bs = rand_branches(rng, rng.choice([0, depth - 1]), s or rng.choice([1, 1, 2]))
        if bs:
            return br(*bs) if rng.random() < 0.6 else routed(rng, bs)
        return rand_net(rng, depth, s)
    if s is None or s == 1:
        for _ in range(200):
            c = rand_net(rng, rng.choice([0, depth - 1]), 1)
            r, s1, p = attrs(c)
            if s1 == 1 and r - 2 * p == 1 and "delay" not in kinds(c):
                return residual(c)
    return rand_leaf(rng, s)


def weight(m):
    """Rough number of leaf frames in one output term."""
    k = m["k"]
    if k in ("conv", "pool"):
        return m["K"]
    if k == "win":
        return m["L"]
    if k == "seq":
        r = 1
        for c in m["ch"]:
            r *= weight(c)
        return r
    if k == "residual":
        return 1 + weight(m["ch"][0])
    if k in ("br", "par", "cond"):
        return sum(weight(c) for c in m["ch"])
    return 1


def rand_nets(rng, n, depth=(1, 2), want=None, max_rf=14, max_weight=60, s=None):
    """n random networks with the wanted kinds at the top."""
    out = []
    while len(out) < n:
        m = rand_net(rng, rng.choice(depth), s)
        r, s1, p = attrs(m)
        if r > max_rf or weight(m) > max_weight or (want and m["k"] not in want):
            continue
        if m["k"] not in ("seq", "br", "residual"):
            continue
        out.append(m)
    return out


def clips_for(m, extra=(0, 1, 4)):
    r, s, p = attrs(m)
    need = max(1, r - 2 * p)
    return sorted({need + e for e in extra})
