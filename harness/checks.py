"""What each property's check explores on the stream specification."""
import random

from core import Report, SEED, TIER
from nets import *  # noqa: F401,F403
from realize import NAIVE, PLAIN_POINTS, WRAPPED
from streamcheck import explore, job, pool_map
import attention
from blocks import replay_all, spec_check, spec_walks
import callmode
import statedict
import explicit  # noqa: F401
import convertcheck
import memcheck
import recorded
import strategies  # noqa: F401  (registers custom plans and walks)

THOROUGH = TIER == "thorough"


class Shapes:
    """Frame shapes (channels first) by number of axes; now and then one with sizes that coincide or are one."""
    USUAL = {1: [(3,)], 2: [(2, 5)], 3: [(2, 4, 5)]}
    ODD = {1: [(1,), (2,), (4,)], 2: [(3, 3), (3, 1), (1, 4), (2, 2), (4, 5)],
           3: [(3, 4, 3), (3, 3, 1), (2, 1, 3), (4, 4, 4), (1, 3, 2), (3, 3, 5)]}

    def __init__(self):
        self.rng = random.Random(SEED)

    def __getitem__(self, nd):
        return self.rng.choice((self.USUAL if self.rng.random() < 0.5 else self.ODD)[nd])


SHAPES = Shapes()


def q(quick, thorough):
    return thorough if THOROUGH else quick


class Plan:
    """Collects networks and jobs."""

    def __init__(self, prop):
        self.rep = Report(prop)
        self.rng = random.Random("%s-%d" % (prop, SEED))
        self.given, self.jobs = [], []
        self.agiven, self.ajobs = [], []      # attention
        self.recordings = []

    def net(self, m, **kw):
        kw.setdefault("clips", [])
        self.given.append(given(m, **kw))
        return len(self.given) - 1

    def job(self, g, shape, plan, **kw):
        self.jobs.append(job(g, shape, self.rng.randrange(1 << 30), plan, **kw))

    def attn(self, kind, L, qi, layers, plan, reals=1, **kw):
        jobkw = {k: kw.pop(k) for k in ("build", "dtype", "train", "opts", "styles", "batch", "others") if k in kw}
        self.agiven.append(attention.given(kind, L, qi, layers, **kw))
        for _ in range(reals):
            k = dict(jobkw)
            k.setdefault("batch", self.rng.choice([1, 2, 3, 4]))
            if k["batch"] > 2 and self.rng.random() < 0.5 and "heads" not in k.get("opts", {}):
                k["opts"] = dict(k.get("opts", {}), heads=k["batch"])   # sizes that coincide
            self.ajobs.append(job(len(self.agiven) - 1, (), self.rng.randrange(1 << 30), plan, cls="AttnWalk", **k))

    def record(self, nets, calls, reals=1, length=None):
        """Random executions on these networks (as far as they suit), judged by Trace.tla."""
        self.recordings += [(m, calls, length or q(40, 80), self.rng.randrange(1 << 30)) for m in nets if recorded.recordable(m)
                            for _ in range(reals)]

    def run(self):
        if self.recordings:
            recorded.check(self.rep, self.recordings, self.rng, pool_map)
        if self.given:
            explore(self.rep, self.given, self.jobs)
        if self.agiven:
            explore(self.rep, self.agiven, self.ajobs, module="Attn")
        return self.rep


# ---------------------------------------------------------------- catalogues
def conv_cases(full):
    out = []
    for K in (1, 2, 3, 4, 5):
        for s in (1, 2, 3):
            for p in range(0, K):
                if not full and K >= 4 and (s + p) % 2:
                    continue
                for f in (("zero", "zero"), ("rep", "rep")) if p or K > 1 else (("zero", "zero"),):
                    out.append((K, s, p, *f))
                if p == 0 and K > 1:   # without padding, the start-up fill does not matter
                    out.append((K, s, p, "rep", "zero"))
    return out


def pool_cases(full):
    out = []
    for kind in ("avg", "max"):
        for K in (1, 2, 3, 4):
            for s in (1, 2, 3):
                for d in ((1, 2) if kind == "avg" else (1, 2, 3)):
                    for p in range(0, K // 2 + 1):
                        if not full and (K + s + d + p) % 2 and K > 2:
                            continue
                        out.append((kind, K, s, p, d))
    return out


def clips3(c, nd):
    """torch.nn.AvgPool3d refuses clips shorter than its kernel even if padded."""
    return 2 if c[0] == "avg" and c[3] and nd == 3 else nd


def c01(P):
    for c in conv_cases(THOROUGH):
        g = P.net(conv(*c), chunks=[1, 2, 3], clips=[c[0], c[0] + 1, c[0] + 4], cap=60)
        for nd in q((1, 2, 3), (1, 2, 3, 1, 2, 3)):
            P.job(g, SHAPES[nd], [("tour", "plain"), ("walk", "plain", q(20, 200))], styles=("method", "ctx", "mode"))
        P.job(g, (P.rng.choice([1, 3, 4]),), [("walk", "plain", q(60, 300))], train=True, batch=1)
        P.job(g, SHAPES[P.rng.choice([1, 2, 3])], [("walk", "plain", q(60, 300))], dtype="f32",
              opts=dict(build_from=True))
    for _ in range(q(6, 40)):   # larger temporal settings
        K = P.rng.randrange(6, 12)
        f = P.rng.choice(["zero", "rep"])
        g = P.net(conv(K, P.rng.randrange(1, 7), P.rng.randrange(0, K), f, f), chunks=[1, 4, 9, 20], clips=[K, K + 7],
                  cap=200)
        for nd in (1, 2, 3):
            P.job(g, SHAPES[nd], [("walk", "plain", q(150, 500))])
    for c in conv_cases(False):
        longs(P, [conv(*c)])
    P.record([conv(*c) for c in conv_cases(False)], ["step", "step", "steps", "forward", "clean"])
    P.record([conv(K, P.rng.randrange(1, 9), P.rng.randrange(0, K), "rep", "rep") for K in range(5, 14)],
             ["step", "steps", "steps", "forward", "clean"], length=q(60, 200))


def c02(P):
    for c in pool_cases(THOROUGH):
        kind, K, s, p, d = c
        span = d * (K - 1) + 1
        for fill in (None, "rep") if p == 0 else (None,):
            g = P.net(pool(kind, K, s, p, d, fill=fill), chunks=[1, 2, 3], clips=[span, span + 1, span + 4], cap=60)
            for nd in (1, 2, 3):
                P.job(g, SHAPES[nd], [("tour", "plain"), ("walk", "plain", q(20, 200))],
                      styles=("method", "ctx", "mode"), dtype=P.rng.choice(["f64", "f32"]))
    for L in q((1, 2, 3, 5), range(1, 8)):
        g = P.net(win("adaptive", L, L - 1), chunks=[1, 2, 4], clips=[L], cap=40, lawful=True)
        for sh in ((2, 5), (3, 4, 5)):
            for bf in (True, False):
                for kind in ("Avg", "Max"):
                    P.job(g, sh, [("tour", "plain"), ("walk", "plain", q(30, 100))],
                          opts=dict(build_from=bf, kind=kind))
    for _ in range(q(6, 40)):
        kind = P.rng.choice(["avg", "max"])
        K, d = P.rng.randrange(4, 9), P.rng.choice([1, 2, 3])
        span = d * (K - 1) + 1
        g = P.net(pool(kind, K, P.rng.randrange(1, 6), P.rng.randrange(0, K // 2 + 1), d), chunks=[1, 4, 9],
                  clips=[span, span + 7], cap=200)
        for nd in (1, 2, 3):
            P.job(g, SHAPES[nd], [("walk", "plain", q(150, 500))])
    longs(P, [pool(*c) for c in pool_cases(False)] + [win("adaptive", 3, 2), win("adaptive", 8, 7)])
    P.record([pool(*c) for c in pool_cases(False) if c[1] != 5], ["step", "step", "steps", "forward", "clean"])


def leaves(rng):
    """One of everything that can stand alone."""
    return [conv(3, 1, 1), conv(4, 2, 1), conv(1, 2, 0), conv(3, 3, 2, "rep", "rep"), conv(2, 1, 0), conv(5, 1, 2),
            pool("avg", 3, 2, 1), pool("max", 2, 1, 0, 2), pool("max", 3, 2, 1), pool("max", 1, 3, 0),
            pool("avg", 2, 1, 1, 3), pool("max", 3, 1, 1, fill="rep"), pool("avg", 4, 2, 2, fill="rep"), conv(4, 1, 2, "rep", "zero"),
            conv(3, 1, 1, "zero", "rep"),
            delay(2), point()]


def extras():
    """Modules and containers beyond those with a whole-clip law of their own."""
    return [delay(2, "cen"), delay(3, "lag"), skip(2), rpe(4, fadv=2),
            win("adaptive", 3, 2, o=dict(kind="Avg")),
            residual(conv(3, 1, 0), "cen"), residual(conv(3, 1, 0), "lag"), residual(conv(4, 1, 0), "leading"),
            br(conv(3, 1, 0), conv(2, 1, 0), conv(1)),
            br(conv(3, 2, 0), seq(conv(2, 1, 0), conv(1, 2, 0))),
            br(delay(2), conv(3, 1, 0), auto=False),
            seq(bcast(2), par(conv(3, 1, 1), conv(1)), dispatch(1, 0, [0, 1])),
            seq(bcast(3), par(conv(3, 1, 1), conv(1), delay(2)), dispatch(2, 0, 1), reduce_()),
            seq(bcast(2), par(conv(2, 2, 0), conv(1, 2, 0), auto=False)), seq(conv(3, 1, 1), bcast(2)), bcast(3),
            seq(conv(2, 1, 0), cond(conv(3, 1, 1), delay(2)), point())]


def with_rnns():
    """Recurrent modules among others."""
    return [seq(rnn("GRU"), rnn("LSTM")), seq(conv(3, 1, 1), rnn("RNN"), conv(2, 1, 0)), br(rnn("LSTM"), point("identity")), residual(rnn("GRU")),
            br(rnn("GRU"), conv(3, 1, 1)), seq(bcast(2), par(rnn("LSTM"), point("identity")), reduce_()),
            seq(bcast(2), par(seq(rnn("RNN"), conv(3, 1, 1)), rnn("GRU")), dispatch(1, 0)),
            seq(delay(1), par_of(rnn("LSTM"), delay(2)), rnn("GRU"))]


def par_of(*ch):
    return seq(bcast(len(ch)), par(*ch), reduce_())


def shape_for(m, rng):
    ks = kinds(m)
    s = str(m)
    if "rnn" in ks:
        return (3,)
    if "rpe" in ks:
        return (4,)
    if "'adaptive'" in s:
        return rng.choice([(2, 5), (2, 4, 5)])
    if "'as': 'avg'" in s and attrs(m)[2]:   # torch.nn.AvgPool3d refuses clips shorter than its kernel, padded or not
        return SHAPES[rng.choice([1, 1, 2])]
    return SHAPES[rng.choice([1, 1, 2, 3])]


def add(P, m, plan, reals=1, **kw):
    ks = kinds(m)
    jobkw = {k: kw.pop(k) for k in ("build", "dtype", "train", "opts", "styles", "batch", "others") if k in kw}
    if "'adaptive'" in str(m):
        kw["clips"] = [m["L"]] if kw.get("clips") and m["k"] == "win" else []
    if "rpe" in ks:
        kw["clips"] = [c for c in kw.get("clips", ()) if c <= m.get("num", 1)]
        kw["chunks"] = [c for c in kw.get("chunks", (1, 2, 4)) if c <= m.get("num", 4)]
    if "cond" in ks or "rnn" in ks:
        kw["cap"] = min(kw.get("cap", 60), 6)
    g = P.net(m, **kw)
    for _ in range(reals):
        P.job(g, shape_for(m, P.rng), plan, **jobkw)
    return g


def wide(rng):
    """More children than there are digits."""
    one = lambda: rng.choice([conv(1), conv(2, 1, 0), conv(3, 1, 1), point("mul"), point("relu"), delay(1), pool("max", 2, 1, 0)])  # noqa: E731
    ch = lambda n: [one() for _ in range(n)]  # noqa: E731
    step = lambda n: [rng.choice([conv(3, 1, 1), conv(1), delay(1), conv(5, 1, 2), pool("avg", 3, 1, 1)]) for _ in range(n)]  # noqa: E731
    return [seq(*ch(12)), seq(*[conv(1, 2, 0) if j in (1, 10) else o for j, o in enumerate(ch(13))]),
            br(*step(11), red="first_minus_rest"), br(*step(5), red="max"), br(*step(11), red="max"), br(*step(5), red="mul"), br(*step(9), red="sum"), br(*step(13), red="concat"), br(*[conv(3, 2, 1) for _ in range(11)], red="sum"),
            seq(bcast(12), par(*step(12)), dispatch(11, *range(11)), reduce_(red="first_minus_rest")),
            seq(bcast(11), par(*step(11)), dispatch(10, 2, [1, 10, 0]))]


def longs(P, ms, n=None, reals=1, **kw):
    """Long streams of these networks, and some of large frames."""
    for m in ms:
        g = add(P, m, [("long", n or q(900, 6000))], reals=reals, chunks=[1], clips=[], cap=6 if "rnn" in kinds(m) else 40, **kw)
        big = [(7,), (3, 257), (5, 31, 33), (33, 9, 9)]
        if m["k"] in ("delay", "pool", "win"):
            big = [(5000,), (70, 80), (20, 31, 33), (130, 9, 9)]
        if not kinds(m) & {"rnn", "rpe", "point"} and P.rng.random() < 0.3:
            sh = P.rng.choice(big[:2] if "'as': 'avg'" in str(m) and attrs(m)[2] else big[1:] if m["k"] == "win" else big)
            P.job(g, sh, [("long", 60)])


def c03(P):
    for m in leaves(P.rng) + extras() + with_rnns() + [rnn("RNN"), rnn("GRU"), rnn("LSTM")]:
        add(P, m, [("tour", "cuts"), ("walk", "cuts", q(60, 300))], reals=q(2, 5), chunks=[1, 2, 3, 5, 8], cap=80)
    for m in rand_nets(P.rng, q(40, 250), q((1, 2), (1, 2, 3))):
        add(P, m, [("tour", "cuts"), ("walk", "cuts", q(60, 300))], reals=q(1, 2), chunks=[1, 2, 3, 7], cap=60,
            styles=("method", "ctx"))
    for m in rand_nets(P.rng, q(8, 40), (2, 3), max_rf=30, max_weight=150):
        add(P, m, [("walk", "cuts", q(150, 500))], chunks=[1, 4, 11, 26], cap=120)
    longs(P, leaves(P.rng) + with_rnns() + [rnn("RNN"), rnn("GRU"), rnn("LSTM")] + rand_nets(P.rng, q(20, 100), q((1, 2), (1, 2, 3))))
    P.record(leaves(P.rng) + extras() + [rnn("RNN"), seq(conv(2, 2, 1), rnn("RNN"), conv(2, 2, 0))] + rand_nets(P.rng, q(40, 400), q((1, 2, 3), (1, 2, 3, 4)), max_rf=60, max_weight=300),
             ["step", "steps", "steps"])


def padded(rng, n, **kw):
    """Random networks with padding somewhere."""
    out = []
    while len(out) < n:
        m = rand_nets(rng, 1, **kw)[0]
        if attrs(m)[2] > 0:
            out.append(m)
    return out


def c04(P):
    for c in conv_cases(False):
        if c[2]:
            g = P.net(conv(*c), chunks=[1, 2, 4], clips=[], cap=60)
            P.job(g, SHAPES[P.rng.choice([1, 2, 3])], [("tour", "pe"), ("walk", "pe", q(40, 200))])
    for c in pool_cases(False):
        if c[3]:
            g = P.net(pool(*c), chunks=[1, 2, 4], clips=[], cap=60)
            P.job(g, SHAPES[P.rng.choice([1, 2, 3])], [("tour", "pe"), ("walk", "pe", q(40, 200))])
    for m in [delay(1), delay(3), rnn("GRU"), rpe(4), residual(conv(3, 1, 1)), residual(conv(5, 1, 2)), point()]:
        add(P, m, [("tour", "pe"), ("walk", "pe", q(60, 300))], reals=2, chunks=[1, 2, 4], cap=60)
    add(P, cond(conv(3, 1, 1), conv(5, 1, 2)), [("walk", "pe", q(200, 800))], reals=2)
    for m in padded(P.rng, q(40, 250), depth=q((1, 2), (1, 2, 3))):
        c = clips_for(m)
        add(P, m, [("tour", "pe0"), ("tour", "pe"), ("walk", "pe", q(40, 200))], chunks=sorted({1, 2, 5, c[0], c[-1]}),
            cap=50, styles=("method", "ctx"))
    P.record(padded(P.rng, q(60, 400), depth=(1, 2, 3)), ["pad", "pad", "peekpad", "step", "steps", "clean", "clean"])


def c05(P):
    for m in leaves(P.rng) + extras() + [rnn("RNN"), rnn("GRU"), rnn("LSTM"), cond(conv(3, 1, 1), delay(1))]:
        add(P, m, [("tour", "peek"), ("walk", "peek", q(60, 300))], reals=q(2, 5), chunks=[1, 3],
            clips=clips_for(m, (0, 3)), cap=60)
    for m in rand_nets(P.rng, q(30, 200), q((1, 2), (1, 2, 3))):
        add(P, m, [("tour", "peek"), ("walk", "peek+pe", q(60, 300))], reals=1, chunks=[1, 4], clips=clips_for(m, (0, 3)),
            cap=50, styles=("method", "ctx"))
    for m in with_rnns():
        add(P, m, [("tour", "peek"), ("walk", "peek+pe", q(60, 300))], reals=1, chunks=[1, 3], clips=clips_for(m, (0, 3)))

    attentions(P, [("tour", "peek"), ("walk", "peek", q(60, 400))], q(3, 10), chunks=[1, 3, 5], styles=("method", "ctx"))
    P.record(leaves(P.rng) + extras() + [rnn("RNN"), rpe(3), cond(conv(3, 1, 1), delay(1))] + rand_nets(P.rng, q(40, 300), q((1, 2), (1, 2, 3))),
             ["step", "steps", "peek", "peek", "peeks", "peekpad", "forward"])


def c06(P):
    for c in conv_cases(THOROUGH):
        g = P.net(conv(*c), chunks=[1, 3], clips=clips_for(conv(*c)), cap=60)
        P.job(g, SHAPES[P.rng.choice([1, 2, 3])], [("attrs",), ("tour", "step+fwd")])
    for c in pool_cases(THOROUGH):
        g = P.net(pool(*c), chunks=[1, 3], clips=clips_for(pool(*c)), cap=60)
        P.job(g, SHAPES[clips3(c, P.rng.choice([1, 2, 3]))], [("attrs",), ("tour", "step+fwd")])
    more = [delay(1), delay(4), rnn("LSTM"), rnn("GRU"), rnn("RNN"), point(), point("linear"), point("reshape"), rpe(4),
            cond(conv(3, 1, 1), point()), cond(conv(3, 1, 1)), cond(conv(2, 1, 0), conv(5, 1, 2)),
            residual(conv(3, 1, 0), "cen"), residual(conv(3, 1, 0), "lag"), residual(conv(4, 1, 0), "leading")]
    more += [x for x in extras() if x["k"] == "br"]
    more += strided()
    for m in more:
        add(P, m, [("attrs",), ("tour", "step+fwd")], reals=2, chunks=[1], clips=clips_for(m))
    for m in rand_nets(P.rng, q(60, 400), q((1, 2), (1, 2, 3)), max_rf=20):
        add(P, m, [("attrs",), ("tour", "step+fwd")], chunks=[1], clips=clips_for(m), cap=80)
    uneven(P)
    for _ in range(q(20, 100)):   # conditionals around random networks
        a = rand_nets(P.rng, 1, (0, 1), want=None, s=1)[0]
        m = cond(a, *[rand_leaf(P.rng, 1) for _ in range(P.rng.choice([0, 1]))])
        add(P, m, [("attrs",)], chunks=[1])
    P.record(rand_nets(P.rng, q(60, 500), q((1, 2, 3), (1, 2, 3, 4)), max_rf=60, max_weight=300), ["step", "step", "forward"], length=q(70, 150))


def strided():
    """Sequences in sequences, with strides outside and inside."""
    return [seq(conv(1, 2, 0), seq(conv(1, 3, 0))), seq(seq(conv(2, 2, 0), conv(3, 1, 1)), seq(conv(3, 2, 1), pool("max", 2, 2, 0))),
            seq(seq(pool("avg", 2, 3, 0)), conv(3, 1, 0), seq(seq(conv(2, 2, 1)))),
            seq(br(conv(3, 2, 1), conv(1, 2, 0)), seq(conv(2, 2, 0))), seq(conv(2, 2, 1), br(conv(3, 2, 1), seq(conv(1, 2, 0)))),
            seq(conv(1, 2, 0), seq(bcast(2), par(conv(3, 2, 1), conv(1, 2, 0)), reduce_()))]


def uneven(P):
    """Attributes of parallel streams which are not brought into step."""
    chs = [conv(3, 1, 1), conv(5, 1, 1), conv(2, 1, 0), conv(4, 1, 3), delay(3), conv(1), seq(conv(3, 1, 1), conv(4, 1, 2)),
           pool("max", 3, 1, 1), pool("avg", 4, 1, 2)]
    for _ in range(q(40, 200)):
        c = P.rng.sample(chs, P.rng.choice([2, 2, 3]))
        m = P.rng.choice([br(*c, auto=False), seq(bcast(len(c)), par(*c, auto=False), reduce_()),
                          seq(conv(2, 2, 1), br(*c, auto=False))])
        add(P, m, [("attrs",)], chunks=[], cap=1)


def c07(P):
    for m in leaves(P.rng) + extras() + with_rnns() + [rnn("RNN"), rnn("GRU"), rnn("LSTM"), cond(conv(3, 1, 1), delay(1))]:
        add(P, m, [("cleans", q(150, 600))], reals=2, chunks=[1, 3], cap=50)
    for m in rand_nets(P.rng, q(40, 250), q((1, 2), (1, 2, 3))):
        add(P, m, [("cleans", q(150, 600))], chunks=[1, 4], cap=50)


    attentions(P, [("cleans", q(100, 500))], q(2, 6), chunks=[1, 3], clips=[])
    P.record(leaves(P.rng) + extras() + [rnn("RNN"), rpe(3), cond(conv(3, 1, 1), delay(1))] + rand_nets(P.rng, q(40, 300), q((1, 2), (1, 2, 3))),
             ["step", "step", "steps", "peek", "clean"])


def c08(P):
    seqs = [seq(conv(3, 2, 1), residual(conv(3, 1, 1))), seq(conv(3, 1, 0), conv(3, 2, 2), pool("max", 2, 1, 0)),
            seq(conv(2, 2, 0), seq(conv(2, 2, 1), point()), pool("avg", 2, 2, 0)),
            seq(delay(2), conv(1, 3, 0), delay(1)), seq(pool("max", 3, 3, 1), conv(2, 2, 1), conv(2, 1, 1)),
            seq(seq(seq(conv(3, 1, 1)))), seq(conv(3, 1, 2), conv(3, 1, 2)), seq(conv(1, 2, 0), pool("avg", 1, 2, 0))]
    rs = rand_nets(P.rng, q(60, 300), q((1, 2), (1, 2, 3)), want=("seq",)) + strided()
    for m in seqs + rs:
        add(P, m, [("tour", "plain"), ("walk", "plain", q(60, 300))], chunks=[1, 3, 6], clips=clips_for(m), cap=60,
            styles=("method", "ctx"), opts=dict(probes=True))
    for m in wide(P.rng):
        add(P, m, [("tour", "plain"), ("walk", "plain", q(60, 300))], reals=2, chunks=[1, 3], clips=clips_for(m), cap=30, opts=dict(probes=True))
    for m in rand_nets(P.rng, q(6, 40), (2, 3), want=("seq",), max_rf=40, max_weight=200):
        add(P, m, [("walk", "plain", q(150, 500))], chunks=[1, 5, 17], clips=clips_for(m, (0, 9)), cap=140)
    for kind in ("RNN", "GRU", "LSTM"):
        add(P, seq(conv(2, 2, 1), rnn(kind), conv(2, 1, 0)), [("walk", "plain", q(100, 400))], chunks=[1, 3], clips=[6])
    longs(P, seqs + strided() + rand_nets(P.rng, q(20, 100), q((1, 2), (1, 2, 3)), want=("seq",)))
    P.record(rand_nets(P.rng, q(50, 400), q((1, 2, 3), (1, 2, 3, 4)), want=("seq",), max_rf=60, max_weight=300), ["step", "steps", "steps", "forward", "clean"])


def c09(P):
    bs = [br(conv(3, 1, 1), conv(1), conv(5, 1, 2)), br(conv(3, 2, 1), seq(conv(1, 2, 0))),
          br(conv(4, 2, 0), seq(conv(2, 2, 0), delay(1)), auto=True),
          br(conv(3, 3, 1), pool("max", 3, 3, 1)), br(seq(conv(3, 1, 1), conv(3, 1, 1)), conv(5, 1, 2), delay(1)),
          br(seq(conv(1, 2, 0), conv(3, 1, 1)), conv(5, 2, 2)),
          br(conv(2, 1, 0), seq(pool("avg", 2, 1, 0), point())),
          residual(conv(3, 1, 1)), residual(seq(conv(3, 1, 1), point(), conv(3, 1, 1))), residual(conv(1)),
          residual(residual(conv(3, 1, 1))), residual(br(conv(3, 1, 1), conv(1)))]
    for m in wide(P.rng)[2:]:
        add(P, m, [("tour", "plain"), ("walk", "plain", q(60, 300))], reals=2, chunks=[1, 3], clips=clips_for(m, (0, 2)), cap=30)
    for m in bs + with_rnns() + [x for x in extras() if x["k"] in ("br", "seq") and "cond" not in kinds(x)]:
        for red in ((None,) if m["k"] != "br" else ("sum", "concat", "mul", "max", "first_minus_rest")):
            mm = dict(m, **({"red": red} if red else {}))
            if red:
                mm["id"] = nid()
            add(P, mm, [("tour", "plain"), ("walk", "plain", q(40, 200))], chunks=[1, 2, 5], clips=clips_for(m), cap=60)
    for red in ("sum", "mul", "max", "first_minus_rest", "concat"):
        for sh in ("no", "cen", "lag", "leading"):
            for K, p in ((3, 1), (3, 0), (5, 0), (2, 0)):
                if sh == "cen" and (K - 1 - p) % 2 and p == 0:
                    continue
                m = residual(conv(K, 1, p), sh, red=red)
                add(P, m, [("tour", "plain")], chunks=[1, 3], clips=clips_for(m), cap=40)
    uneven(P)
    # routing
    for mp in ([0, 1], [1, 0], [1, 1, 0], [[0, 1], 0], [0, [1, 0, [0, 1]]], [1], [[1]], [[0], [1, 1]]):
        m = seq(bcast(2), par(conv(3, 1, 1), point("mul")), dispatch(*mp))
        add(P, m, [("tour", "plain")], chunks=[1, 3], clips=clips_for(m, (0, 2)), cap=30)
    for mp in ([2, 0, 1], [0, 2, 2, 1], [1, 2, 0, 0]):
        m = seq(bcast(3), par(conv(3, 1, 1), point("mul"), conv(1)), dispatch(*mp), reduce_(red="first_minus_rest"))
        add(P, m, [("tour", "plain")], chunks=[1, 3], clips=clips_for(m, (0, 2)), cap=30)
        m = seq(bcast(3), dispatch(*mp), par(*[conv(1 + 2 * (j % 2), 1, j % 2) for j in range(len(mp))]),
                reduce_(red="concat"))
        add(P, m, [("tour", "plain")], chunks=[1, 3], clips=clips_for(m, (0, 2)), cap=30)
    for a, b in ((2, 3), (3, 2), (4, 2)):    # one fan after another: how wide each is follows from what it feeds
        one = lambda: P.rng.choice([conv(3, 1, 1), conv(1), point(), pool("max", 3, 1, 1)])  # noqa: E731
        for split in (False, True):
            rest = [par(*[one() for _ in range(a)]), *([dispatch(0, a - 1)] if P.rng.random() < 0.5 else []), reduce_(),
                    bcast(b), par(*[one() for _ in range(b)]), dispatch(*range(b)[::-1]), reduce_()]
            m = seq(bcast(a), seq(*rest)) if split else seq(bcast(a), *rest)
            add(P, m, [("tour", "plain")], reals=4, chunks=[1, 3], clips=clips_for(m, (0, 2)), cap=40)
    for m in rand_nets(P.rng, q(30, 200), q((1, 2), (1, 2, 3)), want=("br", "residual")):
        add(P, m, [("tour", "plain"), ("walk", "plain", q(40, 200))], chunks=[1, 2, 5], clips=clips_for(m), cap=60)
    longs(P, bs + with_rnns() + rand_nets(P.rng, q(20, 100), q((1, 2), (1, 2, 3)), want=("br", "residual")))
    P.record(bs + extras() + rand_nets(P.rng, q(50, 400), q((1, 2, 3), (1, 2, 3, 4)), want=("br", "residual"), max_rf=40, max_weight=300),
             ["step", "steps", "steps", "forward", "clean"])


def c10(P):
    nets = [cond(conv(3, 1, 1), point("mul")), cond(conv(3, 1, 1)), cond(conv(3, 1, 0), conv(2, 1, 0)),
            cond(delay(2), conv(1)), cond(pool("max", 3, 1, 1), conv(3, 1, 1)), cond(conv(2, 1, 1), delay(3)),
            cond(seq(conv(2, 1, 0), conv(2, 1, 0)), conv(3, 1, 0)), cond(cond(conv(3, 1, 1), delay(1)), point("mul")),
            seq(conv(2, 1, 0), cond(conv(3, 1, 1), delay(2)), point()), cond(conv(3, 2, 1), conv(3, 2, 1)),
            cond(conv(5, 2, 0), conv(3, 2, 0)), cond(conv(2, 3, 0), pool("avg", 4, 3, 0)), cond(conv(1, 2, 0), seq(conv(3, 2, 1), conv(1))),
            cond(residual(conv(3, 1, 1)), conv(3, 1, 1)), cond(rnn("GRU"), rnn("RNN"))]
    for m in nets:
        for pred in ("switch", "data") if m["k"] == "cond" and "cond" not in str(m["ch"]) else ("switch",):
            mm = dict(m, pred=pred)
            if "rnn" in kinds(m):
                g = P.net(mm, chunks=[1, 2], clips=[3], cap=5)
                P.job(g, (3,), [("walk", "all", q(300, 1500))], batch=q(2, 3), opts=dict(hidden=3))
                continue
            g = P.net(mm, chunks=[1, 2], clips=clips_for(m, (0, 2)), cap=6)
            for _ in range(q(2, 6)):
                P.job(g, shape_for(m, P.rng), [("walk", "all", q(400, 3000))], styles=("method", "ctx"))
    g = P.net(nets[0], chunks=[1, 2], clips=[3], cap=q(5, 7))
    P.job(g, (3,), [("tour", "all")])
    P.record(nets + [cond(*rand_nets(P.rng, 1, (1, 2), s=1), rand_leaf(P.rng, 1)) for _ in range(q(20, 150))],
             ["step", "step", "steps", "peek", "clean", "copy"], reals=2)


def c11(P):
    for n in q((0, 1, 2, 3, 5), range(0, 9)):
        for sh in ("no", "cen", "lag"):
            m = delay(n, sh)
            g = P.net(m, chunks=[1, 2, 3, 7], clips=sorted({1, max(1, n), n + 1, max(1, 2 * n), 2 * n + 1, 2 * n + 3}), cap=80, lawful=sh != "cen" or n == 0)
            for nd in (1, 2, 3):
                P.job(g, SHAPES[nd], [("tour", "all"), ("walk", "all", q(50, 300))], dtype=P.rng.choice(["f64", "f32"]),
                      batch=P.rng.choice([1, 2, 3]), styles=("method", "ctx", "mode"))
    for n in q((1, 2, 3, 5), range(1, 9)):
        g = P.net(skip(n), chunks=[1, 2, 3, 7], clips=[1, n, n + 1, n + 3], cap=80)
        for nd in (1, 2, 3):
            P.job(g, SHAPES[nd], [("tour", "all"), ("walk", "all", q(50, 300))], styles=("method", "ctx", "mode"))
    for m in [residual(conv(3, 1, 0), "cen"), residual(conv(5, 1, 0), "cen"), residual(conv(3, 1, 0), "lag"),
              residual(conv(4, 1, 0), "leading"), seq(delay(2), delay(1)), seq(delay(2), skip(2)), seq(skip(1), delay(3))]:
        add(P, m, [("tour", "all")], chunks=[1, 2, 5], clips=clips_for(m), cap=40)
    for n in (11, 17):
        g = P.net(delay(n), chunks=[1, 4, 30], clips=[n], cap=120)
        P.job(g, (2,), [("walk", "all", q(150, 600))])
    longs(P, [delay(n) for n in (1, 2, 5, 9, 40)])
    P.record([delay(n, sh) for n in q((1, 2, 5), range(1, 12)) for sh in ("no", "cen", "lag")] + [skip(n) for n in (1, 2, 5)],
             ["step", "steps", "peek", "pad", "clean", "copy"], length=q(60, 150))


def c12(P):
    for kind in ("RNN", "GRU", "LSTM"):
        g = P.net(rnn(kind), chunks=[1, 2, 4], clips=[1, 5], cap=q(9, 12))
        for layers in (1, 2, 3):
            for bias in (True, False):
                for nonlin in ("tanh", "relu") if kind == "RNN" else ("-",):
                    for bf in (True, False):
                        P.job(g, (P.rng.choice([1, 3, 4]),), [("tour", "nope"), ("walk", "all", q(60, 400)), ("hidden", q(12, 60))],
                              opts=dict(layers=layers, bias=bias, nonlin=nonlin, build_from=bf),
                              styles=("method", "ctx", "mode"), batch=P.rng.choice([1, 2, 3]),
                              dtype=P.rng.choice(["f64", "f64", "f32"]))
        g = P.net(rnn(kind), chunks=[1, 2, 40], clips=[1, 5], cap=60)
        P.job(g, (2,), [("walk", "cuts", q(60, 200))])
    longs(P, [rnn("RNN"), rnn("GRU"), rnn("LSTM")], q(2000, 20000), reals=q(4, 12))
    P.record([rnn("RNN")], ["step", "steps", "peek", "peeks", "clean", "save", "restore", "copy"], reals=q(20, 100))


def c16(P):
    for num in q((1, 2, 3, 5), range(1, 8)):
        for fadv in (0, 1, 2, num):
            g = P.net(rpe(num, fadv=fadv), chunks=[c for c in (1, 2, 3, 4, 5, 6, 7) if c <= num],
                      clips=[c for c in (1, 2, 3, 5, 7) if c <= num], cap=60)
            for learned in (True, False):
                P.job(g, (4,), [("tour", "all"), ("walk", "all", q(60, 300))], opts=dict(learned=learned),
                      styles=("method", "ctx", "mode"), batch=P.rng.choice([1, 3]))
    for num in (4, 11, 40):
        g = P.net(rpe(num), chunks=[1, 3, num], clips=[num], cap=60)
        for b in (1, 9):
            P.job(g, (4,), [("walk", "nope", q(600, 6000))], batch=b)
            P.job(g, (4,), [("walk", "step", q(1500, 20000))], batch=b)
    for m in [seq(rpe(5), conv(3, 1, 1)), seq(conv(2, 2, 0), rpe(3)), seq(conv(3, 1, 1), rpe(4), rnn("GRU"))]:
        g = P.net(m, chunks=[1, 2, 3], clips=[], cap=6 if "rnn" in kinds(m) else 60)
        P.job(g, (4,), [("tour", "cuts"), ("walk", "cuts", 100)])
    P.record([rpe(n) for n in q((1, 2, 3, 5), range(1, 9))], ["step", "steps", "peek", "peeks", "clean", "save", "restore"], reals=2)


def attentions(P, plan, reals=1, **kw):
    """One of every kind of attention module and encoder."""
    for g in [("single", 3, -1, 1), ("single", 4, 1, 1), ("single", 3, -3, 1), ("retro", 3, -1, 1), ("retro", 4, -1, 1),
              ("slayer", 3, -1, 1), ("slayer", 4, -2, 1), ("slayer", 4, 0, 1), ("rlayer", 3, -1, 1),
              ("stack", 3, -1, 1), ("stack", 3, -1, 2), ("stack", 3, -1, 3)]:
        P.attn(*g, plan, reals, **dict(kw, clips=[g[1]] if "clips" not in kw else kw["clips"]))


def indices(L):
    return sorted({-1, 0, L - 1, -L, L // 2, -min(2, L)})


def windows(L, qi):
    """Clip lengths for the whole-clip call: a query index from the front names a position of the full window."""
    return [L] if qi >= 0 else [L, L + 1, L + 4]


def c13(P):
    for L in q((1, 2, 3, 5), range(1, 10)):
        for qi in indices(L):
            P.attn("single", L, qi, 1, [("tour", "plain"), ("walk", "plain", q(60, 300))], q(6, 30),
                   chunks=[1, 3, L + 2], clips=windows(L, qi), styles=("method", "ctx", "mode"))
            P.attn("single", L, qi, 1, [("tour", "plain")], q(3, 12), chunks=[1, 2], clips=windows(L, qi), build="convert")
    for L in q((8, 17), (8, 12, 17, 33)):
        for qi in P.rng.sample(range(-L, L), q(4, 10)):
            P.attn("single", L, qi, 1, [("walk", "plain", q(150, 600))], q(3, 9), chunks=[1, 4, L], clips=windows(L, qi),
                   opts=dict(heads=P.rng.choice([1, 4, 5]), head_dim=P.rng.choice([1, 4])), batch=P.rng.choice([1, 3]))
    longs_of_attention(P)


def longs_of_attention(P):
    for L, qi in ((3, -1), (4, 1), (9, -9), (9, 4)):
        P.attn("single", L, qi, 1, [("walk", "step", q(1200, 20000))], q(2, 6), chunks=[], clips=[])
        P.attn("single", L, qi, 1, [("walk", "plain", q(150, 1500))], q(2, 6), chunks=[1, 5, 40], clips=windows(L, qi), batch=P.rng.choice([1, 7]))


def c14(P):
    for L in q((1, 2, 3, 5), range(1, 9)):
        P.attn("retro", L, -1, 1, [("tour", "plain"), ("walk", "plain", q(150, 800))], q(16, 60),
               chunks=[1, 3, L + 2], clips=windows(L, -1), styles=("method", "ctx", "mode"))
        P.attn("retro", L, -1, 1, [("tour", "plain")], q(6, 20), chunks=[1, 2], clips=windows(L, -1), build="convert")
    for L in q((8, 13), (8, 12, 17)):
        P.attn("retro", L, -1, 1, [("walk", "plain", q(300, 2000))], q(8, 20), chunks=[1, 4, L], clips=[L],
               opts=dict(heads=P.rng.choice([1, 4, 5]), head_dim=P.rng.choice([1, 4])), batch=P.rng.choice([1, 3]))
    P.attn("retro", 4, -1, 1, [("walk", "step", q(4000, 40000))], q(4, 16), chunks=[], clips=[])


def c15(P):
    for L in q((1, 2, 4), (1, 2, 3, 4, 6)):
        for qi in indices(L):
            P.attn("slayer", L, qi, 1, [("tour", "plain"), ("walk", "plain", q(60, 300))], q(3, 12),
                   chunks=[1, 3, L + 2], clips=windows(L, qi), styles=("method", "ctx"))
        P.attn("rlayer", L, -1, 1, [("tour", "plain"), ("walk", "plain", q(60, 300))], q(8, 30),
               chunks=[1, 3, L + 2], clips=windows(L, -1), styles=("method", "ctx"))
        for n in q((1, 2, 3), (1, 2, 3, 4)):
            for build in ("direct", "convert"):
                for act in sorted(attention.ACTS):
                    P.attn("stack", L, -1, n, [("tour", "plain"), ("walk", "plain", q(30, 200))], q(1, 6),
                           chunks=[1, 3], clips=windows(L, -1), build=build, styles=("method", "ctx"), opts=dict(act=act),
                           train=P.rng.random() < 0.3)
    P.attn("stack", 5, -1, 2, [("walk", "step", q(500, 5000))], q(2, 8), chunks=[], clips=[])
    P.attn("stack", q(7, 12), -1, q(4, 6), [("walk", "plain", q(60, 500))], 2, chunks=[1, 9], clips=[q(7, 12)])


def c17(P):
    """Trees of recording modules follow CallMode.tla; real networks and encoders obey the mode in force."""
    from callmode import flatten, node
    N = node
    small = [N("probe", hook=2, pre=2), N("plain", hook=1), N("seq", N("probe"), N("plain", hook=2)), N("mute", hook=2),
             N("seq", N("seq", N("probe", hook=1), pre=2)), N("br", N("probe"), N("mute", hook=2)),
             N("cond", N("probe"), sel=1, hook=2), N("seq", N("cond", N("probe"), sel=0, hook=1), hook=2),
             N("cond", N("probe", pre=1), N("plain"), sel=2), N("seq", N("mute"), N("probe")),
             N("probe", grad=2, pgrad=1), N("seq", N("probe", grad=1), N("mute", pgrad=2), grad=2),
             N("br", N("plain", grad=2), N("probe", pgrad=1), hook=2), N("mute", hook=2, grad=1, pgrad=2),
             N("cond", N("probe", grad=2), sel=1, pgrad=1)]
    callmode.model_check(P.rep, [flatten(t) for t in small], q(1, 2))
    if THOROUGH:
        callmode.model_check(P.rep, [flatten(t) for t in [
            N("seq", N("probe"), N("seq", N("plain"), hook=2)), N("br", N("seq", N("probe")), N("seq", N("mute"))),
            N("cond", N("seq", N("probe"), N("probe")), sel=1), N("seq", N("seq", N("seq", N("probe"))))]], 2)
    trees = [flatten(t) for t in small] + [
        flatten(callmode.rand_tree(P.rng, P.rng.choice([2, 4, 6, 8]))) for _ in range(q(60, 300))]
    recs = callmode.walks(trees, q(200, 2500), q(40, 80))
    items = [(trees[r["i"] - 1], r["h"], P.rng.randrange(1 << 30)) for r in recs]
    replay_all(P.rep, callmode.replay_one, items, "callmode", pool_map)
    P.rep.sample(dict(tree=items[0][0], behaviour=[{k: v for k, v in r.items() if k != "own"} for r in items[0][1][:8]]))
    styles = ("method_in_ctx", "ctx", "ctx_nested", "mode", "hook", "method")
    nets = [seq(conv(3, 1, 1), point("relu"), conv(2, 2, 0)), residual(seq(conv(3, 1, 1), point("relu"))), br(conv(3, 1, 1), delay(1)),
            seq(bcast(2), par(conv(3, 1, 1), conv(1)), reduce_()), seq(point("Sigmoid"), seq(conv(3, 1, 0), point("relu"))),
            cond(seq(conv(3, 1, 1), point("relu")), delay(2)), seq(conv(2, 1, 0), rnn("GRU")), rpe(4)]
    for m in nets + rand_nets(P.rng, q(20, 120), q((1, 2), (1, 2, 3))):
        add(P, m, [("tour", "all"), ("walk", "all", q(60, 300))], chunks=[1, 3], clips=clips_for(m, (0, 3)), cap=20,
            styles=styles)
        if m["k"] == "seq" and not kinds(m) & {"delay", "br", "residual", "par", "cond", "rpe", "bcast", "skip"}:
            add(P, m, [("walk", "all", q(60, 300))], chunks=[1, 3], clips=clips_for(m, (0, 3)), cap=20, styles=styles,
                build="convert")
    attentions(P, [("tour", "plain"), ("walk", "plain", q(40, 300))], 1, chunks=[1, 3], styles=styles)


def c18(P):
    """Explicit state beside internal state; exported models."""
    everything = leaves(P.rng) + extras() + with_rnns() + [rnn("RNN"), rnn("GRU"), rnn("LSTM"), rpe(3), point("linear"), point("reshape"),
                                             cond(conv(3, 1, 1), delay(1)), cond(conv(3, 1, 1)),
                                             br(conv(3, 2, 1), seq(conv(1, 2, 0)))]
    for m in everything:
        add(P, m, [("explicit", q(200, 1000))], reals=q(2, 5), chunks=[1, 3], clips=clips_for(m, (0, 2)), cap=30)
    for m in rand_nets(P.rng, q(40, 200), q((1, 2), (1, 2, 3))):
        add(P, m, [("explicit", q(200, 1000))], chunks=[1, 4], clips=clips_for(m, (0, 2)), cap=30)
    attentions(P, [("explicit", q(150, 800))], q(3, 8), chunks=[1, 3])
    ex = [conv(3, 1, 1), conv(2, 1, 0), conv(1), delay(2), pool("avg", 3, 1, 0), pool("max", 2, 1, 0), rnn("GRU"), rnn("LSTM"),
          rnn("RNN"), residual(conv(3, 1, 1)), seq(conv(3, 1, 0), point("relu"), conv(2, 1, 0)), rpe(3),
          seq(bcast(2), par(conv(3, 1, 1), conv(1)), dispatch(1, 0, 1), reduce_()), br(conv(3, 1, 1), conv(1), delay(2))]
    for m in ex:
        for _ in range(q(1, 4)):
            add(P, m, [("exported", 8, P.rng.choice([14, 15, 16, 17]), P.rng.random() < 0.5)], chunks=[1], cap=30, dtype="f32", opts=dict(divisor=0, proj=0, ceil=False))
    P.record(everything + rand_nets(P.rng, q(40, 300), q((1, 2, 3), (1, 2, 3))), ["step", "steps", "explicit", "explicit", "fresh", "clean"])


def c19(P):
    for m in leaves(P.rng) + [delay(2, "cen"), delay(3, "lag"), rpe(3), win("adaptive", 3, 2), residual(conv(3, 1, 1)),
                              skip(1), skip(3), seq(skip(2), conv(3, 1, 0)), conv(2, 3, 1), pool("max", 2, 3, 0),
                              seq(conv(2, 2, 0), conv(2, 1, 1)), br(conv(3, 1, 1), conv(1)), rnn("RNN"), rnn("GRU"),
                              rnn("LSTM"), cond(conv(3, 1, 1), delay(1))]:
        unb = "rnn" in kinds(m) or "cond" in kinds(m)
        add(P, m, [("walk", "restore", q(400, 2000)), ("fresh_state",)], reals=q(2, 5), chunks=[1, 2],
            cap=5 if unb else 16, snap=True, others=1)
        add(P, m, [("walk", "restore", q(150, 600))], chunks=[1, 2], cap=5 if unb else 16, snap=True)
    for m in rand_nets(P.rng, q(16, 80), (1, 2), max_rf=7):
        add(P, m, [("walk", "restore", q(300, 1500))], chunks=[1, 3], cap=12, snap=True, others=1)


    attentions(P, [("walk", "restore", q(250, 1500)), ("fresh_state",)], q(2, 6), chunks=[1, 2], snap=True, others=1)
    attentions(P, [("walk", "restore", q(100, 500))], q(1, 4), chunks=[1, 2], snap=True)
    P.record(leaves(P.rng) + [delay(2, "cen"), skip(3), rpe(3), rnn("RNN"), conv(2, 3, 1), pool("max", 2, 3, 0)],
             ["step", "steps", "save", "restore", "restore", "clean"], reals=q(2, 8))


def c20(P):
    """Converted networks follow the same specification, with the weights of the original; what converts, and how, is Convert.tla's."""
    N = lambda k, *ch: dict(k=k, ch=list(ch), names=[str(j) for j in range(len(ch))])  # noqa: E731
    small = [[N("seq", 2, 3), N("layer"), N("custom")], [N("seq", 2, 3), N("seq", 4), N("plain"), N("bad")], [N("fn")], [N("co")]] + q(
        [], [[N("seq", 2, 3, 6), N("layer"), N("seq", 4, 5), N("plain"), N("custom"), N("other")]])
    spec_check(P.rep, "Convert", [convertcheck.given(t) for t in small])
    ts = [convertcheck.rand_tree(P.rng, P.rng.choice([1, 3, 5, 8])) for _ in range(q(300, 1500))]
    for _ in range(q(6, 30)):
        t = [dict(k="seq", ch=list(range(2, 14)), names=[str(j) for j in range(12)] if P.rng.random() < 0.7 else P.rng.sample("abcdefghijklmnop", 12))]
        for _ in range(12):
            leaf = convertcheck.rand_tree(P.rng, 1, False)[0]
            t.append(leaf if leaf["k"] not in ("bad", "other") else dict(k="plain", ch=[], names=[]))
        ts.append(t)
    recs = spec_walks("Convert", [convertcheck.given(t) for t in ts], q(600, 4000), q(12, 20))
    items = [(ts[r["i"] - 1], r["h"], P.rng.randrange(1 << 30)) for r in recs]
    replay_all(P.rep, convertcheck.replay_one, items, "convertcheck", pool_map)
    for c in conv_cases(False):
        if c[3] == c[4]:
            g = P.net(conv(*c), chunks=[1, 3], clips=clips_for(conv(*c)), cap=60)
            P.job(g, SHAPES[P.rng.choice([1, 2, 3])], [("converted",), ("tour", "plain")], build="convert",
                  dtype=P.rng.choice(["f64", "f32"]))
    for c in pool_cases(False):
        if c[0] == "avg" and c[4] > 1:
            continue
        g = P.net(pool(*c), chunks=[1, 3], clips=clips_for(pool(*c)), cap=60)
        P.job(g, SHAPES[clips3(c, P.rng.choice([1, 2, 3]))], [("converted",), ("tour", "plain")], build="convert")
    for kind in ("RNN", "GRU", "LSTM"):
        g = P.net(rnn(kind), chunks=[1, 2], clips=[3], cap=5)
        for layers in (1, 2):
            for bias in (True, False):
                P.job(g, (3,), [("converted",), ("tour", "plain")], build="convert", opts=dict(layers=layers, bias=bias))
    attentions(P, [("tour", "plain")], q(4, 20), chunks=[1, 2], build="convert")
    for k in NAIVE:
        for nd in (1, 2, 3):
            if NAIVE[k][2](2, nd):
                g = P.net(point(k), chunks=[1, 3], clips=[1, 4], cap=20)
                P.job(g, (2, *SHAPES[nd][1:]), [("converted",), ("tour", "plain")], build="convert")
    n = 0
    while n < q(40, 200):
        m = rand_nets(P.rng, 1, (1, 2), want=("seq",), s=None)[0]
        if kinds(m) & {"delay", "br", "residual", "par"}:
            continue
        n += 1
        add(P, m, [("converted",), ("tour", "plain")], chunks=[1, 4], clips=clips_for(m), cap=60, build="convert")


def c21(P):
    """Names, round trips and requests follow StateDict.tla; saving and loading leave real streams alone."""
    S = lambda *k, n=None: dict(k="seq", kids=list(k), names=n or [str(j) for j in range(len(k))])  # noqa: E731
    L = lambda k: dict(k=k)  # noqa: E731
    small = [S(L("conv1")), S(L("conv1"), L("conv1")), S(L("conv1"), L("conv1"), n=["a", "1x1"])]
    spec_check(P.rep, "StateDict", [statedict.given(t) for t in small], CMAX=1, VMAX=q(3, 4))
    if THOROUGH:
        spec_check(P.rep, "StateDict", [statedict.given(S(S(L("conv1")), n=["0"]))], CMAX=1, VMAX=3)
    many = [P.rng.choice(["conv1", "wrap", "stretch", "delay", "pool"]) for _ in range(12)]
    wide = [S(*[S(L(k)) for k in many], n=["n%d" % j for j in range(12)]), S(*map(L, many)), dict(k="br", kids=[L("conv1") for _ in range(11)], names=[str(j) for j in range(11)]),
            S(*[S(L("conv1"), n=["abcdefghijkl"[j]]) for j in range(12)])]
    ts = small + wide + wide + statedict.trees(P.rng, q(60, 200), [3, 5, 8, 12])
    recs = spec_walks("StateDict", [statedict.given(t) for t in ts], q(120, 1000), q(40, 60), CMAX=3, VMAX=9)
    items = [(ts[r["i"] - 1], r["h"], P.rng.randrange(1 << 30)) for r in recs]
    replay_all(P.rep, statedict.replay_one, items, "statedict", pool_map)
    P.rep.add("flattened_saves", sum(r["a"] == "save" and r["flat"] for x in recs for r in x["h"]))
    P.rep.sample(dict(tree=items[0][0], behaviour=[
        {k: v for k, v in r.items() if k in ("a", "m", "x", "arg", "q", "err", "strict")} for r in items[0][1][:8]]))
    for m in leaves(P.rng) + extras() + with_rnns() + [rnn("RNN"), rnn("GRU"), rnn("LSTM"), cond(conv(3, 1, 1), delay(1))] \
            + rand_nets(P.rng, q(15, 80), (1, 2)):
        add(P, m, [("saving", q(30, 120))], chunks=[1, 3], clips=clips_for(m, (0, 2)), cap=20)
    attentions(P, [("saving", q(20, 100))], 1, chunks=[1, 3])


def c22(P):
    for m in leaves(P.rng) + extras() + with_rnns() + [rnn("RNN"), rnn("GRU"), rnn("LSTM"), point("BatchNorm1d"), point("Dropout"),
                                         point("relu"), point("linear"), point("lambda_chan")]:
        kw = dict(chunks=[1, 3], clips=clips_for(m, (0, 2)), cap=40)
        if "BatchNorm1d" in str(m):
            g = P.net(m, **kw)
            P.job(g, (3,), [("forks", q(120, 400))])
            P.job(g, (3,), [("lockstep", q(60, 200))], batch=3, opts=dict(batch=3))
            continue
        add(P, m, [("forks", q(120, 400))], reals=q(1, 3), **dict(kw))
        if "reshape" not in str(m):
            add(P, m, [("lockstep", q(60, 200))], reals=q(1, 3), batch=3, opts=dict(no_reshape=True), **dict(kw))
    for m in rand_nets(P.rng, q(20, 120), (1, 2)):
        kw = dict(chunks=[1, 4], clips=clips_for(m, (0, 2)), cap=40)
        add(P, m, [("forks", q(120, 400))], **kw)
        add(P, m, [("lockstep", q(60, 200))], batch=3, opts=dict(no_reshape=True), **kw)


    attentions(P, [("forks", q(100, 500))], q(2, 6), chunks=[1, 3])
    attentions(P, [("lockstep", q(60, 200))], q(2, 6), chunks=[1, 3], batch=3, opts=dict(layout=(True, True), no_weights=True))
    P.record(leaves(P.rng) + extras() + [rnn("RNN"), rpe(3)] + rand_nets(P.rng, q(30, 200), q((1, 2), (1, 2, 3))), ["step", "steps", "copy"])


def c23(P):
    for k in PLAIN_POINTS + list(NAIVE) + list(WRAPPED):
        g = P.net(point(k), chunks=[1, 2, 5], clips=[1, 2, 5], cap=30, lawful=True)
        for sh in ((2,), (1,), (4, 3), (3, 3), (4, 1), (2, 4, 3), (4, 2, 4), (2, 3, 1), (2, 1, 4)):
            nd = len(sh)
            if not dict(NAIVE, **WRAPPED).get(k, (0, 0, lambda C, n: True))[2](sh[0], nd):
                continue
            if k in WRAPPED and min(sh[1:], default=2) < 2:
                continue
            if k == "linear_last" and nd == 1:
                continue
            for _ in range(q(1, 3)):
                b = P.rng.choice([1, 2, 3])
                P.job(g, sh, [("attrs",), ("twice",), ("tour", "all"), ("walk", "all", q(20, 100))], batch=b, opts=dict(batch=b),
                      styles=("method", "ctx", "ctx_nested", "mode", "hook"), dtype=P.rng.choice(["f64", "f32"]))
    for v in (0, 1, -3.0):
        g = P.net(point("constant", o=dict(value=v)), chunks=[1, 2, 5], clips=[1, 2, 5], cap=30)
        P.job(g, (2,), [("tour", "all")], styles=("method", "ctx"))
    for m in [seq(point(), point(), point()), seq(point("linear"), point("relu"), point("linear")),
              br(point(), point()), residual(point()), seq(point("reshape"), point())]:
        add(P, m, [("attrs",), ("tour", "all")], reals=4, chunks=[1, 3], clips=[1, 4], cap=30)


def c24(P):
    for c in conv_cases(False):
        g = P.net(conv(*c), chunks=[1, 3], cap=80, warm=True)
        P.job(g, SHAPES[P.rng.choice([1, 2, 3])], [("tour", "warm")], dtype=P.rng.choice(["f64", "f32"]))
    for c in pool_cases(False):
        g = P.net(pool(*c), chunks=[1, 3], cap=80, warm=True)
        P.job(g, SHAPES[P.rng.choice([1, 2, 3])], [("tour", "warm")], dtype="f32")
    for m in [delay(1), delay(4), point("add"), point("lambda"), win("adaptive", 3, 2), residual(conv(3, 1, 1)), residual(conv(5, 1, 0), "cen"),
              residual(conv(3, 1, 0), "lag")]:
        add(P, m, [("tour", "warm")], reals=2, chunks=[1, 3], cap=80, warm=True, dtype="f32")
    for m in rand_nets(P.rng, q(40, 250), q((1, 2), (1, 2, 3))):
        # the data type of made-up frames is that of the first parameter, else torch's default
        add(P, m, [("tour", "warm")], chunks=[1, 4], cap=80, warm=True, dtype="f64" if "conv" in kinds(m) else "f32")
    for a, b in q(((12, 28), (36, 2)), ((12, 28), (70, 2), (40, 40))):
        for m in (seq(conv(a, 1, 0), conv(b, 1, 0)), br(seq(conv(a, 1, 0), conv(b, 1, 0)), delay(3)), seq(conv(a, 1, 1), delay(b))):
            add(P, m, [("walk", "warm", 60)], chunks=[1, 7], cap=a + b + 6, warm=True)
    P.record([m for m in leaves(P.rng) + rand_nets(P.rng, q(40, 300), q((1, 2), (1, 2, 3))) if "conv" in kinds(m)],
             ["warm", "step", "step", "steps", "clean"])


def c27(P):
    """Memory that caller and network both can reach follows Memory.tla."""
    small = [dict(kinds=["frame"], again=True, pads=False, passes=True), dict(kinds=["chunk", "clip"], again=False, pads=True, passes=False)]
    spec_check(P.rep, "Memory", small, ARGS=2, RESULTS=1, FED=q(2, 3))
    items = []

    def put(m, reals=1, opts=None, train=False):
        clips = clips_for(m, (0, 2)) if "'adaptive'" not in str(m) else []
        chunks = [1, 2, 4]
        if "rpe" in kinds(m):
            clips, chunks = ([c for c in cs if c <= m.get("num", 1)] for cs in (clips, chunks))
        for _ in range(reals):
            o = dict(opts or {}, no_reshape=True)
            items.append(dict(given=dict(net=m, clips=clips, chunks=chunks), shape=list(shape_for(m, P.rng)), opts=o, train=train, again=True))
    for m in leaves(P.rng) + extras() + with_rnns() + [rnn("RNN"), rnn("GRU"), rnn("LSTM"), cond(conv(3, 1, 1), delay(1)), cond(conv(3, 1, 1)), rpe(4), delay(0),
                                         delay(5), skip(3), seq(delay(1), delay(2)), seq(point("identity"), delay(2), point("relu"))] + \
            [point(k) for k in PLAIN_POINTS if k != "reshape"] + [seq(delay(1), point(k)) for k in PLAIN_POINTS if k not in ("reshape", "bn", "dropout")]:
        put(m, q(3, 8))
    for k in NAIVE:
        for sh in ((2,), (2, 5), (2, 4, 5)):
            if NAIVE[k][2](sh[0], len(sh)):
                items.append(dict(given=dict(net=point(k), clips=[1, 3], chunks=[1, 2, 4]), shape=list(sh), opts={}, train=False, again=k != "GLU"))
    for m in leaves(P.rng):
        if m["k"] not in ("point",):
            put(m, q(1, 4), train=True)
    for m in rand_nets(P.rng, q(80, 500), q((1, 2), (1, 2, 3))):
        put(m)
    for _ in range(q(3, 12)):
        for g in [("single", 3, -1, 1), ("single", 4, 1, 1), ("retro", 3, -1, 1), ("retro", 4, -1, 1), ("slayer", 3, -1, 1), ("rlayer", 3, -1, 1),
                  ("stack", 3, -1, 1), ("stack", 3, -1, 2)]:
            items.append(dict(given=attention.given(*g, chunks=[1, 3], clips=[g[1]]), shape=[], opts={}, train=False, again=False))
    recs = spec_walks("Memory", [memcheck.given(x) for x in items], len(items) * q(2, 6), q(60, 120), ARGS=3, RESULTS=3)
    todo = [(items[r["i"] - 1], r["h"], P.rng.randrange(1 << 30)) for r in recs]
    replay_all(P.rep, memcheck.replay_one, todo, "memcheck", pool_map)
    P.rep.sample(dict(network=todo[0][0]["given"], behaviour=todo[0][1][:10]))


def c28(P):
    """Derivatives of whole-clip calls; streaming with changed weights."""
    plan, stream = [("training", q(14, 60))], ("backprop", q(8, 40))
    for m in leaves(P.rng) + extras() + with_rnns() + [rnn("RNN"), rnn("GRU"), rnn("LSTM"), rpe(3), point("linear"), point("lambda_modes"),
                                         cond(conv(3, 1, 1), delay(1)), win("adaptive", 3, 2)]:
        for t in (False, True):
            add(P, m, plan + ([stream] if t else []), reals=q(4 if m["k"] == "rnn" else 1, 6), chunks=[1, 3], clips=clips_for(m, (0, 3)), cap=12,
                train=t and "point" not in kinds(m), opts=dict(no_reshape=True))
    for m in rand_nets(P.rng, q(60, 300), q((1, 2), (1, 2, 3))):
        add(P, m, plan + [stream], chunks=[1, 4], clips=clips_for(m, (0, 3)), cap=12, opts=dict(no_reshape=True))
    n = 0
    while n < q(20, 100):
        m = rand_nets(P.rng, 1, (1, 2), want=("seq",), s=None)[0]
        if kinds(m) & {"delay", "br", "residual", "par"}:
            continue
        n += 1
        add(P, m, plan + [stream], chunks=[1, 4], clips=clips_for(m), cap=12, build="convert")
    attentions(P, [("training", q(10, 40)), ("backprop", q(6, 30))], q(3, 10), chunks=[1, 3])


def c29(P):
    """Calls that fail are as if they had not been made."""
    plan = [("tour", "refuse"), ("walk", "refuse", q(120, 600))]
    for m in leaves(P.rng) + [delay(2, "cen"), delay(3, "lag"), skip(2), rpe(4, fadv=2), win("adaptive", 3, 2, o=dict(kind="Avg")),
                              rnn("RNN"), rnn("GRU"), rnn("LSTM")]:
        for t in (False, True):
            add(P, m, plan, reals=q(3, 10), chunks=[1, 3], cap=20, refuse=True,
                train=t and "point" not in kinds(m))
    # of containers, those whose first module sees to it
    heads = [conv(3, 1, 1), conv(1), conv(2, 2, 0), rnn("GRU"), rnn("LSTM"), point("linear")]
    for m in rand_nets(P.rng, q(20, 100), q((1, 2), (1, 2, 3))):
        if "dispatch" in kinds(m) or m["k"] == "seq" and m["ch"][0]["k"] == "bcast":
            continue
        head = P.rng.choice(heads[:3])
        add(P, seq(head, m), plan, chunks=[1, 3], cap=20, refuse=True, opts=dict(refuse=["channels", "rank", "dtype"]))
    for h in heads:
        add(P, cond(seq(h, delay(1)), conv(3, 1, 1)), plan, chunks=[1, 3], refuse=True, opts=dict(refuse=["channels", "rank", "dtype"]))
        add(P, seq(h, conv(3, 1, 1), delay(1)), plan, chunks=[1, 3], cap=20, refuse=True, opts=dict(refuse=["channels", "rank", "dtype"]))
    for g in [("single", 1, -1), ("single", 3, -1), ("single", 4, 1), ("retro", 1, -1), ("retro", 3, -1), ("retro", 4, -1)]:
        for t in (False, True):
            P.attn(*g, 1, plan, q(3, 10), chunks=[1, 3], clips=[g[1]], refuse=True, train=t)


CHECKS = {k.upper(): v for k, v in list(globals().items()) if k[0] == "c" and k[1:].isdigit()}
