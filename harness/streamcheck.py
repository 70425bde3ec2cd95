"""Checks which replay behaviours of Stream.tla: which networks, which calls, how."""
import copy
import json
import multiprocessing
import os
import random
import time
import traceback

import torch

from core import MachineryError, Report, SEED, TIER, Violation, stream_graphs
from realize import Real, co
from nets import kinds
from replay import Walk

PROCS = 8
DT = {"f64": torch.float64, "f32": torch.float32}


def at_start(e):
    return json.loads(e.s)[0] == 0


KEEP = {
    "all": lambda e: True,
    "step": lambda e: e.a == "step" and e.upd,
    "fwd": lambda e: e.a == "forward",
    "step+fwd": lambda e: e.a == "step" and e.upd or e.a == "forward",
    "cuts": lambda e: e.a in ("step", "steps") and e.upd and not e.pe,
    "plain": lambda e: e.a in ("step", "steps") and e.upd and not e.pe or e.a == "forward",
    "pe": lambda e: e.a == "steps" or e.a == "step" and e.upd,
    "pe0": lambda e: e.a == "steps" and e.pe and e.upd and at_start(e),
    "peek": lambda e: e.a in ("step", "steps", "forward") and not e.pe,
    "peek+pe": lambda e: e.a in ("step", "steps", "forward"),
    "clean": lambda e: e.a == "clean" or e.a == "step" and e.upd,
    "restore": lambda e: e.a in ("save", "restore", "step", "steps", "clean") and not e.pe,
    "warm": lambda e: e.a in ("warm", "clean") or e.a in ("step", "steps") and not e.pe,
    "nope": lambda e: not e.pe,
    "refuse": lambda e: e.a in ("refuse", "clean", "forward") or e.a in ("step", "steps") and e.upd and not e.pe,
}


def job(g, shape, seed, plan, build="direct", dtype="f64", train=False, opts=None, styles=("method",), batch=2,
        others=0, cls="Walk", **extra):
    return dict(g=g, shape=list(shape), seed=seed, plan=plan, build=build, dtype=dtype, train=train, opts=opts or {},
                styles=list(styles), batch=batch, others=others, cls=cls, **extra)


WALKS = {"Walk": Walk}
CUSTOM = {}
_graphs = _given = None


def run_job(j):
    t0 = time.time()
    out = dict(calls=0, compared=0, nonempty=0, edges=0, error=None, violation=None)
    w = None
    try:
        graph, given = _graphs[j["g"]], _given[j["g"]]
        try:
            if j["cls"] == "Walk":
                real = Real(given["net"], j["shape"], j["seed"], j["build"], DT[j["dtype"]], j["train"], j["opts"])
            else:
                real = WALKS[j["cls"]].make_real(given.get("net", given), j)
        except MachineryError:
            raise
        except Exception as e:
            raise Violation("building the network raised %s: %s" % (type(e).__name__, e),
                            where=traceback.format_exc()[-1500:])
        w = WALKS[j["cls"]](real, graph, j["seed"], batch=j["batch"], styles=tuple(j["styles"]))
        w.others = [copy.deepcopy(w.m) for _ in range(j["others"])]
        if j.get("job_hook"):
            w.job = j
        plain = {s[0] for s in j["plan"]} <= {"tour", "walk", "clean", "cleans", "attrs", "fresh_state"}
        w.vary = plain and "'reshape'" not in str(given) and "batch" not in j["opts"]
        odd = random.Random(j["seed"] + 1)
        w.special = plain and odd.random() < 0.6
        if plain and j["cls"] == "Walk":
            w.scale = odd.choice([1, 1, 1, 0.05, 4 if j["dtype"] == "f64" else 0.5])
            if j["dtype"] == "f64" and given["net"]["k"] in ("conv", "pool", "delay") and odd.random() < 0.25:
                w.scale = odd.choice([1e5, 1e7])
            if j["dtype"] == "f64" and not j["train"] and odd.random() < 0.3 and not set("cond rnn point".split()) & kinds(given["net"]):
                w.nothing = 0.25
        grad = plain and random.Random(j["seed"]).random() < 0.2    # streaming needs no torch.no_grad
        with torch.set_grad_enabled(grad):
            for step in j["plan"]:
                if step[0] == "tour":
                    done, total = w.tour(KEEP[step[1]], *step[2:])
                    out["edges"] += done
                elif step[0] == "walk":
                    w.random_walk(step[2], KEEP[step[1]])
                elif step[0] == "clean":
                    w.to_clean()
                else:
                    CUSTOM[step[0]](w, *step[1:])
    except Violation as v:
        out["violation"] = dict(what=v.what, detail=v.detail, log=list(w.log)[-60:] if w else [])
    except MachineryError as e:
        out["error"] = str(e)
    except Exception:
        out["error"] = traceback.format_exc()
    if w:
        out.update(calls=w.calls, compared=w.compared, nonempty=w.nonempty, kinds=w.kinds)
        out["sample"] = [list(x) for x in list(w.log)[:6]]
    out["seconds"] = time.time() - t0
    return out


def _indexed(a):
    ix, j = a
    return ix, run_job(j)


def pool_map(f, items):
    """Like map, on 8 forked processes; order of results is that of items."""
    items = list(items)
    if len(items) <= 1:
        return [f(x) for x in items]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(PROCS, len(items))) as p:
        return p.map(f, items, chunksize=1)


def explore(rep, given, jobs, show=1, module="Stream"):
    """Model check the networks, replay the jobs, put everything into the report."""
    global _graphs, _given
    t0 = time.time()
    graphs, r = stream_graphs(given, module)
    rep.tlc(r)
    rep.add("tlc_ms", int((time.time() - t0) * 1000))
    rep.add("networks", len(given))
    rep.add("spec_edges", sum(g.n_edges for g in graphs))
    _graphs, _given = graphs, given
    t0 = time.time()
    order = sorted(range(len(jobs)), key=lambda k: -graphs[jobs[k]["g"]].n_edges)   # long ones first
    results = pool_map(run_job, [jobs[k] for k in order])
    rep.add("replay_ms", int((time.time() - t0) * 1000))
    errors = []
    for k, o in zip(order, results):
        j = jobs[k]
        rep.add("traces_validated_against_impl")
        rep.add("impl_calls", o["calls"])
        rep.add("outputs_compared", o["compared"])
        rep.add("nonempty_outputs", o["nonempty"])
        rep.add("edges_replayed", o["edges"])
        for kind, n in o.get("kinds", {}).items():
            by = rep.coverage.setdefault("calls_by_kind", {})
            by[kind] = by.get(kind, 0) + n
        if o["violation"]:
            rep.violation(**o["violation"], given=given[j["g"]], job=dict(j, g=0), module=module)
        if o["error"]:
            errors.append((j, o["error"]))
        if o["calls"] and len(rep.coverage["samples"]) < 5 and k % 7 == 0:
            rep.sample(dict(network=given[j["g"]].get("net", given[j["g"]]), shape=j["shape"], calls=o["sample"]))
    if errors and not rep.violations:
        raise MachineryError("%d jobs failed; first: %s\n%s" % (len(errors), errors[0][0], errors[0][1]))
    if show and os.environ.get("VERIF_VERBOSE"):
        for k, o in sorted(zip(order, results), key=lambda x: -x[1]["seconds"])[:5]:
            print("  %.1fs %s %s" % (o["seconds"], json.dumps(given[jobs[k]["g"]].get("net", given[jobs[k]["g"]]))[:200], o["calls"]))
    return graphs, results


def replay(path):
    d = json.load(open(path))
    rep = Report(d["property"])
    if "custom" in d:     # replayed by the module that found it
        import importlib
        return importlib.import_module(d["custom"]).replay(d)
    explore(rep, [d["given"]], [d["job"]], module=d.get("module", "Stream"))
    for v in rep.violations:
        print("reproduced:", v["what"])
        for l in v["log"][-12:]:
            print("   ", l)
        print(v["detail"])
    if not rep.violations:
        print("not reproduced")
    return 1 if rep.violations else 0
