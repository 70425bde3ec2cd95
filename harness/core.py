"""Running TLC, reading the state graphs it prints, reporting."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class MachineryError(Exception):
    """The check itself failed: neither a pass nor a violation."""


def tup(v):
    return tuple(tup(x) for x in v) if isinstance(v, list) else v


class TlcResult:
    def __init__(self, out, states, distinct, seconds):
        self.out, self.states, self.distinct, self.seconds = out, states, distinct, seconds

    def records(self, tag):
        """JSON records printed as <<"tag", json>>."""
        pre = '<<"%s", ' % tag
        return [json.loads(json.loads(l[len(pre):-2])) for l in self.out.splitlines() if l.startswith(pre)]


def run_tlc(module, cfg=None, env=None, workers=8, timeout=1800, extra=(), expect_ok=True, spec_dir=SPEC):
    work = tempfile.mkdtemp(prefix="tlc-")
    try:
        t0 = time.time()
        e = dict(os.environ, JAVA_TOOL_OPTIONS="-Xss128m")
        e.update(env or {})
        cmd = ["tlc", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", work, "-config", (cfg or module) + ".cfg",
               *extra, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=spec_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC did not finish: " + " ".join(cmd))
        out = p.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        ok = "Model checking completed. No error has been found." in out
        if expect_ok and (not ok or not m):
            tail = "\n".join(l for l in out.splitlines() if not l.startswith("<<") and "Parsing" not in l
                             and "Semantic" not in l and "Linting" not in l)
            raise MachineryError("TLC found an error in %s:\n%s" % (module, tail[-6000:]))
        r = TlcResult(out, int(m.group(1)) if m else 0, int(m.group(2)) if m else 0, time.time() - t0)
        r.ok = ok
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


class Edge:
    __slots__ = ("s", "d", "a", "c", "pe", "upd", "sw", "out", "stall", "fed", "key")

    def __init__(self, rec):
        l = rec["l"]
        self.s, self.d = json.dumps(rec["s"]), json.dumps(rec["d"])
        self.a, self.c, self.pe, self.upd, self.sw = l["a"], l["c"], l["pe"], l["upd"], l["sw"]
        self.out, self.stall, self.fed = tup(l["out"]), l["stall"], tuple(l["fed"])
        self.key = (self.s, self.a, self.c, self.pe, self.upd, self.sw)


class Graph:
    """State graph of one network as explored by TLC."""

    def __init__(self, edges, info, given):
        self.info, self.given = info, given
        self.edges, seen = {}, {}
        for e in edges:
            o = seen.get(e.key)
            if o is not None:
                if (o.d, o.out, o.stall) != (e.d, e.out, e.stall):
                    raise MachineryError("specification is not deterministic: %s" % (e.key,))
                continue
            seen[e.key] = e
            self.edges.setdefault(e.s, []).append(e)
        self.n_edges = len(seen)
        self.init = json.dumps(info["init"])
        if self.edges and self.init not in self.edges:
            raise MachineryError("no initial state in the graph")

    @staticmethod
    def clean(s):
        """Whether nothing was fed since the state was clean."""
        k = json.loads(s)
        return k[0] == 0 and not k[3]


def stream_graphs(given, module="Stream"):
    """Model check the specification on the networks and return one graph each."""
    fd, path = tempfile.mkstemp(suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(given, f)
        r = run_tlc(module, env={"NETS": path})
    finally:
        os.unlink(path)
    per = {}
    for rec in r.records("EDGE"):
        per.setdefault(rec["i"], []).append(Edge(rec))
    info = {rec["i"]: rec for rec in r.records("NET")}
    if set(info) != set(range(1, len(given) + 1)):
        raise MachineryError("TLC reported %d of %d networks" % (len(info), len(given)))
    graphs = [Graph(per.get(i + 1, []), info[i + 1], given[i]) for i in range(len(given))]
    r.out = ""
    return graphs, r


# ------------------------------------------------------------------ reporting
class Violation(Exception):
    def __init__(self, what, **detail):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


class Report:
    """Collects what a check did; prints the verdict; writes the evidence."""

    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.coverage = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions, self.violations, self.known_hit = [], [], {}
        self.level = "model_checking"

    def tlc(self, r):
        self.coverage["states"] += r.distinct
        self.coverage["transitions"] += r.states

    def add(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def sample(self, s):
        if len(self.coverage["samples"]) < 6:
            self.coverage["samples"].append(s)

    def violation(self, what, **detail):
        self.violations.append(dict(what=what, **detail))

    def known(self, ident, what):
        self.known_hit[ident] = what

    def finish(self):
        c = self.coverage
        if not self.violations and not (c["states"] and c["transitions"] and c["traces_validated_against_impl"] and c.get("outputs_compared")
                                        and c.get("nonempty_outputs", 1)):
            print("%s: nothing was explored" % self.prop)
            return 2
        d = os.path.join(VERIF, "out", "replay")
        for ident, what in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, ident, what))
        shown = 0
        for v in self.violations:
            os.makedirs(d, exist_ok=True)
            body = json.dumps(dict(property=self.prop, seed=SEED, tier=TIER, **v), indent=1, default=str)
            path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(body.encode()).hexdigest()[:12]))
            with open(path, "w") as f:
                f.write(body)
            if shown < 5:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + str(v["what"]).replace("\n", "\n  ")[:1500])
            shown += 1
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %s (%d violations) in %.1fs; %s" % (
            self.prop, "VIOLATED" if self.violations else "held", len(self.violations), ev["wall_s"],
            ", ".join("%s=%s" % (k, v) for k, v in self.coverage.items() if isinstance(v, int))))
        return 1 if self.violations else 0
