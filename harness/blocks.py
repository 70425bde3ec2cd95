"""Random behaviours of a specification with nested contexts, generated by TLC and replayed with real `with` blocks."""
import json
import os
import tempfile
import traceback

from core import MachineryError, SEED, Violation, run_tlc


class Unwind(Exception):
    """An error that leaves so many contexts."""

    def __init__(self, q, pos):
        Exception.__init__(self)
        self.q, self.pos = q, pos


class Blocks:
    """Replays h: actions "enter" and "leave" are contexts, "end" the end, others are up to act()."""
    h, done, compared = (), 0, 0

    def context(self, r):
        raise NotImplementedError

    def act(self, r):
        """True if an error came out which may well leave contexts, too."""
        raise NotImplementedError

    def check(self, r):
        """What must hold after every action."""

    def replay(self):
        if self.block(0)[0] != len(self.h):
            raise MachineryError("the behaviour was not replayed to its end")

    def block(self, pos):
        """Replay from pos to the end of the present context: (next position, contexts still to leave)."""
        h = self.h
        while pos < len(h):
            r = h[pos]
            self.done += 1
            if r["a"] == "end":
                return pos + 1, 99
            if r["a"] == "enter":
                try:
                    with self.context(r):
                        self.check(r)
                        pos, more = self.block(pos + 1)
                except Unwind as u:
                    if u.q > 1:
                        u.q -= 1
                        raise
                    self.check(h[u.pos])
                    pos, more = u.pos + 1, 0
                if more:
                    return pos, more - 1
                continue
            if r["a"] == "leave":
                if r["err"]:
                    raise Unwind(r["q"], pos)
                return pos + 1, r["q"] - 1
            if self.act(r) and h[pos + 1]["a"] == "leave" and h[pos + 1]["err"]:
                self.done += 1
                raise Unwind(h[pos + 1]["q"], pos + 1)
            self.check(r)
            pos += 1
        raise MachineryError("a behaviour without end")


def with_file(given, f):
    fd, path = tempfile.mkstemp(suffix=".json")
    try:
        with os.fdopen(fd, "w") as fh:
            json.dump(given, fh)
        return f(path)
    finally:
        os.unlink(path)


def spec_check(rep, module, given, **env):
    """Model check all of the specification's states."""
    r = with_file(given, lambda p: run_tlc(module, env=dict({k: str(v) for k, v in env.items()}, NETS=p)))
    rep.tlc(r)


def spec_walks(module, given, num, length, **env):
    """About num random behaviours of that many actions."""
    env = {k: str(v) for k, v in env.items()}
    r = with_file(given, lambda p: run_tlc(
        module, cfg=module + "Walks", env=dict(env, NETS=p, HMAX=str(length)), expect_ok=False, workers=4,
        extra=["-simulate", "num=%d" % (num // 4 + 1), "-depth", "1000000", "-seed", str(SEED * 7919 + 1)]))
    recs = r.records("WALK")
    if len(recs) < num // 2 or "is violated" in r.out or "Error:" in r.out:
        raise MachineryError("TLC's simulation failed:\n" + "\n".join(
            l for l in r.out.splitlines() if not l.startswith("<<"))[-3000:])
    recs.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return recs


def replay_all(rep, make, items, custom, pool_map):
    """Replay (..., h, ...) items; make(item) gives the replayer."""
    for it, o in zip(items, pool_map(make, items)):
        rep.add("traces_validated_against_impl")
        rep.add("impl_calls", o["done"])
        rep.add("outputs_compared", o["compared"])
        if o["violation"]:
            rep.violation(o["violation"]["what"], detail=o["violation"]["detail"], log=[], custom=custom, item=it)
        elif o["error"]:
            raise MachineryError(o["error"])


def guarded(make):
    """Run a replayer and report."""
    out, w = dict(done=0, compared=0, violation=None, error=None), None
    try:
        w = make()
        w.run()
    except Violation as v:
        out["violation"] = dict(what=v.what, detail=v.detail)
    except Exception:
        out["error"] = traceback.format_exc()
    if w:
        out.update(done=w.done, compared=w.compared)
    return out
