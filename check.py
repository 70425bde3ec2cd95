#!/usr/bin/env python3
"""check.py C01 | check.py --replay out/replay/....json"""
import os
import sys

if not os.path.realpath(sys.executable).startswith(os.path.realpath("/opt/venv")) and os.path.exists("/opt/venv/bin/python") \
        and os.environ.get("VERIF_PY") != "1":
    os.environ["VERIF_PY"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", *sys.argv])
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))


def main(argv):
    from core import MachineryError
    if argv[0] == "--replay":
        from streamcheck import replay
        import checks  # noqa: F401
        return replay(argv[1])
    import checks
    import findings
    try:
        P = checks.Plan(argv[0])
        r = checks.CHECKS[argv[0]](P)
        rep = r or P.run()
        findings.probe(rep)
    except MachineryError as e:
        print("the check did not work: %s" % e)
        return 2
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
