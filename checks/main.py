"""Entry point: python -m checks.main ID [--replay FILE]."""

import importlib
import json
import sys

from vlib import report


def main():
    pid = sys.argv[1]
    chk = report.Check(pid)
    mod = importlib.import_module("checks." + pid.lower())
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            case = json.load(f)["case"]
        part = report.Part()
        mod.replay(case, part)
        for _, msg, key in part.violations:
            chk.say("REPRODUCED property=%s %s" % (pid, msg))
        if not part.violations:
            chk.say("not reproduced")
        return 1 if part.violations else 0
    try:
        mod.run(chk)
    except report.HARNESS_ERRORS:
        raise
    except Exception as e:
        if report.interface_changed(e):
            chk.outcome("interface changed: %s" % e)
        else:
            chk.violation({"run": pid}, report.brief_tb())
    return chk.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
