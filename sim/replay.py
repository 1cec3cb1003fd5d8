"""python -m sim.replay FILE: run the recorded plan again.

Exit 1 and "REPRODUCED" if the same violation with the same event log
appears, 0 if the run passes, 3 if something else happens.
"""
import json
import sys

from . import core
from .run import load_check


def main(path):
    with open(path) as f:
        r = json.load(f)
    check = load_check(r["property"])
    if r.get("plan") is None:
        print("the violation is not that of a single plan; see the file")
        return 3
    for p in r.get("prefix", []):
        core.run_plan(check, core.jclone(p))
    o = core.run_plan(check, core.jclone(r["plan"]), keep_events=True)
    for i, evs in enumerate(o.events):
        print("-- world {}".format(i))
        for e in evs[-40:]:
            print("  ", e[:200])
    if o.harness_error:
        print(o.harness_error)
        return 3
    if o.violation is None:
        print("PASSED: no violation (hash {})".format(o.hash))
        return 0
    print("kind:   {}\ndetail: {}".format(
        o.violation["kind"], o.violation["detail"]))
    same = (
        o.violation["kind"] == r["violation"]["kind"]
        and o.hash == r["event_log_hash"]
    )
    print(
        "VIOLATION REPRODUCED exactly" if same
        else "VIOLATION but kind or event log differ from the record"
    )
    return 1 if same else 3


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
