"""D02: what read_next returns for every file content, over the first fragments; see sa/logr.py."""
from .. import logr
from ..lin import const

LEVEL = "other"
CONFIRM = True


def run(c):
    if not c.need(logr.LR + "new") or not c.need(logr.LR + "read_next"):
        return
    deep = c.tier != "quick"
    for name, calls, unroll, kw in (("whole reads", 1, 6 if deep else 5, {}), ("two records", 2, 4 if deep else 3, {}),
                                    ("short read", 2, 4 if deep else 3, dict(short=True)), ("failing read", 2, 4 if deep else 3, dict(faults=True))):
        r = logr.Reader(c, name, checksum=False, unroll=unroll, **kw)
        r.run(calls, name)
        # a reader goes on being usable after an error
        if r.errs:
            r.safe(r.errs[:12] if not deep else r.errs, 1, name + " after an error")
    # skipping to an offset
    r = logr.Reader(c, "offset", checksum=False, unroll=3)
    sts = r.start(initial=3 * logr.BS)
    r.safe(sts, 1, "offset")
    # with the checksum on, a mismatch is an error as well
    r = logr.Reader(c, "checked", checksum=True, unroll=3)
    r.run(2, "checked")
