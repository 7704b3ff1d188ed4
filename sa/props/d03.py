"""D03: the writer's header and checksum (sa/logw.py) and the reader's use of them (sa/logr.py)."""
from .. import logr, logw

LEVEL = "other"
CONFIRM = True


def run(c):
    logw.run(c, ("head", "crc"), False)
    if not c.need(logr.LR + "new") or not c.need(logr.LR + "read_next"):
        return
    for name, calls, unroll in (("checked", 1, 5), ("checked twice", 2, 3)):
        r = logr.Reader(c, name, checksum=True, unroll=unroll if c.tier == "quick" else unroll + 1)
        r.run(calls, name)
