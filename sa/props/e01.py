"""E01: see sa/cache.py."""
from .. import cache

LEVEL = "other"
CONFIRM = True


def run(c):
    cache.run(c, "E01")
