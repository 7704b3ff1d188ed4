from .. import logw

LEVEL = "other"
CONFIRM = True


def run(c):
    logw.run(c, ("frame", "block", "head", "ok"), False)
