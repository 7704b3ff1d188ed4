from .. import logw

LEVEL = "other"
CONFIRM = True


def run(c):
    logw.run(c, ("ack", "frame"), True)
