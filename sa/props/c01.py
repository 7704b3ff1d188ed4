from .. import codec

LEVEL = "other"
CONFIRM = True


def run(c):
    codec.run(c, "C01")
