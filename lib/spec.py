"""Expected terms: the documented formats, written independently of the code."""
import dom
from dom import T

ALG = "sha256"


def run(t, n=32):
    return ("run", t, 0, n)


def H(*ps):
    return dom.mkhash(ALG, ps)


def zero():
    return T("const", (0,) * 32)


# binary
def b_leaf(data):
    return H(0, ("run", data, 0, ("len", data)))


def b_node(l, r):
    return H(1, run(l), run(r))


def b_empty():
    return H()


# sum: fees are 64-bit values
def be8(v):
    b = dom.ent_bits(v, 64)
    return [dom.norm(b[8 * i:8 * i + 8]) for i in range(7, -1, -1)]


def s_leaf(fee, data):
    return H(0, *be8(fee), ("run", data, 0, ("len", data)))


def s_node(lf, l, rf, r):
    return H(1, *be8(lf), run(l), *be8(rf), run(r))


# sparse
def digest(data):
    return H(("run", data, 0, ("len", data)))


def p_leaf(key, value):
    return H(0, run(key), run(value))


def p_node(l, r):
    return H(1, run(l), run(r))


def sel(e, x, y):
    if e < 2:
        return x if e else y
    if x is y:
        return x
    if e & 1:
        e, x, y = e ^ 1, y, x
    return T("sel", e, x, y)


def val(t):
    return dom.bval(t)


def digest_of(b):
    """Digest of known bytes."""
    return H(*b)
