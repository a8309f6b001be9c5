"""How many storage accesses an operation makes, by the shape of the tree."""
import dom
from sparse_shapes import Shape
from world import Env, St, bytes_arg, log, ref
from . import binary as b
from . import sparse as sp
from . import sumtree


def reads(st, since=None):
    e, n = st.r, 0
    while e is not None and e is not since:
        n += 1
        e = e.prev
    return n


def writes(st, since=0):
    return (st.w.n if st.w else 0) - since


def within(c, key, what, kind, got, limit):
    c.count("cost_bounds")
    c.expect(got <= limit, key + ":" + kind, "%s makes %d storage %s, more than the %d its tree's height allows" % (what, got, kind, limit))


def binary_rule(c, W, n, i):
    """load, root, push and prove of an n-leaf tree."""
    h = max(1, n.bit_length()) + 1
    key = "cost:n=%d:i=%s" % (n, i)
    tree = b.Rfc(n, {i} if n else set())
    r = b.loaded(c, W, n, tree, key)
    if r is None:
        return
    env, st, p = r
    within(c, key + ":load", "load of %d leaves" % n, "reads", reads(st), 2 * h + 2)
    within(c, key + ":load", "load of %d leaves" % n, "writes", writes(st), 0)
    o, why = b.one(W.run(b.B + "root", [p], st.fork(), env), "root")
    if c.expect(o is not None, key + ":root", why or ""):
        within(c, key + ":root", "root of %d leaves" % n, "reads", reads(o[1], st.r), h + 2)
    s = st.fork()
    d = bytes_arg(s, "data")
    for kind, t, v in W.run(b.B + "push", [p, d], s, env):
        if c.expect(kind == "ret", key + ":push", "push onto %d leaves panics" % n):
            within(c, key + ":push", "push onto %d leaves" % n, "reads", reads(t, st.r), h + 2)
            within(c, key + ":push", "push onto %d leaves" % n, "writes", writes(t), h + 1)
    if n:
        o, why = b.one(W.run(b.B + "prove", [p, i], st, env), "prove")
        if c.expect(o is not None, key + ":prove", why or ""):
            within(c, key + ":prove", "prove(%d) of %d leaves" % (i, n), "reads", reads(o[1], st.r), 4 * h + 6)


def sparse_rule(c, W, k, term, op):
    key = "cost:%s:k=%d:%s" % (op, k, term)
    sh = Shape(k, term, {i: "0" for i in range(k - 1)} | {k - 1: "N"} if op == "delete" and k > 8 else None)
    st = St()
    env = Env(sh.contents)
    d = sp.data_arg(st)
    r = sp.load(c, W, sh.root, env, st, key, sp.shape_name(k, term))
    if r is None:
        return
    st, p = r
    what = "%s, %s" % (op, sp.shape_name(k, term))
    within(c, key + ":load", "load", "reads", reads(st), 3)
    s0 = st.r
    args = [p, ref(st, sp.val(sh.K))] + ([d] if op == "update" else [])
    depth = max([k] + ([term] if type(term) is int else []))
    for kind, s, v in W.run(sp.P + op, args, st, env):
        if c.expect(kind == "ret", key, "%s panics" % what):
            within(c, key, what, "reads", reads(s, s0), 6 * (k + 3))
            within(c, key, what, "writes", writes(s), 3 * (depth + 3))


def binary_items(c):
    out = []
    for n in b.counts(c):
        out += [(n, i) for i in sorted({0, n // 2, max(n - 1, 0)})] if n else [(0, 0)]
    return out


def sparse_items(c):
    out = []
    ks = (0, 1, 2, 3, 4, 6, 9, 12, 32, 64, 255) if not c.thorough else tuple(range(0, 20)) + (31, 32, 33, 64, 100, 128, 200, 255)
    for k in ks:
        for t in ("same", "none", k, k + 5):
            if t == "none" and k == 0 or type(t) is int and t > 255:
                continue
            out.append((k, t, "update"))
            if k <= 12 or t == "same" and (k <= 64 or c.thorough):
                out.append((k, t, "delete"))
    return out[::-1]
