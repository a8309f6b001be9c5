"""Rules for the binary sum tree."""
import dom
import spec
from absint import St
from rules.binary import S, Facts, is_ok, one, show_log
from rules.sparse import carries, is_err
from world import ERR, Env, bytes_arg, log, ref

M = "sum::merkle_tree::MerkleTree::"
NODE = "sum::node::Node"


def total(fs):
    t = 0
    for f in fs:
        t, _ = dom.add(t, f, 64, {})
    return t


class Tree:
    """Merkle sum tree of leaves (fee, digest) by the recursive definition."""

    def __init__(self, leaves=()):
        self.leaves = list(leaves)
        self.memo = {}

    def mth(self, s, e):
        """(fee, digest, height, left digest, right digest) of leaves s .. e-1."""
        r = self.memo.get((s, e))
        if r is None:
            n = e - s
            if n == 0:
                return 0, spec.b_empty(), None, None, None
            if n == 1:
                f, h = self.leaves[s]
                r = (f, h, 0, None, None)
            else:
                k = 1 << ((n - 1).bit_length() - 1)
                a, b = self.mth(s, s + k), self.mth(s + k, e)
                r = (total((a[0], b[0])), spec.s_node(a[0], a[1], b[0], b[1]), a[2] + 1, a[1], b[1])
            self.memo[s, e] = r
        return r

    def root(self):
        return self.mth(0, len(self.leaves))

    def add(self, fee, h):
        """Append; the nodes the append completes."""
        n = len(self.leaves)
        self.leaves.append((fee, h))
        out = [self.mth(n, n + 1)]
        k = 0
        while (n >> k) & 1:
            k += 1
            out.append(self.mth((n >> k) << k, n + 1))
        return out

    def spine(self):
        """Inner nodes over more than one complete subtree, plus the root."""
        out = []
        s, e = 0, len(self.leaves)
        while e - s > 1:
            n = e - s
            if n & (n - 1) == 0:
                break
            out.append(self.mth(s, e))
            s += 1 << ((n - 1).bit_length() - 1)
        return out


# ------------------------------------------------------------ node records

FIELDS = ("height", "hash", "fee", "left_child_key", "right_child_key")


def view(c, W, st, v, key):
    """What a stored record says about its node, through its own accessors."""
    out = {}
    for f in FIELDS:
        fn = NODE + "::" + f
        if not W.has(fn):
            continue
        o, why = one(W.run(fn, [ref(st, v)], st, Env()), f)
        if not c.expect(o is not None, key + ":record", why or ""):
            return None
        x = o[2]
        if type(x) is tuple and x[0] in ("p", "s"):
            x = deref(o[1], x)
        out[f] = x
    return out


def deref(st, p):
    from absint import Interp, proj
    v = Interp(None).load(st, p[1], ())
    for e in p[2]:
        v = proj(v, e)
    return v


def opt_is(v, t, F):
    if t is None:
        return v == ("a", 0, ())
    return type(v) is tuple and v[0] == "a" and v[1] == 1 and F.same(v[2][0], t)


def num_is(v, t, F):
    if v is t or v == t and type(v) is type(t):
        return True
    if not dom.is_int(v):
        return False
    return dom.eq(v, t, 64, F.f) == 1


def record_ok(c, W, st, v, node, F, key, what):
    r = view(c, W, st, v, key)
    if r is None:
        return
    fee, h, height, l, rr = node
    c.expect("hash" in r and F.same(r["hash"], h), key + ":hash", lambda: "%s: the stored record's digest is %s" % (what, dom.show(r.get("hash"))[:120]))
    c.expect("fee" in r and num_is(r["fee"], fee, F), key + ":fee", lambda: "%s: the stored record's fee is %s, its leaves sum to %s" % (what, dom.show(r.get("fee"))[:80], dom.show(fee)[:80]))
    c.expect("height" not in r or r["height"] == height, key + ":height", lambda: "%s: the stored record's height is %s, not %s" % (what, dom.show(r["height"])[:40], height))
    for n, t in (("left_child_key", l), ("right_child_key", rr)):
        c.expect(n not in r or opt_is(r[n], t, F), key + ":child", lambda: "%s: %s of the stored record is %s" % (what, n, dom.show(r[n])[:120]))


def check_writes(c, W, st, evs, nodes, key, what, allowed=()):
    """The nodes are stored under their digests; nothing else is."""
    F = Facts(st.facts)
    for e in evs:
        if e[0] != "insert":
            c.expect(False, key + ":removed", "%s: %s" % (what, show_log(e)))
    ins = [e for e in evs if e[0] == "insert"]
    for nd in nodes:
        hit = [e for e in ins if F.same(e[1], nd[1])]
        if not c.expect(bool(hit), key + ":stored", lambda: "%s: the node of height %s is not stored under its digest" % (what, nd[2])):
            continue
        for e in hit:
            record_ok(c, W, st.fork(), e[2], nd, F, key, "%s, node of height %s" % (what, nd[2]))
    ok = list(nodes) + list(allowed)
    for e in ins:
        hit = [nd for nd in ok if F.same(e[1], nd[1])]
        if c.expect(bool(hit), key + ":foreign", lambda: "%s: something else than a node of the tree is stored: %s" % (what, show_log(e))) and hit[0] not in nodes:
            record_ok(c, W, st.fork(), e[2], hit[0], F, key, "%s, node of height %s" % (what, hit[0][2]))


def check_root(c, W, st, p, env, tree, key, what):
    outs = W.run(M + "root", [p], st, env)
    o, why = one(outs, "root %s" % what)
    if not c.expect(o is not None and is_ok(o[2]), key, lambda: why or "root fails: %s" % dom.show(o[2])[:100]):
        return None
    v = o[2][2][0]
    F = Facts(o[1].facts)
    fee, h = tree.root()[:2]
    ok = type(v) is tuple and v[0] == "a" and len(v[2]) == 2
    c.expect(ok and num_is(v[2][0], fee, F), key + ":fee", lambda: "%s: the root's fee is %s, the leaves sum to %s" % (what, dom.show(v)[:80], dom.show(fee)[:80]))
    c.expect(ok and F.same(v[2][1], h), key + ":digest", lambda: "%s: the root digest is %s, the definition gives %s" % (what, dom.show(v)[:160], dom.show(h)[:160]))
    return o[1]


# ------------------------------------------------------------- sequences

MAX = (1 << 64) - 1

FEES = {
    # name: fee of leaf j of n
    "symbolic": lambda j, n: fee_sym(j),
    # one bit in n belongs to each leaf, so the sum never overflows and takes every value
    "spread": lambda j, n: fee_bits(j, [b for b in range(64) if b % n == j]),
    "zero": lambda j, n: 0,
    "one": lambda j, n: 1,
    "huge-first": lambda j, n: MAX - (n << 8) if j == 0 else (j * 37) & 0xff,
    "huge-last": lambda j, n: MAX - (n << 8) if j == n - 1 else (j * 91) & 0xff,
    "wide": lambda j, n: ((0x9E3779B97F4A7C15 * (j + 3)) & MAX) >> (n.bit_length() + 1),
    "powers": lambda j, n: (1 << (j * 7 % 56)) if n < 200 else j,
}


for _k in range(5):
    # one leaf of any fee at all, the others of none
    FEES["lone%d" % _k] = lambda j, n, k=_k: fee_sym(j, 64) if j == (k if n < 6 else k * n // 5) else 0


def fee_bits(j, bits):
    b = dom.ent_bits(dom.T("fee", j, w=64), 64)
    return dom.norm(tuple(b[x] if x in bits else 0 for x in range(64)))


def fee_sym(j, bits=56):
    """An unknown fee below 2^56."""
    t = dom.T("fee", j, w=64)
    b = dom.ent_bits(t, 64)
    return dom.norm(tuple(b[:bits]) + (0,) * (64 - bits))


def sequence_rule(c, W, n, fees, roots):
    """n pushes onto a new tree; the root is asked for at the given points."""
    key = "sum:n=%d:%s:%s" % (n, fees, roots)
    what = "%d pushes (fees: %s)" % (n, fees)
    dom.base_reset()
    st, env = St(), Env()
    o, why = one(W.run(M + "new", [S], st, env), "new")
    if not c.expect(o is not None, key + ":new", why or ""):
        return
    st, p = o[1], ref(o[1], o[2])
    tree = Tree()
    st = check_root(c, W, st, p, env, tree, key + ":empty", "new tree") or st
    c.expect(not log(st), key + ":empty-writes", "asking an empty tree for its root writes to storage")
    c.count("sequences")
    for j in range(n):
        fee = FEES[fees](j, n)
        d = bytes_arg(st, "d%d" % j)
        n0 = st.w.n if st.w else 0
        done = tree.add(fee, spec.s_leaf(fee, dom.sym("d%d" % j)))
        o, why = one(W.run(M + "push", [p, fee, d], st, env), "push %d of %s" % (j, what))
        if not c.expect(o is not None and is_ok(o[2]), key + ":push", lambda: why or "push %d of %s returns %s" % (j, what, dom.show(o[2])[:100])):
            return
        st = o[1]
        c.count("pushes")
        check_writes(c, W, st, log(st)[n0:], done, key, "push %d of %s" % (j, what))
        if roots == "each" or j == n - 1 or roots == "odd" and j % 2 or roots == "copy":
            s = st.fork() if roots == "copy" else st
            n0 = s.w.n if s.w else 0
            s2 = check_root(c, W, s, p, env, tree, key + ":root", "after %d pushes of %s" % (j + 1, what))
            if s2 is None:
                return
            # asking for the root stores the inner nodes above the complete subtrees
            every = [tree.mth(a, b) for a, b in tree.memo]
            check_writes(c, W, s2, log(s2)[n0:], tree.spine(), key + ":spine", "root after %d pushes of %s" % (j + 1, what), every)
            c.count("roots")
            if roots != "copy":
                st = s2
    if n == 5:
        c.sample({"pushes": n, "fees": fees, "writes": [show_log(e)[:200] for e in log(st)], "root": [dom.show(x)[:200] for x in tree.root()[:2]]})


def sequences(c):
    out = []
    ns = (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17) if not c.thorough else tuple(range(1, 34)) + (47, 63, 64, 65)
    for n in ns:
        out.append((n, "symbolic", "each"))
        out.append((n, "symbolic", "odd"))
        out.append((n, "symbolic", "copy"))
        if n in (1, 2, 3, 7, 8, 11) or c.thorough:
            out += [(n, f, "each") for f in FEES if f != "symbolic" and not (f.startswith("lone") and int(f[4:]) >= n)]
    # longer ones, in which higher subtrees come about
    out += [(40, "wide", "last"), (40, "symbolic", "each"), (64, "symbolic", "odd"), (129, "symbolic", "last"), (130, "wide", "odd"), (300, "wide", "odd"), (1030, "wide", "last")]
    if c.thorough:
        out += [(130, "symbolic", "each"), (257, "symbolic", "odd"), (600, "powers", "odd"), (2050, "wide", "odd"), (16390, "wide", "last")]
    return out[::-1]


# ---------------------------------------------------------------- faults

def fault_rule(c, W, n):
    """Storage fails at every write of the next push, and of root."""
    key = "sum-fault:n=%d" % n
    what = "after %d pushes" % n
    dom.base_reset()
    st, env = St(), Env()
    o, why = one(W.run(M + "new", [S], st, env), "new")
    if not c.expect(o is not None, key + ":new", why or ""):
        return
    st, p = o[1], ref(o[1], o[2])
    tree = Tree()
    for j in range(n):
        d = bytes_arg(st, "d%d" % j)
        fee = fee_sym(j)
        tree.add(fee, spec.s_leaf(fee, dom.sym("d%d" % j)))
        o, why = one(W.run(M + "push", [p, fee, d], st, env), "push")
        if not c.expect(o is not None and is_ok(o[2]), key + ":push", why or "push fails"):
            return
        st = o[1]
    base = st.w.n if st.w else 0
    fenv = Env(rf=True, wf=True)
    d, fee = bytes_arg(st, "d%d" % n), fee_sym(n)
    after = Tree(tree.leaves)
    done = after.add(fee, spec.s_leaf(fee, dom.sym("d%d" % n)))
    after.root()
    tree.root()
    every = [after.mth(a, b) for a, b in after.memo] + [tree.mth(a, b) for a, b in tree.memo]
    for op, outs in (("push", W.run(M + "push", [p, fee, d], st.fork(), fenv)), ("root", W.run(M + "root", [p], st.fork(), fenv))):
        for kind, s, v in outs:
            fl = s.x.get("fault")
            if fl is None:
                continue
            c.count("faults_" + op)
            where = "%s %s, %s failing at %s" % (op, what, "read" if fl[0] == "r" else fl[1][0], fl[2])
            if not c.expect(kind == "ret", key + ":panic", lambda: "%s panics: %s in %s" % (where, v[0], v[1])):
                continue
            c.expect(is_err(v) and carries(v, ERR), key + ":reported", lambda: "%s is not reported: %s" % (where, dom.show(v)[:120]))
            late = s.x.get("late")
            c.expect(late is None, key + ":continues", lambda: "%s goes on writing: %s" % (where, show_log(late[0])))
            check_writes(c, W, s, log(s)[base:], [], key, where, every)
            s.x = {}
            check_root(c, W, s.fork(), p, env, tree, key + ":root", "after a " + where)
            n0 = s.w.n if s.w else 0
            o, why = one(W.run(M + "push", [p, fee, d], s, env), "a push after a " + where)
            if c.expect(o is not None and is_ok(o[2]), key + ":retry", lambda: why or "a push after a %s fails" % where):
                check_writes(c, W, o[1], log(o[1])[n0:], done, key + ":retry", "a push after a " + where)
                check_root(c, W, o[1], p, env, after, key + ":retry-root", "a push after a " + where)
