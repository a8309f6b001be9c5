"""Rules for the storage-backed binary tree."""
import dom
import spec
from absint import St
from shapes import Rfc, key_of, peaks
from world import Env, bytes_arg, log, ref

B = "binary::merkle_tree::MerkleTree::"
S = ("o", "S", 0)


def small(c):
    return 40 if not c.thorough else 300


def leaf_counts(c):
    """Leaf counts whose binary shape covers the cases of carries and peaks."""
    out = set(range(small(c)))
    top = 61
    for k in range(4, top + 1):
        out |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
        if c.thorough:
            out |= {(1 << k) - 2, (1 << k) + 2, (1 << k) + 3, (1 << k) + (1 << (k // 2))}
    x = 0x9E3779B97F4A7C15 ^ c.seed
    for k in range(6 if not c.thorough else 200):
        x = (x * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1)
        out.add((x >> 3) & ((1 << 61) - 1))
        # a run of trailing ones under an arbitrary upper part
        t = k % 40
        out.add((((x >> 5) & ((1 << 60) - 1)) >> (t + 1) << (t + 1)) | ((1 << t) - 1))
    return sorted(n for n in out if n < (1 << 61) + 2)


def leaf_indices(c, n):
    """Leaf indices of an n-leaf tree worth proving."""
    if n <= (12 if not c.thorough else 72):
        return range(n)
    out = set()
    for h, s in peaks(n):
        e = s + (1 << h)
        out |= {s, e - 1, s + (1 << h) // 2, s + (1 << h) // 3, s + (0x5555555555555555 & ((1 << h) - 1))}
    out = sorted(out)
    if not c.thorough and len(out) > 14:
        out = out[:4] + out[4:-4:max(1, len(out) // 8)] + out[-4:]
    return out


class Facts:
    """Comparison of values under the facts of one outcome."""

    def __init__(self, f=None):
        self.f = f or {}
        self.memo = dom.renamed(self.f)
        self.cases = None
        self.samples = None

    def term(self, v):
        return dom.under(v if type(v) is dom.Term else dom.bterm(v), self.f, self.memo)

    def same(self, v, t):
        """Whether value v is exactly the byte string t."""
        if v is None:
            return False
        try:
            a, b = self.term(v), self.term(t)
        except (dom.Unsupported, TypeError, IndexError):
            return False
        if a is b:
            return True
        if not self.maybe(a, b):
            return False
        return dom.bytes_eq(a, b, self.f) == 1 or self.by_cases(v, t)

    def any(self, v, ts):
        """Whether value v is one of some byte strings."""
        ts = list(ts)
        if any(self.ident(v, t) for t in ts):
            return True
        # the likely ones first, as telling two strings apart can be laborious
        near = {t for t in ts if self.sampled(v, t)}
        return any(self.same(v, t) for t in sorted(ts, key=lambda t: t not in near))

    def sampled(self, v, t):
        """Whether two strings are the same in some particular cases."""
        if self.samples is None:
            self.samples = dom.samples(self.f)
        try:
            a, b = self.term(v), self.term(t)
        except (dom.Unsupported, TypeError, IndexError):
            return False
        return all(s.term(a) is s.term(b) for s in self.samples)

    def by_cases(self, v, t):
        """Decide what the facts say only in combination, case by case."""
        if self.cases is None:
            self.cases = [Facts(f) for f in dom.split_cases(self.f)]
        return len(self.cases) > 1 and all(F.ident(v, t) for F in self.cases)

    def maybe(self, a, b):
        """False when the outermost shapes already tell the strings apart."""
        if {a.op, b.op} == {"H"}:
            p, q = a.args[1], b.args[1]
            return len(p) == len(q) and all(x == y for x, y in zip(p, q) if type(x) is int and type(y) is int)
        return a.op == "sel" or b.op == "sel"

    def ident(self, v, t):
        try:
            return self.term(v) is self.term(t)
        except (dom.Unsupported, TypeError, IndexError):
            return False


def same(v, t, f=None):
    return Facts(f).same(v, t)


def one(outs, what):
    """The only outcome of a call; the reason when there is another."""
    bad = [o for o in outs if o[0] != "ret"]
    if bad:
        return None, "%s panics: %s in %s" % (what, bad[0][2][0], bad[0][2][1])
    if len(outs) != 1:
        return None, "%s has %d distinguishable outcomes" % (what, len(outs))
    return outs[0], None


def is_ok(v):
    return type(v) is tuple and v[0] == "a" and v[1] == 0


def load(c, W, n, tree, env=None, st=None):
    """Abstract tree loaded from storage holding n leaves."""
    st = st or St()
    dom.base_reset()
    env = env or Env(tree.contents)
    return env, W.run(B + "load", [S, n], st, env)


def loaded(c, W, n, tree, key, env=None):
    env, outs = load(c, W, n, tree, env)
    o, why = one(outs, "load of a tree of %d leaves" % n)
    if not c.expect(o is not None and is_ok(o[2]), key + ":load", why or "load of an intact tree of %d leaves does not succeed: %s" % (n, outs and dom.show(outs[0][2])[:120])):
        return None
    st = o[1]
    return env, st, ref(st, o[2][2][0])


def check_root(c, W, st, p, env, want, key, what):
    outs = W.run(B + "root", [p], st, env)
    o, why = one(outs, "root %s" % what)
    if o is None:
        return c.expect(False, key, why)
    v = o[2]
    # a fallible root is accepted in either form
    if type(v) is tuple and v[0] == "a" and v[1] == 0 and len(v[2]) == 1:
        v = v[2][0]
    return c.expect(same(v, want, o[1].facts), key, lambda: "%s: root is %s, the definition gives %s" % (what, dom.show(v)[:160], dom.show(want)[:160]))


def show_log(ev):
    return "%s %s" % (ev[0], ", ".join(dom.show(x)[:90] for x in ev[1:]))


def check_writes(c, evs, want, key, what):
    """Exactly the expected nodes are stored, each under its own position."""
    got = {}
    for e in evs:
        if e[0] != "insert":
            c.expect(False, key + ":" + e[0], "%s: %s" % (what, show_log(e)))
            continue
        k, v = e[1], e[2]
        ok = type(v) is tuple and v[0] == "a" and len(v[2]) == 2 and v[2][0] == k
        c.expect(ok, key + ":position", lambda: "%s: the node stored under %s records another position: %s" % (what, dom.show(k)[:60], dom.show(v)[:100]))
        if type(k) is int and ok:
            if k in got and got[k] != v:
                c.expect(False, key + ":twice", "%s: two different nodes are stored under position %d" % (what, k))
            got[k] = v
        else:
            c.expect(False, key + ":position", "%s: store under %s" % (what, dom.show(k)[:80]))
    for k, t in want.items():
        v = got.get(k)
        c.expect(v is not None and same(v[2][1], t), key + ":node", lambda: "%s: position %d should hold %s, holds %s" % (what, k, dom.show(t)[:120], dom.show(v)[:120] if v else "nothing new"))
    for k in got:
        c.expect(k in want, key + ":extra", lambda: "%s: a node is stored under position %d, which this leaf does not complete" % (what, k))


def push_rule(c, W, n, tag=""):
    key = "push%s:n=%d" % (tag, n)
    tree = Rfc(n)
    r = loaded(c, W, n, tree, key)
    if r is None:
        return
    env, st, p = r
    check_root(c, W, st.fork(), p, env, tree.root(), key + ":root-before", "loaded tree of %d leaves" % n)
    data = bytes_arg(st, "data")
    leaf = spec.b_leaf(dom.sym("data"))
    outs = W.run(B + "push", [p, data], st, env)
    c.count("push_shapes")
    for o in outs:
        k, s, v = o
        if k != "ret":
            c.expect(False, key + ":panic", "push onto %d leaves panics: %s in %s" % (n, v[0], v[1]))
            continue
        c.expect(is_ok(v), key + ":result", lambda: "push onto %d leaves returns %s" % (n, dom.show(v)[:100]))
        want, _ = tree.push_log(leaf)
        check_writes(c, log(s), want, key, "push onto %d leaves" % n)
        after = tree.pushed(leaf)
        check_root(c, W, s.fork(), p, env, after.root(), key + ":root", "after a push onto %d leaves" % n)
    if n in (5, 1 << 40):
        c.sample({"leaves": n, "writes": [show_log(e) for e in log(outs[0][1])], "root": dom.show(tree.pushed(leaf).root())[:200]})
    return outs


def proof_rule(c, W, n, i):
    key = "prove:n=%d:i=%d" % (n, i)
    tree = Rfc(n, {i})
    r = loaded(c, W, n, tree, key)
    if r is None:
        return
    env, st, p = r
    outs = W.run(B + "prove", [p, i], st, env)
    c.count("proofs")
    o, why = one(outs, "prove(%d) of %d leaves" % (i, n))
    if o is None:
        return c.expect(False, key, why)
    v = o[2]
    if not c.expect(is_ok(v), key + ":result", lambda: "prove(%d) of %d leaves fails: %s" % (i, n, dom.show(v)[:120])):
        return
    root, ps = v[2][0][2]
    c.expect(same(root, tree.root()), key + ":root", lambda: "prove(%d) of %d leaves returns root %s" % (i, n, dom.show(root)[:120]))
    check_proof(c, ps, tree.proof(i), key, "prove(%d) of %d leaves" % (i, n))
    c.expect(not log(o[1]), key + ":writes", "prove writes to storage")


def check_proof(c, ps, want, key, what):
    got = list(ps[1]) if type(ps) is tuple and ps[0] in ("vec", "arr") else None
    if not c.expect(got is not None and len(got) == len(want), key + ":length", lambda: "%s: the proof set has %s entries, the audit path %d" % (what, got and len(got), len(want))):
        return
    for j, (a, b) in enumerate(zip(got, want)):
        c.expect(same(a, b), key + ":set", lambda: "%s: entry %d of the proof set is %s, the audit path has %s" % (what, j, dom.show(a)[:120], dom.show(b)[:120]))


# ---------------------------------------------------------------- errors

def variant(W, fn, adt, v):
    """Name of the variant of an error value, from the program's own types."""
    if not (type(v) is tuple and v and v[0] == "a"):
        return None
    for t in W.prog(fn).types:
        if t.get("adt") == adt:
            for name, n, _ in t["vs"]:
                if n == v[1]:
                    return name
    return None


def error_of(W, v, fn=B + "prove"):
    """(variant, payload) of an Err result; (None, None) when it is none."""
    if type(v) is tuple and v[0] == "a" and v[1] == 1 and len(v[2]) == 1:
        e = v[2][0]
        name = variant(W, fn, "binary::merkle_tree::MerkleTreeError", e)
        if name:
            return name, e[2][0] if len(e[2]) == 1 else e[2]
    return None, None


def missing_ok(W, v, gone, fn):
    """An error that says a stored node is missing, and names which."""
    name, x = error_of(W, v, fn)
    return name == "LoadError" and type(x) is int and x in gone


# ------------------------------------------------------------- sequences

def datum(st, j):
    return bytes_arg(st, "d%d" % j), spec.b_leaf(dom.sym("d%d" % j))


def exact(n, leaves):
    t = Rfc(n, range(n), leaves)
    t.openall = True
    return t


def fresh(c, W, st, env, key):
    o, why = one(W.run(B + "new", [S], st, env), "new")
    if not c.expect(o is not None, key + ":new", why or ""):
        return None
    st = o[1]
    return st, ref(st, o[2])


def grow(c, W, st, p, env, a, b, leaves, key, what, roots=True):
    """Push leaves a .. b-1; the writes and the root are checked every time."""
    for j in range(a, b):
        d, t = datum(st, j)
        n0 = st.w.n if st.w else 0
        o, why = one(W.run(B + "push", [p, d], st, env), "%s: push %d" % (what, j))
        if not c.expect(o is not None and is_ok(o[2]), key + ":push", lambda: why or "%s: push %d returns %s" % (what, j, dom.show(o[2])[:100])):
            return None
        st = o[1]
        want, _ = exact(j, leaves).push_log(t)
        leaves[j] = t
        check_writes(c, log(st)[n0:], want, key, "%s: push %d" % (what, j))
        if roots:
            check_root(c, W, st.fork(), p, env, exact(j + 1, leaves).root(), key + ":root", "%s: after push %d" % (what, j))
    return st


def sequence_rule(c, W, n):
    """n pushes onto a new tree, leaf data unknown."""
    key = "sequence:n=%d" % n
    dom.base_reset()
    st, env = St(), Env()
    r = fresh(c, W, st, env, key)
    if r is None:
        return
    st, p = r
    check_root(c, W, st.fork(), p, env, spec.b_empty(), key + ":empty", "new tree")
    leaves = {}
    st = grow(c, W, st, p, env, 0, n, leaves, key, "new tree")
    if st is None:
        return
    c.count("sequences")
    prove_all(c, W, st, p, env, n, leaves, key, "tree of %d pushed leaves" % n)


def prove_all(c, W, st, p, env, n, leaves, key, what, idx=None):
    t = exact(n, leaves)
    for i in (range(n) if idx is None else idx):
        o, why = one(W.run(B + "prove", [p, i], st.fork(), env), "%s: prove(%d)" % (what, i))
        if not c.expect(o is not None and is_ok(o[2]), key + ":prove", lambda: why or "%s: prove(%d) fails: %s" % (what, i, dom.show(o[2])[:120])):
            continue
        root, ps = o[2][2][0][2]
        c.count("proofs")
        c.expect(same(root, t.root()), key + ":proof-root", lambda: "%s: prove(%d) returns root %s" % (what, i, dom.show(root)[:120]))
        check_proof(c, ps, t.proof(i), key, "%s: prove(%d)" % (what, i))


def reload_rule(c, W, n, m, more):
    """n pushes, load with m of them, `more` further pushes, load again."""
    key = "reload:n=%d:m=%d:+%d" % (n, m, more)
    what = "%d pushes, reload with %d" % (n, m)
    dom.base_reset()
    st, env = St(), Env()
    r = fresh(c, W, st, env, key)
    if r is None:
        return
    st, p = r
    leaves = {}
    st = grow(c, W, st, p, env, 0, n, leaves, key, what, roots=False)
    if st is None:
        return
    leaves = {j: t for j, t in leaves.items() if j < m}
    for step in range(2):
        k = len(leaves)
        o, why = one(W.run(B + "load", [S, k], st, env), "%s: load(%d)" % (what, k))
        if not c.expect(o is not None and is_ok(o[2]), key + ":load", lambda: why or "%s: load(%d) fails: %s" % (what, k, dom.show(o[2])[:120])):
            return
        st = o[1]
        p = ref(st, o[2][2][0])
        c.count("reloads")
        check_root(c, W, st.fork(), p, env, exact(k, leaves).root(), key + ":root", "%s: loaded with %d leaves" % (what, k))
        prove_all(c, W, st, p, env, k, leaves, key, "%s: loaded with %d leaves" % (what, k))
        if step:
            break
        # leaf data of the second run differs from the first
        for j in range(k, k + more):
            d = bytes_arg(st, "e%d" % j)
            t = spec.b_leaf(dom.sym("e%d" % j))
            n0 = st.w.n if st.w else 0
            o, why = one(W.run(B + "push", [p, d], st, env), "%s: push" % what)
            if not c.expect(o is not None and is_ok(o[2]), key + ":push", lambda: why or "%s: push fails" % what):
                return
            st = o[1]
            want, _ = exact(j, leaves).push_log(t)
            check_writes(c, log(st)[n0:], want, key, "%s: push %d" % (what, j))
            leaves[j] = t
        check_root(c, W, st.fork(), p, env, exact(len(leaves), leaves).root(), key + ":grown", "%s and %d pushes" % (what, more))
        prove_all(c, W, st, p, env, len(leaves), leaves, key, "%s and %d pushes" % (what, more))


def reloads(c):
    N = 11 if not c.thorough else 22
    out = []
    for n in range(N):
        for m in range(n + 1):
            if c.thorough or m in (0, n, n - 1, n // 2) or n < 6:
                out.append((n, m, 3 if not c.thorough else 6))
    return out


# --------------------------------------------------------------- missing

def hole_rule(c, W, n, gone):
    """The nodes at the given positions are missing from storage."""
    key = "hole:n=%d:%s" % (n, ",".join(map(str, gone)))
    what = "tree of %d leaves without the node at %s" % (n, ", ".join(map(str, gone)))
    tree = Rfc(n)
    gone = set(gone)

    def contents(I, st, k):
        return [(st, None)] if k in gone else tree.contents(I, st, k)
    env = Env(contents)
    dom.base_reset()
    o, why = one(W.run(B + "load", [S, n], St(), env), "load of a " + what)
    if not c.expect(o is not None, key + ":load", why or ""):
        return
    c.count("holes")
    top = {key_of(h, s) for h, s in peaks(n)}
    if top & gone:
        c.expect(missing_ok(W, o[2], gone, B + "load"), key + ":named", lambda: "load of a %s gives %s" % (what, dom.show(o[2])[:120]))
        return
    if not c.expect(is_ok(o[2]), key + ":load", lambda: "load of a %s fails although every root of a complete subtree is stored: %s" % (what, dom.show(o[2])[:100])):
        return
    c.count("trees_with_holes")


def prove_hole_rule(c, W, n, i, gone):
    """A node goes missing between load and prove."""
    key = "prove-hole:n=%d:i=%d:%s" % (n, i, gone)
    what = "prove(%d) of %d leaves without the node at %d" % (i, n, gone)
    tree = Rfc(n, {i})
    r = loaded(c, W, n, tree, key)
    if r is None:
        return
    env, st, p = r

    def contents(I, st, k):
        return [(st, None)] if k == gone else tree.contents(I, st, k)
    env = Env(contents)
    o, why = one(W.run(B + "prove", [p, i], st, env), what)
    c.count("holes")
    if not c.expect(o is not None, key, why or ""):
        return
    v = o[2]
    if is_ok(v):
        root, ps = v[2][0][2]
        c.expect(same(root, tree.root()), key + ":root", lambda: "%s: root %s" % (what, dom.show(root)[:100]))
        check_proof(c, ps, tree.proof(i), key, what)
    else:
        c.expect(missing_ok(W, v, {gone}, B + "prove"), key + ":named", lambda: "%s gives %s" % (what, dom.show(v)[:120]))
        if gone in {e.ev[1] for e in reads(o[1])}:
            c.count("named_holes")
    check_root(c, W, o[1].fork(), p, env, tree.root(), key + ":after", "after %s" % what)


def reads(st):
    out, e = [], st.r
    while e is not None:
        out.append(e)
        e = e.prev
    return out


def outside(n):
    """All 64-bit numbers from n on, as aligned ranges (start, log2 of the length)."""
    out = []
    while n < 1 << 64:
        k = (n & -n).bit_length() - 1 if n else 64
        out.append((n, k))
        n += 1 << k
    return out


def ranged(start, k):
    """An unknown number of an aligned range of 2^k."""
    b = dom.ent_bits(dom.T("index", 0, w=64), 64)
    return dom.norm(tuple(b[:k]) + tuple(start >> x & 1 for x in range(k, 64)))


def index_rule(c, W, n, i):
    """prove of an index that is not a leaf of the tree; (start, k): any index of the range."""
    key = "index:n=%d:i=%s" % (n, i if type(i) is int else "%d+%d" % i)
    if type(i) is tuple:
        i = ranged(*i)
    tree = Rfc(n)
    r = loaded(c, W, n, tree, key)
    if r is None:
        return
    env, st, p = r
    o, why = one(W.run(B + "prove", [p, i], st, env), "prove(%s) of %d leaves" % (dom.show(i)[:60], n))
    c.count("indices")
    if not c.expect(o is not None, key, why or ""):
        return
    name, x = error_of(W, o[2], B + "prove")
    c.expect(name == "InvalidProofIndex" and x == i, key + ":rejected", lambda: "prove(%s) of %d leaves gives %s" % (dom.show(i)[:60], n, dom.show(o[2])[:120]))
    check_root(c, W, o[1].fork(), p, env, tree.root(), key + ":after", "after a rejected prove(%s)" % dom.show(i)[:60])


def counts(c, top=60, small_=17):
    """A spread of leaf counts."""
    out = set(range(small_ if not c.thorough else 40))
    for k in range(5, top, 5 if not c.thorough else 1):
        out |= {(1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) | (1 << k // 2) | 1}
    return sorted(out)


def hole_items(c):
    out = []
    for n in counts(c):
        ks = [key_of(h, s) for h, s in peaks(n)]
        pick = ks if len(ks) < 9 or c.thorough else ks[:4] + ks[-4:]
        out += [(n, (k,)) for k in pick]
        if len(ks) > 1:
            out.append((n, tuple(ks)))
            out.append((n, (ks[0], ks[-1])))
        inner = {key_of(0, s) for h, s in peaks(n) if h} | {key_of(h - 1, s + (1 << h - 1)) for h, s in peaks(n) if h > 1}
        out += [(n, (k,)) for k in sorted(inner)[:3]]
        if n == 0:
            out.append((0, (0,)))
    return out


def prove_hole_items(c):
    out = []
    for n in counts(c, 60, 9):
        if not n:
            continue
        for i in sorted({0, n - 1, n // 2, n // 3}):
            h, s, top = next((h, s, key_of(h, s)) for h, s in peaks(n) if s <= i < s + (1 << h))
            side = []
            a, b = s, s + (1 << h)
            while b - a > 1:
                m = (a + b) // 2
                hh = (m - a).bit_length() - 1
                if i < m:
                    side.append(key_of(hh, m))
                    b = m
                else:
                    side.append(key_of(hh, a))
                    a = m
            ks = [key_of(0, i)] + side + [key_of(h2, s2) for h2, s2 in peaks(n)]
            ks = list(dict.fromkeys(ks))
            if len(ks) > 6 and not c.thorough:
                ks = ks[:3] + ks[len(ks) // 2:len(ks) // 2 + 1] + ks[-2:]
            out += [(n, i, k) for k in ks]
    return out


def index_items(c):
    """Every index that is not a leaf, as ranges."""
    return [(n, r) for n in (counts(c) if c.thorough else counts(c)[:17] + counts(c)[17::3]) for r in outside(n)]


# ---------------------------------------------------------------- faults

def fault_rule(c, W, n):
    """Storage fails at every possible point of push, one at a time."""
    key = "fault:n=%d" % n
    tree = Rfc(n)
    r = loaded(c, W, n, tree, key)
    if r is None:
        return
    env, st, p = r
    data = bytes_arg(st, "data")
    leaf = spec.b_leaf(dom.sym("data"))
    fenv = Env(tree.contents, rf=True, wf=True)
    want, _ = tree.push_log(leaf)
    after = tree.pushed(leaf)
    for kind, s, v in W.run(B + "push", [p, data], st, fenv):
        fl = s.x.get("fault")
        if fl is None:
            continue
        c.count("faults")
        where = "push onto %d leaves, %s failing at %s" % (n, "read" if fl[0] == "r" else fl[1][0], fl[2])
        if kind != "ret":
            c.expect(False, key + ":panic", "%s panics: %s in %s" % (where, v[0], v[1]))
            continue
        check_failed(c, W, B + "push", s, v, key, where)
        for e in log(s):
            ok = e[0] == "insert" and type(e[1]) is int and e[1] in want and same(e[2][2][1], want[e[1]])
            c.expect(ok, key + ":writes", lambda: "%s has written %s" % (where, show_log(e)))
        check_root(c, W, s.fork(), p, env, tree.root(), key + ":root", "after a %s" % where)
        s2 = s.fork()
        s2.x, s2.w = {}, None
        o, why = one(W.run(B + "push", [p, data], s2, env), where + ", repeated")
        if c.expect(o is not None and is_ok(o[2]), key + ":retry", why or "%s cannot be repeated" % where):
            check_writes(c, log(o[1]), want, key + ":retry", where + ", repeated")
            check_root(c, W, o[1], p, env, after.root(), key + ":retry-root", where + ", repeated")


def check_failed(c, W, fn, s, v, key, where):
    from world import ERR
    name, x = error_of(W, v, fn)
    c.expect(name == "StorageError" and x == ERR, key + ":reported", lambda: "%s is not reported as that storage error: %s" % (where, dom.show(v)[:120]))
    late = s.x.get("late")
    c.expect(late is None, key + ":continues", lambda: "%s goes on writing: %s" % (where, show_log(late[0])))


def read_fault_rule(c, W, n, i):
    """Storage fails at every read of load and of prove."""
    key = "read-fault:n=%d:i=%d" % (n, i)
    tree = Rfc(n, {i})
    fenv = Env(tree.contents, rf=True, wf=True)
    dom.base_reset()
    for kind, s, v in W.run(B + "load", [S, n], St(), fenv):
        if s.x.get("fault") is None:
            continue
        c.count("faults")
        where = "load of %d leaves, %s failing at %s" % (n, s.x["fault"][0], s.x["fault"][2])
        if c.expect(kind == "ret", key + ":panic", lambda: "%s panics: %s in %s" % (where, v[0], v[1])):
            check_failed(c, W, B + "load", s, v, key, where)
            c.expect(not log(s), key + ":writes", where + " writes")
    r = loaded(c, W, n, tree, key)
    if r is None:
        return
    env, st, p = r
    for kind, s, v in W.run(B + "prove", [p, i], st, fenv):
        if s.x.get("fault") is None:
            continue
        c.count("faults")
        where = "prove(%d) of %d leaves, %s failing at %s" % (i, n, s.x["fault"][0], s.x["fault"][2])
        if not c.expect(kind == "ret", key + ":panic", lambda: "%s panics: %s in %s" % (where, v[0], v[1])):
            continue
        check_failed(c, W, B + "prove", s, v, key, where)
        c.expect(not log(s), key + ":writes", where + " writes")
        s.x = {}
        check_root(c, W, s.fork(), p, env, tree.root(), key + ":root", "after a failed " + where)
        o, why = one(W.run(B + "prove", [p, i], s, env), where + ", repeated")
        if c.expect(o is not None and is_ok(o[2]), key + ":retry", why or "%s cannot be repeated" % where):
            check_proof(c, o[2][2][0][2][1], tree.proof(i), key, where + ", repeated")


def fault_items(c):
    return [(n,) for n in leaf_counts(c)]


def read_fault_items(c):
    out = []
    for n in counts(c):
        if n:
            out += [(n, i) for i in sorted({0, n - 1, n // 2})]
    return out
