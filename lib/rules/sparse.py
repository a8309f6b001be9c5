"""Rules for the storage-backed sparse tree."""
import dom
import spec
from absint import St
from dom import key_bit, sym
from rules.binary import S, Facts, is_ok, one, same, show_log
from sparse_shapes import Shape, prim
from spec import p_leaf, p_node, sel, val, zero
from world import ERR, Env, bytes_arg, log, ref

P = "sparse::merkle_tree::MerkleTree::"


# ------------------------------------------------------------------ helpers

def data_arg(st, name="data", empty=0):
    d = bytes_arg(st, name)
    dom.base_fact(dom.eq(d[4], 0, 64, {}), empty)
    return d


def prim_hash(v):
    """Hash term of a stored primitive; None when it is not one."""
    if type(v) is tuple and v[0] == "a" and len(v[2]) == 4:
        try:
            lo, hi = dom.bterm(v[2][2]), dom.bterm(v[2][3])
        except dom.Unsupported:
            return None
        if v[2][1] == 0:
            return p_leaf(lo, hi)
        if v[2][1] == 1:
            return p_node(lo, hi)
    return None


def prim_same(v, w, F):
    return (type(v) is tuple and v[0] == "a" and len(v[2]) == 4 and v[2][0] == w[2][0] and v[2][1] == w[2][1]
            and F.same(v[2][2], dom.bterm(w[2][2])) and F.same(v[2][3], dom.bterm(w[2][3])))


def load(c, W, root, env, st, key, what):
    outs = W.run(P + "load", [S, ref(st, val(root))], st, env)
    o, why = one(outs, "load of %s" % what)
    if not c.expect(o is not None and is_ok(o[2]), key + ":load", lambda: why or "load of %s does not succeed: %s" % (what, dom.show(outs[0][2])[:120])):
        return None
    return o[1], ref(o[1], o[2][2][0])


def root_of(c, W, st, p, env, want, key, what):
    outs = W.run(P + "root", [p], st, env)
    o, why = one(outs, "root %s" % what)
    if o is None:
        return c.expect(False, key, why)
    return c.expect(same(o[2], want, o[1].facts), key, lambda: "%s: root is %s, the definition gives %s" % (what, dom.show(o[2])[:200], dom.show(want)[:200]))


def final(evs, t, F):
    """Last event about the key t."""
    for e in reversed(evs):
        if F.ident(e[1], t):
            return e
    ks = {i for i, e in enumerate(evs) if F.sampled(e[1], t)}
    for near in (True, False):
        for i in range(len(evs) - 1, -1, -1):
            if (i in ks) == near and F.same(evs[i][1], t):
                return evs[i]
    return None


def check_stored(c, evs, want, F, key, what, sh=None):
    """Every expected node is stored, under its hash, with its contents."""
    for t, v, name in want:
        e = final(evs, t, F)
        good = type(e) is tuple and e[0] == "insert" and prim_same(e[2], v, F)
        if e is None and sh is not None:
            # nobody has touched it and it was there before
            good = dom.res(dom.atom("stale", name), F.f) == 1 or F.any(t, sh.table)
        c.expect(good, key + ":stored:" + name,
                 lambda: "%s: the %s is not stored under its hash with its contents: %s" % (what, name, "never written" if e is None else show_log(e)))


def check_inserts(c, evs, F, key, what, known):
    """Nothing is written but nodes under their own hash."""
    known = {F.term(t) for t in known}
    for e in evs:
        if e[0] != "insert":
            continue
        h = prim_hash(e[2])
        ok = h is not None and F.same(e[1], h)
        c.expect(ok, key + ":address", lambda: "%s: a node is stored under another key than its hash: %s" % (what, show_log(e)))
        c.expect(ok and (F.term(h) in known or F.any(h, known)), key + ":foreign", lambda: "%s: a node that belongs to neither tree is stored: %s" % (what, show_log(e)))


# -------------------------------------------------- expected trees by shape

def update_spec(sh, data):
    """Root and new nodes after K is set to the digest of `data`."""
    K = sh.K
    V = spec.digest(data)
    leaf = p_leaf(K, V)
    new = [(leaf, prim(0, 0, K, V), "new leaf")]
    cur = leaf

    def up(i, side, name):
        b = key_bit(K, i)
        lo, hi = sel(b, side, cur), sel(b, cur, side)
        h = p_node(lo, hi)
        new.append((h, prim(256 - i, 1, lo, hi), name))
        return h
    if isinstance(sh.term, int):
        cur = up(sh.term, sh.T, "parent of both leaves at depth %d" % sh.term)
        for i in range(sh.term - 1, sh.k - 1, -1):
            cur = up(i, zero(), "node over a placeholder at depth %d" % i)
    for i in range(sh.k - 1, -1, -1):
        cur = up(i, sh.S[i], "path node at depth %d" % i)
    return cur, new


def delete_spec(sh, f):
    """Root and new nodes after the leaf of K is deleted, under facts f."""
    cur, lone = zero(), None
    new = []
    for i in range(sh.k - 1, -1, -1):
        if lone is None:
            lone = dom.res(sh.leaf[i], f)
            if lone == 1:
                cur = sh.S[i]
                continue
            if lone != 0:
                return None, None
        elif lone:
            z = dom.res(sh.zero[i], f)
            if z == 1:
                continue
            if z != 0:
                return None, None
            lone = 0
        b = key_bit(sh.K, i)
        lo, hi = sel(b, sh.S[i], cur), sel(b, cur, sh.S[i])
        cur = p_node(lo, hi)
        new.append((cur, prim(256 - i, 1, lo, hi), "collapsed path node at depth %d" % i))
    return cur, new


# ----------------------------------------------------------------- updates

def shape_name(k, term, sides=None):
    t = {"none": "a placeholder", "same": "the key's leaf"}.get(term, "a leaf differing at bit %s" % term)
    return "path of %d nodes ending in %s" % (k, t)


def update_rule(c, W, k, term, sides=None, env=None):
    key = "update:k=%d:%s" % (k, term)
    what = "update, " + shape_name(k, term)
    sh = Shape(k, term, sides)
    st = St()
    env = Env(sh.contents)
    d = data_arg(st)
    root, new = update_spec(sh, dom.sym("data"))
    sh.later = lambda f: new
    r = load(c, W, sh.root, env, st, key, shape_name(k, term))
    if r is None:
        return
    st, p = r
    outs = W.run(P + "update", [p, ref(st, val(sh.K)), d], st, env)
    c.count("update_shapes")
    for kind, s, v in outs:
        if kind != "ret":
            c.expect(False, key + ":panic", "%s panics: %s in %s" % (what, v[0], v[1]))
            continue
        F = Facts(s.facts)
        if not c.expect(is_ok(v), key + ":result", lambda: "%s fails: %s" % (what, dom.show(v)[:160])):
            continue
        evs = log(s)
        root_of(c, W, s.fork(), p, env, root, key + ":root", what)
        check_stored(c, evs, new, F, key, what, sh)
        check_inserts(c, evs, F, key, what, [t for t, _, _ in new] + list(sh.table))
        for e in evs:
            if e[0] == "remove":
                c.expect(False, key + ":removed", "%s removes a stored node: %s" % (what, show_log(e)))
    if (k, term) == (3, 5):
        c.sample({"shape": shape_name(k, term), "writes": [show_log(e)[:200] for e in log(outs[0][1])]})
    return outs


def delete_rule(c, W, k, term, sides=None, how="delete"):
    key = "%s:k=%d:%s" % (how, k, term)
    what = "%s, %s" % ("delete" if how == "delete" else "update with empty data", shape_name(k, term))
    sh = Shape(k, term, sides)
    st = St()
    env = Env(sh.contents)
    d = data_arg(st, empty=1) if how != "delete" else None
    sh.later = (lambda f: delete_spec(sh, f)[1] or []) if term == "same" else None
    r = load(c, W, sh.root, env, st, key, shape_name(k, term))
    if r is None:
        return
    st, p = r
    args = [p, ref(st, val(sh.K))]
    outs = W.run(P + "delete", args, st, env) if how == "delete" else W.run(P + "update", args + [d], st, env)
    c.count("delete_shapes")
    for kind, s, v in outs:
        c.count("delete_outcomes")
        if kind != "ret":
            c.expect(False, key + ":panic", "%s panics: %s in %s" % (what, v[0], v[1]))
            continue
        F = Facts(s.facts)
        if not c.expect(is_ok(v), key + ":result", lambda: "%s fails: %s" % (what, dom.show(v)[:160])):
            continue
        evs = log(s)
        if term != "same":
            root_of(c, W, s.fork(), p, env, sh.root, key + ":root", what + " (nothing to delete)")
            for e in evs:
                c.expect(False, key + ":noop", "%s writes to storage although the key is absent: %s" % (what, show_log(e)))
            continue
        root, new = delete_spec(sh, F.f)
        if not c.expect(root is not None, key + ":partition", "%s: the outcome does not depend on the kind of the sibling nodes" % what):
            continue
        root_of(c, W, s.fork(), p, env, root, key + ":root", what)
        check_stored(c, evs, new, F, key, what, sh)
        check_inserts(c, evs, F, key, what, [t for t, _, _ in new] + list(sh.table))
        for i in range(k + 1):
            t = sh.N[i]
            e = final(evs, t, F)
            c.expect(type(e) is tuple and e[0] == "remove", key + ":stale", lambda: "%s: the former path node at depth %d stays stored" % (what, i))
        for e in evs:
            if e[0] == "remove":
                c.expect(any(F.ident(e[1], t) for t in sh.N), key + ":removed", lambda: "%s removes a node that is not on the deleted path: %s" % (what, show_log(e)))
    if (k, term) == (3, "same"):
        c.sample({"shape": shape_name(k, term), "outcomes": [[show_log(e)[:160] for e in log(s)] for _, s, _ in outs]})
    return outs


# ------------------------------------------------------------ partitions

def shapes_update(c):
    out = []
    if c.thorough:
        ks = list(range(0, 40)) + list(range(40, 256, 5)) + [255, 256]
    else:
        ks = list(range(0, 13)) + [16, 17, 31, 32, 33, 64, 100, 128, 200, 254, 255]
    for k in ks:
        if k <= 256:
            out.append((k, "same"))
        if k <= 255 and k:
            out.append((k, "none"))
        if k == 0:
            out.append((0, "none"))
        if c.thorough:
            ds = {k, k + 1, k + 2, k + 7, k + 8, k + 9, k + 31, k + 64, 127, 128, 253, 254, 255} | ({k + 16 * j for j in range(16)} if k < 8 else set())
        else:
            ds = {k, k + 1, k + 8, 255} if k < 8 else {k, k + 3}
            if k == 0:
                ds |= {2, 7, 9, 15, 16, 64, 127, 128, 200, 254}
        out += [(k, d) for d in sorted(ds) if k <= d <= 255]
    return out


def shapes_delete(c):
    out = []
    for k in (range(0, 41) if c.thorough else list(range(0, 13)) + [16, 20]):
        out.append((k, "same", None))
        if k:
            out.append((k, "none", None))
        elif k == 0:
            out.append((0, "none", None))
        out += [(k, d, None) for d in sorted({k, k + 5, 255})]
    # long paths: the kinds of the siblings are fixed, all but a few empty
    def fixed(k, last, others):
        m = {i: "0" for i in range(k)}
        m.update(others)
        m[k - 1] = last
        return m
    ks = (30, 64, 100, 128, 200, 254, 255, 256) if not c.thorough else tuple(range(44, 256, 12)) + (253, 254, 255, 256)
    for k in ks:
        for last in "LN":
            for others in ({}, {0: "N"}, {0: "L"}, {k - 2: "N"}, {k - 2: "L"}, {k // 2: "L", 1: "N"}):
                if k == 256 and last == "N":
                    continue
                out.append((k, "same", fixed(k, last, others)))
        out.append((k, "none", {i: "0" for i in range(k - 1)})) if k < 256 else None
    return out


# --------------------------------------------------------------- histories

def canon(leaves, j=0):
    """(root, [(hash, primitive)]) of the canonical tree of leaves {key: digest}."""
    ks = list(leaves)
    if not ks:
        return zero(), []
    if len(ks) == 1:
        h = p_leaf(ks[0], leaves[ks[0]])
        return h, [(h, prim(0, 0, ks[0], leaves[ks[0]]))]
    b = key_bit(ks[0], j)
    same_, diff = {}, {}
    for k in ks:
        x = dom.res(dom.e_xor(dom.res(b, {}), dom.res(key_bit(k, j), {})), {})
        if x > 1:
            raise dom.Unsupported("relation of two keys at bit %d" % j)
        (diff if x else same_)[k] = leaves[k]
    (x, nx), (y, ny) = canon(same_, j + 1), canon(diff, j + 1)
    b = dom.res(b, {})
    lo, hi = sel(b, y, x), sel(b, x, y)
    h = p_node(lo, hi)
    return h, nx + ny + [(h, prim(256 - j, 1, lo, hi))]


def keys_of(divs):
    """Keys K0, K1, ...: key i+1 leaves key j at bit d for divs[i] = (j, d)."""
    dom.base_reset()
    ks = [sym("K0", 32)]
    dom.mark_bits(ks[0])
    for i, (j, d) in enumerate(divs):
        k = sym("K%d" % (i + 1), 32)
        dom.mark_bits(k)
        for p in range(d):
            dom.base_fact(key_bit(k, p), key_bit(ks[j], p))
        dom.base_fact(key_bit(k, d), key_bit(ks[j], d) ^ 1)
        ks.append(k)
    return ks


def datum(st, s):
    b = s.encode()
    c = st.alloc(("arr", tuple(b)))
    return ("s", c, (), 0, len(b)), spec.digest_of(b)


def check_reachable(c, evs, nodes, F, key, what):
    for t, v in nodes:
        e = final(evs, t, F)
        c.expect(e is not None and e[0] == "insert" and prim_same(e[2], v, F), key + ":reachable", lambda: "%s: a node of the current tree is not stored: %s" % (what, dom.show(t)[:160]))


def history_rule(c, W, divs, ops, reload=False):
    """A sequence of operations from the empty tree, on keys of a given trie."""
    key = "history:%s:%s%s" % (";".join("%d@%d" % d for d in divs), ",".join(ops), ":reload" if reload else "")
    what = "keys %s, operations %s" % (", ".join("K%d leaves K%d at bit %d" % (i + 1, j, d) for i, (j, d) in enumerate(divs)) or "K0", " ".join(ops))
    ks = keys_of(divs)
    st, env = St(), Env()
    outs = W.run(P + "new", [S], st, env)
    o, why = one(outs, "new")
    if o is None:
        return c.expect(False, key, why)
    st, p = o[1], ref(o[1], o[2])
    have = {}
    c.count("histories")
    for n, op in enumerate(ops):
        at = "%s: after %s" % (what, " ".join(ops[:n + 1]))
        K = ks[int(op[1])]
        kp = ref(st, val(K))
        if op[0] == "u":
            arg, dig = datum(st, op[2:] or "v")
            outs = W.run(P + "update", [p, kp, arg], st, env)
            have[K] = dig
        elif op[0] == "e":
            outs = W.run(P + "update", [p, kp, datum(st, "")[0]], st, env)
            have.pop(K, None)
        else:
            outs = W.run(P + "delete", [p, kp], st, env)
            have.pop(K, None)
        o, why = one(outs, at)
        if not c.expect(o is not None and is_ok(o[2]), key + ":%d" % n, lambda: why or "%s: fails with %s" % (at, dom.show(o[2])[:120])):
            return
        st = o[1]
        root, nodes = canon(have)
        F = Facts(st.facts)
        root_of(c, W, st.fork(), p, env, root, key + ":%d:root" % n, at)
        check_reachable(c, log(st), nodes, F, key + ":%d" % n, at)
        if reload:
            outs = W.run(P + "load", [S, ref(st, val(root))], st, env)
            o, why = one(outs, at + ", load")
            if not c.expect(o is not None and is_ok(o[2]), key + ":%d:load" % n, lambda: why or "%s: the root cannot be loaded: %s" % (at, dom.show(o[2])[:120])):
                return
            st, p = o[1], ref(o[1], o[2][2][0])
            root_of(c, W, st.fork(), p, env, root, key + ":%d:reloaded" % n, at + ", reloaded")
    if len(c.samples) < 2:
        c.sample({"history": what, "root": dom.show(root)[:200], "writes": len(log(st))})


def histories(c):
    out = []
    D = (0, 1, 3, 8, 20) if not c.thorough else (0, 1, 2, 3, 7, 8, 9, 15, 16, 20, 31, 64, 100)
    for d in D:
        out.append((((0, d),), ("u0a", "u1b", "d0", "d1")))
        out.append((((0, d),), ("u0a", "u1b", "u0c", "d1", "u1b")))
        out.append((((0, d),), ("u1b", "u0a", "e1", "d1", "d0")))
        out.append((((0, d),), ("u0a", "d1", "u1a", "u1a", "d0", "d0")))
        out.append((((0, d),), ("u0a", "u1b", "u0c", "u0a", "u1a", "u1b", "d0", "u0a", "u1a", "d1")))
    P3 = [(0, 0, 1), (0, 3, 1), (0, 4, 4), (0, 9, 2), (1, 2, 6)]
    if c.thorough:
        P3 += [(j, d, e) for j in (0, 1) for d in (0, 1, 5, 12) for e in (0, 1, 4, 7, 13) if not (d == e and j == 0)]
    for j, d, e in P3:
        # K2 leaves K_j at e; K0 and K1 part at d
        if d == e and j == 0:
            divs = ((0, d), (1, e + 2))
        else:
            divs = ((0, d), (j, e))
        for ops in (("u0a", "u1b", "u2c", "d1", "d0", "d2"), ("u2c", "u1b", "u0a", "d2", "u2d", "d0"), ("u1b", "u0a", "d1", "u2c", "u1e", "d2")):
            out.append((divs, ops))
    for divs in (((0, 2), (1, 5), (0, 7)), ((0, 4), (0, 1), (2, 3)), ((0, 0), (0, 6), (1, 6)), ((0, 6), (1, 9), (0, 2))):
        out.append((divs, ("u0a", "u1b", "u2c", "u3d", "d1", "d3", "d0", "u1b")))
        out.append((divs, ("u3d", "u2c", "u1b", "u0a", "d0", "d2", "d1", "d3")))
    return out


def deep_histories(c):
    """Keys that part far down."""
    out = []
    for d in (40, 71, 100, 128, 150, 255) if not c.thorough else range(24, 256, 7):
        out.append((((0, d),), ("u0a", "u1b") + ("u0c", "d1", "u1b", "d0")))
        if d < 140 or c.thorough:
            out.append((((0, d), (0, d // 2)), ("u0a", "u2b", "u1c", "d0", "d2")))
    return out


# ------------------------------------------------------------------ faults

def carries(v, x, f=None, d=0):
    """Whether a value contains x somewhere."""
    if v == x:
        return True
    if type(v) is tuple and d < 12:
        return any(carries(y, x, f, d + 1) for y in v)
    return False


def names_key(v, F, t, d=0):
    """Whether an error value contains the key t, raw or in hexadecimal."""
    if type(v) is tuple and v and d < 12:
        if v[0] == "o":
            return v[1] == "hex" and F.same(v[2], t)
        if v[0] in ("by", "arr"):
            return F.same(v, t)
        if v[0] == "vsel":
            return names_key(v[2], F, t, d + 1) and names_key(v[3], F, t, d + 1)
        return any(names_key(y, F, t, d + 1) for y in v if type(y) is tuple)
    return False


def is_err(v):
    return type(v) is tuple and v[0] == "a" and v[1] == 1


def fault_rule(c, W, k, term, sides=None, op="update"):
    """Storage fails at every possible point of an operation, one at a time."""
    key = "fault:%s:k=%d:%s" % (op, k, term)
    what = "%s, %s" % (op, shape_name(k, term))
    sh = Shape(k, term, sides)
    st = St()
    env = Env(sh.contents)
    d = data_arg(st)
    if op == "update":
        more = update_spec(sh, dom.sym("data"))[1]
        sh.later = lambda f: more
    elif term == "same":
        sh.later = lambda f: delete_spec(sh, f)[1] or []
    r = load(c, W, sh.root, env, st, key, shape_name(k, term))
    if r is None:
        return
    st, p = r
    fenv = Env(sh.contents, rf=True, wf=True)
    args = [p, ref(st, val(sh.K))] + ([d] if op == "update" else [])
    outs = W.run(P + op, args, st, fenv)
    for kind, s, v in outs:
        fl = s.x.get("fault")
        if fl is None:
            continue
        c.count("faults_" + ("read" if fl[0] == "r" else fl[1][0]))
        where = "when the %s at %s fails" % ("read" if fl[0] == "r" else fl[1][0], fl[2])
        if kind != "ret":
            c.expect(False, key + ":panic", "%s panics %s: %s in %s" % (what, where, v[0], v[1]))
            continue
        F = Facts(s.facts)
        c.expect(is_err(v) and carries(v, ERR), key + ":reported", lambda: "%s does not report the storage error %s: %s" % (what, where, dom.show(v)[:120]))
        late = s.x.get("late")
        c.expect(late is None, key + ":continues", lambda: "%s goes on writing %s: %s" % (what, where, show_log(late[0])))
        evs = log(s)
        gone = [e for e in evs if e[0] == "remove"]
        if op == "update" or not gone and not (fl[0] == "w" and fl[1][0] == "remove"):
            root_of(c, W, s.fork(), p, fenv, sh.root, key + ":root", "%s %s" % (what, where))
            for e in gone:
                c.expect(False, key + ":lost", "%s %s has removed a node of its tree: %s" % (what, where, show_log(e)))
            # and the operation can be repeated
            if op == "update":
                s2 = s.fork()
                s2.x, s2.w = {}, None  # nodes written so far are not part of the tree
                r = W.run(P + "root", [p], s2.fork(), env)
                if len(r) == 1 and r[0][0] == "ret" and Facts().ident(r[0][2], sh.root):
                    s2.facts = {}  # the tree is the one before, whatever happened
                for kind, s3, v3 in W.run(P + op, args, s2, env):
                    if c.expect(kind == "ret" and is_ok(v3), key + ":retry", lambda: "%s cannot be repeated after failing %s: %s" % (what, where, v3[0] if kind != "ret" else dom.show(v3)[:120])):
                        root_of(c, W, s3, p, env, update_spec(sh, dom.sym("data"))[0], key + ":retry-root", "%s repeated after failing %s" % (what, where))
            continue
        root, new = delete_spec(sh, F.f)
        if not c.expect(root is not None, key + ":partition", "%s %s: undetermined outcome" % (what, where)):
            continue
        outs2 = W.run(P + "root", [p], s.fork(), fenv)
        o, why = one(outs2, "root")
        cur = o and F.term(o[2])
        is_new = o is not None and F.same(o[2], root)
        is_old = o is not None and F.same(o[2], sh.root)
        if not c.expect(is_new or is_old, key + ":root", lambda: "%s %s leaves root %s" % (what, where, dom.show(cur)[:160])):
            continue
        if is_old:
            for e in gone:
                c.expect(False, key + ":lost", "%s %s keeps its root but has removed one of its nodes: %s" % (what, where, show_log(e)))
        else:
            check_stored(c, evs, new, F, key, "%s %s" % (what, where), sh)
            for e in gone:
                c.expect(any(F.ident(e[1], t) for t in sh.N), key + ":removed", lambda: "%s %s has removed a node that is not on the deleted path: %s" % (what, where, show_log(e)))


def hole_rule(c, W, k, term, which, how, op="update"):
    """One stored node is missing, or its record is not a node."""
    sides = None
    sh = Shape(k, term, sides)
    names = sorted({str(x[0]) for x in sh.table.values()})
    tgt = [t for t, x in sh.table.items() if str(x[0]) == which]
    key = "hole:%s:k=%d:%s:%s:%s" % (op, k, term, which, how)
    what = "%s, %s, node %s %s" % (op, shape_name(k, term), which, "missing" if how == "missing" else "with prefix byte %s" % how)
    touched = []

    def contents(I, st, kk):
        out = []
        for s, t, x in sh.lookup(I, st, dom.bterm(kk)):
            if x is not None and str(x[0]) == which:
                s.x = dict(s.x)
                s.x["hole"] = t
                v = None if how == "missing" else ("a", 0, (x[1][2][0], int(how)) + x[1][2][2:])
            else:
                v = x and x[1]
            out.append((s, v))
        return out
    st = St()
    env = Env(contents)
    d = data_arg(st)
    outs = W.run(P + "load", [S, ref(st, val(sh.root))], st, env)
    c.count("holes")
    for kind, s, v in outs:
        if kind != "ret":
            c.expect(False, key + ":panic", "load of %s panics: %s in %s" % (what, v[0], v[1]))
            continue
        F = Facts(s.facts)
        if "hole" in s.x:
            c.count("hole_outcomes")
            c.expect(is_err(v) and (how != "missing" or names_key(v, F, s.x["hole"])), key + ":load", lambda: "load of %s: gives %s" % (what, dom.show(v)[:160]))
            continue
        if not c.expect(is_ok(v), key + ":load", lambda: "load of %s fails although its root node is intact: %s" % (what, dom.show(v)[:120])):
            continue
        p = ref(s, v[2][0])
        args = [p, ref(s, val(sh.K))] + ([d] if op == "update" else [])
        for kind, s2, v2 in W.run(P + op, args, s, env):
            if kind != "ret":
                c.expect(False, key + ":panic", "%s: panics: %s in %s" % (what, v2[0], v2[1]))
                continue
            F = Facts(s2.facts)
            hit = s2.x.get("hole")
            if hit is not None:
                c.count("hole_outcomes")
                c.expect(is_err(v2) and (how != "missing" or names_key(v2, F, hit)), key + ":named",
                         lambda: "%s: gives %s instead of an error naming the key" % (what, dom.show(v2)[:160]))
            if is_err(v2):
                root_of(c, W, s2.fork(), p, env, sh.root, key + ":root", what)
                c.expect(not any(e[0] == "remove" for e in log(s2)), key + ":removes", "%s: nodes are removed although the operation fails" % what)
            elif op == "update":
                root_of(c, W, s2.fork(), p, env, update_spec(sh, dom.sym("data"))[0], key + ":root", what)
            elif term == "same":
                root, _ = delete_spec(sh, F.f)
                c.expect(root is not None, key + ":partition", what)
                if root is not None:
                    root_of(c, W, s2.fork(), p, env, root, key + ":root", what)


def load_rule(c, W):
    """load of any root: the zero root is the empty tree, an unknown one is reported."""
    dom.base_reset()
    st, env = St(), Env()
    R = sym("R", 32)
    outs = W.run(P + "load", [S, ref(st, val(R))], st, env)
    z = dom.bytes_eq(R, zero(), {})
    seen = set()
    for kind, s, v in outs:
        if kind != "ret":
            c.expect(False, "load:panic", "load of an unknown root panics: %s in %s" % v[:2])
            continue
        F = Facts(s.facts)
        iz = dom.res(z, s.facts)
        seen.add(iz)
        if iz == 1:
            if c.expect(is_ok(v), "load:zero", lambda: "the root of the empty tree cannot be loaded: %s" % dom.show(v)[:120]):
                p = ref(s, v[2][0])
                root_of(c, W, s.fork(), p, env, zero(), "load:zero:root", "empty tree loaded by its root")
        else:
            c.expect(iz == 0 and is_err(v) and names_key(v, F, R), "load:missing", lambda: "load of a root that is not stored gives %s" % dom.show(v)[:120])
        c.expect(not log(s), "load:writes", "load writes to storage")
    c.expect(seen >= {1}, "load:cases", "load does not distinguish the zero root: %s" % sorted(seen))
    c.count("loads")


def fault_shapes(c):
    ks = range(0, 5) if not c.thorough else range(0, 9)
    out = []
    for k in ks:
        for t in ["same", k, k + 3] + (["none"] if k != 0 or True else []):
            out.append((k, t, None, "update"))
            if t == "same" or not c.thorough and k < 3 or c.thorough:
                out.append((k, t, None, "delete"))
    return out


def holes(c):
    out = []
    hows = ["missing", "2", "255"] if not c.thorough else ["missing", "2", "3", "127", "128", "254", "255"]
    for k in (range(1, 4) if not c.thorough else range(1, 7)):
        for t in ("same", "none", k + 2):
            ws = [str(("N", i)) for i in range(k)] + [str(i) for i in range(k)] + (["T"] if t != "none" else [])
            for w in ws:
                for how in hows:
                    for op in ("update", "delete"):
                        out.append((k, t, w, how, op))
    out.append((0, "same", "T", "missing", "update"))
    out.append((0, "same", "T", "7", "delete"))
    return out


def random_histories(c, count, keys, length, salt=0, depth=24):
    """Seeded random key tries and operation sequences."""
    import random
    r = random.Random("%d:%d" % (c.seed, salt))
    out = []
    while len(out) < count:
        n = r.randint(2, keys)
        divs, used = [], {}
        path = {0: []}  # key -> [(depth, side)] relative to key 0
        ok = True
        for i in range(1, n):
            j = r.randrange(i)
            d = min(int(r.expovariate(0.25)), depth) if r.random() < 0.8 else r.randint(0, depth)
            # at most one key leaves key j at one depth, below that they share it
            for _ in range(60):
                if (j, d) not in used and not any(x == (j, d) for x in divs) and not clash(divs, j, d):
                    break
                j, d = r.randrange(i), r.randint(0, depth)
            else:
                ok = False
                break
            divs.append((j, d))
        if not ok:
            continue
        present = set()
        ops = []
        for s in range(r.randint(3, length)):
            k = r.randrange(n)
            x = r.random()
            if x < 0.55 or not present and x < 0.8:
                ops.append("u%d%s" % (k, r.choice("abcd")))
                present.add(k)
            else:
                if present and r.random() < 0.8:
                    k = r.choice(sorted(present))
                ops.append(("d%d" if r.random() < 0.8 else "e%d") % k)
                present.discard(k)
        out.append((tuple(divs), tuple(ops)))
    return out


def clash(divs, j, d):
    """Whether a key leaving key j at depth d has an undetermined relation."""
    # positions at which two keys part, by the ultrametric of the trie
    n = len(divs) + 1
    D = {}
    for i, (p, e) in enumerate(divs):
        for q in range(i + 1):
            D[q, i + 1] = D[i + 1, q] = e if q == p else min(e, D[p, q]) if D[p, q] != e else None
    # a third key that left j at exactly d makes the relation unknown
    return any(q != j and D[j, q] == d for q in range(n))


def split_histories(c):
    """For each depth, two keys that part there."""
    out = []
    for d in range(256):
        out.append((((0, d),), ("u0a", "u1b") + (("d0",) if c.thorough or d % 4 == c.seed % 4 or d > 250 else ())))
        if c.thorough:
            out.append((((0, d),), ("u1b", "u0a", "u1c", "e1", "u1b")))
    return out[::-1]
