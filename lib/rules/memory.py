"""Rules for the in-memory trees: the same trees, over their own storage."""
import dom
import spec
from absint import St
from rules import binary as bt
from rules import sparse as sp
from rules.binary import one, same
from spec import val
from world import Env, bytes_arg, ref

BM = "binary::in_memory::MerkleTree::"
PM = "sparse::in_memory::MerkleTree::"


def bytes_of(v, h):
    return same(v, h)


def fresh(c, W, M, key, how):
    fn = M + "new" if how == "new" else "{%sas std::default::Default}::default" % (M[:-2] + " ")
    st = St()
    o, why = one(W.run(fn, [], st, Env()), how)
    if not c.expect(o is not None, key + ":new", why or ""):
        return None, None
    return o[1], ref(o[1], o[2])


def check_root(c, W, M, st, p, want, key, what):
    o, why = one(W.run(M + "root", [p], st.fork(), Env()), "root %s" % what)
    if o is None:
        return c.expect(False, key, why)
    c.expect(same(o[2], want, o[1].facts), key, lambda: "%s: root is %s, the definition gives %s" % (what, dom.show(o[2])[:160], dom.show(want)[:160]))


def binary_rule(c, W, n, how="new"):
    """n pushes onto a new in-memory tree; all roots, then all proofs."""
    key = "memory-binary:n=%d:%s" % (n, how)
    what = "in-memory tree (%s)" % how
    dom.base_reset()
    st, p = fresh(c, W, BM, key, how)
    if st is None:
        return
    leaves = {}
    check_root(c, W, BM, st, p, spec.b_empty(), key + ":root", what)
    for j in range(n):
        d, t = bt.datum(st, j)
        o, why = one(W.run(BM + "push", [p, d], st, Env()), "%s: push %d" % (what, j))
        if not c.expect(o is not None, key + ":push", why or ""):
            return
        st = o[1]
        leaves[j] = t
        check_root(c, W, BM, st, p, bt.exact(j + 1, leaves).root(), key + ":root", "%s after %d pushes" % (what, j + 1))
    c.count("memory_binary")
    t = bt.exact(n, leaves)
    for i in list(range(n)) + bt.outside(n):
        out = type(i) is tuple
        i = bt.ranged(*i) if out else i
        o, why = one(W.run(BM + "prove", [p, i], st.fork(), Env()), "prove(%s)" % dom.show(i)[:60])
        if not c.expect(o is not None, key + ":prove", why or ""):
            continue
        v = o[2]
        if out:
            c.count("memory_indices")
            c.expect(v == ("a", 0, ()), key + ":index", lambda: "%s: prove(%s) of %d leaves gives %s" % (what, dom.show(i)[:60], n, dom.show(v)[:100]))
            continue
        if not c.expect(type(v) is tuple and v[:2] == ("a", 1), key + ":prove", lambda: "%s: prove(%d) of %d leaves gives %s" % (what, i, n, dom.show(v)[:100])):
            continue
        root, ps = v[2][0][2]
        c.count("memory_proofs")
        c.expect(same(root, t.root()), key + ":proof-root", lambda: "%s: prove(%d) returns root %s" % (what, i, dom.show(root)[:120]))
        bt.check_proof(c, ps, t.proof(i), key, "%s: prove(%d)" % (what, i))


def sparse_rule(c, W, divs, ops, how="new"):
    """A sequence of operations on a new in-memory tree."""
    key = "memory-sparse:%s:%s:%s" % (";".join("%d@%d" % d for d in divs), ",".join(ops), how)
    what = "in-memory tree (%s), keys %s, operations %s" % (how, ", ".join("K%d leaves K%d at bit %d" % (i + 1, j, d) for i, (j, d) in enumerate(divs)) or "K0", " ".join(ops))
    ks = sp.keys_of(divs)
    st, p = fresh(c, W, PM, key, how)
    if st is None:
        return
    have = {}
    check_root(c, W, PM, st, p, spec.zero(), key + ":root", what)
    c.count("memory_sparse")
    for n, op in enumerate(ops):
        at = "%s: after %s" % (what, " ".join(ops[:n + 1]))
        K = ks[int(op[1])]
        kp = ref(st, val(K))
        if op[0] == "u":
            arg, dig = sp.datum(st, op[2:] or "v")
            outs = W.run(PM + "update", [p, kp, arg], st, Env())
            have[K] = dig
        elif op[0] == "e":
            outs = W.run(PM + "update", [p, kp, sp.datum(st, "")[0]], st, Env())
            have.pop(K, None)
        else:
            outs = W.run(PM + "delete", [p, kp], st, Env())
            have.pop(K, None)
        o, why = one(outs, at)
        if not c.expect(o is not None, key + ":%d" % n, why or ""):
            return
        st = o[1]
        check_root(c, W, PM, st, p, sp.canon(have)[0], key + ":%d:root" % n, at)


def binary_items(c):
    ns = (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 19) if not c.thorough else tuple(range(40)) + (64, 65)
    return [(n, how) for n in ns for how in ("new", "default")]


def sparse_items(c):
    hs = sp.histories(c)
    return [(d, o, "new") for d, o in hs] + [(d, o, "default") for d, o in hs[::7]]
