"""Path-shaped partitions of sparse trees: everything a key's path can meet."""
import dom
import models
import spec
from dom import Bits, T, atom, key_bit, sym
from spec import p_leaf, p_node, sel, val, zero


def bits_if(lit, v, w):
    """Integer v when lit holds, else 0."""
    if lit < 2:
        return v if lit else 0
    return dom.norm(tuple(lit if (v >> i) & 1 else 0 for i in range(w)))


def prim(h, pre, lo, hi):
    return ("a", 0, (h, pre, val(lo), val(hi)))


class Shape:
    """A well-formed tree seen along the path of key K.

    k internal nodes, then the terminal: 'none' (placeholder), 'same' (leaf of
    K), or an integer d >= k (leaf of another key that first differs from K in
    bit d).  Each side subtree is a placeholder, a leaf or an internal node,
    unless `sides` fixes it ('0' | 'L' | 'N').
    """

    def __init__(self, k, term, sides=None):
        dom.base_reset()
        self.k, self.term = k, term
        self.later = None  # facts -> nodes the operation has to bring about
        self.K = K = sym("K", 32)
        dom.mark_bits(K)
        sides = sides or {}
        self.S, self.zero, self.leaf, self.SK, self.SV = [], [], [], [], []
        self.table = {}
        for i in range(k):
            z, l = atom("side-empty", i), atom("side-leaf", i)
            kd = sides.get(i, "?")
            if kd != "?":
                dom.base_fact(z, int(kd == "0"))
                dom.base_fact(l, int(kd == "L"))
                z, l = int(kd == "0"), int(kd == "L")
            SK, SV = sym("SK%d" % i, 32), spec.digest(sym("SD%d" % i))
            dom.mark_bits(SK)
            for j in range(i):
                dom.base_fact(key_bit(SK, j), key_bit(K, j))
            dom.base_fact(key_bit(SK, i), key_bit(K, i) ^ 1)
            # at most one child of an internal node is a placeholder
            ol, orr = atom("side-no-left", i), atom("side-no-right", i)
            SL = sel(ol, zero(), spec.digest(sym("SX%d" % i)))
            SR = sel(dom.e_and(orr, ol ^ 1), zero(), spec.digest(sym("SY%d" % i)))
            hl, hn = p_leaf(SK, SV), p_node(SL, SR)
            s = sel(z, zero(), sel(l, hl, hn))
            self.S.append(s)
            self.zero.append(z)
            self.leaf.append(l)
            self.SK.append(SK)
            self.SV.append(SV)
            self.table[hl] = (i, prim(0, 0, SK, SV))
            self.table[hn] = (i, prim(256 - i - 1, 1, SL, SR))
        if term == "none":
            self.T = zero()
            self.TK = None
            if k:
                # a placeholder's sibling is never empty, and never a lone leaf
                self.fix(k - 1, "N")
        else:
            if term == "same":
                self.TK = K
            else:
                self.TK = TK = sym("TK", 32)
                dom.mark_bits(TK)
                for j in range(term):
                    dom.base_fact(key_bit(TK, j), key_bit(K, j))
                dom.base_fact(key_bit(TK, term), key_bit(K, term) ^ 1)
            self.TV = spec.digest(sym("TD"))
            self.T = p_leaf(self.TK, self.TV)
            self.table[self.T] = ("T", prim(0, 0, self.TK, self.TV))
            if k:
                # the parent of a leaf exists because its sibling is not empty
                z = self.zero[k - 1]
                if z > 1:
                    dom.base_fact(z, 0)
        cur = self.T
        self.N = [None] * (k + 1)
        self.N[k] = cur
        for i in range(k - 1, -1, -1):
            b = key_bit(K, i)
            lo, hi = sel(b, self.S[i], cur), sel(b, cur, self.S[i])
            cur = p_node(lo, hi)
            self.table[cur] = (("N", i), prim(256 - i, 1, lo, hi))
            self.N[i] = cur

    def fix(self, i, kd):
        for lit, v in ((self.zero[i], kd == "0"), (self.leaf[i], kd == "L")):
            if lit > 1:
                dom.base_fact(lit, int(v))

    @property
    def root(self):
        return self.N[0]

    def lookup(self, I, st, t):
        t = dom.rbt(t, st.facts)
        if t.op == "sel":
            out = []
            for s, b in models.cases(I, st, t.args[0]):
                out += self.lookup(I, s, t.args[1] if b else t.args[2])
            return out
        v = self.table.get(t)
        if v is None:
            # the same node with its selections written differently
            m = {}
            u = dom.under(t, st.facts, m)
            if u.op == "sel":
                return self.lookup(I, st, u)
            for h, x in self.table.items():
                if dom.under(h, st.facts, m) is u:
                    return [(st, h, x)]
        if v is None and self.later is not None:
            # a node of the tree to come may have been left behind by an earlier one
            for h, p, name in self.later(st.facts):
                if dom.rbt(h, st.facts) == t:
                    return [(s, t, ("stale " + name, p) if b else None) for s, b in models.cases(I, st, atom("stale", name))]
        return [(st, t, v)]

    def contents(self, I, st, key):
        return [(s, v and v[1]) for s, t, v in self.lookup(I, st, dom.bterm(key))]
