"""Spec of the append-only trees: which node holds what, for given leaves."""
import dom
import spec


def peaks(n):
    """(height, first leaf) of the perfect subtrees of an n-leaf tree."""
    out = []
    s = 0
    for h in range(n.bit_length() - 1, -1, -1):
        if (n >> h) & 1:
            out.append((h, s))
            s += 1 << h
    return out


def key_of(h, s):
    """In-order position of the node of height h over leaves s .. s + 2^h."""
    return 2 * s + (1 << h) - 1


def node_at(key):
    """(height, first leaf) of an in-order position."""
    h = 0
    while (key >> h) & 1:
        h += 1
    return h, (key - ((1 << h) - 1)) // 2


class Rfc:
    """Merkle tree hash and audit paths by the recursive definition (RFC 6962).

    Leaves are opaque digests unless given; a perfect subtree that holds no
    leaf of interest is one opaque digest, so huge trees stay small.
    """

    def __init__(self, n, focus=(), leaves=None, opened=None):
        self.n = n
        self.focus = set(focus)
        self.leaves = leaves or {}
        self.openall = opened
        self.memo = {}

    def perfect(self, h, s):
        """Digest of the perfect subtree of height h over leaves from s."""
        k = (h, s)
        r = self.memo.get(k)
        if r is None:
            if h == 0 and s in self.leaves:
                r = self.leaves[s]
            elif h and (self.openall or any(s <= i < s + (1 << h) for i in self.focus)):
                m = 1 << (h - 1)
                r = spec.b_node(self.perfect(h - 1, s), self.perfect(h - 1, s + m))
            else:
                r = dom.sym(("digest", key_of(h, s)), 32)
            self.memo[k] = r
        return r

    def mth(self, s, e):
        n = e - s
        if n == 0:
            return spec.b_empty()
        if n & (n - 1) == 0:
            return self.perfect(n.bit_length() - 1, s)
        k = 1 << ((n - 1).bit_length() - 1)
        return spec.b_node(self.mth(s, s + k), self.mth(s + k, e))

    def root(self):
        return self.mth(0, self.n)

    def path(self, i, s=0, e=None):
        """Audit path of leaf i, from the leaf's sibling upwards."""
        e = self.n if e is None else e
        n = e - s
        if n == 1:
            return []
        k = 1 << ((n - 1).bit_length() - 1)
        if i < s + k:
            return self.path(i, s, s + k) + [self.mth(s + k, e)]
        return self.path(i, s + k, e) + [self.mth(s, s + k)]

    def proof(self, i):
        return [self.perfect(0, i)] + self.path(i)

    def contents(self, I, st, key):
        """Storage of the tree: every complete subtree under its position."""
        if type(key) is not int:
            raise dom.Unsupported("read of an unknown position %s" % dom.show(key)[:80])
        h, s = node_at(key)
        if s + (1 << h) > self.n:
            return [(st, None)]
        return [(st, ("a", 0, (key, ("by", self.perfect(h, s), 32))))]

    def push_log(self, leaf):
        """Nodes that appending this leaf completes: {position: digest}."""
        n = self.n
        out = {key_of(0, n): leaf}
        cur, h, s = leaf, 0, n
        while (n >> h) & 1:
            s -= 1 << h
            cur = spec.b_node(self.perfect(h, s), cur)
            h += 1
            out[key_of(h, s)] = cur
        return out, (h, s, cur)

    def pushed(self, leaf):
        """The tree after the append."""
        t = Rfc(self.n + 1, self.focus | {self.n}, dict(self.leaves), self.openall)
        t.leaves[self.n] = leaf
        t.memo = {k: v for k, v in self.memo.items() if not any(k[1] <= i < k[1] + (1 << k[0]) for i in t.focus) or k[0] == 0}
        t.memo.pop((0, self.n), None)
        # subtrees that were opaque before stay opaque
        h, s, cur = self.push_log(leaf)[1]
        old = self

        def perfect(hh, ss, up=t.perfect):
            if ss + (1 << hh) <= old.n:
                return old.perfect(hh, ss)
            return Rfc.perfect(t, hh, ss)
        t.perfect = perfect
        return t
