"""Rules for positions, paths, and the in-order layout of the binary tree."""
import dom
from absint import St
from rules.binary import key_of, one
from world import Env, ref

POS = "common::position::Position::"


def arg(v):
    return ("a", 0, (v,))


def call(c, W, fn, args, key, what, st=None, env=None):
    outs = W.run(fn, args, st or St(), env or Env())
    o, why = one(outs, what)
    c.expect(o is not None, key, why or "")
    return o


def unknown(name, low, bits):
    """64-bit value with the given low bits and `bits` unknown bits above."""
    t = dom.T("upper", name, w=64)
    u = dom.ent_bits(t, 64)
    b = list(low)
    b += list(u[len(b):len(b) + bits])
    return tuple((b + [0] * 64)[:64])


def index_bits(h, bits=63):
    """Bits of the in-order index of any node of height h."""
    return unknown("p", [1] * h + [0], min(bits, 64 - h - 1))


def is_bits(v, b):
    if not dom.is_int(v):
        return False
    return tuple(dom.ent_bits(v, 64)) == tuple(b)


def position_rule(c, W, h):
    """Arithmetic on every position of height h at once."""
    key = "position:h=%d" % h
    dom.base_reset()
    b = index_bits(h)
    up = list(b[h + 1:])
    v = dom.norm(b)
    o = call(c, W, POS + "from_in_order_index", [v], key, "position from index")
    if o is None:
        return
    st, p = o[1], o[2]

    def get(name, pos, what):
        o = call(c, W, POS + name, [pos], key + ":" + name, "%s of a position of height %d" % (name, h), st.fork())
        return o and o[2]

    def index_is(pos, want, name):
        x = pos is not None and get("in_order_index", pos, name)
        c.expect(x is not False and x is not None and is_bits(x, want), key + ":" + name, lambda: "%s of a position of height %d is %s, not %s" % (name, h, dom.show(x)[:80], dom.show(dom.norm(tuple(want)))[:80]))
    c.count("position_shapes")
    index_is(p, b, "in_order_index")
    c.expect(get("height", p, "") == h, key + ":height", lambda: "height of a position of height %d is %s" % (h, dom.show(get("height", p, ""))[:60]))
    c.expect(get("is_leaf", p, "") == int(h == 0), key + ":is_leaf", "is_leaf of a position of height %d" % h)
    c.expect(get("is_node", p, "") == int(h != 0), key + ":is_node", "is_node of a position of height %d" % h)
    if h == 0:
        want = list(b[1:]) + [0]
        x = get("leaf_index", p, "")
        c.expect(is_bits(x, want), key + ":leaf_index", lambda: "leaf_index of an even index is %s" % dom.show(x)[:80])
        half = dom.norm(tuple(want))
        q = call(c, W, POS + "from_leaf_index", [half], key + ":from_leaf_index", "from_leaf_index")
        index_is(q and q[2], b, "from_leaf_index")
    else:
        lo = [1] * (h - 1) + [0]
        index_is(get("left_child", p, ""), lo + [0] + up, "left_child")
        index_is(get("right_child", p, ""), lo + [1] + up, "right_child")
    if h <= 60:
        index_is(get("parent", p, ""), [1] * (h + 1) + [0] + up[1:], "parent")
        index_is(get("sibling", p, ""), [1] * h + [0, up[0] ^ 1] + up[1:], "sibling")
        index_is(get("uncle", p, ""), [1] * (h + 1) + [0, up[1] ^ 1] + up[2:], "uncle")


# ------------------------------------------------------------------ paths

def tree_path(n, i, s=0, e=None):
    """[(path, side)] index pairs from the root of an n-leaf tree to leaf i."""
    def at(s, e):
        return key_of((e - s - 1).bit_length(), s)
    e = n
    out = [(at(0, n), at(0, n))]
    while e - s > 1:
        k = 1 << ((e - s - 1).bit_length() - 1)
        a, b = at(s, s + k), at(s + k, e)
        if i < s + k:
            out.append((a, b))
            e = s + k
        else:
            out.append((b, a))
            s += k
    return out


def drain(c, W, fn, st, it, key, what, limit=80, env=None):
    """Items an iterator yields until it ends."""
    p = ref(st, it)
    items = []
    while True:
        o = call(c, W, fn, [p], key, what, st, env)
        if o is None:
            return None, None
        st, v = o[1], o[2]
        if v == ("a", 0, ()):
            return st, items
        if not c.expect(type(v) is tuple and v[0] == "a" and v[1] == 1, key, "%s yields %s" % (what, dom.show(v)[:80])):
            return None, None
        items.append(v[2][0])
        if not c.expect(len(items) <= limit, key + ":ends", "%s does not end" % what):
            return None, None


def idx(v):
    """In-order index of a position value."""
    while type(v) is tuple and v[0] == "a" and len(v[2]) == 1:
        v = v[2][0]
    return v


def path_rule(c, W, n, i, extra=0):
    """Path and side positions from the root of an n-leaf tree to leaf i."""
    key = "path:n=%d:i=%d:+%d" % (n, i, extra)
    what = "path to leaf %d of %d" % (i, n)
    H = (n - 1).bit_length() + extra
    root = arg(key_of(H, 0))
    st = St()
    o = call(c, W, POS + "path", [root, ref(st, arg(2 * i)), n], key, what, st)
    if o is None:
        return
    o2 = call(c, W, "common::position_path::PositionPath::iter", [o[2]], key, what, o[1])
    if o2 is None:
        return
    st, items = drain(c, W, "{common::position_path::PositionPathIter as std::iter::Iterator}::next", o2[1], o2[2], key, what)
    c.count("paths")
    if items is None:
        return
    got = [tuple(idx(x) for x in it[2]) for it in items]
    want = tree_path(n, i)
    c.expect(got == want, key + ":pairs", lambda: "%s from the root at %d: pairs %s, the tree has %s" % (what, key_of(H, 0), dom.show(tuple(got))[:200], want))
    if n in (6, 7) and i == 4:
        c.sample({"leaves": n, "leaf": i, "path": got})


def full_path(H, i, s=0):
    """Pairs along a perfect tree of height H whose first leaf is s."""
    out = [(key_of(H, s),) * 2]
    for h in range(H - 1, -1, -1):
        a, b = key_of(h, s), key_of(h, s + (1 << h))
        if (i >> h) & 1:
            out.append((b, a))
            s += 1 << h
        else:
            out.append((a, b))
    return out


class Tree:
    """A tree of nodes of an unknown type, as an oracle for its methods."""

    def __init__(self, width, height, bits, leaf_at=None, bad=()):
        self.width, self.height, self.bits = width, height, bits
        self.leaf_at = height if leaf_at is None else leaf_at
        self.bad = set(bad)
        self.asked = []

    def __call__(self, I, tr, name, args, st, callee):
        ret = lambda v: [("ret", st, v)]
        if tr == "common::node::Node" or tr == "common::node::ParentNode":
            if name == "key_size_in_bits":
                return ret(self.width)
            v = I.deref(st, args[0])
            if v == ("o", "leaf"):
                return ret(("o", "key")) if name == "leaf_key" else ret({"height": 0, "is_leaf": 1, "is_node": 0}[name])
            path = v[2]
            if name == "height":
                return ret(self.height - len(path) if len(path) < self.leaf_at else 0)
            if name in ("is_node", "is_leaf"):
                return ret(int((len(path) < self.leaf_at) == (name == "is_node")))
            if name in ("left_child", "right_child"):
                p = path + (int(name == "right_child"),)
                return ret(("a", 1, (("o", "bad", p),)) if p in self.bad else ("a", 0, (("o", "node", p),)))
        if tr == "common::path::Path" and name == "get_instruction":
            if I.deref(st, args[0]) != ("o", "key"):
                return None
            i = I.need_int(st, args[1])
            if i >= self.width:
                return ret(("a", 0, ()))
            return ret(("a", 1, (("a", self.side(I, callee, self.bit(i)), ()),)))
        return None

    def bit(self, i):
        return (self.bits >> (self.width - 1 - i)) & 1

    def side(self, I, callee, b):
        for t in I.p.types:
            if t.get("adt") == "common::path::Instruction":
                return {n: k for n, k, _ in t["vs"]}["Right" if b else "Left"]
        raise dom.Unsupported("path instructions")

    def expected(self):
        """(path item, side item) pairs."""
        node = lambda p: ("a", 1, (("o", "bad", p),)) if p in self.bad else ("a", 0, (("o", "node", p),))
        out = [(node(()), node(()))]
        p = ()
        while p not in self.bad and len(p) < self.leaf_at:
            i = self.width - self.height + len(p)
            if i >= self.width:
                break
            b = self.bit(i)
            out.append((node(p + (b,)), node(p + (1 - b,))))
            p += (b,)
        return out


def iter_rule(c, W, width, height, bits, leaf_at=None, bad=()):
    """Traversal of a tree of any node type, down to a leaf's key."""
    key = "iter:w=%d:h=%d:%x:%s:%d" % (width, height, bits, leaf_at, len(bad))
    what = "traversal from height %d along a %d-bit key" % (height, width)
    tree = Tree(width, height, bits, leaf_at, bad)
    env = Env(oracle=tree)
    st = St()
    o = call(c, W, "{T as common::path_iterator::AsPathIterator}::as_path_iter", [ref(st, ("o", "node", ())), ref(st, ("o", "leaf"))], key, what, st, env)
    if o is None:
        return
    st, items = drain(c, W, "{common::path_iterator::PathIter as std::iter::Iterator}::next", o[1], o[2], key, what, width + 5, env)
    c.count("traversals")
    if items is None:
        return
    got = [tuple(x[2]) for x in items]
    c.expect(got == tree.expected(), key + ":pairs", lambda: "%s (leaf met at depth %s, unreadable children %s): yields %s, not %s" % (what, tree.leaf_at, sorted(tree.bad), dom.show(tuple(got))[:200], dom.show(tuple(tree.expected()))[:200]))


def path_items(c):
    top = 34 if not c.thorough else 130
    out = [(n, i, e) for n in range(1, top) for i in range(n) for e in (0, 1, 2)]
    for k in range(6, 60, 6 if not c.thorough else 1):
        for n in {(1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + (1 << k // 2) + 3, 0x5555555555555555 & ((2 << k) - 1) | 1 << k}:
            for i in sorted({0, 1, n // 2, n // 3, n - 2, n - 1, (1 << k) - 1, min(1 << k, n - 1)}):
                if i >= n:
                    continue
                out.append((n, i, 0))
                if c.thorough and k < 59:
                    out.append((n, i, 1))
    return out


def iter_items(c):
    import random
    r = random.Random(c.seed)
    out = [(8, 0, 5), (8, 1, 5), (1, 1, 0), (1, 1, 1), (256, 0, 77)]
    for w in (2, 3, 8, 16) if not c.thorough else range(1, 40):
        for h in range(w + 1):
            bits = r.getrandbits(w)
            out.append((w, h, bits))
            side = [(bits >> (w - 1 - i)) & 1 for i in range(w)][w - h:]
            for at in {h // 2, h - 1, 1}:
                if 0 < at < h:
                    out.append((w, h, bits, at))
                    # a child on the path, beside the path, and off the path cannot be read
                    p = tuple(side[:at])
                    q = p[:-1] + (1 - p[-1],)
                    out += [(w, h, bits, h, (p,)), (w, h, bits, h, (q,)), (w, h, bits, at, (p, q))]
    for h in (256, 255, 128, 65, 33) if not c.thorough else range(5, 257, 4):
        out.append((256, h, r.getrandbits(256)))
        out.append((256, h, r.getrandbits(256), max(1, h // 3)))
    for b in (0, (1 << 256) - 1, 1, 1 << 255):
        out.append((256, 256, b))
    return list(dict.fromkeys(out))
