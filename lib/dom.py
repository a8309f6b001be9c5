"""Abstract values: known-bits integers, hash-consed terms, byte strings.

A bit is an *entry*: 0, 1, or a literal 2*id (+1 when negated) of a named
unknown (an atom).  Integers are Python ints when known, `Bits` (tuples of
entries, least significant first) when some bits are unknown, or `Term`s when
opaque.  Aggregates are tuples tagged by their first element:
  ('a', variant, fields)   struct, tuple, closure, enum value
  ('arr', elems)           array            ('by', term, n)  n opaque bytes
  ('vec', elems)           vector           ('obs', term)    opaque bytes
  ('box', v)               owned box        ('str', text)
  ('p', cell, path)        thin reference   ('s', cell, path, off, len) slice
  ('d', ptr, vtable)       trait object     ('fn', callee)
  ('isel'|'vsel', lit, x, y)  x if lit else y
  ('o', kind, ...)         opaque object
None is an uninitialised value.
"""


import sys
import hashlib


sys.setrecursionlimit(30000)


class Unsupported(Exception):
    pass


class Term:
    __slots__ = ("op", "args", "w", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_terms = {}


def T(op, *args, w=None):
    k = (op, args, w)
    t = _terms.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.w, t.id = op, args, w, len(_terms) + 1
        _terms[k] = t
    return t


_atoms = {}
_desc = [None]


def atom(*d):
    """Literal (positive entry) of the atom with this description."""
    i = _atoms.get(d)
    if i is None:
        i = len(_desc)
        _desc.append(d)
        _atoms[d] = i
    return i << 1


def desc(e):
    return _desc[e >> 1]


# Functions of few simple atoms are unique: each gate has its truth table, and
# a gate with the table of an earlier one is that one.

SUPPORT = 8
_table = {}  # atom -> (simple atoms, truth table) | None
_func = {}   # (simple atoms, truth table) -> entry
_gates = {}
_spread = {}


def table(i):
    t = _table.get(i, 0)
    if t == 0:
        t = _table[i] = None if _desc[i][0] in ("and", "xor", "mux") else ((i,), 2)
    return t


def spread(t, at, n):
    """Table t over variables `at` as a table over n variables."""
    k = (t, at, n)
    r = _spread.get(k)
    if r is None:
        r = 0
        for m in range(1 << n):
            x = 0
            for j, p in enumerate(at):
                x |= ((m >> p) & 1) << j
            r |= ((t >> x) & 1) << m
        _spread[k] = r
    return r


_low = [[sum(1 << m for m in range(1 << n) if not (m >> j) & 1) for j in range(n)] for n in range(SUPPORT + 1)]


def gate(op, *d):
    """Literal of a gate, or of what is equal to it."""
    k = (op,) + d
    e = _gates.get(k)
    if e is not None:
        return e
    vs = set()
    ts = []
    for x in d:
        t = table(x >> 1)
        if t is None:
            break
        vs.update(t[0])
        ts.append(t)
    else:
        if len(vs) <= SUPPORT:
            v = tuple(sorted(vs))
            n = len(v)
            full = (1 << (1 << n)) - 1
            tt = []
            for (s, t), x in zip(ts, d):
                t = t if s == v else spread(t, tuple(v.index(y) for y in s), n)
                tt.append(t ^ full if x & 1 else t)
            r = tt[0] & tt[1] if op == "and" else tt[0] ^ tt[1] if op == "xor" else (tt[0] & tt[1]) | (~tt[0] & full & tt[2])
            neg = r & 1
            if neg:
                r ^= full
            j = 0
            while j < n:
                lo = _low[n][j]
                if r & lo == (r >> (1 << j)) & lo:
                    # does not depend on this one
                    n -= 1
                    keep = tuple(x for x in range(n + 1) if x != j)
                    q = 0
                    for m in range(1 << n):
                        y = 0
                        for b, p in enumerate(keep):
                            y |= ((m >> b) & 1) << p
                        q |= ((r >> y) & 1) << m
                    r = q
                    v = v[:j] + v[j + 1:]
                else:
                    j += 1
            if n == 0:
                e = neg  # r is 0
            elif n == 1:
                e = (v[0] << 1) | neg
            else:
                e = _func.get((v, r))
                if e is None:
                    e = atom(op, *d) ^ neg
                    # tables are of positive entries
                    _table[e >> 1] = (v, r ^ (-neg & ((1 << (1 << n)) - 1)))
                    _func[(v, r)] = e
                e ^= neg
            _gates[k] = e
            return e
    e = _gates[k] = atom(op, *d)
    return e


BASE = {}
_free = {}  # equality of terms as far as it is known without further facts


def base_reset():
    BASE.clear()
    _free.clear()


def base_fact(e, v):
    """Partition assumption: literal e equals entry v."""
    BASE[e >> 1] = v ^ (e & 1)
    _free.clear()


def res(e, f):
    while e > 1:
        i = e >> 1
        r = f.get(i)
        if r is None:
            r = BASE.get(i)
            if r is None:
                d = _desc[i]
                k = d[0]
                if k == "and":
                    a, b = res(d[1], f), res(d[2], f)
                    if a == 0 or b == 0 or a == b ^ 1:
                        return e & 1
                    if a == 1:
                        r = b
                    elif b == 1 or a == b:
                        r = a
                    else:
                        return e
                elif k == "xor":
                    a, b = res(d[1], f), res(d[2], f)
                    if a < 2:
                        r = a ^ b
                    elif b < 2:
                        r = a ^ b
                    elif a >> 1 == b >> 1:
                        r = (a ^ b) & 1
                    else:
                        return e
                elif k == "mux":
                    c = res(d[1], f)
                    if c == 1:
                        r = d[2]
                    elif c == 0:
                        r = d[3]
                    else:
                        x, y = res(d[2], f), res(d[3], f)
                        if x == y:
                            r = x
                        elif x == 1 and y == 0:
                            r = c
                        elif x == 0 and y == 1:
                            r = c ^ 1
                        else:
                            return e
                else:
                    return e
                e = r ^ (e & 1)
                continue
        e = r ^ (e & 1)
    return e


def e_and(a, b):
    if a == 0 or b == 0 or a == b ^ 1:
        return 0
    if a == 1 or a == b:
        return b
    if b == 1:
        return a
    if a > b:
        a, b = b, a
    return gate("and", a, b)


def e_or(a, b):
    return e_and(a ^ 1, b ^ 1) ^ 1


def e_xor(a, b):
    if a < 2 or b < 2:
        # x ^ const
        return (b ^ 1 if a else b) if a < 2 else (a ^ 1 if b else a)
    if a >> 1 == b >> 1:
        return (a ^ b) & 1
    n = (a ^ b) & 1
    a, b = a & ~1, b & ~1
    if a > b:
        a, b = b, a
    return gate("xor", a, b) ^ n


def e_mux(c, x, y):
    if c == 1 or x == y:
        return x
    if c == 0:
        return y
    if x >> 1 == c >> 1 and x > 1:
        x = (x ^ c) & 1 ^ 1
    if y >> 1 == c >> 1 and y > 1:
        y = (y ^ c) & 1
    if x == y:
        return x
    if x == y ^ 1:
        return e_xor(c, y)
    if c & 1:
        c, x, y = c ^ 1, y, x
    if y < 2:
        return e_and(c, x ^ 1) ^ 1 if y else e_and(c, x)
    if x < 2:
        return e_and(c ^ 1, y ^ 1) ^ 1 if x else e_and(c ^ 1, y)
    n = x & 1
    return gate("mux", c, x ^ n, y ^ n) ^ n


_depth = {}


def depth(e):
    i = e >> 1
    r = _depth.get(i)
    if r is None:
        d = _desc[i]
        r = 0
        if d and d[0] in ("and", "xor", "mux"):
            r = 1 + max(depth(x) for x in d[1:])
        _depth[i] = r
    return r


def conj(facts, i_s):
    r = 1
    for i in i_s:
        r = e_and(r, (i << 1) | (facts[i] ^ 1))
    return r


def excludes(facts, e):
    """Whether facts contradict literal e."""
    f = dict(facts)
    out = {}
    consequences(e, 1, out)
    for i, x in out.items():
        r = res(i << 1, f)
        if r < 2 and r != x:
            return True
        f[i] = x
    return not refine(f)


def leaves_of(e, out):
    """Indices of the simple atoms an entry is made of."""
    i = e >> 1
    if i == 0 or i in out:
        return
    d = _desc[i]
    if d[0] in ("and", "xor", "mux"):
        for x in d[1:]:
            leaves_of(x, out)
    else:
        out.add(i)


def split_cases(facts, limit=9):
    """The consistent assignments of the atoms in composite facts."""
    atoms = set()
    for i in facts:
        if _desc[i][0] in ("and", "xor", "mux"):
            leaves_of(i << 1, atoms)
    atoms = [i for i in sorted(atoms) if res(i << 1, facts) > 1]
    if len(atoms) > limit:
        return [facts]
    out = [dict(facts)]
    for i in atoms:
        nxt = []
        for f in out:
            if res(i << 1, f) < 2:
                nxt.append(f)
                continue
            for v in (0, 1):
                g = dict(f)
                e = res(i << 1, f)
                g[e >> 1] = v ^ (e & 1)
                if refine(g):
                    nxt.append(g)
        out = nxt
    return out


def pivot(e, f):
    """An atom to decide first on the way to deciding e."""
    t = table(e >> 1)
    while True:
        d = _desc[e >> 1]
        if d[0] == "mux" or d[0] == "and":
            c = res(d[1], f)
            if c < 2:
                c = res(d[2], f)
            e = c
        else:
            if t is not None and e >> 1 not in t[0]:
                # written in the expression, but without influence on it
                return t[0][0] << 1
            return e & ~1


def consequences(e, v, out):
    """Facts implied by literal e having value v (0/1)."""
    v ^= e & 1
    i = e >> 1
    if i == 0:
        return
    if i in out:
        return
    out[i] = v
    d = _desc[i]
    if d[0] == "and" and v == 1:
        consequences(d[1], 1, out)
        consequences(d[2], 1, out)
    elif d[0] == "mux":
        c, x, y = d[1:]
        if x < 2 and x != v:
            consequences(c, 0, out)
            if y > 1:
                consequences(y, v, out)
        elif y < 2 and y != v:
            consequences(c, 1, out)
            if x > 1:
                consequences(x, v, out)


def refine(facts):
    """Propagate through composite facts; False when they contradict."""
    again = True
    while again:
        again = False
        for i, v in list(facts.items()):
            d = _desc[i]
            k = d[0]
            if k not in ("and", "xor", "mux"):
                continue
            new = None
            if k == "mux":
                c = res(d[1], facts)
                if c < 2:
                    new = (d[2] if c else d[3], v)
                else:
                    x, y = res(d[2], facts), res(d[3], facts)
                    if x < 2 and x != v:
                        if y < 2 and y != v:
                            return False
                        new = (c, 0)
                    elif y < 2 and y != v:
                        new = (c, 1)
            else:
                a, b = res(d[1], facts), res(d[2], facts)
                if a > 1 and b < 2:
                    a, b = b, a
                if k == "and":
                    if a < 2 and b < 2:
                        if (a & b) != v:
                            return False
                    elif v == 1:
                        if a == 0:
                            return False
                    elif a == 1:
                        new = (b, 0)
                elif a < 2:
                    new = (b, a ^ v)
            if new is None:
                continue
            e = res(new[0], facts)
            if e < 2:
                if e != new[1]:
                    return False
                continue
            out = {}
            consequences(e, new[1], out)
            for j, x in out.items():
                r = res(j << 1, facts)
                if r < 2 and r != x:
                    return False
                if j not in facts:
                    facts[j] = x
                    again = True
    return True


class Bits:
    __slots__ = ("b", "h")

    def __init__(self, b):
        self.b = b
        self.h = hash(b)

    def __eq__(self, o):
        return self is o or (type(o) is Bits and self.b == o.b)

    def __hash__(self):
        return self.h

    def __repr__(self):
        return show(self)


def ent_bits(v, w):
    """Entries of an integer value."""
    t = type(v)
    if t is int:
        return tuple((v >> i) & 1 for i in range(w))
    if t is Bits:
        b = v.b
        if len(b) < w:
            b = b + (0,) * (w - len(b))
        return b[:w]
    if t is Term:
        n = v.w or w
        b = tuple(atom("bit", v, i) for i in range(min(n, w)))
        lo, hi = rng(v)
        if hi < (1 << w) - 1:
            k = hi.bit_length()
            b = b[:k] + (0,) * (len(b) - k)
        return b + (0,) * (w - len(b))
    raise Unsupported("bits of %r" % (v,))


def norm(b):
    """Value of a tuple of entries."""
    v = 0
    for i, e in enumerate(b):
        if e > 1:
            break
        v |= e << i
    else:
        return v
    e0 = b[0]
    if e0 > 1 and not e0 & 1:
        d = _desc[e0 >> 1]
        if d[0] == "bit" and d[2] == 0 and type(d[1]) is Term and d[1].w == len(b):
            t = d[1]
            if b == ent_bits(t, len(b)):
                return t
    return Bits(tuple(b))


def rbits(v, w, f):
    if type(v) is int:
        return ent_bits(v, w)
    return tuple(res(e, f) if e > 1 else e for e in ent_bits(v, w))


def rng(v):
    """Unsigned range of a term or known int."""
    if type(v) is int:
        return v, v
    if type(v) is Term:
        if v.op == "ranged":
            return v.args[1], v.args[2]
        if v.op in ("cttz", "ctlz", "ctpop"):
            return v.args[1], v.args[2]
        if v.op == "len":
            return 0, (1 << 63) - 1  # no object is larger than isize::MAX
        if v.op == "sum":
            rs = [rng(p) for p in v.args[1]]
            hi = v.args[0] + sum(r[1] for r in rs)
            if hi >> v.w == 0:
                return v.args[0] + sum(r[0] for r in rs), hi
        return 0, (1 << (v.w or 64)) - 1
    if type(v) is Bits:
        lo = hi = 0
        for i, e in enumerate(v.b):
            if e == 1:
                lo |= 1 << i
                hi |= 1 << i
            elif e > 1:
                hi |= 1 << i
        return lo, hi
    raise Unsupported("range of %r" % (v,))


def mask(w):
    return (1 << w) - 1


def lin_parts(v, w):
    """(constant, sorted tuple of opaque summands) of a value as a sum."""
    if type(v) is int:
        return v, ()
    if type(v) is Term and v.op == "sum":
        return v.args[0], v.args[1]
    return 0, (v,)


def mk_sum(c, parts, w):
    c &= mask(w)
    if not parts:
        return c
    if c == 0 and len(parts) == 1:
        return parts[0]
    return T("sum", c, tuple(sorted(parts, key=order)), w=w)


def order(v):
    if type(v) is Term:
        return (0, v.id)
    if type(v) is Bits:
        return (1, v.b)
    return (2, v)


def add(a, b, w, f, cin=0):
    """(sum, carry entry)"""
    if type(a) is int and type(b) is int:
        s = a + b + cin
        return s & mask(w), (s >> w) & 1
    if cin == 0 and a == 0:
        return b, 0
    if cin == 0 and b == 0:
        return a, 0
    x, y = rbits(a, w, f), rbits(b, w, f)
    c = cin
    out = []
    ok = True
    for i in range(w):
        p, q = x[i], y[i]
        l = [p, q, c]
        # majority
        if p == q:
            s, n = c, p
        elif p == c:
            s, n = q, p
        elif q == c:
            s, n = p, q
        elif p == q ^ 1:
            s, n = c ^ 1, c
        elif p == c ^ 1:
            s, n = q ^ 1, q
        elif q == c ^ 1:
            s, n = p ^ 1, p
        else:
            ok = False
            break
        out.append(s)
        c = n
    if ok:
        return norm(out), c
    if cin:
        a2, _ = add(a, cin, w, f)
        return mk_add(a2, b, w), atom("carry", vkey(a), vkey(b), cin, w)
    ra, rb = rng(norm(x)), rng(norm(y))
    if ra[1] + rb[1] < 1 << w:
        c = 0
    elif ra[0] + rb[0] >= 1 << w:
        c = 1
    else:
        k = sorted((a, b), key=order)
        c = atom("carry", k[0], k[1], 0, w)
    return mk_add(a, b, w), c


def mk_add(a, b, w):
    c1, p1 = lin_parts(a, w)
    c2, p2 = lin_parts(b, w)
    return mk_sum(c1 + c2, p1 + p2, w)


def vkey(v):
    return v


def neg(a, w, f):
    return add(bnot(a, w, f), 1, w, f)[0]


def bnot(a, w, f):
    if type(a) is int:
        return ~a & mask(w)
    return norm(tuple(e ^ 1 for e in rbits(a, w, f)))


def sub(a, b, w, f):
    """(difference, borrow entry)"""
    if type(a) is int and type(b) is int:
        return (a - b) & mask(w), 1 if a < b else 0
    if b == 0:
        return a, 0
    if a == b:
        return 0, 0
    ca, pa = lin_parts(a, w)
    cb, pb = lin_parts(b, w)
    if pb and all(p in pa for p in pb) and (len(pa) > len(pb) or ca or cb):
        l = list(pa)
        for p in pb:
            if p in l:
                l.remove(p)
        return mk_sum(ca - cb, tuple(l), w), ult(a, b, w, f)
    x, y = rbits(a, w, f), rbits(b, w, f)
    r = _sub_bits(x, y)
    if r is not None:
        return r
    if type(b) is int:
        return mk_add(a, (-b) & mask(w), w), ult(a, b, w, f)
    return T("sub", a, b, w=w), ult(a, b, w, f)


def _sub_bits(x, y):
    c = 1
    out = []
    for p, q in zip(x, y):
        q ^= 1
        if p == q:
            s, n = c, p
        elif p == c:
            s, n = q, p
        elif q == c:
            s, n = p, q
        elif p == q ^ 1:
            s, n = c ^ 1, c
        elif p == c ^ 1:
            s, n = q ^ 1, q
        elif q == c ^ 1:
            s, n = p ^ 1, p
        else:
            return None
        out.append(s)
        c = n
    return norm(out), c ^ 1


def bitop(op, a, b, w, f):
    if type(a) is int and type(b) is int:
        return a & b if op == "and" else a | b if op == "or" else a ^ b
    x, y = rbits(a, w, f), rbits(b, w, f)
    g = e_and if op == "and" else e_or if op == "or" else e_xor
    return norm(tuple(g(p, q) for p, q in zip(x, y)))


def shl(a, n, w, f):
    if type(n) is not int:
        raise Unsupported("shift by unknown amount")
    if n >= w:
        return 0
    if type(a) is int:
        return (a << n) & mask(w)
    x = rbits(a, w, f)
    return norm((0,) * n + x[: w - n])


def shr(a, n, w, f, signed=False):
    if type(n) is not int:
        raise Unsupported("shift by unknown amount")
    if type(a) is int and not signed:
        return a >> n if n < w else 0
    x = rbits(a, w, f)
    s = x[-1] if signed else 0
    n = min(n, w)
    return norm(x[n:] + (s,) * n)


def eq(a, b, w, f):
    """Entry: a == b."""
    if type(a) is int and type(b) is int:
        return 1 if a == b else 0
    if a == b:
        return 1
    if {type(a), type(b)} == {Term, int}:
        t, n = (a, b) if type(b) is int else (b, a)
        if t.op == "sum" and len(t.args[1]) == 1 and type(t.args[1][0]) is Term and t.args[1][0].op == "len":
            return eq(t.args[1][0], (n - t.args[0]) & mask(64), 64, f)
        if t.op == "len" and (more_than(t, n, f) == 1 or n and more_than(t, n - 1, f) == 0):
            return 0
    x, y = rbits(a, w, f), rbits(b, w, f)
    und = []
    for p, q in zip(x, y):
        if p == q:
            continue
        if p == q ^ 1:
            return 0
        und.append((p, q))
    if not und:
        return 1
    ra, rb = rng2(a, x), rng2(b, y)
    if ra[1] < rb[0] or rb[1] < ra[0]:
        return 0
    if len(und) == 1:
        p, q = und[0]
        return e_xor(p, q) ^ 1
    c = common_cond(und, f)
    if c is not None:
        f1, f0 = dict(f), dict(f)
        f1[c], f0[c] = 1, 0
        x, y = norm(x), norm(y)
        return e_mux(c << 1, eq(x, y, w, f1), eq(x, y, w, f0))
    k = sorted((norm(x), norm(y)), key=order)
    return atom("eq", k[0], k[1])


def eq_bits(i, f, out):
    """What an equality that holds says about single bits."""
    a, b = _desc[i][1:]
    w = 64
    for x in (a, b):
        if type(x) is Bits:
            w = len(x.b)
        elif type(x) is Term:
            w = x.w or 64
    for p, q in zip(rbits(a, w, f), rbits(b, w, f)):
        if p > 1 and q < 2:
            consequences(p, q, out)
        elif q > 1 and p < 2:
            consequences(q, p, out)


def by_eq(f, out):
    """Facts that follow from the equalities among them."""
    for i, v in f.items():
        if v == 1 and _desc[i][0] == "eq":
            eq_bits(i, {}, out)


def common_cond(und, f):
    """A condition that every one of some pairs of bits depends on."""
    r = None
    for p, q in und:
        if p > 1 and q > 1:
            return None
        p = p if p > 1 else q
        if _desc[p >> 1][0] not in ("and", "mux"):
            return None
        t = table(p >> 1)
        if t is None:
            return None
        r = set(t[0]) if r is None else r & set(t[0])
        if not r:
            return None
    r = [i for i in r if i not in f and i not in BASE]
    return min(r, key=lambda i: rank(i << 1)) if r else None


def rng2(v, b):
    lo, hi = rng(norm(b))
    if type(v) is Term:
        l2, h2 = rng(v)
        lo, hi = max(lo, l2), min(hi, h2)
    return lo, hi


THRESHOLDS = 3  # lengths beyond so many known thresholds are not told apart


def more_than(t, c, f):
    """Entry: the length t exceeds c."""
    e = atom("eq", *sorted((t, 0), key=order)) ^ 1 if c == 0 else atom("ult", c, t, False)
    r = res(e, f)
    if r > 1:
        passed = 0
        for i, v in f.items():
            k = None
            d = _desc[i]
            if d[0] == "ult" and d[2] is t and type(d[1]) is int:
                k = d[1]
            elif d[0] == "eq" and t in d[1:] and type(d[1] if d[2] is t else d[2]) is int:
                n = d[1] if d[2] is t else d[2]
                if v == 1:
                    return 1 if n > c else 0
                if n == 0:
                    k, v = 0, 1
            if k is not None and (v == 1 and k >= c or v == 0 and k <= c):
                return v
            passed += k is not None and v == 1 and k > 0
        if passed >= THRESHOLDS:
            # A loop over the parts of a string: some rounds stand for all.
            return 0
    return r


def ult(a, b, w, f, signed=False):
    """Entry: a < b."""
    if type(a) is int and type(b) is int and not signed:
        return 1 if a < b else 0
    if not signed:
        # the length of an unknown string against a number: more than so many bytes
        if type(a) is int and type(b) is Term and b.op == "len" and a < (1 << 63) - 1:
            return more_than(b, a, f)
        if type(b) is int and type(a) is Term and a.op == "len" and 0 < b < 1 << 63:
            return more_than(a, b - 1, f) ^ 1
        # ... or of what is left of it
        for t, n in ((b, a), (a, b)):
            if type(n) is int and n < 1 << 62 and type(t) is Term and t.op == "sum" and len(t.args[1]) == 1 and type(t.args[1][0]) is Term and t.args[1][0].op == "len":
                o = -t.args[0] & mask(64)
                if 0 < o < 1 << 62 and more_than(t.args[1][0], o - 1, f) == 1:
                    return more_than(t.args[1][0], n + o, f) if t is b else more_than(t.args[1][0], n + o - 1, f) ^ 1
    if a == b:
        return 0
    x, y = rbits(a, w, f), rbits(b, w, f)
    if signed:
        x = x[:-1] + (x[-1] ^ 1,)
        y = y[:-1] + (y[-1] ^ 1,)
    i = w - 1
    while i >= 0 and x[i] == y[i]:
        i -= 1
    if i < 0:
        return 0
    if x[i] == y[i] ^ 1:
        return y[i]
    ra, rb = (rng2(a, x), rng2(b, y)) if not signed else (rng(norm(x)), rng(norm(y)))
    if ra[1] < rb[0]:
        return 1
    if ra[0] >= rb[1]:
        return 0
    # x < 1  is  x == 0;   x < 2^k  is "high bits are zero"
    if type(b) is int and not signed and b and b & (b - 1) == 0:
        k = b.bit_length() - 1
        return eq(norm(x[k:]), 0, w - k, f)
    if type(a) is int and not signed and (a + 1) & a == 0:
        k = a.bit_length()
        return eq(norm(y[k:]), 0, w - k, f) ^ 1
    n1, n2 = norm(x), norm(y)
    k1, k2 = order(n1), order(n2)
    if k1 <= k2:
        return atom("ult", n1, n2, signed)
    # a < b  <=>  not (b <= a);  keep one orientation per pair with eq
    return atom("ult", n1, n2, signed)


def count_run(bits, val):
    """(number of leading entries known equal to val, exact?)"""
    n = 0
    for e in bits:
        if e == val:
            n += 1
        elif e == val ^ 1:
            return n, True
        else:
            return n, False
    return n, True


def cttz(v, w, f):
    if type(v) is int:
        return w if v == 0 else (v & -v).bit_length() - 1
    x = rbits(v, w, f)
    n, ex = count_run(x, 0)
    if ex:
        return n
    # the first bit known to be one bounds the count
    hi = w
    for i, e in enumerate(x):
        if e == 1:
            hi = i
            break
    return T("cttz", norm(x), n, hi, w=32)


def ctlz(v, w, f):
    if type(v) is int:
        return w - v.bit_length()
    x = tuple(reversed(rbits(v, w, f)))
    n, ex = count_run(x, 0)
    if ex:
        return n
    hi = w
    for i, e in enumerate(x):
        if e == 1:
            hi = i
            break
    return T("ctlz", norm(tuple(reversed(x))), n, hi, w=32)


def ctpop(v, w, f):
    if type(v) is int:
        return bin(v).count("1")
    x = rbits(v, w, f)
    lo = sum(1 for e in x if e == 1)
    hi = sum(1 for e in x if e != 0)
    return lo if lo == hi else T("ctpop", norm(x), lo, hi, w=32)


# ---------------------------------------------------------------- bytes

def sym(name, n=None):
    """Opaque byte string."""
    return T("sym", name, n)


_bytes = {}
_origin = {}  # bits of a byte of a selected string -> (string, index)


def byte_of(t, i):
    if t.op == "const":
        return t.args[0][i]
    if t.op == "sel":
        r = _bytes.get((t, i))
        if r is not None:
            return r
        r = _bytes[t, i] = norm(tuple(key_bit(t, i * 8 + 7 - j) for j in range(8)))
        if type(r) is Bits:
            l = _origin.setdefault(r.b, [])
            if (t, i) not in l and len(l) < 6:
                l.append((t, i))
        return r
    return Bits(tuple(atom("tb", t, i * 8 + 7 - j) for j in range(8)))


def key_bit(t, p):
    """Literal of bit p (most significant first) of byte string t."""
    if t.op == "const":
        return (t.args[0][p // 8] >> (7 - p % 8)) & 1
    if t.op == "sel":
        return e_mux(t.args[0], key_bit(t.args[1], p), key_bit(t.args[2], p))
    return atom("tb", t, p)


def arr_norm(elems):
    """Array value; recognises the bytes of one opaque string."""
    e0 = elems[0] if elems else None
    if type(e0) is Bits and len(e0.b) == 8:
        d = _desc[e0.b[7] >> 1]
        if d and d[0] == "tb" and d[2] == 0 and e0.b[7] & 1 == 0:
            t = d[1]
            n = blen(t)
            if n == len(elems) and all(type(x) is Bits and x.b == byte_of(t, i).b for i, x in enumerate(elems)):
                return ("by", t, n)
    return ("arr", elems)


def blen(t):
    if t.op == "sym":
        return t.args[1]
    if t.op == "H":
        return 32
    if t.op == "const":
        return len(t.args[0])
    if t.op == "sel":
        return blen(t.args[1])
    if t.op == "cat":
        n = 0
        for p in t.args[0]:
            k = piece_len(p)
            if type(k) is not int:
                return None
            n += k
        return n
    return None


def piece_len(p):
    if type(p) is tuple and p[0] == "run":
        return p[3]
    return 1


def bterm(v):
    """Byte-string term of an array value."""
    if v[0] == "by":
        return v[1]
    if v[0] == "arr":
        es = v[1]
        if all(type(e) is int for e in es):
            return T("const", tuple(es))
        n = arr_norm(es)
        if n[0] == "by":
            return n[1]
        return T("cat", canon_pieces(pieces_of(v)))
    if v[0] == "vec":
        return bterm(("arr", v[1]))
    if v[0] == "obs":
        return v[1]
    raise Unsupported("bytes of %r" % (v[0],))


def bval(t):
    """Array value of a byte-string term of known length."""
    if t.op == "const":
        return ("arr", tuple(t.args[0]))
    return ("by", t, blen(t))


def pieces_of(v, off=0, ln=None):
    """Pieces of (a part of) a container of bytes."""
    k = v[0]
    if k in ("arr", "vec"):
        es = v[1]
        if type(off) is not int or (ln is not None and type(ln) is not int):
            raise Unsupported("unknown slice bounds")
        es = es[off:] if ln is None else es[off:off + ln]
        return list(es)
    if k == "str":
        b = v[1].encode()
        return list(b[off:] if ln is None else b[off:off + ln])
    if k == "by":
        n = v[2] if ln is None else ln
        return [("run", v[1], off, n)]
    if k == "obs":
        return [("run", v[1], off, ln if ln is not None else ("len", v[1]))]
    raise Unsupported("bytes of %r" % (v,))


ZERO32 = ("arr", (0,) * 32)


def sel_bits(v, w):
    """Bits of a lazily selected number."""
    if type(v) is tuple and v[0] == "isel":
        x, y = sel_bits(v[2], w), sel_bits(v[3], w)
        return tuple(e_mux(v[1], a, b) for a, b in zip(x, y))
    return ent_bits(v, w)


def is_rest(p):
    """Whether a run goes on to the end of its string."""
    t, o, n = p[1:]
    return n == mk_sum(-o, (T("len", t, w=64),), 64)


def canon_pieces(ps):
    out = []
    for p in ps:
        if type(p) is tuple and p[0] == "isel":
            out.append(norm(sel_bits(p, 8)))
        elif type(p) is tuple and p[0] == "run":
            t = p[1]
            if t.op == "const":
                n = p[3]
                out.extend(t.args[0][p[2]:p[2] + n])
                continue
            if t.op == "cat" and p[2] == 0 and p[3] in (blen(t), ("len", t)):
                out.extend(canon_pieces(t.args[0]))
                continue
            if out and type(out[-1]) is tuple and out[-1][0] == "run" and out[-1][1] is t and type(out[-1][3]) is int and type(p[2]) is int and out[-1][2] + out[-1][3] == p[2] and type(p[3]) is int:
                out[-1] = ("run", t, out[-1][2], out[-1][3] + p[3])
                continue
            if p[3] == 0:
                continue
            if out and type(out[-1]) is tuple and out[-1][0] == "run" and out[-1][1] is t and type(out[-1][3]) is int and type(p[2]) is int and out[-1][2] + out[-1][3] == p[2] and is_rest(p):
                # ... up to the end of the string
                o = out[-1][2]
                out[-1] = ("run", t, o, ("len", t) if o == 0 else mk_sum(-o, (T("len", t, w=64),), 64))
                continue
            out.append(p)
        else:
            out.append(p)
    # single bytes that are consecutive bytes of one string
    out2 = []
    skip = 0
    for at, p in enumerate(out):
        if skip:
            skip -= 1
            continue
        if type(p) is Bits and p.b in _origin:
            # all bytes of one selected string
            for t, i in _origin[p.b]:
                n = blen(t)
                if i == 0 and at + n <= len(out) and all(out[at + j] == byte_of(t, j) for j in range(1, n)):
                    out2.append(("run", t, 0, n))
                    skip = n - 1
                    break
            if skip:
                continue
        if type(p) is Bits and len(p.b) == 8 and p.b[7] > 1:
            d = _desc[p.b[7] >> 1]
            if d[0] == "tb" and d[2] % 8 == 0 and p.b == byte_of(d[1], d[2] // 8).b:
                i = d[2] // 8
                if out2 and type(out2[-1]) is tuple and out2[-1][1] is d[1] and type(out2[-1][3]) is int and out2[-1][2] + out2[-1][3] == i:
                    q = out2[-1]
                    out2[-1] = ("run", q[1], q[2], q[3] + 1)
                else:
                    out2.append(("run", d[1], i, 1))
                continue
        if type(p) is tuple and p[0] == "run" and out2 and type(out2[-1]) is tuple and out2[-1][0] == "run" and out2[-1][1] is p[1] and type(out2[-1][3]) is int and type(p[3]) is int and type(p[2]) is int and out2[-1][2] + out2[-1][3] == p[2]:
            q = out2[-1]
            out2[-1] = ("run", q[1], q[2], q[3] + p[3])
            continue
        out2.append(p)
    return tuple(out2)


def mkhash(alg, ps):
    ps = canon_pieces(ps)
    if alg == "sha256" and all(type(p) is int for p in ps):
        return T("const", tuple(hashlib.sha256(bytes(ps)).digest()))  # constant folding
    return T("H", alg, ps)


def rbt(t, f):
    """Resolve the outer selections of a byte-string term under facts."""
    while t.op == "sel":
        c = res(t.args[0], f)
        if c == 1:
            t = t.args[1]
        elif c == 0:
            t = t.args[2]
        else:
            break
    return t


def cof(e, f, memo):
    """A condition rebuilt from what facts leave of it."""
    if e < 2:
        return e
    i = e >> 1
    r = memo.get(i)
    if r is None:
        r = f.get(i)
        if r is None:
            r = BASE.get(i)
        if r is None:
            d = _desc[i]
            k = d[0]
            if k == "and":
                r = e_and(cof(d[1], f, memo), cof(d[2], f, memo))
            elif k == "xor":
                r = e_xor(cof(d[1], f, memo), cof(d[2], f, memo))
            elif k == "mux":
                c = cof(d[1], f, memo)
                r = e_mux(c, cof(d[2], f, memo), cof(d[3], f, memo)) if c > 1 else cof(d[3 - c], f, memo)
            else:
                r = res(i << 1, f)
        memo[i] = r
    return r ^ (e & 1)


_bitknown = set()


_supp = {}


def supp_e(i):
    """Entries that an entry is made of, itself included."""
    r = _supp.get(i)
    if r is None:
        d = _desc[i]
        r = frozenset((i,))
        if d[0] in ("and", "xor", "mux"):
            r = r.union(*(supp_e(x >> 1) for x in d[1:] if x > 1))
        _supp[i] = r
    return r


def no_len(p):
    """The entry that says that the string of a run is empty; it stands for all that is said of its length."""
    return atom("eq", T("len", p[1], w=64), 0) >> 1


def supp(t):
    """Entries that the selections and bits of a byte-string term are made of."""
    r = _supp.get(t)
    if r is None:
        if t.op == "sel":
            r = supp_e(t.args[0] >> 1) | supp(t.args[1]) | supp(t.args[2])
        elif t.op in ("H", "cat"):
            r = set()
            for p in t.args[1 if t.op == "H" else 0]:
                if type(p) is Bits:
                    for e in p.b:
                        if e > 1:
                            r |= supp_e(e >> 1)
                elif type(p) is tuple and p[0] == "run":
                    r |= supp(p[1])
                    if type(p[3]) is not int:
                        r.add(no_len(p))
            r = frozenset(r)
        else:
            r = frozenset()
        _supp[t] = r
    return r


def known_run(p, f):
    """A run of bytes with the length that facts give it."""
    if type(p) is tuple and p[0] == "run" and type(p[3]) is not int and type(p[2]) is int:
        for i, v in list((f.f if type(f) is Sample else f).items()) + list(BASE.items()):
            d = _desc[i]
            if v == 1 and d[0] == "eq" and type(d[1]) is Term and d[1].op == "len" and d[1].args[0] is p[1] and type(d[2]) is int:
                if p[3] == ("len", p[1]) and p[2] == 0 or is_rest(p):
                    return p[:3] + (max(d[2] - p[2], 0),)
    return p


def by_len(f):
    """Whether facts include that some string is empty."""
    return any(v == 1 and _desc[i][0] == "eq" and any(type(x) is Term and x.op == "len" for x in _desc[i][1:]) for i, v in f.items())


def under(t, f, memo):
    """A byte-string term with every selection resolved under facts."""
    r = memo.get(t)
    if r is not None:
        return r
    up = memo.get("up")
    if up is not None and up[2].isdisjoint(supp(t)):
        # what is known in this case says nothing about the term
        r = memo[t] = under(t, up[0], up[1])
        return r
    if t.op == "sel":
        c = cof(t.args[0], f, memo)
        if c < 2:
            r = under(t.args[1] if c else t.args[2], f, memo)
        else:
            x, y = t.args[1:]
            if c & 1:
                c, x, y = c ^ 1, y, x
            if _desc[c >> 1][0] in ("tb", "bit"):
                x, y = under(x, f, memo), under(y, f, memo)
            else:
                x, y = under(x, *branch(c, 1, f, memo)), under(y, *branch(c, 0, f, memo))
            r = csel(c, x, y)
    elif t.op == "H":
        ps = [under_piece(known_run(p, f), f, memo) for p in t.args[1]]
        c = next((l for l in map(chooser, ps) if l), None)
        if c:
            # a byte that depends on one condition: decide the condition first
            rs = [under(t, *branch(c, v, f, memo)) for v in (1, 0)]
            r = csel(c, *rs)
        else:
            r = mkhash(t.args[0], ps)
    elif t.op == "cat":
        ps = canon_pieces([under_piece(known_run(p, f), f, memo) for p in t.args[0]])
        if len(ps) == 1 and type(ps[0]) is tuple and ps[0][2] == 0 and ps[0][3] == blen(ps[0][1]):
            r = ps[0][1]
        else:
            r = T("cat", ps)
    else:
        r = t
    memo[t] = r
    return r


_osel = {}


def rank(c):
    return (_desc[c >> 1][0] not in ("tb", "bit"), c)


def osel(c, x, y):
    """Selection with nested conditions in a fixed order (a decision diagram)."""
    if x is y:
        return x
    k = (c, x, y)
    r = _osel.get(k)
    if r is None:
        top = min([c] + [t.args[0] for t in (x, y) if t.op == "sel"], key=rank)
        x1, x0 = x.args[1:] if x.op == "sel" and x.args[0] == top else (x, x)
        y1, y0 = y.args[1:] if y.op == "sel" and y.args[0] == top else (y, y)
        if top == c:
            r = x1 if x1 is y0 else T("sel", c, x1, y0)
        else:
            a, b = osel(c, x1, y1), osel(c, x0, y0)
            r = a if a is b else T("sel", top, a, b)
        _osel[k] = r
    return r


def csel(c, x, y):
    """Selection by a condition made of several simple ones."""
    if x is y:
        return x
    if c < 2:
        return x if c else y
    if c & 1:
        c, x, y = c ^ 1, y, x
    d = _desc[c >> 1]
    if d[0] not in ("and", "xor", "mux") or table(c >> 1) is None:
        return osel(c, x, y)
    k = (c, x, y)
    r = _osel.get(k)
    if r is None:
        if d[0] == "and":
            r = csel(d[1], csel(d[2], x, y), y)
        elif d[0] == "xor":
            r = csel(d[1], csel(d[2], y, x), csel(d[2], x, y))
        else:
            r = csel(d[1], csel(d[2], x, y), csel(d[3], x, y))
        _osel[k] = r
    return r


def branch(c, v, f, memo):
    """Facts and memo of the case that literal c has value v."""
    sub = memo.get((c, v))
    if sub is None:
        f1 = dict(f)
        consequences(c, v, f1)
        m = dict(memo.get("same", ()))
        m["same"] = dict(m)
        new = {i for i in f1 if i not in f}
        for i in list(new):
            d = _desc[i]
            if d[0] == "eq" and type(d[1]) is Term and d[1].op == "len":
                new.add(no_len(("run", d[1].args[0], 0, None)))
        m["up"] = (f, memo, new)
        sub = memo[(c, v)] = (f1, m)
    return sub


def chooser(p):
    """The only condition (no input bit) a byte depends on."""
    if type(p) is tuple and p[0] == "run" and p[1].op == "sel" and p[3] == 1:
        return p[1].args[0] & ~1
    if type(p) is not Bits:
        return None
    ls = {e & ~1 for e in p.b if e > 1}
    if len(ls) != 1:
        return None
    l = ls.pop()
    return None if _desc[l >> 1][0] in ("tb", "bit") else l


def under_piece(p, f, memo):
    if type(p) is tuple and p[0] == "run":
        return ("run", under(p[1], f, memo)) + p[2:]
    if type(p) is Bits:
        return norm(tuple(cof(e, f, memo) if e > 1 else e for e in p.b))
    return p


def renamed(f):
    """Opaque strings that facts say are equal to others, each with what stands for it."""
    out = {}
    for i, v in f.items():
        d = _desc[i]
        if v == 1 and d[0] == "beq":
            x, y = d[1:]
            if y.op == "sym" and x.op == "H":
                x, y = y, x
            if {x.op, y.op} <= {"sym", "H"} and x not in _bitknown and not (x.op == "sym" and y in _bitknown) and x not in out and y not in out and x not in out.values():
                out[x] = y
    if out:
        out["same"] = dict(out)
    return out


class Sample:
    """One way to decide every unknown, in line with given facts."""

    def __init__(self, f, n):
        self.v = {}
        self.f = f
        self.n = n
        self.memo = renamed(f)

    def get(self, i, default=None):
        r = self.v.get(i)
        if r is None:
            d = _desc[i]
            if d[0] in ("and", "xor", "mux"):
                x = [e if e < 2 else self.get(e >> 1) ^ (e & 1) for e in d[1:]]
                r = x[0] & x[1] if d[0] == "and" else x[0] ^ x[1] if d[0] == "xor" else x[2 - x[0]]
            else:
                r = self.f.get(i)
                if r is None:
                    r = BASE.get(i)
                if r is None or r > 1:
                    r = ((i * 2654435761 + self.n * 40503) * 2246822519 >> 15) & 1 if d[0] not in ("eq", "beq") else 0
            self.v[i] = r
        return r

    def holds(self):
        return all(v > 1 or self.get(i) == v for i, v in self.f.items()) and all(v > 1 or self.get(i) == v for i, v in BASE.items())

    def term(self, t):
        return under(t, self, self.memo)


def samples(f, most=4, tries=40):
    out = []
    for n in range(tries):
        s = Sample(f, n)
        if s.holds():
            out.append(s)
            if len(out) == most:
                break
    return out


def mark_bits(t):
    """Declare that partition facts speak about single bits of t."""
    _bitknown.add(t)


class _Budget(Exception):
    pass


def bytes_eq(a, b, f):
    """Entry: equality of two byte-string terms of the same length."""
    a, b = rbt(a, f), rbt(b, f)
    if a is b:
        return 1
    if a.op == "const" and b.op == "const":
        return 1 if a.args[0] == b.args[0] else 0
    r = _beq(a, b, {}, _free, None)
    if r < 2 or not f:
        if r < 2:
            return r
    else:
        # first without the facts of nested cases, which is linear ...
        r = _beq(a, b, f, {}, None)
    if r < 2:
        return r
    # ... then case by case, as far as that stays cheap
    try:
        return _beq(a, b, f, None, [4000])
    except _Budget:
        return r


def _beq(a, b, f, memo, budget):
    a, b = rbt(a, f), rbt(b, f)
    if a is b:
        return 1
    if a.op == "const" and b.op == "const":
        return 1 if a.args[0] == b.args[0] else 0
    r = _free.get((a, b))
    if r is not None and r < 2:
        return r
    if memo is not None:
        r = memo.get((a, b))
        if r is None:
            r = memo[(a, b)] = memo[(b, a)] = _beq2(a, b, f, memo, budget)
        return r
    budget[0] -= 1
    if budget[0] < 0:
        raise _Budget
    return _beq2(a, b, f, memo, budget)


def _beq2(a, b, f, memo, budget):
    if a.op == "sel" or b.op == "sel":
        if a.op != "sel":
            a, b = b, a
        c = res(a.args[0], f)
        f1 = f0 = f
        if memo is None:
            f1 = dict(f)
            consequences(c, 1, f1)
            f0 = dict(f)
            consequences(c, 0, f0)
        elif b.op == "sel":
            d = res(b.args[0], f)
            if c >> 1 == d >> 1:
                x, y = b.args[1:] if c == d else b.args[:0:-1]
                return e_mux(c, _beq(a.args[1], x, f, memo, budget), _beq(a.args[2], y, f, memo, budget))
        return e_mux(c, _beq(a.args[1], b, f1, memo, budget), _beq(a.args[2], b, f0, memo, budget))
    if "H" in (a.op, b.op):
        if a.op == b.op == "H":
            r = split_eq(a.args[1], b.args[1], f, memo, budget, 6) if a.args[0] == b.args[0] else 0
            if r is not None:
                return r
        elif "const" in (a.op, b.op):
            return 0  # ideal hash: no digest is a constant of the program
    if a in _bitknown or b in _bitknown:
        n = blen(a)
        if n is not None and n == blen(b) and a.op in ("sym", "const") and b.op in ("sym", "const"):
            same = True
            for p in range(n * 8):
                x, y = res(key_bit(a, p), f), res(key_bit(b, p), f)
                if x == y:
                    continue
                same = False
                if x == y ^ 1:
                    return 0
            if same:
                return 1
    k = sorted((a, b), key=order)
    return res(atom("beq", k[0], k[1]), f)


def outer_cond(ps, f):
    """A condition that selects one of the pieces, if any."""
    for p in ps:
        if type(p) is tuple and p[0] == "run":
            t = rbt(p[1], f)
            if t.op == "sel":
                return res(t.args[0], f) & ~1
    return None


def given(ps, c, v, f):
    """The pieces where the condition c is v (outer selections only)."""
    out = []
    for p in ps:
        if type(p) is tuple and p[0] == "run":
            t = rbt(p[1], f)
            while t.op == "sel":
                e = res(t.args[0], f)
                if e >> 1 == c >> 1:
                    e = v ^ (e & 1)
                if e > 1:
                    break
                t = rbt(t.args[1] if e else t.args[2], f)
            p = (p[0], t) + p[2:]
        elif type(p) is Bits and any(e >> 1 == c >> 1 for e in p.b):
            p = norm(tuple(v ^ (e & 1) if e >> 1 == c >> 1 else e for e in p.b))
        out.append(p)
    return tuple(out)


def split_eq(p, q, f, memo, budget, depth):
    """Equality of two concatenations, by cases of the conditions that select their pieces."""
    c = None
    if depth and len(p) == len(q):
        c = outer_cond(p, f)
        if c is None:
            c = outer_cond(q, f)
    if c is None:
        return pieces_eq(p, q, f, memo, budget)
    f1 = f0 = f
    if memo is None:
        f1, f0 = dict(f), dict(f)
        consequences(c, 1, f1)
        consequences(c, 0, f0)
    x = split_eq(given(p, c, 1, f1), given(q, c, 1, f1), f1, memo, budget, depth - 1)
    if x is None:
        return None
    y = split_eq(given(p, c, 0, f0), given(q, c, 0, f0), f0, memo, budget, depth - 1)
    if y is None:
        return None
    return e_mux(c, x, y)


def pieces_eq(p, q, f, memo=None, budget=None):
    """Equality of two concatenations; None when they cannot be aligned."""
    if p == q:
        return 1
    r = 1
    i = j = 0
    while i < len(p) and j < len(q):
        x, y = p[i], q[j]
        tx, ty = type(x) is tuple, type(y) is tuple
        if x == y:
            i, j = i + 1, j + 1
            continue
        if tx and ty:
            if not (x[2] == y[2] == 0 and x[3] == y[3] and x[3] == blen(x[1]) == blen(y[1])):
                return None if r else 0
            e = _beq(x[1], y[1], f, memo, budget)
            i, j = i + 1, j + 1
        elif tx or ty:
            # known bytes against an opaque run
            (n, t, rest, at) = (x[3], x[1], q, j) if tx else (y[3], y[1], p, i)
            bs = rest[at:at + n] if type(n) is int else ()
            if n != blen(t) or (x if tx else y)[2] != 0 or len(bs) != n or not all(type(b) is int for b in bs):
                return None if r else 0
            e = _beq(t, T("const", tuple(bs)), f, memo, budget)
            i, j = (i + 1, j + n) if tx else (i + n, j + 1)
        else:
            e = eq(x, y, 8, f)
            i, j = i + 1, j + 1
        r = e_and(r, e)
        if r == 0:
            return 0
    if i < len(p) or j < len(q):
        return None
    return r


def is_int(v):
    t = type(v)
    return t is int or t is Bits or t is Term


def decided(v, f):
    """A selected value without the selections that facts decide."""
    if type(v) is Bits:
        return norm(tuple(res(e, f) if e > 1 else e for e in v.b))
    if type(v) is not tuple or not v:
        return v
    if v[0] in ("isel", "vsel"):
        c = res(v[1], f)
        if c < 2:
            return decided(v[3 - c], f)
        x, y = decided(v[2], f), decided(v[3], f)
        if x is y or x == y:
            return x
        return v if x is v[2] and y is v[3] and c == v[1] else (v[0], c, x, y)
    if v[0] == "by" and v[1].op == "sel":
        t = dsel(v[1], f, {})
        return v if t is v[1] else ("by",) + (t,) + v[2:]
    return v


def dsel(t, f, memo):
    if t.op != "sel":
        return t
    r = memo.get(t)
    if r is None:
        c = res(t.args[0], f)
        if c < 2:
            r = dsel(t.args[2 - c], f, memo)
        else:
            x, y = dsel(t.args[1], f, memo), dsel(t.args[2], f, memo)
            r = x if x is y else t if x is t.args[1] and y is t.args[2] and c == t.args[0] else T("sel", c, x, y) if not c & 1 else T("sel", c ^ 1, y, x)
        memo[t] = r
    return r


def mk_sel(lit, x, y, ptr=None, fs=None):
    """Value that is x when lit holds and y otherwise, or raise Unsupported.

    fs: what is known where x and where y is the value."""
    if x is y or x == y:
        return x
    if x is None or y is None:
        return y if x is None else x  # never read where it is moved out
    if fs is not None:
        # each side is only looked at where it was made
        x, y = decided(x, fs[0]), decided(y, fs[1])
        if x is y or x == y:
            return x
    ix, iy = is_int(x), is_int(y)
    if ix and iy:
        if lit & 1:
            return ("isel", lit ^ 1, y, x)
        return ("isel", lit, x, y)
    if ix or iy:
        if (type(x) is tuple and x[0] == "isel") or (type(y) is tuple and y[0] == "isel"):
            return ("isel", lit, x, y)
        raise Unsupported("merge")
    kx, ky = x[0], y[0]
    if kx == ky and kx in ("p", "s") and ptr is not None:
        return ptr(lit, x, y)
    if kx in ("isel",) or ky in ("isel",):
        if kx in ("isel",) and ky in ("isel",):
            return ("isel", lit, x, y)
        raise Unsupported("merge")
    if kx in ("arr", "by") and ky in ("arr", "by"):
        if kx == "arr" and ky == "arr" and len(x[1]) == len(y[1]) and not bytes_like(x) and not bytes_like(y):
            return ("arr", tuple(mk_sel(lit, a, b, ptr, fs) for a, b in zip(x[1], y[1])))
        tx, ty = bterm(x), bterm(y)
        if blen(tx) != blen(ty) or blen(tx) is None:
            raise Unsupported("merge")
        if fs is not None:
            # the same digest, in the case that the data is empty
            for f, p, q in ((fs[0], tx, ty), (fs[1], ty, tx)):
                if by_len(f) and under(q, f, {}) is under(p, f, {}):
                    return ("by", q, blen(q))
        if lit & 1:
            lit, tx, ty = lit ^ 1, ty, tx
        return ("by", T("sel", lit, tx, ty), blen(tx))
    if kx == "a" and ky == "a":
        if x[1] == y[1] and len(x[2]) == len(y[2]):
            return ("a", x[1], tuple(mk_sel(lit, a, b, ptr, fs) for a, b in zip(x[2], y[2])))
        if not x[2] and not y[2]:
            return ("vsel", lit, x, y)
        raise Unsupported("merge")
    if kx in ("vsel", "a") and ky in ("vsel", "a"):
        return ("vsel", lit, x, y)
    if kx == ky == "box":
        return ("box", mk_sel(lit, x[1], y[1], ptr, fs))
    if kx == ky == "vec" and len(x[1]) == len(y[1]):
        return ("vec", tuple(mk_sel(lit, a, b, ptr, fs) for a, b in zip(x[1], y[1])))
    if kx == ky == "vit" and len(x[1]) == len(y[1]):
        return ("vit", tuple(mk_sel(lit, a, b, ptr, fs) for a, b in zip(x[1], y[1])))
    if kx == ky == "map" and [k for k, _ in x[1]] == [k for k, _ in y[1]]:
        return ("map", tuple((k, mk_sel(lit, a, b, ptr, fs)) for (k, a), (_, b) in zip(x[1], y[1])))
    raise Unsupported("merge")


def flat(v, f):
    """v with selected integers written out bit by bit."""
    if type(v) is not tuple or not v:
        return v
    k = v[0]
    if k in ("isel", "vsel"):
        r = res(v[1], f)
        if r < 2:
            return flat(v[3 - r], f)
        x, y = flat(v[2], f), flat(v[3], f)
        if type(x) in (int, Bits) and type(y) in (int, Bits):
            w = max(n.bit_length() if type(n) is int else len(n.b) for n in (x, y))
            return norm(tuple(e_mux(r, res(p, f) if p > 1 else p, res(q, f) if q > 1 else q) for p, q in zip(ent_bits(x, w), ent_bits(y, w))))
        return mk_sel(r, x, y) if k == "isel" and x == y else (k, v[1], x, y)
    if k == "a":
        return ("a", v[1], tuple(flat(x, f) for x in v[2]))
    if k in ("arr", "vec") and not bytes_like(v):
        return (k, tuple(flat(x, f) for x in v[1]))
    return v


def bytes_like(v):
    return any(type(e) in (int, Bits) for e in v[1]) or not v[1]


# ---------------------------------------------------------------- printing

def show_e(e):
    if e < 2:
        return str(e)
    d = _desc[e >> 1]
    s = "%s(%s)" % (d[0], ",".join(show(x) if not (d[0] in ("and", "xor", "mux") and type(x) is int) else show_e(x) for x in d[1:]))
    return ("!" if e & 1 else "") + s


def show(v, depth=0):
    if depth > 7:
        return ".."
    if v is None:
        return "?"
    if type(v) is int:
        return str(v)
    if type(v) is str:
        return v
    if type(v) is bool:
        return str(v)
    if type(v) is Bits:
        k = "".join("x" if e > 1 else str(e) for e in reversed(v.b))
        if len(v.b) == 8 and v.b[7] > 1:
            d = _desc[v.b[7] >> 1]
            if d[0] == "tb":
                return "%s[%d]" % (show(d[1]), d[2] // 8)
        if len(v.b) == 1:
            return show_e(v.b[0])
        return "0b" + k.lstrip("0")
    if type(v) is Term:
        if v.op == "sym":
            return str(v.args[0])
        if v.op == "const":
            if all(x == 0 for x in v.args[0]):
                return "zero%d" % len(v.args[0])
            return bytes(v.args[0]).hex()
        if v.op == "H":
            return "H(%s)" % "|".join(show(x, depth + 1) for x in v.args[1])
        if v.op == "sel":
            return "(%s?%s:%s)" % (show_e(v.args[0]), show(v.args[1], depth + 1), show(v.args[2], depth + 1))
        if v.op == "sum":
            return "+".join([str(v.args[0])] * (v.args[0] != 0) + [show(x, depth + 1) for x in v.args[1]])
        return "%s(%s)" % (v.op, ",".join(show(x, depth + 1) for x in v.args))
    if type(v) is tuple:
        if not v:
            return "()"
        k = v[0]
        if k == "run":
            if v[2] == 0 and v[3] == blen(v[1]):
                return show(v[1], depth + 1)
            return "%s[%s;%s]" % (show(v[1], depth + 1), show(v[2]), show(v[3]))
        if k == "by":
            return show(v[1], depth)
        if k == "arr" and v[1] and all(type(x) is int for x in v[1]):
            return show(T("const", v[1])) if max(v[1]) < 256 else str(list(v[1]))
        if k == "a":
            return "%s{%s}" % (v[1], ", ".join(show(x, depth + 1) for x in v[2]))
        if k in ("isel", "vsel"):
            return "(%s?%s:%s)" % (show_e(v[1]), show(v[2], depth + 1), show(v[3], depth + 1))
        return "(" + " ".join(show(x, depth + 1) for x in v) + ")"
    if type(v) is dict:
        return "{..}"
    return str(v)
