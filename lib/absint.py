"""Abstract interpreter over dumped MIR.

Abstract states are propagated in reverse post-order through each body; states
that meet at a block are joined (values that differ become selections on the
deciding literal), calls are analysed through their resolved bodies, and every
storage access is recorded as an effect.
"""
import heapq
import json
import os
import re

import dom
from dom import Bits, Term, T, Unsupported, norm, res

LOOP_LIMIT = 4000
STEP_LIMIT = 6_000_000


class Fork(Exception):
    """The transfer function needs literal e decided."""

    def __init__(self, e):
        self.e = e


class Infeasible(Exception):
    pass


class Eff:
    __slots__ = ("prev", "ev", "n")


_effs = {}


def eff(prev, ev):
    k = (id(prev), ev)
    r = _effs.get(k)
    if r is None:
        r = Eff()
        r.prev, r.ev, r.n = prev, ev, (prev.n if prev else 0) + 1
        _effs[k] = r
    return r


def eff_list(e):
    out = []
    while e is not None:
        out.append(e.ev)
        e = e.prev
    out.reverse()
    return out


class St:
    __slots__ = ("fr", "facts", "w", "r", "x")

    def __init__(self):
        self.fr = [[]]
        self.facts = {}
        self.w = None
        self.r = None
        self.x = {}

    def fork(self):
        s = St()
        s.fr = [list(f) for f in self.fr]
        s.facts = dict(self.facts)
        s.w, s.r = self.w, self.r
        s.x = dict(self.x)
        return s

    def alloc(self, v):
        """A new heap cell; returns its address."""
        self.fr[0].append(v)
        return (0, len(self.fr[0]) - 1)


class Facts:
    """What is known in one case of a selection."""
    __slots__ = ("facts",)

    def __init__(self, f):
        self.facts = dict(f)


# ------------------------------------------------------------------ paths

def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and (i == 0 or s[i - 1] != "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def split_top(s, sep):
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c in "<([":
            d += 1
        elif c in ">)]" and not (c == ">" and i and s[i - 1] == "-"):
            d -= 1
        elif d == 0 and s.startswith(sep, i):
            return s[:i], s[i + len(sep):]
        i += 1
    return None


_np = {}


def norm_path(p):
    r = _np.get(p)
    if r is not None:
        return r
    s = p
    # <X as Y>::rest  /  mod::<impl Y for X>::rest
    def conv(seg):
        if seg.startswith("impl "):
            seg = seg[5:]
            t = split_top(seg, " for ")
            if t:
                return "{%s as %s}" % (hd(t[1]), hd(t[0]))
            return "{%s}" % hd(seg)
        t = split_top(seg, " as ")
        if t:
            return "{%s as %s}" % (hd(t[0]), hd(t[1]))
        return None

    def hd(x):
        x = x.strip()
        x = re.sub(r"^&'\w+ (mut )?", "&", x)
        x = re.sub(r"^&mut ", "&", x)
        if x.lstrip("&").startswith("["):
            return "&" * (x[0] == "&") + ("[;]" if ";" in x else "[]")
        x = strip_generics(x)
        return x.rstrip(":")

    out = ""
    i = 0
    while i < len(s):
        if s[i] == "<":
            d = 0
            j = i
            while True:
                if s[j] == "<":
                    d += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            c = conv(s[i + 1:j])
            if c:
                out += c
            i = j + 1
        else:
            out += s[i]
            i += 1
    out = out.replace("::::", "::")
    out = re.sub(r"\b(core|alloc)::", "std::", out)
    out = re.sub(r"^(core|alloc)::", "std::", out)
    _np[p] = out
    return out


def norm_adt(p):
    return re.sub(r"^(core|alloc)::", "std::", p)


PTR_LIKE = {"std::ptr::NonNull", "std::ptr::Unique", "std::ptr::unique::Unique"}


class Body:
    pass


class Prog:
    """One dumped root with everything it reaches."""

    def __init__(self, path):
        self.file = path
        j = json.load(open(path))
        self.types = j["types"]
        self.raw = j["insts"]
        self.root = j["root"]
        self.bodies = {}
        self._np = {}

    def inst(self, i):
        return self.raw[i]

    def npath(self, i):
        r = self._np.get(i)
        if r is None:
            r = self._np[i] = norm_path(self.raw[i]["path"])
        return r

    def body(self, i):
        b = self.bodies.get(i)
        if b is None:
            b = self.bodies[i] = self.compile(self.raw[i]["body"])
        return b

    # -------------------------------------------------------- compile
    def compile(self, raw):
        b = Body()
        b.locals = raw["locals"]
        b.argc = raw["argc"]
        b.spread = raw["spread"]
        b.n = len(b.locals)
        self._cur = b
        b.blocks = []
        b.cleanup = []
        for bl in raw["blocks"]:
            b.cleanup.append(bl["cl"])
            if bl["cl"]:
                b.blocks.append(None)
                continue
            ss = []
            for s in bl["s"]:
                if s[0] == "=":
                    # a box copied for the sake of its contents stays where it is
                    alias = len(s[1]) == 1 and s[1][0] > b.argc and s[2][0] == "use"
                    ss.append(("=", self.place(s[1]), ("use", self.operand(s[2][1], True)) if alias else self.rvalue(s[2]), s[-1]))
                elif s[0] == "dead":
                    ss.append(("dead", s[1]))
                elif s[0] == "sd":
                    ss.append(("sd", self.place(s[1]), s[2], s[-1]))
                else:
                    ss.append(("x", s[0]))
            b.blocks.append((ss, self.term(bl["t"]), bl["l"]))
        self.flow(b)
        return b

    def tk(self, t):
        return self.types[t]

    def place(self, p):
        loc = p[0]
        t = self._cur.locals[loc]
        ops = []
        for e in p[1:]:
            k = e[0]
            ty = self.types[t] if t is not None else {"k": "?"}
            if k == "d":
                if ty["k"] in ("ref", "ptr"):
                    ops.append(("d",))
                    t = ty["t"]
                else:
                    ops.append(("*",))
                    t = ty["args"][0] if ty.get("args") else None
            elif k == "f":
                adt = norm_adt(ty.get("adt", ""))
                if ty["k"] == "union":
                    pass
                elif adt == "std::boxed::Box":
                    if e[1] == 0:
                        ops.append(("bp",))
                elif adt in PTR_LIKE:
                    pass
                else:
                    ops.append(("f", e[1]))
                t = e[2]
            elif k == "v":
                pass
            elif k == "i":
                ops.append(("i", e[1]))
                t = ty.get("t")
            elif k == "ci":
                ops.append(("ci", e[1], e[3]))
                t = ty.get("t")
            elif k == "ss":
                ops.append(("ss", e[1], e[2], e[3]))
            else:
                ops.append(("x", k))
        return (loc, tuple(ops), t)

    def operand(self, o, alias=False):
        k = o[0]
        if k in "cm":
            p = self.place(o[1])
            if alias and k == "c" and p[2] is not None and norm_adt(self.types[p[2]].get("adt", "")) == "std::boxed::Box":
                return ("ba", p, p[2])
            if not p[1]:
                return ("l", p[0], p[2])
            return ("pl", p, p[2])
        if k == "k":
            t = o[1]
            try:
                return ("k", self.const(o[2], t), t)
            except Unsupported as e:
                return ("bad", str(e), t)
        return ("bad", str(o), None)

    def const(self, c, t):
        ty = self.types[t] if t is not None else {"k": "?"}
        if "i" in c:
            v = c["i"]
            k = ty["k"]
            if k == "int":
                return v & dom.mask(ty["w"])
            return v
        if "adt" in c:
            fs = c["fs"]
            vs = ty.get("vs")
            adt = norm_adt(ty.get("adt", ""))
            fts = [f[1] for f in vs[c["adt"]][2]] if vs and len(vs[c["adt"]][2]) == len(fs) else [None] * len(fs)
            vals = tuple(self.const(f, ft) for f, ft in zip(fs, fts))
            if adt in PTR_LIKE:
                return vals[0]
            if adt == "std::vec::Vec":
                return ("vec", ())
            return ("a", c["adt"], vals)
        if "tup" in c:
            ts = ty.get("ts") or [None] * len(c["tup"])
            return ("a", 0, tuple(self.const(f, ft) for f, ft in zip(c["tup"], ts)))
        if "arr" in c:
            et = ty.get("t")
            return ("arr", tuple(self.const(f, et) for f in c["arr"]))
        if "r" in c:
            inner = self.const(c["r"], ty.get("t"))
            it = self.types[ty["t"]] if ty.get("t") is not None else {"k": "?"}
            if it["k"] == "slice":
                return ("s", ("const", inner), (), 0, len(inner[1]))
            if it["k"] == "str":
                return ("s", ("const", inner), (), 0, len(inner[1].encode()))
            return ("p", ("const", inner), ())
        if "str" in c:
            return ("str", c["str"])
        if "fn" in c:
            return ("fn", _freeze(c["fn"]))
        if "z" in c:
            return ("a", 0, ())
        if "fnptr" in c:
            return ("fn", _freeze({"n": c["fnptr"], "decl": ""}))
        if "rawint" in c:
            return ("rawint", c["rawint"])
        raise Unsupported("constant %s" % json.dumps(c)[:80])

    def rvalue(self, r):
        k = r[0]
        if k == "use":
            return ("use", self.operand(r[1]))
        if k == "ref":
            return ("ref", self.place(r[1]))
        if k == "rep":
            return ("rep", self.operand(r[1]), r[2])
        if k == "cast":
            vt = r[5] if len(r) > 5 else None
            return ("cast", r[1], self.operand(r[2]), r[3], r[4], vt)
        if k == "bin":
            a, b = self.operand(r[2]), self.operand(r[3])
            return ("bin", r[1], a, b)
        if k == "un":
            return ("un", r[1], self.operand(r[2]))
        if k == "disc":
            return ("disc", self.place(r[1]), r[2])
        if k == "agg":
            kind = r[1][0]
            ops = [self.operand(o) for o in r[2]]
            var = 0
            mode = "a"
            if kind == "adt":
                var = r[1][2]
                ty = self.types[r[1][1]]
                if ty["k"] == "union" or norm_adt(ty.get("adt", "")) in PTR_LIKE:
                    mode = "one"
            elif kind == "array":
                mode = "arr"
            elif kind == "rawptr":
                mode = "rawptr"
            elif kind == "other":
                mode = "bad"
            return ("agg", mode, var, ops)
        return ("bad", str(r)[:80])

    def term(self, t):
        k = t[0]
        if k == "goto":
            return ("goto", t[1])
        if k == "switch":
            ty = self.types[t[4]]
            w = ty.get("w", 1 if ty["k"] == "bool" else 32)
            return ("switch", self.operand(t[1]), [(v & dom.mask(w), x) for v, x in t[2]], t[3], w)
        if k == "ret":
            return ("ret",)
        if k == "drop":
            return ("goto", t[2])
        if k == "call":
            callee = t[1]
            if "ptr" in callee:
                callee = {"ptr": self.operand(callee["ptr"])}
            return ("call", callee, [self.operand(a) for a in t[2]], self.place(t[3]), t[4], t[5], t[6])
        if k == "assert":
            return ("assert", self.operand(t[1]), t[2], t[3], t[4], t[5])
        if k == "unreachable":
            return ("unreachable",)
        return ("bad", str(t)[:80])

    # -------------------------------------------------------- flow facts
    def flow(self, b):
        n = len(b.blocks)
        succ = []
        for bl in b.blocks:
            if bl is None:
                succ.append([])
                continue
            t = bl[1]
            k = t[0]
            if k == "goto":
                succ.append([t[1]])
            elif k == "switch":
                succ.append([x for _, x in t[2]] + [t[3]])
            elif k == "call":
                succ.append([t[4]] if t[4] is not None else [])
            elif k == "assert":
                succ.append([t[3]])
            else:
                succ.append([])
        b.succ = succ
        order = []
        seen = set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        b.nest, b.wto = wto(succ)
        pred = [0] * n
        for x in seen:
            for y in succ[x]:
                pred[y] += 1
        b.join = [c > 1 for c in pred]
        # liveness
        taken = set()
        uses = [set() for _ in range(n)]
        defs = [set() for _ in range(n)]

        def use_place(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for o in p[1]:
                if o[0] == "i" and o[1] not in d:
                    u.add(o[1])

        def use_op(o, u, d):
            if o[0] == "l":
                if o[1] not in d:
                    u.add(o[1])
            elif o[0] == "pl":
                use_place(o[1], u, d)
            elif o[0] == "ba":
                use_place(o[1], u, d)
                if not any(x[0] == "d" for x in o[1][1]):
                    taken.add(o[1][0])

        for i, bl in enumerate(b.blocks):
            if bl is None:
                continue
            u, d = uses[i], defs[i]
            for s in bl[0]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k == "use" or k == "rep":
                        use_op(r[1], u, d)
                    elif k == "ref":
                        use_place(r[1], u, d)
                        if not any(o[0] in ("d",) for o in r[1][1]):
                            taken.add(r[1][0])
                    elif k == "disc":
                        use_place(r[1], u, d)
                    elif k == "cast":
                        use_op(r[2], u, d)
                    elif k == "bin":
                        use_op(r[2], u, d)
                        use_op(r[3], u, d)
                    elif k == "un":
                        use_op(r[2], u, d)
                    elif k == "agg":
                        for o in r[3]:
                            use_op(o, u, d)
                    if any(o[0] == "bp" for o in (r[1][1] if k == "ref" else r[2][1][1] if k == "cast" and r[2][0] == "pl" else r[1][1][1] if k == "use" and r[1][0] == "pl" else ())):
                        taken.add(r[1][0] if k == "ref" else r[2][1][0] if k == "cast" else r[1][1][0])
                    if s[1][1]:
                        use_place(s[1], u, d)
                    else:
                        d.add(s[1][0])
                elif s[0] == "dead":
                    d.add(s[1])
                elif s[0] == "sd":
                    use_place(s[1], u, d)
            t = bl[1]
            if t[0] == "switch" or t[0] == "assert":
                use_op(t[1], u, d)
            elif t[0] == "call":
                if "ptr" in t[1]:
                    use_op(t[1]["ptr"], u, d)
                for o in t[2]:
                    use_op(o, u, d)
                if t[3][1]:
                    use_place(t[3], u, d)
                else:
                    d.add(t[3][0])
            elif t[0] == "ret":
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for x in reversed(order):
                o = set()
                for y in succ[x]:
                    o |= live[y]
                v = uses[x] | (o - defs[x])
                if v != live[x]:
                    live[x] = v
                    ch = True
        b.live = [frozenset(l | taken) for l in live]
        b.taken = taken


def wto(succ):
    """Weak topological order: loop nest of each block and its position.

    (Bourdoncle 1993.)  All of a loop comes before what follows the loop, so
    the states of one iteration meet before the next iteration starts.
    """
    dfn = {}
    num = [0]
    stack = []
    INF = 1 << 60

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head = num[0]
        loop = False
        for w in succ[v]:
            m = dfn.get(w, 0)
            if m == 0:
                m = visit(w, part)
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                sub = []
                for w in succ[v]:
                    if dfn.get(w, 0) == 0:
                        visit(w, sub)
                part.append((v, sub[::-1]))
            else:
                part.append((v, None))
        return head

    top = []
    visit(0, top)
    nest, pos = {}, {}

    def lay(part, hs):
        for v, sub in part:
            pos[v] = len(pos)
            if sub is None:
                nest[v] = hs
            else:
                nest[v] = hs + (v,)
                lay(sub, hs + (v,))
    lay(top[::-1], ())
    return nest, pos


def _freeze(c):
    return json.dumps(c, sort_keys=True)


# ------------------------------------------------------------------ values

def proj(v, e):
    if v is None:
        return None
    k = v[0]
    if k == "a":
        fs = v[2]
        return fs[e] if e < len(fs) else None
    if k == "arr" or k == "vec":
        return v[1][e]
    if k == "by" or k == "obs":
        return dom.byte_of(v[1], e)
    if k == "box":
        return v[1]
    if k == "vsel":
        return dom.mk_sel(v[1], proj(v[2], e), proj(v[3], e))
    if k == "str":
        return v[1].encode()[e]
    if k == "map":
        return v[1][e[1]][1]
    raise Unsupported("projection %r of %s" % (e, dom.show(v)[:60]))


def with_path(v, path, new):
    if not path:
        return new
    e = path[0]
    if v is None:
        if e == "*":
            return ("box", with_path(None, path[1:], new))
        fs = [None] * (e + 1)
        fs[e] = with_path(None, path[1:], new)
        return ("a", 0, tuple(fs))
    k = v[0]
    if k == "a":
        fs = list(v[2])
        while len(fs) <= e:
            fs.append(None)
        fs[e] = with_path(fs[e], path[1:], new)
        return ("a", v[1], tuple(fs))
    if k == "arr" or k == "vec":
        es = list(v[1])
        es[e] = with_path(es[e], path[1:], new)
        return dom.arr_norm(tuple(es)) if k == "arr" else ("vec", tuple(es))
    if k == "by":
        es = [dom.byte_of(v[1], i) for i in range(v[2])]
        es[e] = with_path(es[e], path[1:], new)
        return dom.arr_norm(tuple(es))
    if k == "box":
        return ("box", with_path(v[1], path[1:], new))
    if k == "map":
        n = e[1]
        kk, vv = v[1][n]
        return ("map", v[1][:n] + ((kk, with_path(vv, path[1:], new)),) + v[1][n + 1:])
    raise Unsupported("write into %s" % dom.show(v)[:60])


UNIT = ("a", 0, ())


def some(v):
    return ("a", 1, (v,))


NONE = ("a", 0, ())


def ok(v):
    return ("a", 0, (v,))


def err(v):
    return ("a", 1, (v,))


def reachable(st, live, rv, pins=()):
    """Heap cells that the live values of a state refer to."""
    out = set()
    todo = [rv, *pins]
    for d in range(1, len(st.fr)):
        f = st.fr[d]
        if d == len(st.fr) - 1 and live is not None:
            todo += [f[l] for l in live]
        else:
            todo += f
    while todo:
        v = todo.pop()
        if type(v) is not tuple or not v:
            continue
        k = v[0]
        if k in ("p", "s", "bxa"):
            c = v[1]
            if c[0] == 0 and c[1] not in out:
                out.add(c[1])
                todo.append(st.fr[0][c[1]])
        elif k in ("by", "obs", "str", "fn"):
            continue
        else:
            todo += v[1:]
    return out


def siblings(f, g):
    """Two sets of facts that differ in the value of one unknown only."""
    if len(f) != len(g):
        return False
    one = False
    for i, v in f.items():
        u = g.get(i)
        if u is None:
            return False
        if u != v:
            if one:
                return False
            one = True
    return one


class Interp:
    def __init__(self, prog, env=None, models=None):
        import models as M
        self.p = prog
        self.env = env
        self.models = models or M.MODELS
        self.steps = 0
        self.forks = 0
        self.joins = 0
        self.seen_fns = {}
        self.seen_calls = set()
        self.trace = bool(os.environ.get("FM_TRACE"))
        self.depth = 0
        self.pins = []  # what models hold on to during their own calls

    # -------------------------------------------------------- state helpers
    def load(self, st, cell, path):
        c = cell[0]
        v = cell[1] if c == "const" else st.fr[c][cell[1]]
        for e in path:
            v = proj(v, e)
        return v

    def store(self, st, cell, path, new):
        c = cell[0]
        if c == "const":
            raise Unsupported("write to constant")
        f = st.fr[c]
        f[cell[1]] = with_path(f[cell[1]], path, new) if path else new

    def deref(self, st, ptr):
        """Value behind a thin reference."""
        k = ptr[0] if type(ptr) is tuple else None
        if k == "p":
            return self.load(st, ptr[1], ptr[2])
        if k == "d":
            return self.deref(st, ptr[1])
        if k == "s":
            return self.slice_val(st, ptr)
        raise Unsupported("deref of %s" % dom.show(ptr)[:60])

    def container(self, st, s):
        return self.load(st, s[1], s[2])

    def slice_val(self, st, s):
        """Array value of the elements of a slice."""
        c = self.container(st, s)
        off, ln = s[3], s[4]
        if c[0] == "obs" or c[0] == "str":
            if off == 0 and ln == T("len", c[1], w=64) if c[0] == "obs" else True:
                return c
        if c[0] == "obs":
            return ("obs", T("cat", dom.canon_pieces(self.slice_pieces(st, s))))
        n = self.need_int(st, ln)
        off = self.need_int(st, off)
        if c[0] == "by":
            if off == 0 and n == c[2]:
                return c
            return dom.arr_norm(tuple(dom.byte_of(c[1], i) for i in range(off, off + n)))
        if c[0] in ("arr", "vec"):
            return dom.arr_norm(tuple(c[1][off:off + n]))
        raise Unsupported("slice of %s" % dom.show(c)[:60])

    def slice_pieces(self, st, s):
        c = self.container(st, s)
        if c[0] == "obs":
            return [("run", c[1], s[3], ("len", c[1]) if s[4] == T("len", c[1], w=64) else s[4])]
        if c[0] == "by":
            return [("run", c[1], self.need_int(st, s[3]), self.need_int(st, s[4]))]
        return dom.pieces_of(c, self.need_int(st, s[3]), self.need_int(st, s[4]))

    def decide(self, st, e):
        if e < 2:
            return e
        r = res(e, st.facts)
        if r < 2:
            return r
        raise Fork(dom.pivot(r, st.facts))

    def need_int(self, st, v):
        if type(v) is int:
            return v
        if type(v) is tuple and v[0] == "isel":
            return self.need_int(st, v[2] if self.decide(st, v[1]) else v[3])
        if type(v) is Bits:
            b = tuple(res(e, st.facts) for e in v.b)
            n = norm(b)
            if type(n) is int:
                return n
        raise Unsupported("unknown integer %s where a known one is needed" % dom.show(v)[:80])

    def pick(self, st, v):
        """Resolve lazily selected values that facts decide."""
        while type(v) is tuple and v and v[0] in ("isel", "vsel"):
            r = res(v[1], st.facts)
            if r == 1:
                v = v[2]
            elif r == 0:
                v = v[3]
            else:
                break
        return v

    def assume(self, st, e, v):
        out = {}
        dom.consequences(e, v, out)
        for i, x in list(out.items()):
            if x == 1 and dom._desc[i][0] == "eq":
                dom.eq_bits(i, st.facts, out)
        for i, x in out.items():
            r = res(i << 1, st.facts)
            if r < 2 and r != x:
                raise Infeasible()
        comp = False
        whole = None
        for i, x in out.items():
            st.facts[i] = x
            d = dom._desc[i]
            if d[0] == "tb" and d[1].op in ("H", "sym"):
                whole = d[1]
        if whole is not None:
            self.whole(st, whole)
        for i in st.facts:
            if dom._desc[i][0] in ("and", "mux", "xor"):
                comp = True
                break
        if comp and not dom.refine(st.facts):
            raise Infeasible()

    def whole(self, st, t):
        """A byte string of which every bit is known is a known one."""
        f = st.facts
        n = dom.blen(t)
        if not n or (dom._atoms.get(("tb", t, 8 * n - 1), 0) not in f):
            return
        c = []
        for i in range(n):
            x = 0
            for j in range(8 * i, 8 * i + 8):
                v = f.get(dom._atoms.get(("tb", t, j), 0))
                if v is None:
                    return
                x = x * 2 + v
            c.append(x)
        e = dom.bytes_eq(t, T("const", tuple(c)), {})
        if e == 0 or e > 1 and res(e, f) == 0:
            raise Infeasible()
        if e > 1:
            f[e >> 1] = 1 ^ (e & 1)

    def split(self, st, e):
        """States where literal e holds / does not hold."""
        self.forks += 1
        r = []
        for v in (1, 0):
            s = st.fork() if v else st
            try:
                self.assume(s, e, v)
            except Infeasible:
                continue
            r.append(s)
        return r

    # -------------------------------------------------------- places
    def resolve(self, st, pl):
        """(cell, path) of a place, or ('val', v) / ('sl', slice) specials."""
        d = len(st.fr) - 1
        cell, path = (d, pl[0]), ()
        for o in pl[1]:
            k = o[0]
            if k == "f":
                path += (o[1],)
            elif k == "d":
                v = self.pick(st, self.load(st, cell, path))
                t = v[0] if type(v) is tuple else None
                while t == "d":
                    v = v[1]
                    t = v[0]
                if t == "p":
                    cell, path = v[1], v[2]
                elif t == "s":
                    return self.resolve_slice(st, v, pl[1][pl[1].index(o) + 1:] if pl[1].count(o) == 1 else pl[1][self._after(pl[1], o):])
                else:
                    raise Unsupported("deref of %s" % dom.show(v)[:60])
            elif k == "*":
                v = self.load(st, cell, path)
                if type(v) is tuple and v[0] == "bxa":
                    cell, path = v[1], v[2]
                path += ("*",)
            elif k == "bp":
                v = self.load(st, cell, path)
                if type(v) is tuple and v[0] == "bxa":
                    cell, path = v[1], v[2]
                return ("val", ("p", cell, path + ("*",)))
            elif k == "i":
                i = self.need_int(st, st.fr[d][o[1]])
                path += (i,)
            elif k == "ci":
                c = self.load(st, cell, path)
                n = c[2] if c[0] == "by" else len(c[1])
                path += (n - o[1] if o[2] else o[1],)
            elif k == "ss":
                c = self.load(st, cell, path)
                n = c[2] if c[0] == "by" else len(c[1])
                end = n - o[2] if o[3] else o[2]
                return ("sl", ("s", cell, path, o[1], end - o[1]))
            else:
                raise Unsupported("place projection %s" % k)
        return cell, path

    def _after(self, ops, o):
        # last deref wins: a slice reference is followed by at most an index
        for i in range(len(ops) - 1, -1, -1):
            if ops[i] == o:
                return i + 1
        return len(ops)

    def resolve_slice(self, st, s, rest):
        if not rest:
            return ("sl", s)
        o = rest[0]
        d = len(st.fr) - 1
        off = self.need_int(st, s[3])
        if o[0] == "i":
            i = st.fr[d][o[1]]
            i = self.need_int(st, i)
            path = s[2] + (off + i,)
        elif o[0] == "ci":
            i = self.need_int(st, s[4]) - o[1] if o[2] else o[1]
            path = s[2] + (off + i,)
        elif o[0] == "ss":
            n = self.need_int(st, s[4])
            end = n - o[2] if o[3] else o[2]
            return ("sl", ("s", s[1], s[2], off + o[1], end - o[1]))
        else:
            raise Unsupported("slice projection %s" % (o,))
        cell = s[1]
        for j, o in enumerate(rest[1:]):
            if o[0] == "f":
                path += (o[1],)
            elif o[0] == "d":
                v = self.pick(st, self.load(st, cell, path))
                if v[0] == "p":
                    cell, path = v[1], v[2]
                elif v[0] == "s":
                    return self.resolve_slice(st, v, rest[1:][j + 1:])
                else:
                    raise Unsupported("deref of %s" % dom.show(v)[:60])
            elif o[0] == "*":
                path += ("*",)
            elif o[0] == "i":
                path += (self.need_int(st, st.fr[d][o[1]]),)
            else:
                raise Unsupported("slice projection %s" % (o,))
        return cell, path

    def read(self, st, pl):
        if not pl[1]:
            return st.fr[-1][pl[0]]
        r = self.resolve(st, pl)
        if r[0] == "val":
            return r[1]
        if r[0] == "sl":
            return self.slice_val(st, r[1])
        return self.load(st, r[0], r[1])

    def write(self, st, pl, v):
        if not pl[1]:
            st.fr[-1][pl[0]] = v
            return
        r = self.resolve(st, pl)
        if r[0] == "val":
            raise Unsupported("write to box pointer")
        if r[0] == "sl":
            raise Unsupported("write to slice")
        self.store(st, r[0], r[1], v)

    def op(self, st, o):
        k = o[0]
        if k == "l":
            return self.pick(st, st.fr[-1][o[1]])
        if k == "k":
            return o[1]
        if k == "pl":
            return self.pick(st, self.read(st, o[1]))
        if k == "ba":
            r = self.resolve(st, o[1])
            v = self.load(st, r[0], r[1])
            if type(v) is tuple and v[0] == "bxa":
                return v
            return ("bxa", r[0], r[1])
        if o[1] in ("['x', 'UbChecks']", "['x', 'ContractChecks']"):
            return 0  # library-internal precondition checks are compiled out
        raise Unsupported("operand %s" % (o[1],))

    def width(self, t):
        ty = self.p.types[t]
        k = ty["k"]
        if k == "int":
            return ty["w"], ty["sg"]
        if k == "bool":
            return 1, False
        if k == "char":
            return 32, False
        return None, False

    # -------------------------------------------------------- rvalues
    def rv(self, st, r):
        k = r[0]
        if k == "use":
            return self.op(st, r[1])
        if k == "ref":
            pr = r[1][1]
            if pr and pr[-1][0] == "d":
                # a reborrow keeps the pointer, trait part included
                q = self.pick(st, self.read(st, (r[1][0], pr[:-1])))
                if type(q) is tuple and q[0] == "d":
                    return q
            x = self.resolve(st, r[1])
            if x[0] == "val":
                raise Unsupported("address of box pointer")
            if x[0] == "sl":
                return x[1]
            return ("p", x[0], x[1])
        if k == "bin":
            return self.binop(st, r[1], r[2], r[3])
        if k == "agg":
            mode = r[1]
            vs = tuple(self.op(st, o) for o in r[3])
            if mode == "a":
                return ("a", r[2], vs)
            if mode == "arr":
                return dom.arr_norm(vs)
            if mode == "one":
                return vs[0] if vs else None
            if mode == "rawptr":
                p, m = vs
                if p[0] == "p" and (dom.is_int(m)):
                    return self.raw_slice(p, m)
                if p[0] == "p" and m == UNIT:
                    return p
            raise Unsupported("aggregate %s" % mode)
        if k == "disc":
            v = self.pick(st, self.read(st, r[1]))
            return self.disc(v, r[2])
        if k == "un":
            return self.unop(st, r[1], r[2])
        if k == "cast":
            return self.cast(st, r)
        if k == "rep":
            v = self.op(st, r[1])
            if r[2] is None:
                raise Unsupported("repeat of unknown length")
            return ("arr", (v,) * r[2])
        raise Unsupported("rvalue %s" % (r,))

    def raw_slice(self, p, n):
        path = p[2]
        if path and type(path[-1]) is int and path[-1] == 0:
            return ("s", p[1], path[:-1], 0, n)
        return ("s", p[1], path, 0, n)

    def disc(self, v, t):
        ty = self.p.types[t]
        if type(v) is tuple and v[0] == "vsel":
            return ("isel", v[1], self.disc(v[2], t), self.disc(v[3], t))
        if type(v) is tuple and v[0] == "a":
            vs = ty.get("vs")
            if vs:
                return vs[v[1]][1] & dom.mask(128)
            return v[1]
        raise Unsupported("discriminant of %s" % dom.show(v)[:60])

    def lift(self, st, f, *vs):
        """Apply f(facts, ..) below lazily selected integers."""
        for i, v in enumerate(vs):
            if type(v) is tuple and v and v[0] == "isel":
                v = self.pick(st, v)
                if not (type(v) is tuple and v[0] == "isel"):
                    return self.lift(st, f, *(vs[:i] + (v,) + vs[i + 1:]))
                r = []
                for k in (0, 1):
                    s = Facts(st.facts)
                    try:
                        self.assume(s, v[1], 1 - k)
                    except Infeasible:
                        r.append(None)
                        continue
                    r.append(self.lift(s, f, *(vs[:i] + (v[2 + k],) + vs[i + 1:])))
                if r[0] is None or r[1] is None:
                    return r[0] if r[1] is None else r[1]
                return self.lsel(v[1], r[0], r[1])
        return f(st.facts, *vs)

    def lsel(self, lit, x, y):
        if x == y:
            return x
        if type(x) is tuple and x[0] == "a" and type(y) is tuple and y[0] == "a":
            return ("a", 0, tuple(self.lsel(lit, a, b) for a, b in zip(x[2], y[2])))
        ex, ey = as_bool(x), as_bool(y)
        if ex is not None and ey is not None:
            return mk_bool(dom.e_mux(lit, ex, ey))
        return ("isel", lit, x, y)

    def binop(self, st, op, oa, ob):
        a, b = self.op(st, oa), self.op(st, ob)
        w, sg = self.width(oa[2])
        return self.binval(st, op, a, b, w, sg)

    def binval(self, st, op, a, b, w, sg):
        if w is None:
            # comparison of pointers or unit-like values
            if op in ("Eq", "Ne") and type(a) is tuple and type(b) is tuple:
                if a[0] in ("p", "s") and b[0] in ("p", "s"):
                    return (1 if a == b else 0) ^ (op == "Ne")
            raise Unsupported("%s on %s" % (op, dom.show(a)[:40]))
        return self.lift(st, lambda f, x, y: self.bin1(f, op, x, y, w, sg), a, b)

    def bin1(self, f, op, a, b, w, sg):
        if type(a) is int and type(b) is int:
            r = concrete(op, a, b, w, sg)
            if r is not None:
                return r
        if not dom.is_int(a) or not dom.is_int(b):
            raise Unsupported("%s on %s, %s" % (op, dom.show(a)[:40], dom.show(b)[:40]))
        if op in ("Add", "AddUnchecked", "AddWithOverflow"):
            s, c = dom.add(a, b, w, f)
            if op == "AddWithOverflow":
                if sg:
                    c = self.soverflow(a, b, s, w, f)
                return ("a", 0, (s, mk_bool(c)))
            return s
        if op in ("Sub", "SubUnchecked", "SubWithOverflow"):
            s, c = dom.sub(a, b, w, f)
            if op == "SubWithOverflow":
                if sg:
                    c = self.soverflow(a, dom.bnot(b, w, f), s, w, f)
                return ("a", 0, (s, mk_bool(c)))
            return s
        if op in ("Mul", "MulUnchecked", "MulWithOverflow"):
            return self.mul(op, a, b, w, sg, f)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return dom.bitop({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], a, b, w, f)
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            n = b
            if type(n) is not int:
                n = norm(dom.rbits(n, 32, f))
            if type(n) is not int:
                return T("shift", op, a, b, w=w)
            n %= w
            return dom.shl(a, n, w, f) if op.startswith("Shl") else dom.shr(a, n, w, f, sg)
        if op in ("Eq", "Ne"):
            return mk_bool(dom.eq(a, b, w, f) ^ (op == "Ne"))
        if op in ("Lt", "Ge"):
            return mk_bool(dom.ult(a, b, w, f, sg) ^ (op == "Ge"))
        if op in ("Gt", "Le"):
            return mk_bool(dom.ult(b, a, w, f, sg) ^ (op == "Le"))
        if op in ("Div", "Rem") and type(b) is int and b and b & (b - 1) == 0 and not sg:
            k = b.bit_length() - 1
            return dom.shr(a, k, w, f) if op == "Div" else dom.bitop("and", a, b - 1, w, f)
        if op == "Div" and type(b) is int and sg and b & (b - 1) == 0 and b:
            x = dom.rbits(a, w, f)
            if x[-1] == 0:
                return dom.shr(a, b.bit_length() - 1, w, f)
        if op == "Cmp":
            lt = dom.ult(a, b, w, f, sg)
            e = dom.eq(a, b, w, f)
            # variants of Ordering: Less, Equal, Greater
            if self.decide(st, lt):
                return ("a", 0, ())
            return ("a", 1, ()) if self.decide(st, e) else ("a", 2, ())
        return T("op", op, a, b, w=w)

    def soverflow(self, a, b, s, w, f):
        x, y, z = dom.rbits(a, w, f)[-1], dom.rbits(b, w, f)[-1], dom.rbits(s, w, f)[-1]
        return dom.e_and(dom.e_xor(x, y) ^ 1, dom.e_xor(x, z))

    def mul(self, op, a, b, w, sg, f):
        if type(a) is int and type(b) is not int:
            a, b = b, a
        if type(b) is int and sg and b >> (w - 1):
            # multiplication by a negative constant
            m = (-b) & dom.mask(w)
            r = self.mul("Mul", a, m, w, sg, f)
            r = dom.neg(r, w, f)
            if op != "MulWithOverflow":
                return r
            o = 0
            if m != 1:
                o = dom.atom("mulo", a, b, w)
            return ("a", 0, (r, mk_bool(o)))
        if type(b) is int and b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            x = dom.rbits(a, w, f)
            r = dom.shl(a, k, w, f)
            if op != "MulWithOverflow":
                return r
            o = 0
            if sg:
                top = x[w - 1 - k:]
                for e in top[1:]:
                    o = dom.e_or(o, dom.e_xor(e, top[0]))
            else:
                for e in x[w - k:]:
                    o = dom.e_or(o, e)
            return ("a", 0, (r, mk_bool(o)))
        if b == 0:
            return ("a", 0, (0, 0)) if op == "MulWithOverflow" else 0
        k = sorted((a, b), key=dom.order)
        r = T("mul", k[0], k[1], w=w)
        if op == "MulWithOverflow":
            return ("a", 0, (r, mk_bool(dom.atom("mulo", k[0], k[1], w))))
        return r

    def unop(self, st, op, o):
        v = self.op(st, o)
        if op == "PtrMetadata":
            if v[0] == "s":
                return v[4]
            if v[0] == "p":
                return UNIT
            raise Unsupported("metadata of %s" % v[0])
        w, sg = self.width(o[2])
        if op == "Not":
            return self.lift(st, lambda f, x: dom.bnot(x, w, f), v)
        if op == "Neg":
            return self.lift(st, lambda f, x: dom.neg(x, w, f), v)
        raise Unsupported("unary %s" % op)

    def cast(self, st, r):
        kind, o, to, frm, vt = r[1], r[2], r[3], r[4], r[5]
        v = self.op(st, o)
        tt, ft = self.p.types[to], self.p.types[frm]
        if kind in ("PtrToPtr", "BoxDerefTransmute", "Subtype", "FnPtrToPtr"):
            return self.ptr_cast(v, ft, tt)
        if kind == "IntToInt":
            return self.int_cast(st, v, frm, to)
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                return self.unsize(st, v, ft, tt, vt)
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind or "UnsafeFnPointer" in kind:
                if "Closure" in kind:
                    return ("clofn", v, frm)
                return v
            return v
        if kind == "Transmute":
            return self.transmute(st, v, ft, tt, frm, to)
        raise Unsupported("cast %s" % kind)

    def ptr_cast(self, v, ft, tt):
        fi = self.p.types[ft["t"]] if ft.get("t") is not None and ft["k"] in ("ref", "ptr") else None
        ti = self.p.types[tt["t"]] if tt.get("t") is not None and tt["k"] in ("ref", "ptr") else None
        if v[0] == "s" and ti is not None and ti["k"] not in ("slice", "str", "dyn"):
            return ("p", v[1], v[2] + (v[3],))
        if v[0] == "p" and fi is not None and ti is not None and fi["k"] == "array" and ti["s"] == self.p.types[fi["t"]]["s"]:
            return ("p", v[1], v[2] + (0,))
        return v

    def int_cast(self, st, v, frm, to):
        w1, s1 = self.width(frm)
        w2, s2 = self.width(to)
        if w2 is None:
            raise Unsupported("cast to %s" % self.p.types[to]["s"])

        def f(facts, x):
            if w1 is None:
                raise Unsupported("cast of %s" % dom.show(x)[:40])
            if type(x) is int:
                if s1 and x >> (w1 - 1):
                    x -= 1 << w1
                return x & dom.mask(w2)
            if w2 == w1:
                return x
            if type(x) is Term and w2 > w1 and not s1:
                if x.op in ("cttz", "ctlz", "ctpop"):
                    return T(x.op, *x.args, w=w2)
            b = dom.rbits(x, w1, facts)
            if w2 <= w1:
                return norm(b[:w2])
            return norm(b + ((b[-1] if s1 else 0),) * (w2 - w1))

        if type(v) is tuple and v[0] == "a" and not v[2]:
            # cast of a field-less enum
            return self.disc(v, frm) & dom.mask(w2)
        if type(v) is tuple and v[0] == "vsel":
            return ("isel", v[1], self.int_cast(st, v[2], frm, to), self.int_cast(st, v[3], frm, to))
        return self.lift(st, f, v)

    def unsize(self, st, v, ft, tt, vt):
        if ft["k"] in ("ref", "ptr") and tt["k"] in ("ref", "ptr"):
            fi, ti = self.p.types[ft["t"]], self.p.types[tt["t"]]
            if fi["k"] == "array" and ti["k"] == "slice":
                n = fi.get("n")
                if n is None:
                    raise Unsupported("array of unknown length")
                return ("s", v[1], v[2], 0, n)
            if ti["k"] == "dyn":
                if vt is None:
                    return v
                return ("d", v, _freeze(vt))
        if tt["k"] == "struct" and v[0] == "box":
            return v
        raise Unsupported("unsize %s -> %s" % (ft["s"], tt["s"]))

    def transmute(self, st, v, ft, tt, frm, to):
        fk, tk = ft["k"], tt["k"]
        if type(v) is tuple and v and v[0] in ("p", "s", "d"):
            return self.ptr_cast(v, ft, tt)
        if fk == "int" and tk == "array":
            w = ft["w"]
            b = dom.ent_bits(v, w)
            et = self.p.types[tt["t"]]
            if et.get("w") == 8:
                return dom.arr_norm(tuple(norm(b[i:i + 8]) for i in range(0, w, 8)))
        if fk == "array" and tk == "int":
            c = v
            n = tt["w"] // 8
            bs = [dom.byte_of(c[1], i) for i in range(n)] if c[0] == "by" else list(c[1])
            out = ()
            for x in bs:
                out += dom.ent_bits(x, 8)
            return norm(out)
        if fk == "array" and tk == "array":
            return v
        if fk == "struct" and tk == "struct" and ft["s"] == tt["s"]:
            return v
        if fk == "int" and tk == "int" and ft["w"] == tt["w"]:
            return v
        if fk == "bool" and tk == "int" or fk == "int" and tk == "bool":
            return v
        if ft.get("adt") == tt.get("adt") and fk == tk and fk in ("struct", "enum", "union"):
            return v
        if fk == "union" or tk == "union":
            return v
        # Option<NonZero<int>> shares its representation with the integer
        if tk == "enum" and fk == "int" and "::NonZero<" in tt["s"] and len(tt.get("vs", ())) == 2:
            inner = self.p.types[tt["vs"][1][2][0][1]]
            v = self.pick(st, v)

            def opt(x):
                e = dom.res(dom.eq(x, 0, ft["w"], st.facts), st.facts)
                y = some(self.wrap(inner, x))
                return (y, NONE)[e] if e < 2 else ("vsel", e ^ 1, y, NONE) if e & 1 else ("vsel", e, NONE, y)
            return self.lift2(opt, v)
        if fk == "enum" and tk == "int" and "::NonZero<" in ft["s"] and len(ft.get("vs", ())) == 2:
            return self.unniche(st, v)
        # wrappers around one value
        if type(v) is tuple and v[0] == "a" and len(v[2]) == 1 and tk in ("int", "ptr", "ref", "array"):
            x = v[2][0]
            while type(x) is tuple and x and x[0] == "a" and len(x[2]) == 1:
                x = x[2][0]
            if tk == "int" and dom.is_int(x) or tk in ("ptr", "ref") and type(x) is tuple and x[0] in ("p", "s") or tk == "array" and type(x) is tuple and x[0] in ("arr", "by"):
                return x
        if tk == "struct" and len(tt.get("vs", [[0, 0, []]])[0][2]) >= 1 and (dom.is_int(v) or v[0] in ("arr", "by")):
            fs = tt["vs"][0][2]
            t0 = self.p.types[fs[0][1]] if fs[0][1] is not None else {"k": "?"}
            if len(fs) == 1:
                if t0["k"] in ("int", "array"):
                    return ("a", 0, (v,))
                if t0["k"] in ("struct", "enum") and dom.is_int(v):
                    return ("o", "niche", v)
        raise Unsupported("transmute %s -> %s" % (ft["s"][:60], tt["s"][:60]))

    def lift2(self, f, v):
        """Apply f below lazily selected values, giving a lazily selected value."""
        if type(v) is tuple and v and v[0] in ("isel", "vsel"):
            a, b = self.lift2(f, v[2]), self.lift2(f, v[3])
            if type(a) is tuple and type(b) is tuple and a[0] in ("a", "vsel") and b[0] in ("a", "vsel") and a != b:
                return ("vsel", v[1], a, b)
            return dom.mk_sel(v[1], a, b)
        return f(v)

    def wrap(self, t, v):
        """v inside its single-field wrappers."""
        if t["k"] == "struct" and len(t.get("vs", ())) == 1 and len(t["vs"][0][2]) == 1:
            ft = t["vs"][0][2][0][1]
            return ("a", 0, (self.wrap(self.p.types[ft], v) if ft is not None else v,))
        return v

    def unniche(self, st, v):
        v = self.pick(st, v)

        def f(x):
            if x == NONE:
                return 0
            while type(x) is tuple and x[0] == "a" and len(x[2]) == 1:
                x = x[2][0]
            return x
        return self.lift2(f, v)

    # -------------------------------------------------------- joins
    def try_join(self, a, b, live, ra=None, rb=None):
        """Join b into a new state, or None."""
        if a.w is not b.w or len(a.fr) != len(b.fr) or a.x != b.x:
            return None
        fa, fb = a.facts, b.facts
        lit = None
        best = None
        for i, v in fa.items():
            u = fb.get(i)
            if u is not None and u < 2 and v < 2 and u != v:
                k = dom._desc[i][0]
                rank = 0 if k == "tb" else 1 if k in ("eq", "beq", "bit", "ult") else 2
                if best is None or (rank, i) < best:
                    best = (rank, i)
                    lit = (i << 1) | (0 if v else 1)
        diff = []
        nf = len(a.fr)
        for d in range(nf):
            x, y = a.fr[d], b.fr[d]
            if len(x) != len(y):
                if d:
                    return None
                n = len(x) - len(y)
                (y if n > 0 else x).extend([None] * abs(n))
            top = d == nf - 1 and live is not None
            for l in range(len(x)):
                p, q = x[l], y[l]
                if p is q:
                    continue
                if top and l not in live:
                    continue
                if p == q:
                    continue
                diff.append((d, l))
        rdiff = ra is not rb and ra != rb
        if lit is None:
            # no single unknown tells the two apart: try all that one knows
            for f, g, neg in ((fb, fa, 1), (fa, fb, 0)):
                only = [i for i, v in f.items() if g.get(i) != v]
                if only and len(only) <= 6 and all(dom.depth(i << 1) < 8 for i in only):
                    e = dom.conj(f, only)
                    if e > 1 and dom.excludes(g, e):
                        lit = e ^ neg
                        break
        if (diff or rdiff) and lit is None:
            return None
        new = []
        rv = ra
        reach = None

        def ptr(lit, x, y):
            # a choice of two references becomes a read-only snapshot of what
            # they refer to
            if x[0] == "p":
                return ("p", ("const", dom.mk_sel(lit, self.load(a, x[1], x[2]), self.load(b, y[1], y[2]), ptr, (fa, fb))), ())
            if x[4] != y[4]:
                raise Unsupported("merge")
            return ("s", ("const", dom.mk_sel(lit, self.slice_val(a, x), self.slice_val(b, y), ptr, (fa, fb))), (), 0, x[4])

        try:
            if rdiff:
                rv = dom.mk_sel(lit, ra, rb, ptr, (fa, fb))
            for d, l in diff:
                x, y = a.fr[d][l], b.fr[d][l]
                if d == 0 and (x is None or y is None):
                    v = None
                else:
                    try:
                        new.append(dom.mk_sel(lit, x, y, ptr, (fa, fb)))
                        continue
                    except Unsupported:
                        if d:
                            return None
                # a heap cell that nothing refers to any more does not matter
                if reach is None:
                    reach = reachable(a, live, ra, self.pins) | reachable(b, live, rb, self.pins)
                if l in reach:
                    return None
                new.append(None)
        except Unsupported:
            return None
        s = a
        for (d, l), v in zip(diff, new):
            s.fr[d][l] = v
        if live is not None:
            x, y = s.fr[-1], b.fr[-1]
            for l in range(len(x)):
                if l not in live and x[l] is not y[l]:
                    x[l] = None
        s.facts = {i: v for i, v in fa.items() if fb.get(i) == v}
        if lit is not None:
            # what the two states knew, as far as it stays small
            known = {}
            dom.consequences(lit, 1, known)
            dom.by_eq(fa, known)
            xa = [(i << 1) | (v ^ 1) for i, v in fa.items() if fb.get(i) != v and i not in known]
            known = {}
            dom.consequences(lit, 0, known)
            dom.by_eq(fb, known)
            xb = [(i << 1) | (v ^ 1) for i, v in fb.items() if fa.get(i) != v and i not in known]
            if (xa or xb) and len(xa) + len(xb) <= 10 and all(dom.depth(e) < 6 or dom.table(e >> 1) for e in xa + xb):
                p = q = 1
                for e in xa:
                    p = dom.e_and(p, e)
                for e in xb:
                    q = dom.e_and(q, e)
                e = dom.e_mux(lit, p, q)
                if e > 1:
                    dom.consequences(e, 1, s.facts)
        else:
            ka, kb = {}, {}
            dom.by_eq(fa, ka)
            dom.by_eq(fb, kb)
            xa = [(i << 1) | (v ^ 1) for i, v in fa.items() if fb.get(i) != v and i not in ka]
            xb = [(i << 1) | (v ^ 1) for i, v in fb.items() if fa.get(i) != v and i not in kb]
            if xa and xb and len(xa) + len(xb) <= 10 and all(dom.table(e >> 1) for e in xa + xb):
                p = q = 1
                for e in xa:
                    p = dom.e_and(p, e)
                for e in xb:
                    q = dom.e_and(q, e)
                e = dom.e_or(p, q)
                if e > 1 and dom.table(e >> 1):
                    dom.consequences(e, 1, s.facts)
        if s.r is not b.r:
            s.r = eff(None, ("join", s.r, b.r))
        self.joins += 1
        return s, rv

    def join_siblings(self, sts, live):
        """Join states that differ in the value of one unknown, over and over."""
        out = []
        for cur in sts:
            again = True
            while again:
                again = False
                f = cur[0].facts
                for i, (t, u) in enumerate(out):
                    if siblings(t.facts, f):
                        j = self.try_join(t, cur[0], live, u, cur[1])
                        if j is not None:
                            out.pop(i)
                            cur = j
                            again = True
                            break
            out.append(cur)
        return out

    def join_all(self, sts, live):
        """Join a list of (state, value) pairs as far as possible."""
        out = []
        if len(sts) > 2:
            sts = self.join_siblings(sts, live)
        for s, v in sts:
            cur = (s, v)
            again = True
            while again:
                again = False
                for i, (t, u) in enumerate(out):
                    j = self.try_join(t, cur[0], live, u, cur[1])
                    if j is not None:
                        out.pop(i)
                        cur = j
                        again = True
                        break
            out.append(cur)
        return out

    # -------------------------------------------------------- execution
    def run(self, st, args, inst=None):
        """Analyse the root on argument values; list of (kind, state, value)."""
        return self.exec_inst(self.p.root if inst is None else inst, list(args), st)

    def exec_inst(self, i, args, st):
        body = self.p.body(i)
        if body.spread is not None:
            k = body.spread
            # arguments from the spread position on arrive as one tuple
            if len(args) != body.argc:
                raise Unsupported("spread call")
        elif len(args) != body.argc:
            raise Unsupported("argument count of %s: %d for %d" % (self.p.inst(i)["path"], len(args), body.argc))
        self.seen_fns[i] = self.seen_fns.get(i, 0) + 1
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("call depth")
        fr = [None] * body.n
        for n, a in enumerate(args):
            fr[n + 1] = a
        st.fr.append(fr)
        outs = []
        rets = []
        pos, nest = body.wto, body.nest
        start = (((pos[0], 0),) if nest[0] else ()) + ((pos[0], 0),)
        heap = [(start, 0)]
        at = {start: [st]}
        while heap:
            key, bb = heapq.heappop(heap)
            sts = at.pop(key, None)
            if not sts:
                continue
            if len(sts) > 1:
                sts = [s for s, _ in self.join_all([(s, None) for s in sts], body.live[bb])]
                if len(sts) > 600:
                    raise Unsupported("too many abstract states at one point of %s" % self.p.inst(i)["path"])
            for n, s in enumerate(sts):
                cur, b, k = s, bb, key
                while True:
                    nxt = self.block(i, body, b, cur, outs, rets)
                    if len(nxt) == 1 and not at and len(sts) == 1:
                        # nothing else is waiting: run on
                        k = self.step_key(i, body, b, k, nxt[0][1])
                        cur, b = nxt[0]
                        continue
                    for c, t in nxt:
                        k2 = self.step_key(i, body, b, k, t)
                        l = at.get(k2)
                        if l is None:
                            at[k2] = [c]
                            heapq.heappush(heap, (k2, t))
                        else:
                            l.append(c)
                    break
        self.depth -= 1
        if len(rets) > 1:
            rets = self.join_all(rets, None)
        for s, v in rets:
            outs.append(("ret", s, v))
        return outs

    def step_key(self, i, body, b, key, t):
        """Scheduling key of block t entered from block b."""
        nb, nt = body.nest[b], body.nest[t]
        pos = body.wto
        out = []
        for d, h in enumerate(nt):
            if d < len(nb) and nb[d] == h:
                it = key[d][1]
                if t == h:
                    it += 1
                    if it > LOOP_LIMIT:
                        raise Unsupported("loop without a bound in %s" % self.p.inst(i)["path"])
                out.append((pos[h], it))
            else:
                nb = ()
                out.append((pos[h], 0))
        out.append((pos[t], 0))
        return tuple(out)

    def where(self, i, line):
        q = self.p.inst(i)
        return "%s (%s:%s)" % (q["path"], q["file"], line)

    def block(self, i, body, bb, st, outs, rets):
        """Transfer of one basic block: list of (state, successor)."""
        ss, term, line = body.blocks[bb]
        work = [(st, 0)]
        nxt = []
        while work:
            st, n = work.pop()
            try:
                while n < len(ss):
                    s = ss[n]
                    self.steps += 1
                    if s[0] == "=":
                        self.write(st, s[1], self.rv(st, s[2]))
                    elif s[0] == "dead":
                        st.fr[-1][s[1]] = None
                    elif s[0] == "sd":
                        v = self.read(st, s[1])
                        self.write(st, s[1], ("a", s[2], v[2] if v else ()))
                    else:
                        raise Unsupported("statement %s" % s[1])
                    n += 1
                self.steps += 1
                if self.steps > STEP_LIMIT:
                    raise Unsupported("step limit")
                nxt.extend(self.terminator(i, body, term, line, st, outs, rets))
            except Fork as f:
                for s in self.split(st, f.e):
                    work.append((s, n))
            except Unsupported as e:
                if not getattr(e, "at", None):
                    e.at = self.where(i, ss[n][-1] if n < len(ss) and ss[n][0] == "=" else line)
                raise
            except (TypeError, IndexError, KeyError, AttributeError) as e:
                if os.environ.get("FM_DEBUG"):
                    raise
                u = Unsupported("%s: %s" % (type(e).__name__, e))
                u.at = self.where(i, line)
                raise u
        return nxt

    def terminator(self, i, body, t, line, st, outs, rets):
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "switch":
            v = self.op(st, t[1])
            w = t[4]
            if type(v) is int:
                for c, x in t[2]:
                    if v == c:
                        return [(st, x)]
                return [(st, t[3])]
            if type(v) is tuple and v[0] == "isel":
                self.decide(st, v[1])
                raise Unsupported("switch")
            for c, x in t[2]:
                if self.decide(st, dom.eq(v, c, w, st.facts)):
                    return [(st, x)]
            return [(st, t[3])]
        if k == "call":
            return self.call_term(i, body, t, line, st, outs)
        if k == "ret":
            v = st.fr[-1][0]
            st.fr.pop()
            if v is None:
                v = UNIT
            rets.append((st, v))
            return []
        if k == "assert":
            v = self.op(st, t[1])
            if type(v) is tuple and v[0] == "isel":
                self.decide(st, v[1])
            e = v if type(v) is int else dom.rbits(v, 1, st.facts)[0]
            if self.decide(st, e) == (1 if t[2] else 0):
                return [(st, t[3])]
            self.panic(i, line, "%s %s" % (t[4], t[5]), st, outs)
            return []
        if k == "unreachable":
            raise Unsupported("reached unreachable code")
        raise Unsupported("terminator %s" % (t[1],))

    def panic(self, i, line, msg, st, outs):
        d = len(st.fr)
        st.fr.pop()
        outs.append(("panic", st, (msg, self.where(i, line))))

    def call_term(self, i, body, t, line, st, outs):
        callee, dest, target = t[1], t[3], t[4]
        args = [self.op(st, a) for a in t[2]]
        base = len(st.fr)
        res_ = self.call(callee, args, st, t[5], t[6], (i, line))
        nxt = []
        for kind, s, v in res_:
            if kind == "panic":
                del s.fr[base - 1:]
                outs.append((kind, s, v))
                continue
            if len(s.fr) != base:
                raise Unsupported("frame imbalance")
            if target is None:
                # a diverging call that returned
                outs.append(("panic", s, ("diverge", self.where(i, line))))
                s.fr.pop()
                continue
            self.write(s, dest, v)
            nxt.append((s, target))
        return nxt

    def call(self, callee, args, st, dty, atys, at):
        if "ptr" in callee:
            f = self.op(st, callee["ptr"])
            return self.call_value(f, args, st, dty, atys, at)
        if callee.get("unres"):
            return self.call_unres(callee, args, st, dty, atys, at)
        n = callee["n"]
        q = self.p.raw[n]
        if callee.get("virtual") or q["kind"] == "virtual":
            d = args[0]
            if type(d) is tuple and d[0] == "d":
                vt = json.loads(d[2])
                m = vt.get(callee["decl"])
                if m is None:
                    raise Unsupported("virtual call %s" % callee["decl"])
                return self.call({"n": m, "decl": callee["decl"]}, [d[1]] + args[1:], st, dty, atys, at)
            raise Unsupported("virtual call on %s" % dom.show(d)[:40])
        np = self.p.npath(n)
        m = self.models.get(np)
        if m is None:
            m = self.models.get(q.get("trait") and "*::" + norm_adt(q["trait"]) + "::" + q.get("name", ""))
        if m is not None:
            pins = len(self.pins)
            self.pins.append(("a", 0, tuple(args)))
            r = m(self, Ctx(callee, n, q, dty, atys, at), args, st)
            del self.pins[pins:]
            if r is not NotImplemented:
                return r
        if "body" not in q:
            import models as M
            r = M.fallback(self, Ctx(callee, n, q, dty, atys, at), args, st, np)
            if r is not NotImplemented:
                return r
            raise Unsupported("call of %s" % np)
        if q.get("closure") and callee.get("trait", "").split("::")[-1] in ("FnOnce", "FnMut", "Fn"):
            args = self.untuple(args, q)
        return self.exec_inst(n, args, st)

    def untuple(self, args, q):
        argc = q["body"]["argc"]
        if len(args) == 2 and type(args[1]) is tuple and args[1][0] == "a" and q["body"]["spread"] is None:
            if 1 + len(args[1][2]) == argc:
                return [args[0]] + list(args[1][2])
        return args

    def call_value(self, f, args, st, dty, atys, at):
        if type(f) is tuple and f[0] == "fn":
            c = json.loads(f[1])
            return self.call(c, args, st, dty, atys, at)
        raise Unsupported("call of value %s" % dom.show(f)[:60])

    def call_unres(self, callee, args, st, dty, atys, at):
        tr = norm_adt(callee.get("trait", ""))
        name = callee["name"]
        if tr in ("fuel_storage::StorageInspect", "fuel_storage::StorageMutate", "fuel_storage::StorageRef", "fuel_storage::MerkleRootStorage"):
            obj = self.deref(st, args[0])
            return self.env.storage(self, st, obj, name, args[1:], dty, at)
        if tr == "std::clone::Clone" and name == "clone":
            return [("ret", st, self.deref(st, args[0]))]
        if self.env is not None and self.env.oracle is not None:
            r = self.env.oracle(self, tr, name, args, st, callee)
            if r is not None:
                return r
        import models as M
        m = M.UNRES.get((tr, name))
        if m:
            return m(self, Ctx(callee, None, callee, dty, atys, at), args, st)
        raise Unsupported("call of %s" % callee["decl"])


class Ctx:
    __slots__ = ("callee", "n", "q", "dty", "atys", "at")

    def __init__(self, callee, n, q, dty, atys, at):
        self.callee, self.n, self.q, self.dty, self.atys, self.at = callee, n, q, dty, atys, at


def mk_bool(e):
    return e if e < 2 else Bits((e,))


def as_bool(v):
    if type(v) is int and v in (0, 1):
        return v
    if type(v) is Bits and len(v.b) == 1:
        return v.b[0]
    return None


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def concrete(op, a, b, w, sg):
    m = dom.mask(w)
    x, y = (sx(a, w), sx(b, w)) if sg else (a, b)
    if op in ("Add", "AddUnchecked", "Sub", "SubUnchecked", "Mul", "MulUnchecked", "AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
        o = op[:3]
        r = x + y if o == "Add" else x - y if o == "Sub" else x * y
        if op.endswith("WithOverflow"):
            ov = (r < -(1 << (w - 1)) or r >= 1 << (w - 1)) if sg else (r < 0 or r > m)
            return ("a", 0, (r & m, 1 if ov else 0))
        return r & m
    if op == "Eq":
        return int(a == b)
    if op == "Ne":
        return int(a != b)
    if op == "Lt":
        return int(x < y)
    if op == "Le":
        return int(x <= y)
    if op == "Gt":
        return int(x > y)
    if op == "Ge":
        return int(x >= y)
    if op == "BitAnd":
        return a & b
    if op == "BitOr":
        return a | b
    if op == "BitXor":
        return a ^ b
    if op.startswith("Shl"):
        return (a << (b % w)) & m
    if op.startswith("Shr"):
        return (x >> (b % w)) & m
    if op == "Div" and b:
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & m
    if op == "Rem" and b:
        q = abs(x) % abs(y)
        return (-q if x < 0 else q) & m
    if op == "Cmp":
        return ("a", 0 if x < y else 1 if x == y else 2, ())
    return None
