"""Transfer functions for the parts of the standard library and of external
crates that are not plain data flow (raw memory, hashing, maps, formatting).

A model takes (interp, ctx, args, state) and returns a list of outcomes
('ret'|'panic', state, value), or NotImplemented to have the body analysed.
A model never raises Fork after it has changed the state.
"""
import dom
from absint import (NONE, UNIT, Fork, Infeasible, err, mk_bool, norm_adt, ok, some)
from dom import Bits, T, Term, Unsupported, norm

MODELS = {}
UNRES = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ret(st, v):
    return [("ret", st, v)]


def panic(I, ctx, st, msg):
    return [("panic", st, (msg, I.where(*ctx.at)))]


def ints(name):
    return ["std::num::{%s%d}::%s" % (s, w, name) for s in "ui" for w in (8, 16, 32, 64, 128)] + ["std::num::{%s}::%s" % (s, name) for s in ("usize", "isize")]


def cases(I, st, e):
    """Split a state on an entry: list of (state, bool)."""
    if e < 2:
        return [(st, e)]
    r = dom.res(e, st.facts)
    if r > 1:
        r = dom.cof(r, st.facts, {})
    if r < 2:
        return [(st, r)]
    out = []
    I.forks += 1
    p = dom.pivot(r, st.facts)
    for v in (1, 0):
        s = st.fork() if v else st
        try:
            I.assume(s, p, v)
        except Infeasible:
            continue
        out += cases(I, s, r)
    return out


def variant_cases(I, st, v):
    """List of (state, value) with the variant of v decided."""
    v = I.pick(st, v)
    if type(v) is tuple and v[0] == "vsel":
        out = []
        for s, b in cases(I, st, v[1]):
            out += variant_cases(I, s, v[2] if b else v[3])
        return out
    return [(st, v)]


def ty(I, t):
    return I.p.types[t]


def aty(I, ctx, i):
    return I.p.types[ctx.atys[i]]


def peel(I, t):
    while I.p.types[t]["k"] in ("ref", "ptr"):
        t = I.p.types[t]["t"]
    return I.p.types[t]


# ------------------------------------------------------------- equality

def width_of(v):
    if type(v) is Bits:
        return len(v.b)
    if type(v) is Term:
        return v.w or 64
    return 0


def val_eq(I, st, a, b):
    """Entry: equality of two values of one type."""
    f = st.facts
    a, b = I.pick(st, a), I.pick(st, b)
    if a is b:
        return 1
    if type(a) is tuple and a[0] in ("isel", "vsel"):
        return dom.e_mux(dom.res(a[1], f), val_eq(I, st, a[2], b), val_eq(I, st, a[3], b))
    if type(b) is tuple and b[0] in ("isel", "vsel"):
        return val_eq(I, st, b, a)
    if dom.is_int(a) and dom.is_int(b):
        w = max(width_of(a), width_of(b)) or 128
        return dom.eq(a, b, w, f)
    if type(a) is not tuple or type(b) is not tuple:
        raise Unsupported("equality of %s and %s" % (dom.show(a)[:30], dom.show(b)[:30]))
    ka, kb = a[0], b[0]
    if ka in ("p", "s") and kb in ("p", "s"):
        return val_eq(I, st, I.deref(st, a), I.deref(st, b))
    if "obs" in (ka, kb):
        if a == b:
            return 1
        if kb == "obs":
            a, b = b, a
        if b[0] in ("arr", "vec") and not b[1]:
            return dom.eq(T("len", a[1], w=64), 0, 64, f)
        x, y = sorted((dom.bterm(a), dom.bterm(b)), key=dom.order)
        return dom.atom("beq", x, y)
    if ka in ("arr", "by", "vec") and kb in ("arr", "by", "vec"):
        na = a[2] if ka == "by" else len(a[1])
        nb = b[2] if kb == "by" else len(b[1])
        if na != nb:
            return 0
        if na == 0:
            return 1
        if "by" in (ka, kb) or all(dom.is_int(x) and width_of(x) in (0, 8) for x in a[1] + b[1]):
            if ka == "arr" and kb == "arr" and na <= 16 and any(type(x) is int and x > 255 for x in a[1] + b[1]):
                pass
            else:
                return dom.bytes_eq(dom.bterm(a), dom.bterm(b), f)
        r = 1
        for x, y in zip(a[1], b[1]):
            r = dom.e_and(r, val_eq(I, st, x, y))
        return r
    if ka == "a" and kb == "a":
        if a[1] != b[1]:
            return 0
        r = 1
        for x, y in zip(a[2], b[2]):
            r = dom.e_and(r, val_eq(I, st, x, y))
        return r
    if ka == kb == "box":
        return val_eq(I, st, a[1], b[1])
    if ka == kb == "str":
        return int(a[1] == b[1])
    raise Unsupported("equality of %s and %s" % (dom.show(a)[:30], dom.show(b)[:30]))


EQS = [p + "::{%s as std::cmp::PartialEq}::%s" for p in ("std::array::equality", "std::slice::cmp", "std::vec::partial_eq", "std::vec", "std::str::traits")]


def _eq_model(neg):
    def f(I, ctx, args, st):
        a, b = args[0], args[1]
        while a[0] == "p" and I.load(st, a[1], a[2]) is not None and type(I.load(st, a[1], a[2])) is tuple and I.load(st, a[1], a[2])[0] in ("p", "s"):
            a = I.load(st, a[1], a[2])
        while b[0] == "p" and type(I.load(st, b[1], b[2])) is tuple and I.load(st, b[1], b[2])[0] in ("p", "s"):
            b = I.load(st, b[1], b[2])
        try:
            e = val_eq(I, st, I.deref(st, a), I.deref(st, b))
        except Unsupported:
            return NotImplemented
        return ret(st, mk_bool(e ^ neg))
    return f


for _b in EQS:
    for _s in ("[;]", "[]", "&[]", "std::vec::Vec", "str", "&str"):
        MODELS[_b % (_s, "eq")] = _eq_model(0)
        MODELS[_b % (_s, "ne")] = _eq_model(1)
for _s in ("[;]", "[]", "&[]", "std::vec::Vec", "str"):
    MODELS["{%s as std::cmp::PartialEq}::eq" % _s] = _eq_model(0)
    MODELS["{%s as std::cmp::PartialEq}::ne" % _s] = _eq_model(1)


# ------------------------------------------------------------- panics

def _panics(msg):
    def f(I, ctx, args, st):
        m = msg
        if args and type(args[0]) is tuple and args[0][0] == "s":
            c = I.container(st, args[0])
            if type(c) is tuple and c[0] == "str":
                m = msg + ": " + c[1]
        return panic(I, ctx, st, m)
    return f


for _n, _m in (
    ("std::panicking::panic", "panic"), ("std::panicking::panic_fmt", "panic"), ("std::panicking::panic_nounwind_fmt", "panic"),
    ("std::panicking::panic_explicit", "panic"), ("std::panicking::panic_display", "panic"), ("std::panicking::panic_str_2015", "panic"),
    ("std::panicking::panic_bounds_check", "index out of bounds"), ("std::panicking::assert_failed", "assertion failed"),
    ("std::panicking::assert_failed_inner", "assertion failed"), ("std::panicking::unreachable_display", "unreachable"),
    ("std::panicking::panic_nounwind", "panic"), ("std::panicking::panic_cannot_unwind", "panic"),
    ("std::panicking::begin_panic", "panic"), ("std::rt::begin_panic", "panic"), ("std::rt::panic_fmt", "panic"),
    ("std::result::unwrap_failed", "unwrap of Err"), ("std::result::unwrap_failed::unwrap_failed_inner", "unwrap of Err"),
    ("std::option::unwrap_failed", "unwrap of None"), ("std::option::expect_failed", "expect of None"),
    ("std::process::abort", "abort"), ("std::intrinsics::abort", "abort"), ("std::process::exit", "exit"),
    ("std::slice::copy_from_slice_impl::len_mismatch_fail", "length mismatch"),
    ("std::slice::index::slice_index_fail", "slice index"), ("std::slice::index::slice_start_index_len_fail", "slice index"),
    ("std::slice::index::slice_end_index_len_fail", "slice index"), ("std::slice::index::slice_index_order_fail", "slice index"),
):
    MODELS[_n] = _panics(_m)


# ------------------------------------------------------------- hashing

def as_pieces(I, ctx, st, v, t):
    """Outcomes with the byte pieces of a value seen through AsRef<[u8]>."""
    aux = (ctx.q or {}).get("aux") or []
    for a in aux:
        if a[0] == "as_ref" and I.p.types[a[1]]["s"] == I.p.types[t]["s"]:
            q = I.p.raw[a[2]]
            if "body" in q or I.models.get(I.p.npath(a[2])):
                p = ("p", st.alloc(v), ())
                outs = []
                for k, s, r in I.call({"n": a[2], "decl": ""}, [p], st, None, [t], ctx.at):
                    outs.append((k, s, r if k == "panic" else seen_bytes(I, s, r)))
                return outs
    return [("ret", st, seen_bytes(I, st, v))]


def seen_bytes(I, st, v):
    v = I.pick(st, v)
    for _ in range(6):
        if type(v) is tuple and v[0] == "s":
            return I.slice_pieces(st, v)
        if type(v) is tuple and v[0] == "p":
            v = I.pick(st, I.load(st, v[1], v[2]))
            continue
        if type(v) is tuple and v[0] in ("arr", "by", "vec", "obs", "str"):
            return dom.pieces_of(v)
        break
    raise Unsupported("bytes of %s" % dom.show(v)[:60])


def alg(I, ctx):
    a = (ctx.q or {}).get("args") or []
    n = I.p.types[a[0]]["s"] if a else "?"
    if "Sha256VarCore" in n and "OidSha256" in n and n.count("B1>") == 1 and n.count("B0>") == 5 and n.count("UInt<") == 6:
        return "sha256"  # 32-byte output: the typenum 0b100000
    return n


D = "{D as digest::Digest}::"


@model(D + "new", "*::digest::Digest::new")
def _(I, ctx, args, st):
    return ret(st, ("o", "hasher", alg(I, ctx), ()))


def _upd(I, ctx, st, h, v, t):
    outs = []
    for k, s, p in as_pieces(I, ctx, st, v, t):
        outs.append((k, s, p if k == "panic" else ("o", "hasher", h[2], h[3] + tuple(p))))
    return outs


@model(D + "update", "*::digest::Digest::update", "*::digest::Update::update")
def _(I, ctx, args, st):
    p = args[0]
    outs = []
    for k, s, h in _upd(I, ctx, st, I.deref(st, p), args[1], ctx.atys[1]):
        if k == "ret":
            I.store(s, p[1], p[2], h)
            h = UNIT
        outs.append((k, s, h))
    return outs


@model(D + "chain_update", "*::digest::Digest::chain_update", "*::digest::Update::chain")
def _(I, ctx, args, st):
    return _upd(I, ctx, st, args[0], args[1], ctx.atys[1])


@model(D + "new_with_prefix", "*::digest::Digest::new_with_prefix")
def _(I, ctx, args, st):
    return _upd(I, ctx, st, ("o", "hasher", alg(I, ctx), ()), args[0], ctx.atys[0])


def hashed(h):
    return ("by", dom.mkhash(h[2], h[3]), 32)


@model(D + "digest", "*::digest::Digest::digest")
def _(I, ctx, args, st):
    outs = []
    for k, s, h in _upd(I, ctx, st, ("o", "hasher", alg(I, ctx), ()), args[0], ctx.atys[0]):
        outs.append((k, s, h if k == "panic" else hashed(h)))
    return outs


@model(D + "finalize", "*::digest::Digest::finalize", "*::digest::FixedOutput::finalize_fixed")
def _(I, ctx, args, st):
    return ret(st, hashed(args[0]))


@model(D + "finalize_reset", "*::digest::Digest::finalize_reset")
def _(I, ctx, args, st):
    h = I.deref(st, args[0])
    I.store(st, args[0][1], args[0][2], ("o", "hasher", h[2], ()))
    return ret(st, hashed(h))


@model(D + "finalize_into", "*::digest::Digest::finalize_into")
def _(I, ctx, args, st):
    I.store(st, args[1][1], args[1][2], hashed(args[0]))
    return ret(st, UNIT)


@model(D + "reset", "*::digest::Digest::reset")
def _(I, ctx, args, st):
    h = I.deref(st, args[0])
    I.store(st, args[0][1], args[0][2], ("o", "hasher", h[2], ()))
    return ret(st, UNIT)


@model("digest::generic_array::impls::{[;] as std::convert::From}::from", "generic_array::impls::{[;] as std::convert::From}::from", "digest::generic_array::GenericArray::into",
       "{digest::generic_array::GenericArray as std::convert::Into}::into")
def _(I, ctx, args, st):
    return ret(st, args[0])


@model("{digest::generic_array::GenericArray as std::ops::Deref}::deref", "digest::generic_array::GenericArray::as_slice",
       "{generic_array::GenericArray as std::ops::Deref}::deref", "generic_array::GenericArray::as_slice",
       "digest::generic_array::impls::{digest::generic_array::GenericArray as std::convert::AsRef}::as_ref",
       "generic_array::impls::{generic_array::GenericArray as std::convert::AsRef}::as_ref")
def _(I, ctx, args, st):
    return ret(st, whole(I, st, args[0]))


# ------------------------------------------------------------- sequences

def whole(I, st, p):
    """Slice of all elements of the container behind a reference."""
    if p[0] == "s":
        return p
    c = I.load(st, p[1], p[2])
    k = c[0]
    if k in ("p", "s"):
        return whole(I, st, c)
    if k in ("arr", "vec"):
        return ("s", p[1], p[2], 0, len(c[1]))
    if k == "by":
        return ("s", p[1], p[2], 0, c[2])
    if k == "obs":
        return ("s", p[1], p[2], 0, T("len", c[1], w=64))
    if k == "str":
        return ("s", p[1], p[2], 0, len(c[1].encode()))
    raise Unsupported("slice of %s" % dom.show(c)[:40])


@model("std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "{std::vec::Vec as std::ops::Deref}::deref", "{std::vec::Vec as std::ops::DerefMut}::deref_mut",
       "std::vec::{std::vec::Vec as std::convert::AsRef}::as_ref", "{std::vec::Vec as std::convert::AsRef}::as_ref", "{std::vec::Vec as std::convert::AsMut}::as_mut",
       "{std::vec::Vec as std::borrow::Borrow}::borrow", "std::slice::{std::vec::Vec as std::borrow::Borrow}::borrow",
       "std::array::{[;]}::as_slice", "std::array::{[;]}::as_mut_slice", "std::array::{[;] as std::convert::AsRef}::as_ref", "std::array::{[;] as std::borrow::Borrow}::borrow",
       "std::array::{[;] as std::convert::AsMut}::as_mut")
def _(I, ctx, args, st):
    return ret(st, whole(I, st, args[0]))


@model("std::str::{str}::as_bytes", "std::slice::{[]}::as_ref", "std::convert::{[] as std::convert::AsRef}::as_ref", "{[] as std::convert::AsRef}::as_ref", "std::string::String::as_bytes", "std::string::String::as_str")
def _(I, ctx, args, st):
    return ret(st, whole(I, st, args[0]))


def vec_of(I, st, v):
    """Vector holding the elements of a container value."""
    if v[0] == "vec":
        return v
    if v[0] == "arr":
        return ("vec", v[1])
    if v[0] == "by":
        return ("vec", tuple(dom.byte_of(v[1], i) for i in range(v[2])))
    if v[0] == "obs":
        return v
    raise Unsupported("vector of %s" % dom.show(v)[:40])


@model("std::slice::{[]}::to_vec", "std::slice::{[] as std::borrow::ToOwned}::to_owned", "std::vec::{std::vec::Vec as std::convert::From}::from", "{std::vec::Vec as std::convert::From}::from", "std::slice::{[]}::into_vec", "std::slice::{[]}::to_vec_in")
def _(I, ctx, args, st):
    a = args[0]
    if a[0] in ("p", "s"):
        a = I.deref(st, whole(I, st, a))
    if a[0] == "box":
        a = a[1]
    if a[0] not in ("arr", "by", "vec", "obs"):
        return NotImplemented
    return ret(st, vec_of(I, st, a))


@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::vec::Vec::new_in", "{std::vec::Vec as std::default::Default}::default")
def _(I, ctx, args, st):
    return ret(st, ("vec", ()))


@model("std::slice::{[]}::len", "std::vec::Vec::len", "std::str::{str}::len")
def _(I, ctx, args, st):
    return ret(st, whole(I, st, args[0])[4])


@model("std::slice::{[]}::is_empty", "std::vec::Vec::is_empty", "std::str::{str}::is_empty")
def _(I, ctx, args, st):
    return ret(st, mk_bool(dom.eq(whole(I, st, args[0])[4], 0, 64, st.facts)))


def get_vec(I, st, p):
    v = I.deref(st, p)
    if v[0] == "vec":
        return v[1]
    raise Unsupported("vector operation on %s" % dom.show(v)[:40])


def set_vec(I, st, p, es):
    I.store(st, p[1], p[2], ("vec", tuple(es)))


@model("std::vec::Vec::push", "std::vec::Vec::push_mut", "std::vec::Vec::push_within_capacity")
def _(I, ctx, args, st):
    v = I.deref(st, args[0])
    if v[0] == "obs":
        I.store(st, args[0][1], args[0][2], ("obs", T("cat", dom.canon_pieces(dom.pieces_of(v) + [args[1]]))))
        return ret(st, UNIT)
    es = get_vec(I, st, args[0])
    set_vec(I, st, args[0], es + (args[1],))
    if ctx.q.get("name") == "push_mut":
        return ret(st, ("p", args[0][1], args[0][2] + (len(es),)))
    return ret(st, UNIT)


@model("std::vec::Vec::pop")
def _(I, ctx, args, st):
    es = get_vec(I, st, args[0])
    if not es:
        return ret(st, NONE)
    set_vec(I, st, args[0], es[:-1])
    return ret(st, some(es[-1]))


@model("std::vec::Vec::clear")
def _(I, ctx, args, st):
    set_vec(I, st, args[0], ())
    return ret(st, UNIT)


@model("std::vec::Vec::reserve", "std::vec::Vec::reserve_exact", "std::vec::Vec::shrink_to_fit")
def _(I, ctx, args, st):
    return ret(st, UNIT)


@model("std::vec::Vec::capacity")
def _(I, ctx, args, st):
    return ret(st, T("capacity", w=64))


@model("std::vec::Vec::insert")
def _(I, ctx, args, st):
    es = get_vec(I, st, args[0])
    i = I.need_int(st, args[1])
    if i > len(es):
        return panic(I, ctx, st, "insert out of bounds")
    set_vec(I, st, args[0], es[:i] + (args[2],) + es[i:])
    return ret(st, UNIT)


@model("std::vec::Vec::remove", "std::vec::Vec::swap_remove")
def _(I, ctx, args, st):
    es = get_vec(I, st, args[0])
    i = I.need_int(st, args[1])
    if i >= len(es):
        return panic(I, ctx, st, "remove out of bounds")
    x = es[i]
    if ctx.q.get("name") == "remove":
        es = es[:i] + es[i + 1:]
    else:
        l = list(es)
        l[i] = l[-1]
        es = tuple(l[:-1])
    set_vec(I, st, args[0], es)
    return ret(st, x)


@model("std::vec::Vec::truncate")
def _(I, ctx, args, st):
    es = get_vec(I, st, args[0])
    set_vec(I, st, args[0], es[:I.need_int(st, args[1])])
    return ret(st, UNIT)


@model("std::vec::Vec::append")
def _(I, ctx, args, st):
    es, fs = get_vec(I, st, args[0]), get_vec(I, st, args[1])
    set_vec(I, st, args[0], es + fs)
    set_vec(I, st, args[1], ())
    return ret(st, UNIT)


@model("std::vec::Vec::extend_from_slice")
def _(I, ctx, args, st):
    p = args[0]
    v = I.deref(st, p)
    o = I.deref(st, whole(I, st, args[1]))
    if v[0] == "vec" and o[0] in ("arr", "vec", "by"):
        set_vec(I, st, p, v[1] + vec_of(I, st, o)[1])
    else:  # bytes of unknown number
        ps = dom.pieces_of(v) + seen_bytes(I, st, args[1])
        I.store(st, p[1], p[2], ("obs", T("cat", dom.canon_pieces(ps))))
    return ret(st, UNIT)


@model("std::vec::Vec::into_boxed_slice")
def _(I, ctx, args, st):
    return ret(st, ("box", args[0]))


@model("std::slice::{[]}::concat", "*::std::slice::Concat::concat")
def _(I, ctx, args, st):
    ps = []
    es = I.deref(st, whole(I, st, args[0]))
    if es[0] == "by":
        return NotImplemented
    flat = []
    known = True
    for x in es[1]:
        x = I.pick(st, x)
        v = I.deref(st, whole(I, st, x)) if x[0] in ("p", "s") else x
        if v[0] in ("arr", "vec", "by"):
            flat += list(vec_of(I, st, v)[1])
            ps += dom.pieces_of(v)
        elif v[0] == "obs":
            known = False
            ps += dom.pieces_of(v)
        else:
            return NotImplemented
    if known:
        return ret(st, ("vec", tuple(flat)))
    return ret(st, ("obs", T("cat", dom.canon_pieces(ps))))


@model("std::vec::from_elem")
def _(I, ctx, args, st):
    return ret(st, ("vec", (args[0],) * I.need_int(st, args[1])))


# indexing -----------------------------------------------------------

def end_of(I, st, v, n):
    """A length, as a number unless it is that of the whole, unknown string."""
    v = I.pick(st, v)
    while type(v) is tuple and v[0] == "isel":
        v = I.pick(st, v[2] if I.decide(st, v[1]) else v[3])
    return v if v is n and type(n) is Term else I.need_int(st, v)


def bounds(I, st, rng, t, ln):
    """(start, end) of a range value, or None if out of bounds."""
    adt = norm_adt(t.get("adt", "")).split("::")[-1]
    n = I.pick(st, ln)
    if not (type(n) is Term and n.op in ("len", "sum")):
        n = I.need_int(st, n)
    fs = rng[2] if type(rng) is tuple else ()
    if adt == "Range":
        a, b = end_of(I, st, fs[0], n), end_of(I, st, fs[1], n)
    elif adt == "RangeTo":
        a, b = 0, end_of(I, st, fs[0], n)
    elif adt == "RangeFrom":
        a, b = end_of(I, st, fs[0], n), n
    elif adt == "RangeFull":
        a, b = 0, n
    elif adt == "RangeInclusive":
        a, b = I.need_int(st, fs[0]), I.need_int(st, fs[1]) + 1
    elif adt == "RangeToInclusive":
        a, b = 0, I.need_int(st, fs[0]) + 1
    else:
        raise Unsupported("index by %s" % adt)
    for x, y in ((a, b), (b, n)):
        if x is not y and I.decide(st, dom.ult(y, x, 64, st.facts)):
            return None
    return (0, 0) if a is b else (a, b)  # where nothing begins does not matter


def gap(st, a, b):
    return dom.sub(b, a, 64, st.facts)[0]


def sub_slice(I, st, s, idx, t):
    """Pointer to the selected element or sub-slice; None when out of range."""
    if t["k"] == "int":
        e = dom.ult(I.pick(st, idx), s[4], 64, st.facts) if not (type(idx) is tuple) else None
        if e is None:
            idx = I.need_int(st, idx)
            e = dom.ult(idx, s[4], 64, st.facts)
        if not I.decide(st, e):
            return None
        i = I.need_int(st, idx)
        if s[1][0] != "const" and I.container(st, s)[0] == "obs":
            raise Unsupported("element of unknown bytes")
        return ("p", s[1], s[2] + (I.need_int(st, s[3]) + i,))
    if norm_adt(t.get("adt", "")).split("::")[-1] == "RangeFull":
        return s
    b = bounds(I, st, idx, t, s[4])
    if b is None:
        return None
    return ("s", s[1], s[2], I.need_int(st, s[3]) + b[0], gap(st, *b))


@model("std::slice::{[]}::get", "std::slice::{[]}::get_mut")
def _(I, ctx, args, st):
    r = sub_slice(I, st, whole(I, st, args[0]), args[1], aty(I, ctx, 1))
    return ret(st, NONE if r is None else some(r))


@model("{std::vec::Vec as std::ops::Index}::index", "{std::vec::Vec as std::ops::IndexMut}::index_mut", "std::slice::index::{[] as std::ops::Index}::index", "std::slice::index::{[] as std::ops::IndexMut}::index_mut",
       "std::array::{[;] as std::ops::Index}::index", "std::array::{[;] as std::ops::IndexMut}::index_mut")
def _(I, ctx, args, st):
    r = sub_slice(I, st, whole(I, st, args[0]), args[1], aty(I, ctx, 1))
    if r is None:
        return panic(I, ctx, st, "index out of bounds")
    return ret(st, r)


@model("std::slice::{[]}::get_unchecked", "std::slice::{[]}::get_unchecked_mut")
def _(I, ctx, args, st):
    r = sub_slice(I, st, whole(I, st, args[0]), args[1], aty(I, ctx, 1))
    if r is None:
        raise Unsupported("unchecked index out of bounds")
    return ret(st, r)


def _ends(first):
    def f(I, ctx, args, st):
        s = whole(I, st, args[0])
        n = I.need_int(st, s[4])
        if n == 0:
            return ret(st, NONE)
        o = I.need_int(st, s[3])
        return ret(st, some(("p", s[1], s[2] + (o if first else o + n - 1,))))
    return f


for _n in ("first", "first_mut"):
    MODELS["std::slice::{[]}::" + _n] = _ends(True)
for _n in ("last", "last_mut"):
    MODELS["std::slice::{[]}::" + _n] = _ends(False)


@model("std::slice::{[]}::split_first", "std::slice::{[]}::split_last")
def _(I, ctx, args, st):
    s = whole(I, st, args[0])
    n, o = I.need_int(st, s[4]), I.need_int(st, s[3])
    if n == 0:
        return ret(st, NONE)
    if ctx.q["name"] == "split_first":
        return ret(st, some(("a", 0, (("p", s[1], s[2] + (o,)), ("s", s[1], s[2], o + 1, n - 1)))))
    return ret(st, some(("a", 0, (("p", s[1], s[2] + (o + n - 1,)), ("s", s[1], s[2], o, n - 1)))))


@model("std::slice::{[]}::split_at", "std::slice::{[]}::split_at_mut")
def _(I, ctx, args, st):
    s = whole(I, st, args[0])
    o, n = I.need_int(st, s[3]), I.pick(st, s[4])
    if not (type(n) is Term and n.op in ("len", "sum")):
        n = I.need_int(st, n)
    m = end_of(I, st, args[1], n)
    if m is n:
        return ret(st, ("a", 0, (s, ("s", s[1], s[2], 0, 0))))
    if I.decide(st, dom.ult(n, m, 64, st.facts)):
        return panic(I, ctx, st, "split out of bounds")
    return ret(st, ("a", 0, (("s", s[1], s[2], o, m), ("s", s[1], s[2], o + m, gap(st, m, n)))))


@model("std::slice::{[]}::reverse")
def _(I, ctx, args, st):
    s = whole(I, st, args[0])
    n, o = I.need_int(st, s[4]), I.need_int(st, s[3])
    c = I.container(st, s)
    es = list(vec_of(I, st, c)[1])
    es[o:o + n] = es[o:o + n][::-1]
    put(I, st, s, c, es)
    return ret(st, UNIT)


def put(I, st, s, c, es):
    I.store(st, s[1], s[2], ("vec", tuple(es)) if c[0] == "vec" else dom.arr_norm(tuple(es)))


@model("std::slice::{[]}::swap")
def _(I, ctx, args, st):
    s = whole(I, st, args[0])
    o = I.need_int(st, s[3])
    i, j = I.need_int(st, args[1]), I.need_int(st, args[2])
    n = I.need_int(st, s[4])
    if i >= n or j >= n:
        return panic(I, ctx, st, "swap out of bounds")
    c = I.container(st, s)
    es = list(vec_of(I, st, c)[1])
    es[o + i], es[o + j] = es[o + j], es[o + i]
    put(I, st, s, c, es)
    return ret(st, UNIT)


@model("std::slice::{[]}::fill")
def _(I, ctx, args, st):
    s = whole(I, st, args[0])
    n, o = I.need_int(st, s[4]), I.need_int(st, s[3])
    c = I.container(st, s)
    es = list(vec_of(I, st, c)[1])
    es[o:o + n] = [args[1]] * n
    put(I, st, s, c, es)
    return ret(st, UNIT)


@model("std::slice::{[]}::copy_from_slice", "std::slice::{[]}::clone_from_slice")
def _(I, ctx, args, st):
    s, t = whole(I, st, args[0]), whole(I, st, args[1])
    e = dom.eq(s[4], t[4], 64, st.facts)
    if e != 1 and not I.decide(st, e):
        return panic(I, ctx, st, "length mismatch")
    n, o = I.need_int(st, s[4]), I.need_int(st, s[3])
    src = I.slice_val(st, t)
    c = I.container(st, s)
    if o == 0 and src[0] == "by" and c[0] in ("arr", "by") and (c[2] if c[0] == "by" else len(c[1])) == n:
        I.store(st, s[1], s[2], src)
        return ret(st, UNIT)
    es = list(vec_of(I, st, c)[1])
    es[o:o + n] = list(vec_of(I, st, src)[1])
    put(I, st, s, c, es)
    return ret(st, UNIT)


@model("std::slice::{[]}::contains")
def _(I, ctx, args, st):
    x = I.deref(st, args[1])
    v = I.deref(st, whole(I, st, args[0]))
    r = 0
    for y in vec_of(I, st, v)[1]:
        r = dom.e_or(r, val_eq(I, st, y, x))
    return ret(st, mk_bool(r))


@model("std::slice::{[]}::starts_with", "std::slice::{[]}::ends_with")
def _(I, ctx, args, st):
    s, t = whole(I, st, args[0]), whole(I, st, args[1])
    n, o, m = I.need_int(st, s[4]), I.need_int(st, s[3]), I.need_int(st, t[4])
    if m > n:
        return ret(st, 0)
    u = ("s", s[1], s[2], o, m) if ctx.q["name"] == "starts_with" else ("s", s[1], s[2], o + n - m, m)
    return ret(st, mk_bool(val_eq(I, st, I.slice_val(st, u), I.slice_val(st, t))))


@model("std::array::{[;] as std::convert::TryFrom}::try_from", "std::array::{&[;] as std::convert::TryFrom}::try_from")
def _(I, ctx, args, st):
    a = args[0]
    if a[0] == "vec":
        v, n = a, len(a[1])
        v = dom.arr_norm(v[1]) if n else ("arr", ())
    elif a[0] in ("s", "p"):
        s = whole(I, st, a)
        n = I.need_int(st, s[4])
        v = I.slice_val(st, s)
    else:
        return NotImplemented
    d = I.p.types[ctx.dty] if ctx.dty is not None else None
    want = None
    if d and d.get("args"):
        x = I.p.types[d["args"][0]]
        if x["k"] in ("ref", "ptr"):
            x = I.p.types[x["t"]]
        want = x.get("n")
    if want is None:
        return NotImplemented
    if want != n:
        return ret(st, err(("a", 0, (UNIT,))))
    if I.p.types[d["args"][0]]["k"] == "ref":
        if a[0] == "s" and s[3] == 0 and I.load(st, s[1], s[2])[0] in ("arr", "by") and n == (I.load(st, s[1], s[2])[2] if I.load(st, s[1], s[2])[0] == "by" else len(I.load(st, s[1], s[2])[1])):
            return ret(st, ok(("p", s[1], s[2])))
        return ret(st, ok(("p", st.alloc(v), ())))
    return ret(st, ok(v))


MODELS["std::vec::{[;] as std::convert::TryFrom}::try_from"] = MODELS["std::array::{[;] as std::convert::TryFrom}::try_from"]
MODELS["{[;] as std::convert::TryFrom}::try_from"] = MODELS["std::array::{[;] as std::convert::TryFrom}::try_from"]


@model("std::array::{[;]}::map")
def _(I, ctx, args, st):
    return NotImplemented


# clones ---------------------------------------------------------------

@model("std::array::{[;] as std::clone::Clone}::clone", "{std::vec::Vec as std::clone::Clone}::clone", "{std::boxed::Box as std::clone::Clone}::clone",
       "std::clone::Clone::clone", "{[;] as std::clone::Clone}::clone", "{hashbrown::HashMap as std::clone::Clone}::clone", "{std::collections::HashMap as std::clone::Clone}::clone",
       "{std::string::String as std::clone::Clone}::clone", "*::std::clone::CloneToUninit::x")
def _(I, ctx, args, st):
    v = I.deref(st, args[0])
    if type(v) is tuple and v[0] == "o" and v[1] == "S":
        v = ("o", "S", "clone")
    return ret(st, v)


# boxes and memory -------------------------------------------------------

@model("std::boxed::Box::new", "std::boxed::{std::boxed::Box as std::convert::From}::from", "{std::boxed::Box as std::convert::From}::from", "std::boxed::convert::{std::boxed::Box as std::convert::From}::from", "std::boxed::box_new")
def _(I, ctx, args, st):
    if ctx.q.get("name") == "from" and type(args[0]) is tuple and args[0][0] == "s":
        return NotImplemented
    return ret(st, ("box", args[0]))


@model("std::boxed::Box::into_inner")
def _(I, ctx, args, st):
    return ret(st, args[0][1])


@model("std::boxed::Box::leak", "std::boxed::Box::into_raw")
def _(I, ctx, args, st):
    return ret(st, ("p", st.alloc(args[0][1]), ()))


@model("{std::boxed::Box as std::default::Default}::default")
def _(I, ctx, args, st):
    return NotImplemented


@model("std::mem::replace")
def _(I, ctx, args, st):
    p = args[0]
    v = I.deref(st, p)
    I.store(st, p[1], p[2], args[1])
    return ret(st, v)


@model("std::mem::swap", "std::intrinsics::typed_swap_nonoverlapping", "std::ptr::swap")
def _(I, ctx, args, st):
    a, b = args
    x, y = I.deref(st, a), I.deref(st, b)
    I.store(st, a[1], a[2], y)
    I.store(st, b[1], b[2], x)
    return ret(st, UNIT)


@model("std::ptr::read", "std::ptr::read_unaligned", "std::intrinsics::read_via_copy", "std::ptr::const_ptr::{*const T}::read", "std::ptr::mut_ptr::{*mut T}::read")
def _(I, ctx, args, st):
    return ret(st, I.deref(st, args[0]))


@model("std::ptr::write", "std::intrinsics::write_via_move", "std::ptr::mut_ptr::{*mut T}::write")
def _(I, ctx, args, st):
    I.store(st, args[0][1], args[0][2], args[1])
    return ret(st, UNIT)


@model("std::mem::drop", "std::mem::forget", "std::mem::ManuallyDrop::drop", "std::ptr::drop_in_place")
def _(I, ctx, args, st):
    return ret(st, UNIT)


def size_of(I, t):
    x = I.p.types[t]
    if x["k"] == "int":
        return x["w"] // 8
    if x["k"] == "bool":
        return 1
    if x["k"] == "char":
        return 4
    if x["k"] == "array" and x.get("n") is not None:
        return size_of(I, x["t"]) * x["n"]
    if x["k"] == "tuple" and not x["ts"]:
        return 0
    raise Unsupported("size of %s" % x["s"])


@model("std::mem::size_of", "std::intrinsics::size_of")
def _(I, ctx, args, st):
    return ret(st, size_of(I, ctx.q["args"][0]))


@model("std::mem::size_of_val", "std::intrinsics::size_of_val")
def _(I, ctx, args, st):
    return ret(st, size_of(I, ctx.q["args"][0]))


# iterators -----------------------------------------------------------

def mk_it(s):
    return ("it", s[1], s[2], s[3], s[4])


@model("std::slice::{[]}::iter", "std::slice::{[]}::iter_mut", "std::slice::iter::{&[] as std::iter::IntoIterator}::into_iter", "std::slice::iter::{&[T] as std::iter::IntoIterator}::into_iter", "std::slice::iter::{&mut [] as std::iter::IntoIterator}::into_iter",
       "{&std::vec::Vec as std::iter::IntoIterator}::into_iter", "{&mut std::vec::Vec as std::iter::IntoIterator}::into_iter", "std::slice::Iter::new", "std::slice::IterMut::new", "std::slice::iter::Iter::new",
       "std::array::{&[;] as std::iter::IntoIterator}::into_iter", "std::array::{&mut [;] as std::iter::IntoIterator}::into_iter", "{&[;] as std::iter::IntoIterator}::into_iter")
def _(I, ctx, args, st):
    s = whole(I, st, args[0])
    I.need_int(st, s[4])
    return ret(st, mk_it(s))


@model("std::slice::Iter::as_slice")
def _(I, ctx, args, st):
    it = I.deref(st, args[0])
    return ret(st, ("s",) + it[1:])


@model("std::slice::{&[] as std::default::Default}::default", "{&[] as std::default::Default}::default")
def _(I, ctx, args, st):
    return ret(st, ("s", ("const", ("arr", ())), (), 0, 0))


def _it_next(back):
    def f(I, ctx, args, st):
        p = args[0]
        it = I.deref(st, p)
        if it[0] == "vit":
            es = it[1]
            if not es:
                return ret(st, NONE)
            I.store(st, p[1], p[2], ("vit", es[:-1] if back else es[1:]))
            return ret(st, some(es[-1] if back else es[0]))
        if it[0] != "it":
            return NotImplemented
        o, n = I.need_int(st, it[3]), I.need_int(st, it[4])
        if n == 0:
            return ret(st, NONE)
        if back:
            I.store(st, p[1], p[2], ("it", it[1], it[2], o, n - 1))
            return ret(st, some(("p", it[1], it[2] + (o + n - 1,))))
        I.store(st, p[1], p[2], ("it", it[1], it[2], o + 1, n - 1))
        return ret(st, some(("p", it[1], it[2] + (o,))))
    return f


for _t in ("std::slice::Iter", "std::slice::IterMut", "std::vec::IntoIter", "std::array::IntoIter", "std::vec::Drain"):
    for _pre in ("", "std::slice::iter::", "std::array::iter::", "std::vec::into_iter::", "std::array::", "std::vec::"):
        MODELS["%s{%s as std::iter::Iterator}::next" % (_pre, _t)] = _it_next(False)
        MODELS["%s{%s as std::iter::DoubleEndedIterator}::next_back" % (_pre, _t)] = _it_next(True)


def _it_size(I, ctx, args, st):
    it = I.deref(st, args[0])
    n = len(it[1]) if it[0] == "vit" else I.need_int(st, it[4])
    return ret(st, ("a", 0, (n, some(n))))


def _it_len(I, ctx, args, st):
    it = I.deref(st, args[0])
    return ret(st, len(it[1]) if it[0] == "vit" else it[4])


for _t in ("std::slice::Iter", "std::slice::IterMut", "std::vec::IntoIter", "std::array::IntoIter", "std::vec::Drain"):
    for _pre in ("", "std::slice::iter::", "std::array::iter::", "std::vec::into_iter::", "std::array::", "std::vec::"):
        MODELS["%s{%s as std::iter::Iterator}::size_hint" % (_pre, _t)] = _it_size
        MODELS["%s{%s as std::iter::ExactSizeIterator}::len" % (_pre, _t)] = _it_len
        MODELS["%s{%s as std::clone::Clone}::clone" % (_pre, _t)] = MODELS["std::clone::Clone::clone"]
MODELS["std::iter::ExactSizeIterator::len"] = lambda I, ctx, args, st: _it_len(I, ctx, args, st) if I.deref(st, args[0])[0] in ("vit", "it") else NotImplemented


@model("{std::vec::Vec as std::iter::IntoIterator}::into_iter", "std::array::iter::{[;] as std::iter::IntoIterator}::into_iter", "std::array::{[;] as std::iter::IntoIterator}::into_iter", "{[;] as std::iter::IntoIterator}::into_iter")
def _(I, ctx, args, st):
    a = args[0]
    if a[0] in ("p", "s"):
        return ret(st, mk_it(whole(I, st, a)))
    return ret(st, ("vit", vec_of(I, st, a)[1]))


@model("std::vec::Vec::drain")
def _(I, ctx, args, st):
    es = get_vec(I, st, args[0])
    b = bounds(I, st, args[1], aty(I, ctx, 1), len(es))
    if b is None:
        return panic(I, ctx, st, "drain out of bounds")
    set_vec(I, st, args[0], es[:b[0]] + es[b[1]:])
    return ret(st, ("vit", es[b[0]:b[1]]))


def aux_next(ctx, I, t):
    for i, a in enumerate(ctx.q.get("aux") or []):
        if a[0] == "next" and a[1] == t:
            return a[2]
    return None


def drive(I, ctx, st, it, nxt, limit=1200):
    """Run an iterator to its end: outcomes ('ret', state, items)."""
    cell, acc = st.alloc(it), st.alloc(("vec", ()))
    I.pins += [("p", cell, ()), ("p", acc, ())]
    outs = []
    work = [(st, ())]
    while work:
        s, items = work.pop()
        if len(items) > limit:
            raise Unsupported("iteration without a bound")
        for k, s2, v in I.call({"n": nxt, "decl": ""}, [("p", cell, ())], s, None, [None], ctx.at):
            if k == "panic":
                outs.append((k, s2, v))
                continue
            for s3, o in variant_cases(I, s2, v):
                if o[1] == 0:
                    I.store(s3, cell, (), None)
                    outs.append(("ret", s3, items))
                else:
                    items3 = items + (o[2][0],)
                    I.store(s3, acc, (), ("vec", items3))
                    work.append((s3, items3))
    return outs


def collect_from(I, ctx, args, st, i):
    """Items of an argument that is (convertible into) an iterator."""
    t = ctx.atys[i]
    aux = ctx.q.get("aux") or []
    a = args[i]
    if type(a) is tuple and a[0] in ("vit",):
        return [("ret", st, a[1])]
    if type(a) is tuple and a[0] == "it":
        o, n = I.need_int(st, a[3]), I.need_int(st, a[4])
        return [("ret", st, tuple(("p", a[1], a[2] + (j,)) for j in range(o, o + n)))]
    ts = I.p.types[t]["s"]
    for j, x in enumerate(aux):
        if x[0] == "next" and I.p.types[x[1]]["s"] == ts:
            return drive(I, ctx, st, a, x[2])
    for j, x in enumerate(aux):
        if x[0] == "into_iter" and I.p.types[x[1]]["s"] == ts:
            nxt = None
            if j + 1 < len(aux) and aux[j + 1][0] == "next":
                nxt = aux[j + 1][2]
            outs = []
            for k, s, v in I.call({"n": x[2], "decl": ""}, [a], st, None, [t], ctx.at):
                if k == "panic":
                    outs.append((k, s, v))
                elif type(v) is tuple and v[0] == "vit":
                    outs.append(("ret", s, v[1]))
                elif nxt is None:
                    raise Unsupported("iterator of %s" % ts)
                else:
                    outs += drive(I, ctx, s, v, nxt)
            return outs
    if type(a) is tuple and a[0] in ("vec", "arr", "by"):
        return [("ret", st, vec_of(I, st, a)[1])]
    raise Unsupported("collection from %s" % ts)


@model("{std::vec::Vec as std::iter::FromIterator}::from_iter", "std::vec::{std::vec::Vec as std::iter::FromIterator}::from_iter")
def _(I, ctx, args, st):
    return [(k, s, v if k == "panic" else ("vec", tuple(v))) for k, s, v in collect_from(I, ctx, args, st, 0)]


@model("*::std::vec::spec_from_iter::SpecFromIter::from_iter", "*::std::vec::SpecFromIter::from_iter")
def _(I, ctx, args, st):
    return [(k, s, v if k == "panic" else ("vec", tuple(v))) for k, s, v in collect_from(I, ctx, args, st, 0)]


@model("{std::vec::Vec as std::iter::Extend}::extend", "std::vec::{std::vec::Vec as std::iter::Extend}::extend")
def _(I, ctx, args, st):
    p = args[0]
    if args[1][0] in ("s", "p") and I.deref(st, whole(I, st, args[1]))[0] == "obs":
        v = I.deref(st, p)
        I.store(st, p[1], p[2], ("obs", T("cat", dom.canon_pieces(dom.pieces_of(v) + seen_bytes(I, st, args[1])))))
        return ret(st, UNIT)
    outs = []
    byref = "&" in I.p.types[ctx.q["args"][0]]["s"] if ctx.q.get("args") else False
    for k, s, v in collect_from(I, ctx, args, st, 1):
        if k == "ret":
            es = get_vec(I, s, p)
            elem_ref = es and type(es[0]) is tuple and es[0][0] in ("p", "s")
            items = tuple(v)
            if items and type(items[0]) is tuple and items[0][0] == "p" and (byref or not elem_ref) and copies(I, ctx):
                items = tuple(I.deref(s, x) for x in items)
            set_vec(I, s, p, es + items)
            v = UNIT
        outs.append((k, s, v))
    return outs


def copies(I, ctx):
    """Extend<&T>: elements are copied out of references."""
    t = I.p.types[ctx.atys[0]]
    if t["k"] in ("ref", "ptr"):
        t = I.p.types[t["t"]]
    a = t.get("args")
    return not (a and I.p.types[a[0]]["k"] in ("ref", "ptr"))


@model("{std::vec::Vec as std::iter::Extend}::extend_one", "std::vec::{std::vec::Vec as std::iter::Extend}::extend_one", "{std::vec::Vec as std::iter::Extend}::extend_one_unchecked")
def _(I, ctx, args, st):
    es = get_vec(I, st, args[0])
    set_vec(I, st, args[0], es + (args[1],))
    return ret(st, UNIT)


@model("std::iter::Iterator::unzip", "*::std::iter::Iterator::unzip")
def _(I, ctx, args, st):
    d = I.p.types[ctx.dty]
    for x in d["ts"]:
        if norm_adt(I.p.types[x].get("adt", "")) != "std::vec::Vec":
            raise Unsupported("unzip into %s" % d["s"])
    outs = []
    for k, s, v in collect_from(I, ctx, args, st, 0):
        if k == "ret":
            v = ("a", 0, (("vec", tuple(x[2][0] for x in v)), ("vec", tuple(x[2][1] for x in v))))
        outs.append((k, s, v))
    return outs


# zip: ('a', 0, (a, b)) ------------------------------------------------

def _zip_new(I, ctx, args, st):
    return ret(st, ("a", 0, (args[0], args[1])))


def _zip_next(back):
    def f(I, ctx, args, st):
        p = args[0]
        z = I.deref(st, p)
        if len(z[2]) != 2:
            raise Unsupported("zip")
        ta, tb = ctx.q["args"][0], ctx.q["args"][1]

        def step(s, idx, t):
            v = I.deref(s, p)[2][idx]
            if v[0] in ("it", "vit"):
                return _it_next(back)(I, ctx, [("p", p[1], p[2] + (idx,))], s)
            n = aux_next(ctx, I, t)
            if n is None or back:
                raise Unsupported("zip of %s" % I.p.types[t]["s"])
            return I.call({"n": n, "decl": ""}, [("p", p[1], p[2] + (idx,))], s, None, [None], ctx.at)

        outs = []
        for k, s, v in step(st, 0, ta):
            if k == "panic":
                outs.append((k, s, v))
                continue
            for s1, a in variant_cases(I, s, v):
                if a[1] == 0:
                    outs.append(("ret", s1, NONE))
                    continue
                for k2, s2, w in step(s1, 1, tb):
                    if k2 == "panic":
                        outs.append((k2, s2, w))
                        continue
                    for s3, b in variant_cases(I, s2, w):
                        outs.append(("ret", s3, NONE if b[1] == 0 else some(("a", 0, (a[2][0], b[2][0])))))
        return outs
    return f


for _pre in ("", "std::iter::adapters::zip::", "std::iter::"):
    for _z in ("std::iter::Zip", "std::iter::adapters::zip::Zip"):
        MODELS["%s{%s as std::iter::Iterator}::next" % (_pre, _z)] = _zip_next(False)
        MODELS["%s{%s as std::iter::DoubleEndedIterator}::next_back" % (_pre, _z)] = _zip_next(True)
        MODELS["%s::new" % _z] = _zip_new
        for _i in ("std::iter::adapters::zip::ZipImpl", "std::iter::zip::ZipImpl"):
            MODELS["%s{%s as %s}::new" % (_pre, _z, _i)] = _zip_new
            MODELS["%s{%s as %s}::next" % (_pre, _z, _i)] = _zip_next(False)
            MODELS["%s{%s as %s}::next_back" % (_pre, _z, _i)] = _zip_next(True)


# ------------------------------------------------------------- integers

def iw(I, t):
    return I.width(t)


def _unint(f):
    def g(I, ctx, args, st):
        w, sg = iw(I, ctx.atys[0])
        if w is None:
            return NotImplemented
        return ret(st, I.lift(st, lambda facts, a: f(a, w, facts), args[0]))
    return g


def bswap(a, w, f):
    b = dom.rbits(a, w, f)
    out = ()
    for i in range(w - 8, -1, -8):
        out += b[i:i + 8]
    return norm(out)


def bitrev(a, w, f):
    return norm(tuple(reversed(dom.rbits(a, w, f))))


for _n, _f in (("cttz", dom.cttz), ("cttz_nonzero", dom.cttz), ("ctlz", dom.ctlz), ("ctlz_nonzero", dom.ctlz), ("ctpop", dom.ctpop), ("bswap", bswap), ("bitreverse", bitrev)):
    MODELS["std::intrinsics::" + _n] = _unint(_f)


@model("std::intrinsics::integer_max", "std::intrinsics::integer_min")
def _(I, ctx, args, st):
    w, sg = iw(I, ctx.q["args"][0])
    mx = ctx.q["name"].endswith("max")
    if len(args) == 2:
        def f(facts, a, b):
            lt = dom.ult(a, b, w, facts, sg)
            if lt < 2:
                return b if bool(lt) == mx else a
            return ("isel", lt, b, a) if mx else ("isel", lt, a, b)
        return ret(st, I.lift(st, f, args[0], args[1]))
    v = (dom.mask(w - 1) if sg else dom.mask(w)) if mx else ((1 << (w - 1)) if sg else 0)
    return ret(st, v)


def _bin(op):
    def f(I, ctx, args, st):
        w, sg = iw(I, ctx.atys[0])
        return ret(st, I.binval(st, op, args[0], args[1], w, sg))
    return f


for _n, _o in (("wrapping_add", "Add"), ("wrapping_sub", "Sub"), ("wrapping_mul", "Mul"), ("add_with_overflow", "AddWithOverflow"), ("sub_with_overflow", "SubWithOverflow"), ("mul_with_overflow", "MulWithOverflow"),
               ("unchecked_add", "AddUnchecked"), ("unchecked_sub", "SubUnchecked"), ("unchecked_mul", "MulUnchecked"), ("unchecked_shl", "ShlUnchecked"), ("unchecked_shr", "ShrUnchecked"),
               ("unchecked_div", "Div"), ("unchecked_rem", "Rem"), ("exact_div", "Div"), ("three_way_compare", "Cmp")):
    MODELS["std::intrinsics::" + _n] = _bin(_o)


@model("std::intrinsics::saturating_add", "std::intrinsics::saturating_sub")
def _(I, ctx, args, st):
    w, sg = iw(I, ctx.atys[0])
    if sg:
        return NotImplemented
    addp = ctx.q["name"].endswith("add")

    def f(facts, a, b):
        r = I.bin1(facts, "AddWithOverflow" if addp else "SubWithOverflow", a, b, w, sg)
        v, o = r[2]
        sat = dom.mask(w) if addp else 0
        if o == 0:
            return v
        if o == 1:
            return sat
        return ("isel", o.b[0], sat, v)
    return ret(st, I.lift(st, f, args[0], args[1]))


@model("std::intrinsics::rotate_left", "std::intrinsics::rotate_right")
def _(I, ctx, args, st):
    w, sg = iw(I, ctx.atys[0])
    n = I.need_int(st, args[1]) % w
    b = dom.rbits(args[0], w, st.facts)
    if ctx.q["name"].endswith("right"):
        return ret(st, norm(b[n:] + b[:n]))
    return ret(st, norm(b[w - n:] + b[:w - n]) if n else args[0])


@model("std::intrinsics::raw_eq")
def _(I, ctx, args, st):
    return ret(st, mk_bool(val_eq(I, st, I.deref(st, args[0]), I.deref(st, args[1]))))


@model("std::intrinsics::compare_bytes")
def _(I, ctx, args, st):
    return NotImplemented


@model("std::intrinsics::assert_inhabited", "std::intrinsics::assert_zero_valid", "std::intrinsics::assert_mem_uninitialized_valid", "std::intrinsics::cold_path", "std::hint::assert_unchecked", "std::intrinsics::assume",
       "std::ub_checks::assert_unsafe_precondition", "std::intrinsics::forget")
def _(I, ctx, args, st):
    return ret(st, UNIT)


@model("std::intrinsics::likely", "std::intrinsics::unlikely", "std::hint::black_box", "std::intrinsics::black_box", "std::hint::likely", "std::hint::unlikely")
def _(I, ctx, args, st):
    return ret(st, args[0])


@model("std::intrinsics::needs_drop", "std::mem::needs_drop")
def _(I, ctx, args, st):
    return ret(st, 0)


@model("std::intrinsics::discriminant_value")
def _(I, ctx, args, st):
    t = I.p.types[ctx.atys[0]]
    return ret(st, I.disc(I.pick(st, I.deref(st, args[0])), t["t"]))


@model("std::intrinsics::ub_checks", "std::intrinsics::overflow_checks", "std::ub_checks::check_language_ub", "std::intrinsics::is_val_statically_known", "std::intrinsics::contract_checks")
def _(I, ctx, args, st):
    return ret(st, 0)


# ------------------------------------------------------------- formatting

@model("std::fmt::Formatter::write_str", "std::fmt::Formatter::debug_tuple_field1_finish", "std::fmt::DebugStruct::finish", "std::fmt::Formatter::write_fmt", "std::fmt::Write::write_str",
       "std::fmt::Formatter::debug_struct_field1_finish", "std::fmt::Formatter::debug_struct_field2_finish", "std::fmt::Formatter::debug_tuple_field2_finish", "std::fmt::Formatter::pad")
def _(I, ctx, args, st):
    return ret(st, ok(UNIT))


@model("std::fmt::DebugStruct::field")
def _(I, ctx, args, st):
    return ret(st, args[0])


@model("hex::encode", "hex::encode_upper")
def _(I, ctx, args, st):
    v = args[0]
    for _ in range(4):
        if type(v) is tuple and v[0] == "p":
            v = I.deref(st, v)
    try:
        return ret(st, ("o", "hex", dom.bterm(v)))
    except Unsupported:
        return ret(st, ("o", "text"))


@model("std::fmt::format", "std::fmt::Formatter::debug_struct", "{T as std::string::SpecToString}::spec_to_string")
def _(I, ctx, args, st):
    return ret(st, ("o", "text"))


@model("{std::marker::PhantomData as std::default::Default}::default")
def _(I, ctx, args, st):
    return ret(st, UNIT)


# ------------------------------------------------------------- hash maps

def map_op(I, st, m, name, args, ctx, p):
    """Operations on a map whose contents are known."""
    ents = m[1]
    if name in ("get", "contains_key", "get_mut", "remove", "get_key_value", "index"):
        key = I.deref(st, args[0])
        outs = []
        cur = [(st, None)]
        todo = st
        for n, (k, v) in enumerate(ents):
            nxt = None
            for s, b in cases(I, todo, val_eq(I, todo, k, key)):
                if b:
                    outs.append((s, n))
                else:
                    nxt = s
            todo = nxt
            if todo is None:
                break
        if todo is not None:
            outs.append((todo, None))
        r = []
        for s, n in outs:
            if name == "contains_key":
                r.append(("ret", s, 0 if n is None else 1))
            elif n is None:
                r.append(("ret", s, NONE))
            elif name in ("get", "get_mut"):
                r.append(("ret", s, some(("p", p[1], p[2] + (("e", n),)))))
            elif name == "remove":
                I.store(s, p[1], p[2], ("map", ents[:n] + ents[n + 1:]))
                r.append(("ret", s, some(ents[n][1])))
            else:
                raise Unsupported("map %s" % name)
        return r
    if name == "insert":
        key, val = args
        outs = []
        todo = st
        for n, (k, v) in enumerate(ents):
            nxt = None
            for s, b in cases(I, todo, val_eq(I, todo, k, key)):
                if b:
                    I.store(s, p[1], p[2], ("map", ents[:n] + ((k, val),) + ents[n + 1:]))
                    outs.append(("ret", s, some(v)))
                else:
                    nxt = s
            todo = nxt
            if todo is None:
                break
        if todo is not None:
            I.store(todo, p[1], p[2], ("map", ents + ((key, val),)))
            outs.append(("ret", todo, NONE))
        return outs
    if name == "len":
        return ret(st, len(ents))
    if name == "is_empty":
        return ret(st, int(not ents))
    if name == "clear":
        I.store(st, p[1], p[2], ("map", ()))
        return ret(st, UNIT)
    raise Unsupported("map %s" % name)


def _map(name):
    def f(I, ctx, args, st):
        m = I.deref(st, args[0])
        if m[0] == "map":
            return map_op(I, st, m, name, args[1:], ctx, args[0])
        if m[0] == "o" and m[1] == "S":
            return I.env.storage(I, st, m, "map." + name, args[1:], ctx.dty, ctx.at)
        raise Unsupported("map operation on %s" % dom.show(m)[:40])
    return f


for _h in ("hashbrown::HashMap", "std::collections::HashMap", "std::collections::hash_map::HashMap", "std::collections::BTreeMap", "std::collections::btree_map::BTreeMap", "std::collections::hash::map::HashMap"):
    for _n in ("get", "get_mut", "contains_key", "remove", "insert", "len", "is_empty", "clear", "remove_entry", "get_key_value", "entry", "iter", "keys", "values", "drain", "retain", "extend", "iter_mut", "values_mut"):
        MODELS["%s::%s" % (_h, _n)] = _map(_n)
    MODELS["{%s as std::default::Default}::default" % _h] = lambda I, ctx, args, st: ret(st, ("map", ()))
    MODELS["%s::new" % _h] = lambda I, ctx, args, st: ret(st, ("map", ()))
    MODELS["%s::with_capacity" % _h] = lambda I, ctx, args, st: ret(st, ("map", ()))


# ------------------------------------------------------------- unresolved

def _u_next(I, ctx, args, st):
    return _it_next(False)(I, ctx, args, st)


UNRES[("std::iter::Iterator", "next")] = _u_next
UNRES[("std::iter::IntoIterator", "into_iter")] = lambda I, ctx, args, st: ret(st, args[0])


def _u_as_ref(I, ctx, args, st):
    return ret(st, whole(I, st, args[0]))


UNRES[("std::convert::AsRef", "as_ref")] = _u_as_ref
UNRES[("std::borrow::Borrow", "borrow")] = _u_as_ref


# ------------------------------------------------------------- fallback

def fallback(I, ctx, args, st, np):
    q = ctx.q
    if "::fmt::" in np or np.startswith("std::fmt::") or "as std::fmt::" in np:
        d = I.p.types[ctx.dty] if ctx.dty is not None else None
        if d and norm_adt(d.get("adt", "")) == "std::result::Result":
            return ret(st, ok(UNIT))
        return ret(st, ("o", "fmt"))
    if q["kind"] == "clone" and args:
        return ret(st, I.deref(st, args[0]))
    if q["kind"] == "drop":
        return ret(st, UNIT)
    # tuple-like constructors used as functions
    d = I.p.types[ctx.dty] if ctx.dty is not None else None
    name = np.split("::")[-1]
    if d is not None and d.get("vs"):
        par = "::".join(np.split("::")[:-1])
        adt = norm_adt(d.get("adt", ""))
        for i, v in enumerate(d["vs"]):
            if v[0] == name and (adt == par or adt == np) and len(v[2]) == len(args):
                return ret(st, ("a", i, tuple(args)))
    if np.endswith("precondition_check"):
        return ret(st, UNIT)
    if name.endswith("_failed") or name.endswith("_fail") or "panicking" in np:
        return panic(I, ctx, st, name)
    return NotImplemented


# searches over known bytes ----------------------------------------------

def iter_items(I, st, t, v):
    """Items of an iterator that only walks over slices, or None."""
    if type(v) is not tuple:
        return None
    if v[0] == "vit":
        return list(v[1])
    if v[0] == "it":
        o, n = I.need_int(st, v[3]), I.need_int(st, v[4])
        return [("p", v[1], v[2] + (j,)) for j in range(o, o + n)]
    d = I.p.types[t]
    a = norm_adt(d.get("adt", "")).split("::")[-1]
    if v[0] != "a" or not d.get("args"):
        return None
    if a == "Chain" and len(v[2]) == 2:
        r = []
        for x, u in zip(v[2], d["args"]):
            if type(x) is not tuple or x[0] != "a":
                return None
            if x[1] == 1:
                y = iter_items(I, st, u, x[2][0])
                if y is None:
                    return None
                r += y
        return r
    if a in ("Copied", "Cloned") and len(v[2]) == 1:
        y = iter_items(I, st, d["args"][0], v[2][0])
        return y and [I.deref(st, x) for x in y]
    if a == "Zip" and len(v[2]) >= 2:
        x, y = iter_items(I, st, d["args"][0], v[2][0]), iter_items(I, st, d["args"][1], v[2][1])
        if x is None or y is None or v[2][2:3] not in ((), (0,)):
            return None
        return [("a", 0, (p, q)) for p, q in zip(x, y)]
    return None


def array_at(I, st, xs, i):
    """Length of the array whose bytes, all of them, come next; 0 if none."""
    p = xs[i][0]
    while type(p) is tuple and p[0] == "p" and not (p[2] and p[2][-1] == 0):
        q = I.load(st, p[1], p[2])
        if type(q) is not tuple or q[0] != "p":
            return 0
        p = q
    if type(p) is not tuple or p[0] != "p":
        return 0
    v = I.load(st, p[1], p[2][:-1])
    if type(v) is not tuple or v[0] != "by":
        return 0
    n = v[2]
    return n if all(j < len(xs) and xs[j][0] == ("p", p[1], p[2][:-1] + (j - i,)) for j in range(i, i + n)) else 0


def array_term(I, st, xs):
    if len(xs) > 1 and array_at(I, st, xs, 0) == len(xs):
        p = xs[0][0]
        return dom.bterm(I.load(st, p[1], p[2][:-1]))
    return dom.bterm(("arr", tuple(b for _, b in xs)))


def _search(neg):
    def f(I, ctx, args, st):
        """all / any (neg) over bytes, as one question about the whole strings."""
        n = ctx.q.get("pred")
        if n is None or args[0][0] != "p" or not ctx.q.get("args"):
            return NotImplemented
        items = iter_items(I, st, ctx.q["args"][0], I.load(st, args[0][1], args[0][2]))
        if not items or len(items) < 4:
            return NotImplemented

        def byte(x):
            for _ in range(4):
                if type(x) is tuple and x and x[0] == "p":
                    x = I.deref(st, x)
            return x if type(x) is int or type(x) is Bits and len(x.b) <= 8 else None

        left, right = [], []
        for x in items:
            pair = x[2] if type(x) is tuple and x[0] == "a" and len(x[2]) == 2 else (x,)
            bs = [byte(y) for y in pair]
            if None in bs:
                return NotImplemented
            s = st.fork()
            clo = ("p", s.alloc(args[1]), ())
            outs = I.call({"n": n, "decl": "", "trait": "std::ops::FnMut"}, [clo, ("a", 0, (x,))], s, None, [None], ctx.at)
            if len(outs) != 1 or outs[0][0] != "ret" or outs[0][1].facts != st.facts:
                return NotImplemented
            e = outs[0][2]
            e = e if type(e) is int else e.b[0] if type(e) is Bits and len(e.b) == 1 else None
            if e is None:
                return NotImplemented
            e ^= neg
            for c in (bs[1:] or (0, 255, 1)):
                if dom.eq(bs[0], c, 8, st.facts) == e:
                    left.append((pair[0], bs[0]))
                    right.append((pair[1] if bs[1:] else None, c))
                    break
            else:
                return NotImplemented
        r, i = 1, 0
        while i < len(left):
            # one whole array after the other
            m = max(array_at(I, st, left, i), array_at(I, st, right, i)) or 1
            x, y = array_term(I, st, left[i:i + m]), array_term(I, st, right[i:i + m])
            r = dom.e_and(r, dom.bytes_eq(x, y, st.facts))
            i += m
        r ^= neg
        I.store(st, args[0][1], args[0][2], None)  # where it stopped is not known
        return ret(st, r if r < 2 else Bits((r,)))
    return f


for _n, _v in (("all", 0), ("any", 1)):
    for _p in ("std::iter::Iterator::%s", "std::slice::iter::{std::slice::Iter as std::iter::Iterator}::%s", "{std::slice::Iter as std::iter::Iterator}::%s",
               "{std::iter::Chain as std::iter::Iterator}::%s", "{std::iter::Zip as std::iter::Iterator}::%s", "{std::iter::Copied as std::iter::Iterator}::%s"):
        MODELS[_p % _n] = _search(_v)
