"""Rules for the provided storage: the map, and the infallible adapters."""
import itertools

import dom
from absint import St
from rules.binary import one
from world import ERR, Env, log, ref

SM = "{common::storage_map::StorageMap as fuel_storage::%s}::%s"
GET, HAS = SM % ("StorageInspect", "get"), SM % ("StorageInspect", "contains_key")
INS, DEL = SM % ("StorageMutate", "insert"), SM % ("StorageMutate", "remove")
NONE = ("a", 0, ())


def okv(v):
    return type(v) is tuple and v[0] == "a" and v[1] == 0 and len(v[2]) == 1


def conv(I, tr, name, args, st, callee):
    """The value type's own conversion and clone: recorded, not interpreted."""
    if tr in ("std::convert::From", "std::convert::Into"):
        return [("ret", st, ("o", "stored", args[0]))]
    if tr == "std::borrow::ToOwned" or tr == "std::clone::Clone":
        return [("ret", st, I.deref(st, args[0]))]
    return None


def key_sym(i):
    return dom.T("key", i, w=64)


def eq_case(ks, i, f):
    """Which of the keys the facts say key i equals: a partition of the keys."""
    return [j for j in range(i) if dom.eq(ks[j], ks[i], 64, f) == 1]


class Model:
    """Specification map over keys known up to equality."""

    def __init__(self, d=()):
        self.d = dict(d)


def plain(I, st, v):
    """A value behind references and copy-on-write wrappers."""
    for _ in range(6):
        if type(v) is tuple and v[0] == "p":
            v = I.load(st, v[1], v[2])
        elif type(v) is tuple and v[0] == "a" and len(v[2]) == 1 and v[1] in (0, 1):
            v = v[2][0]
        else:
            break
    return v


def opt(I, st, v):
    """Option<value or reference> as (present, value)."""
    if v == NONE:
        return False, None
    if type(v) is tuple and v[0] == "a" and v[1] == 1:
        return True, plain(I, st, v[2][0])
    return None, None


def map_rule(c, W, ops, eqs):
    """A sequence of operations on a new map, compared with a map."""
    from absint import Interp
    I = Interp(None)
    nk = max(k for _, k in ops) + 1
    key = "map:%s:%s" % (",".join("%s%d" % o for o in ops), "".join(map(str, eqs)))
    what = "operations %s (keys %s)" % (" ".join("%s(k%d)" % o for o in ops), ", ".join("k%d=k%d" % (i, e) for i, e in enumerate(eqs) if e != i) or "all different")
    env = Env(oracle=conv)
    # keys that are equal are the same symbol; different ones are different
    dom.base_reset()
    ks = [key_sym(e) for e in eqs]
    for a in range(nk):
        for b in range(a):
            if eqs[a] == a and eqs[b] == b:
                dom.base_fact(dom.eq(ks[a], ks[b], 64, {}), 0)
    st = St()
    o, why = one(W.run("common::storage_map::StorageMap::new", [], st, env), "new map")
    if not c.expect(o is not None, key + ":new", why or ""):
        return
    st, p = o[1], ref(o[1], o[2])
    have = {}
    for n, (op, k) in enumerate(ops):
        K = eqs[k]
        kp = ref(st, ks[k])
        V = ("o", "val", n)
        args = [p, kp] + ([ref(st, V)] if op == "i" else [])
        fn = {"i": INS, "r": DEL, "g": GET, "c": HAS}[op]
        o, why = one(W.run(fn, args, st, env), "%s: operation %d" % (what, n))
        if not c.expect(o is not None and okv(o[2]), key + ":result", lambda: why or "%s: operation %d gives %s" % (what, n, dom.show(o[2])[:100])):
            return
        st, v = o[1], o[2][2][0]
        if op == "c":
            c.expect(v == int(K in have), key + ":contains", lambda: "%s: contains_key says %s" % (what, dom.show(v)))
        else:
            got = opt(I, st, v)
            want = (K in have, have.get(K))
            c.expect(got == want, key + ":value", lambda: "%s: operation %d gives %s, not %s" % (what, n, got, want))
        if op == "i":
            have[K] = ("o", "stored", V)
        if op == "r":
            have.pop(K, None)
    c.count("map_sequences")
    for k in range(nk):
        o, why = one(W.run(GET, [p, ref(st, ks[k])], st.fork(), env), what)
        c.expect(o is not None and okv(o[2]) and opt(I, o[1], o[2][2][0]) == (eqs[k] in have, have.get(eqs[k])), key + ":final", lambda: "%s: afterwards k%d holds %s" % (what, k, o and dom.show(o[2])[:100]))


def map_sequences(c):
    out = []
    n = 4 if not c.thorough else 5
    for ln in range(1, n + 1):
        for opn in itertools.product("irgc", repeat=ln):
            if opn.count("i") + opn.count("r") == 0 and ln > 1 or ln > 2 and opn[0] != "i":
                continue
            for ks in itertools.product(range(3), repeat=ln):
                # keys appear in order
                if any(k > max(ks[:i], default=-1) + 1 for i, k in enumerate(ks)) or ks[0] != 0:
                    continue
                nk = max(ks) + 1
                out.append((tuple(zip(opn, ks)), tuple(range(nk))))
                if nk == 2 and ln <= 3:
                    out.append((tuple(zip(opn, ks)), (0, 0)))
    return out


def map_sequences_rule(c, W):
    for ops, eqs in map_sequences(c):
        c.guard("map:%s" % "".join("%s%d" % o for o in ops), map_rule, c, W, ops, eqs)


def holds(v, x):
    return v == x or type(v) is tuple and any(holds(y, x) for y in v)


def swap(v, x, y):
    if v == x:
        return y
    return tuple(swap(z, x, y) for z in v) if type(v) is tuple else v


def step_rule(c, W):
    """One operation on a map of unknown contents."""
    from absint import Interp
    I = Interp(None)
    for op, fn in (("insert", INS), ("remove", DEL), ("get", GET), ("contains_key", HAS)):
        key = "map-step:" + op
        for present in (True, False):
            dom.base_reset()
            old = ("o", "old")
            env = Env(lambda I, st, k: [(st, old if present else None)], oracle=conv)
            st = St()
            # the map is a value of unknown contents: only its operations are seen
            o, why = one(W.run("common::storage_map::StorageMap::new", [], st, env), "new map")
            if not c.expect(o is not None and holds(o[2], ("map", ())), key + ":new", why or "a new map is not empty"):
                continue
            st = o[1]
            p = ref(st, swap(o[2], ("map", ()), ("o", "S", 0)))
            V = ("o", "val", 0)
            args = [p, ref(st, key_sym(0))] + ([ref(st, V)] if op == "insert" else [])
            outs = W.run(fn, args, st, env)
            for kind, s, v in outs:
                c.count("map_steps")
                if not c.expect(kind == "ret" and okv(v), key + ":result", lambda: "%s on a map gives %s" % (op, dom.show(v)[:100])):
                    continue
                evs = log(s)
                fin = {}
                for e in evs:
                    fin[e[1]] = e
                if op in ("get", "contains_key"):
                    c.expect(not evs, key + ":pure", "%s changes the map" % op)
                    r = v[2][0]
                    c.expect(r == int(present) if op == "contains_key" else opt(I, s, r) == (present, old if present else None), key + ":value", lambda: "%s of a %s key gives %s" % (op, "present" if present else "missing", dom.show(r)[:80]))
                    continue
                c.expect(set(fin) == {key_sym(0)}, key + ":key", lambda: "%s changes keys %s" % (op, [dom.show(k) for k in fin]))
                e = fin.get(key_sym(0))
                want = ("insert", key_sym(0), ("o", "stored", V)) if op == "insert" else ("remove", key_sym(0))
                c.expect(e == want, key + ":effect", lambda: "%s leaves %s" % (op, e and dom.show(e)))


# --------------------------------------------------------------- adapters

def adapter_rule(c, W):
    """The infallible view forwards each operation to the storage, unchanged."""
    tr = {"get": "Inspect", "contains_key": "Inspect", "insert": "Mutate", "remove": "Mutate"}
    for op, t in tr.items():
        key = "adapter:" + op
        fn = "{S as storage::Storage%sInfallible}::%s" % (t, op)
        for n, r in enumerate((NONE, ("a", 1, (("o", "value"),))) if op != "contains_key" else (0, 1)):
            st = St()
            S = ("o", "S", 7)
            calls = []

            def storage(I, s, obj, name, args, dty, at, r=r):
                s.w = W_eff(s.w, (name, obj, tuple(I.deref(s, a) for a in args)))
                return [("ret", s, ("a", 0, (r,)))]
            env = Env()
            env.storage = storage
            args = [ref(st, S), ref(st, ("o", "key"))] + ([ref(st, ("o", "val"))] if op == "insert" else [])
            outs = W.run(fn, args, st, env)
            o, why = one(outs, op)
            c.count("adapters")
            if not c.expect(o is not None, key, why or ""):
                continue
            want = [(op, S, tuple([("o", "key")] + ([("o", "val")] if op == "insert" else [])))]
            c.expect(log(o[1]) == want, key + ":forwards", lambda: "the infallible %s performs %s" % (op, [dom.show(e) for e in log(o[1])]))
            c.expect(o[2] == r, key + ":result", lambda: "the infallible %s turns %s into %s" % (op, dom.show(r), dom.show(o[2])[:80]))


def W_eff(prev, ev):
    from absint import eff
    return eff(prev, ev)


# ---------------------------------------------------------------- subtree

SUB = "common::subtree::Subtree::"


CLONE = "{common::subtree::Subtree as std::clone::Clone}::clone"


def subtree_rule(c, W):
    """The linked list of subtrees holds what it was given, in order."""
    from absint import Interp
    I = Interp(None)
    for depth, copy in ((1, 0), (2, 0), (3, 0), (4, 0), (1, 1), (2, 1), (3, 1), (66, 1)):
        key = "subtree:%d%s" % (depth, ":copy" if copy else "")
        st = St()
        nxt = NONE
        for d in range(depth):
            o, why = one(W.run(SUB + "new", [("o", "n", d), nxt], st, Env()), "new")
            if not c.expect(o is not None, key, why or ""):
                return
            st, last = o[1], o[2]
            nxt = ("a", 1, (("box", last),))
        p = ref(st, last)
        if copy:  # a copy is a list of the same nodes
            o, why = one(W.run(CLONE, [p], st, Env()), "clone")
            if not c.expect(o is not None, key + ":clone", why or ""):
                return
            st, p = o[1], ref(o[1], o[2])

        def get(fn, p, st):
            o, why = one(W.run(SUB + fn, [p], st, Env()), fn)
            c.expect(o is not None, key + ":" + fn, why or "")
            return o and o[2], o and o[1]
        c.count("subtrees")
        s = st
        for d in range(depth - 1, -1, -1):
            for fn in ("node", "node_mut"):
                v, s2 = get(fn, p, s.fork())
                c.expect(v is not None and plain(I, s2, v) == ("o", "n", d), key + ":" + fn, lambda: "%s of list element %d is %s" % (fn, d, dom.show(v)))
            v, s2 = get("next_node", p, s.fork())
            want = (False, None) if d == 0 else (True, ("o", "n", d - 1))
            c.expect(v is not None and opt(I, s2, v) == want, key + ":next_node", lambda: "next_node of list element %d is %s" % (d, dom.show(v)[:80]))
            for fn in ("next", "next_mut"):
                v, s2 = get(fn, p, s.fork())
                x = v is not None and I.load(s2, v[1], v[2])
                c.expect(x == NONE if d == 0 else type(x) is tuple and x[:2] == ("a", 1), key + ":" + fn, lambda: "%s of list element %d is %s" % (fn, d, dom.show(x)[:80]))
            s3 = s.fork()
            v, s3 = get("take_next", p, s3)
            if v is None:
                return
            if d == 0:
                c.expect(v == NONE, key + ":take_next", lambda: "take_next at the end of the list gives %s" % dom.show(v)[:80])
                break
            ok = type(v) is tuple and v[:2] == ("a", 1) and type(v[2][0]) is tuple and v[2][0][0] == "box"
            if not c.expect(ok, key + ":take_next", lambda: "take_next gives %s" % dom.show(v)[:80]):
                return
            v2, _ = get("take_next", p, s3.fork())
            c.expect(v2 == NONE, key + ":taken", "what take_next has taken is still there")
            n2, s4 = get("node", p, s3.fork())
            c.expect(n2 is not None and plain(I, s4, n2) == ("o", "n", d), key + ":kept", "take_next changes the element's own node")
            s, p = s3, ref(s3, v[2][0][1])


def chunk_rule(c, W, items):
    for ops, eqs in items:
        c.guard("map:%s" % "".join("%s%d" % o for o in ops), map_rule, c, W, ops, eqs)
