"""The analysed program: dumped roots by path, and the storage they act on."""
import json
import os

import dom
import models
from absint import (NONE, UNIT, Interp, Prog, St, eff, eff_list, err, norm_path, ok, some)
from dom import T, Unsupported

OPQ = "opaque"


class Missing(Exception):
    """An anchor of a rule does not exist in the analysed program."""


class World:
    def __init__(self, d, label="std"):
        self.dir = d
        self.label = label
        self.idx = json.load(open(os.path.join(d, "index.json")))
        self.by = {}
        for f in self.idx["fns"]:
            f["np"] = norm_path(f["path"])
            if f.get("dump"):
                self.by.setdefault(f["np"], []).append(f)
        self._prog = {}
        self.steps = self.joins = self.forks = self.runs = 0
        self.fns = {}

    def has(self, np):
        return np in self.by

    def prog(self, np):
        p = self._prog.get(np)
        if p is None:
            c = self.by.get(np)
            if not c:
                raise Missing(np)
            p = self._prog[np] = Prog(os.path.join(self.dir, c[0]["dump"]))
        return p

    def run(self, np, args, st, env=None):
        """Outcomes of a public function on abstract arguments."""
        p = self.prog(np)
        I = Interp(p, env)
        try:
            r = I.run(st, args)
        except Unsupported as e:
            e.root = np
            raise
        finally:
            self.steps += I.steps
            self.joins += I.joins
            self.forks += I.forks
            self.runs += 1
            for i, c in I.seen_fns.items():
                q = p.raw[i]
                if q["krate"] == "fuel_merkle":
                    k = p.npath(i)
                    self.fns[k] = self.fns.get(k, 0) + c
        return [(k, s, dom.flat(v, s.facts) if k == "ret" else v) for k, s, v in r]


def cow(v):
    return ("a", 1, (v,))


ERR = ("o", "E")


class Env:
    """Storage of unknown contents, as an oracle with an effect log.

    `contents(I, st, key)` lists (state, value | None) for the initial
    contents; `rf`/`wf` make reads/writes fail on one more abstract branch.
    """

    def __init__(self, contents=None, rf=False, wf=False, oracle=None):
        self.contents = contents or (lambda I, st, k: [(st, None)])
        self.rf, self.wf = rf, wf
        self.reads = 0
        self.oracle = oracle  # answers calls of a type parameter's methods

    def storage(self, I, st, obj, name, args, dty, at):
        base = name[4:] if name.startswith("map.") else name
        is_map = name.startswith("map.")
        if not (type(obj) is tuple and obj[0] == "o" and obj[1] == "S"):
            if type(obj) is tuple and obj[0] == "p":
                obj = I.deref(st, obj)
            if not (type(obj) is tuple and obj[0] == "o" and obj[1] == "S"):
                raise Unsupported("storage access through %s" % dom.show(obj)[:40])
        wh = I.where(*at)
        outs = []
        if base in ("get", "contains_key"):
            key = I.deref(st, args[0])
            st.r = eff(st.r, ("get" if base == "get" else "has", key, wh))
            if self.rf and "fault" not in st.x and not is_map:
                s = st.fork()
                s.x["fault"] = ("r", key, wh)
                outs.append(("ret", s, err(ERR)))
            for s, v in self.find(I, st, key):
                if base == "contains_key":
                    r = 0 if v is None else 1
                elif v is None:
                    r = NONE
                elif is_map:
                    r = some(("p", s.alloc(v), ()))
                else:
                    r = some(cow(v))
                outs.append(("ret", s, r if is_map else ok(r)))
            return outs
        if base in ("insert", "remove"):
            key = args[0] if is_map and base == "insert" else I.deref(st, args[0])
            key = dom.flat(key, st.facts)
            if base == "insert":
                val = dom.flat(args[1] if is_map else I.deref(st, args[1]), st.facts)
                ev = ("insert", key, val)
            else:
                ev = ("remove", key)
            if self.wf and "fault" not in st.x and not is_map:
                s = st.fork()
                s.x["fault"] = ("w", ev, wh)
                outs.append(("ret", s, err(ERR)))
            if "fault" in st.x:
                st.x = dict(st.x)
                st.x["late"] = (ev, wh)
            n = st.w.n if st.w else 0
            st.w = eff(st.w, ev)
            # the previous value is unknown
            lit = dom.atom("had", n, key)
            r = ("vsel", lit, some(("o", "old", n)), NONE)
            outs.append(("ret", st, r if is_map else ok(r)))
            return outs
        raise Unsupported("storage operation %s" % name)

    def find(self, I, st, key):
        """Value under a key: the newest write wins."""
        e = st.w
        todo = st
        out = []
        while e is not None and todo is not None:
            ev = e.ev
            lit = models.val_eq(I, todo, ev[1], key)
            nxt = None
            for s, b in models.cases(I, todo, lit):
                if b:
                    out.append((s, ev[2] if ev[0] == "insert" else None))
                else:
                    nxt = s
            todo = nxt
            e = e.prev
        if todo is not None:
            out += self.contents(I, todo, key)
        return out


def rets(outs):
    return [(s, v) for k, s, v in outs if k == "ret"]


def panics(outs):
    return [(s, v) for k, s, v in outs if k == "panic"]


def obj(v):
    """Cell holding a value as an argument of a later call."""
    return v


def log(st):
    return eff_list(st.w)


def bytes_arg(st, name, n=None):
    """&[u8] of unknown contents."""
    t = dom.sym(name, n)
    c = st.alloc(("obs", t) if n is None else ("by", t, n))
    return ("s", c, (), 0, T("len", t, w=64) if n is None else n)


def by32(name):
    return ("by", dom.sym(name, 32), 32)


def ref(st, v):
    return ("p", st.alloc(v), ())
