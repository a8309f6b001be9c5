"""Rules on the whole program: what reading operations can reach, and hidden state."""
import glob
import json
import os
import re

from absint import norm_path

READERS = (
    "binary::merkle_tree::MerkleTree::load", "binary::merkle_tree::MerkleTree::root", "binary::merkle_tree::MerkleTree::prove",
    "sparse::merkle_tree::MerkleTree::load", "sparse::merkle_tree::MerkleTree::root",
    "binary::merkle_tree::MerkleTree::new", "sparse::merkle_tree::MerkleTree::new", "sum::merkle_tree::MerkleTree::new",
)
WRITERS = ("binary::merkle_tree::MerkleTree::push", "sparse::merkle_tree::MerkleTree::update", "sparse::merkle_tree::MerkleTree::delete")

# Where results could come from other than arguments and storage.
HIDDEN = (
    (r"^std::(env|time|fs|net|process|thread|io|os)::", "the environment"),
    (r"^std::collections::hash_map::RandomState|^std::hash::RandomState|ahash::RandomState::(new|with_seed|default)|^getrandom::|^rand(_core)?::", "randomness"),
    (r"^(core|std)::sync::|^std::sync::|^once_cell::|^lazy_static::|^spin::|^parking_lot::|(^|<)std::thread::|^core::sync::atomic", "shared state"),
    (r"^(std|core)::cell::", "interior mutability"),
    (r"^hashbrown::(hash_map::)?HashMap::<[^>]*>::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values|retain|extract_if|raw_\w+|hasher)$|^hashbrown::(map|hash_map)::(Iter|Keys|Values|Drain|IntoIter)", "the order of a hash map"),
    (r"^hashbrown::(hash_set::)?HashSet::<[^>]*>::(iter|drain|retain)$", "the order of a hash set"),
    (r"^(std|core)::intrinsics::(volatile_|atomic_)", "volatile or atomic memory"),
    (r"^<[^>]*as std::hash::BuildHasher>", "a hasher's state"),
)
CELLS = re.compile(r"(^|[<(&\[ :])(std|core|alloc)::(cell|sync)::(?!Arc\b)|\bAtomic[A-Z]|\b(Mutex|RwLock|RefCell|UnsafeCell|OnceCell|OnceLock|LazyLock|LazyCell)\b|\*(mut|const) ")


def programs(W):
    for p in sorted(glob.glob(os.path.join(W.dir, "root*.json"))):
        yield p, json.load(open(p))


def calls(inst):
    for b in (inst.get("body") or {}).get("blocks", ()):
        t = b["t"]
        if t and t[0] == "call":
            yield t[1], b.get("l")


def name_of(insts, i):
    return "%s (%s:%s)" % (insts[i]["path"], insts[i].get("file"), insts[i].get("line"))


def path_to(insts, target):
    """Call chain from the root to an instance."""
    prev = {0: None}
    todo = [0]
    while todo:
        i = todo.pop(0)
        if i == target:
            out = []
            while i is not None:
                out.append(insts[i]["path"].split("::")[-1])
                i = prev[i]
            return " -> ".join(out[::-1])
        for cal, _ in calls(insts[i]) if insts[i] else ():
            n = cal.get("n") if isinstance(cal, dict) else None
            if n is not None and n not in prev:
                prev[n] = i
                todo.append(n)
    return insts[target]["path"]


def writers_of(insts):
    """Instances that call a write of storage whose type is a parameter."""
    for i, q in enumerate(insts):
        if not q:
            continue
        for cal, _ in calls(q):
            if isinstance(cal, dict) and cal.get("unres") and (cal.get("trait", "").split("<")[0].split("::")[-1] in ("StorageMutate", "StorageMutateInfallible", "StorageWrite")):
                yield i, cal.get("name")


def readonly_rule(c, W):
    """No storage write is reachable in the call graph of a reading operation."""
    by = {f["np"]: f for f in W.idx["fns"] if f.get("dump")}
    for r in READERS:
        f = by.get(r)
        if not c.expect(f is not None, "reader:" + r, "the operation %s does not exist" % r):
            continue
        insts = json.load(open(os.path.join(W.dir, f["dump"])))["insts"]
        c.count("reader_graphs")
        c.count("reader_functions", sum(1 for q in insts if q))
        for i, nm in writers_of(insts):
            c.expect(False, "reader:%s:%s" % (r, nm), "%s reaches a storage %s: %s" % (r, nm, path_to(insts, i)))
    for r in WRITERS:  # the rule sees the writes it looks for
        f = by.get(r)
        if c.expect(f is not None, "writer:" + r, "the operation %s does not exist" % r):
            insts = json.load(open(os.path.join(W.dir, f["dump"])))["insts"]
            n = sum(1 for _ in writers_of(insts))
            c.count("write_sites", n)
            c.expect(n > 0, "writer:%s:none" % r, "no storage write is reachable from %s" % r)


def hidden_rule(c, W):
    """No static state, no environment, no randomness, no map order."""
    for it in W.idx["items"]:
        c.count("items")
        if it["kind"].startswith("Static"):
            c.count("statics")
            c.expect(not it.get("mut") and not it.get("tls") and it.get("freeze", True), "static:" + it["path"],
                     "%s:%s: the static %s: %s can change between calls" % (it["file"], it["line"], it["path"], it.get("ty")))
        for v, n, t, _ in it.get("fields", ()):
            c.count("fields")
            c.expect(not CELLS.search(t), "field:%s.%s" % (it["path"], n), "%s:%s: field %s of %s has type %s, which changes behind shared references" % (it["file"], it["line"], n, it["path"], t))
    seen = set()
    for p, d in programs(W):
        c.count("call_graphs")
        for i, q in enumerate(d["insts"]):
            if not q:
                continue
            if q["krate"] == "fuel_merkle":
                c.count("functions")
            names = {q["path"]} | {cal.get("decl", "") for cal, _ in calls(q) if isinstance(cal, dict)} if q["krate"] == "fuel_merkle" else {q["path"]}
            # what a foreign function does inside is its own business
            for nm in names:
                for rx, why in HIDDEN:
                    if re.search(rx, nm):
                        key = "call:%s:%s" % (why, norm_path(nm))
                        if key not in seen and direct(d["insts"], i, q):
                            seen.add(key)
                            c.expect(False, key, "%s depends on %s: %s is reached by %s" % (d["insts"][0]["path"], why, nm, path_to(d["insts"], i)))
            if q["krate"] == "fuel_merkle":
                s = json.dumps(q.get("body"))
                if "PointerExposeProvenance" in s or "PointerExposeAddress" in s:
                    c.expect(False, "address:" + norm_path(q["path"]), "%s turns an address into a number" % name_of(d["insts"], i))
                c.count("obligations")
                c.count("discharged")


def direct(insts, i, q):
    """Whether the crate's own code calls the instance."""
    if q["krate"] == "fuel_merkle":
        return True
    return any(o and o["krate"] == "fuel_merkle" and any(isinstance(cal, dict) and cal.get("n") == i for cal, _ in calls(o)) for o in insts)
