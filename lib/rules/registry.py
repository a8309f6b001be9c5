"""Which rules decide which property, on which instances, and the counts they must reach."""
from . import binary as b
from . import common as k
from . import cost, memory, store, structure
from . import sparse as s
from . import sumtree as m

SEQ = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 23)


def part(c, items, n):
    """About n of the items, spread evenly; all of them when thorough."""
    items = list(items)
    if c.thorough or len(items) <= n:
        return items
    step = len(items) / n
    return [items[int((i + (c.seed % 7) / 7) * step) % len(items)] for i in range(n)]


def mixed(items, n=24):
    """Some small instances first, then from the largest down."""
    items = list(items)
    small = items[::max(1, len(items) // n)][:n]
    return small[:8] + [i for i in reversed(items) if i not in small[:8]]


def seqs(c):
    return [(n,) for n in (SEQ if not c.thorough else range(41))][::-1]


def small_updates(c):
    return [i for i in s.shapes_update(c) if i[0] <= 3]


def c01(c):
    c.pmap(b.sequence_rule, seqs(c))
    c.pmap(b.push_rule, part(c, b.leaf_counts(c), 60))
    c.floor("sequences", 14)
    c.floor("push_shapes", 55)


def c02(c):
    c.pmap(s.history_rule, part(c, s.histories(c), 30))
    c.pmap(s.update_rule, small_updates(c)[::-1])
    s.load_rule(c, c.world())
    c.floor("histories", 25)
    c.floor("update_shapes", 20)


def c03(c):
    c.pmap(m.sequence_rule, m.sequences(c))
    c.floor("sequences", 60)


def c04(c):
    c.pmap(b.push_rule, b.leaf_counts(c))
    c.pmap(b.sequence_rule, seqs(c))
    c.floor("push_shapes", 200)
    c.floor("sequences", 14)


def c05(c):
    its = [(n, i) for n in b.leaf_counts(c) for i in b.leaf_indices(c, n)]
    c.pmap(b.proof_rule, its)
    c.pmap(b.sequence_rule, part(c, seqs(c), 8))
    c.floor("proofs", 2000)


def c06(c):
    c.pmap(b.reload_rule, b.reloads(c))
    c.pmap(b.push_rule, b.leaf_counts(c))
    c.floor("reloads", 50)
    c.floor("push_shapes", 200)


def c07(c):
    c.pmap(b.hole_rule, b.hole_items(c))
    c.pmap(b.prove_hole_rule, b.prove_hole_items(c))
    c.pmap(b.index_rule, b.index_items(c))
    c.floor("holes", 700)
    c.floor("indices", 400)


def c08(c):
    c.pmap(m.sequence_rule, m.sequences(c))
    c.floor("sequences", 60)
    c.floor("roots", 300)


def c09(c):
    c.pmap(s.update_rule, mixed(s.shapes_update(c)))
    c.floor("update_shapes", 80)


def c10(c):
    its = s.shapes_delete(c)
    c.pmap(s.delete_rule, mixed(its))
    c.pmap(s.delete_rule, [(kk, t, sd, "update") for kk, t, sd in its if kk <= 5])
    c.floor("delete_shapes", 130)
    c.floor("delete_outcomes", 300)


def c11(c):
    c.pmap(s.history_rule, [i + (True,) for i in s.deep_histories(c) + s.histories(c)])
    c.pmap(s.history_rule, [i + (True,) for i in s.random_histories(c, 60 if not c.thorough else 500, 5, 10, salt=1)])
    c.floor("histories", 105)


def c12(c):
    s.load_rule(c, c.world())
    c.pmap(s.hole_rule, mixed(s.holes(c)))
    c.floor("holes", 250)


def c13(c):
    c.pmap(b.fault_rule, part(c, b.fault_items(c), 120))
    c.pmap(b.read_fault_rule, part(c, b.read_fault_items(c), 70))
    c.floor("faults", 500)


def c14(c):
    c.pmap(s.fault_rule, mixed(s.fault_shapes(c)))
    c.floor("faults_read", 50)
    c.floor("faults_insert", 50)


def c15(c):
    c.pmap(m.fault_rule, [(n,) for n in range(18 if not c.thorough else 40)])
    c.floor("faults_push", 20)


def c16(c):
    structure.readonly_rule(c, c.world())
    c.floor("reader_graphs", 8)
    c.pmap(b.proof_rule, part(c, [(n, i) for n in b.leaf_counts(c) for i in list(b.leaf_indices(c, n))[::5]], 100))
    c.pmap(b.index_rule, part(c, b.index_items(c), 60))
    s.load_rule(c, c.world())
    c.pmap(s.history_rule, part(c, s.histories(c), 16))


def c17(c):
    c.pmap(k.position_rule, [(h,) for h in range(62)])
    c.floor("position_shapes", 62)


def c18(c):
    c.pmap(s.history_rule, s.split_histories(c))
    c.floor("histories", 256)


def c19(c):
    c.pmap(b.push_rule, part(c, b.leaf_counts(c), 100))
    c.pmap(b.reload_rule, part(c, b.reloads(c), 30))
    c.pmap(s.update_rule, [i for i in s.shapes_update(c) if i[0] <= 8][::-1])
    c.pmap(s.delete_rule, [i for i in s.shapes_delete(c) if i[0] <= 5][::-1])
    c.pmap(s.hole_rule, [i for i in s.holes(c) if i[3] != "missing"][::-1])
    c.pmap(m.sequence_rule, [i for i in m.sequences(c) if i[0] <= 9])
    c.floor("push_shapes", 90)
    c.floor("update_shapes", 40)
    c.floor("holes", 100)


def c20(c):
    W = c.world()
    c.guard("step", store.step_rule, c, W)
    its = store.map_sequences(c)
    c.pmap(store.chunk_rule, [(its[i::40],) for i in range(40)])
    c.floor("map_steps", 4)
    c.floor("map_sequences", 900)


def c21(c):
    c.guard("adapter", store.adapter_rule, c, c.world())
    c.floor("adapters", 4)


def c22(c):
    c.pmap(memory.binary_rule, memory.binary_items(c)[::-1])
    c.pmap(memory.sparse_rule, memory.sparse_items(c)[::-1])
    c.floor("memory_binary", 20)
    c.floor("memory_sparse", 40)


def c23(c):
    c.pmap(k.iter_rule, k.iter_items(c))
    c.floor("traversals", 200)


def c24(c):
    c.pmap(k.path_rule, k.path_items(c))
    c.floor("paths", 1900)


def c25(c):
    c.guard("subtree", store.subtree_rule, c, c.world())
    c.floor("subtrees", 8)


def c26(c):
    c.pmap(s.history_rule, s.deep_histories(c))
    c.pmap(s.history_rule, s.histories(c)[::-1])
    c.pmap(s.history_rule, s.random_histories(c, 200 if not c.thorough else 2500, 6, 12)[::-1])
    c.floor("histories", 230)


def c27(c):
    n = 0
    for label in ("nostd", "release"):
        W = c.variant(label)
        if W is None:
            continue
        n += 1
        c.pmap(b.push_rule, part(c, b.leaf_counts(c), 60), label)
        c.pmap(b.proof_rule, part(c, [(n, i) for n in b.leaf_counts(c) for i in list(b.leaf_indices(c, n))[::4]], 90), label)
        c.pmap(b.index_rule, part(c, b.index_items(c), 80), label)
        c.pmap(b.hole_rule, part(c, b.hole_items(c), 60), label)
        c.pmap(s.update_rule, [i for i in s.shapes_update(c) if i[0] <= 6][::-1], label)
        c.pmap(s.delete_rule, [i for i in s.shapes_delete(c) if i[0] <= 5][::-1], label)
        c.pmap(s.history_rule, part(c, s.histories(c), 16), label)
        c.pmap(m.sequence_rule, [i for i in m.sequences(c) if i[0] <= 11], label)
        c.pmap(k.position_rule, [(h,) for h in range(62)], label)
        c.pmap(k.path_rule, part(c, k.path_items(c), 150), label)
        c.guard("step:" + label, store.step_rule, c, W)
        c.pmap(memory.binary_rule, part(c, memory.binary_items(c), 8), label)
        c.pmap(memory.sparse_rule, part(c, memory.sparse_items(c), 8), label)
    c.floor("push_shapes", 55 * n)
    c.floor("update_shapes", 30 * n)
    c.floor("position_shapes", 62 * n)


def c28(c):
    n = 0
    for label in ("std", "nostd"):
        W = c.variant(label)
        if W is not None:
            n += 1
            structure.hidden_rule(c, W)
    c.floor("functions", 700 * n)
    c.floor("items", 220 * n)


def c29(c):
    c.pmap(cost.binary_rule, cost.binary_items(c))
    c.pmap(cost.sparse_rule, cost.sparse_items(c))
    c.floor("cost_bounds", 1100)


AI = "abstract interpretation of the crate's MIR; "
RULES = {}
for _id, _fn, _ex in (
    ("C01", c01, "every append on symbolic leaf data: stored hashes and roots equal the specified byte layouts"),
    ("C02", c02, "updates and deletes on symbolic keys and data: stored hashes and roots equal the specified byte layouts"),
    ("C03", c03, "appends on symbolic fees and data: stored digests and roots equal the specified byte layouts"),
    ("C04", c04, "append to an abstract tree of n leaves and append sequences from empty; each root compared with the recursive definition as hash terms"),
    ("C05", c05, "proof of leaf i of an abstract tree of n leaves; the root and every entry compared with the audit path as hash terms"),
    ("C06", c06, "append, load with an earlier or the same leaf count, append again; roots, stored nodes and proofs compared with the definition"),
    ("C07", c07, "load and proofs with stored nodes missing, proofs of indices out of range; the only outcome is the error that names them"),
    ("C08", c08, "append sequences on symbolic and extreme fees; root, total and every stored node compared with the recursive definition"),
    ("C09", c09, "update along abstract paths of every depth and terminal; root and stored nodes compared with the definition on every outcome"),
    ("C10", c10, "delete along abstract paths with siblings of unknown kind; root, stored and removed nodes compared with the definition on every outcome"),
    ("C11", c11, "operation sequences on symbolic keys, the tree loaded again from its storage and root between operations"),
    ("C12", c12, "operations on abstract storage with one record missing or of invalid kind, at every place of the path"),
    ("C13", c13, "storage fails on one more abstract branch at every read and write; the tree's later answers compared with an untouched tree"),
    ("C14", c14, "storage fails on one more abstract branch at every read and write; root, reachable nodes and a retry compared with the definition"),
    ("C15", c15, "storage fails on one more abstract branch at every write; root and a retry compared with the definition"),
    ("C16", c16, "call-graph reachability of storage writes from reading operations, and the effect log of abstract runs"),
    ("C17", c17, "each operation on all positions of one height at once, the remaining bits unknown; results compared bit by bit"),
    ("C18", c18, "two symbolic keys parting at each depth: root and stored nodes compared with the definition"),
    ("C19", c19, "each stored record compared with the layout; records of unknown kind are refused"),
    ("C20", c20, "operations on maps over symbolic keys in every partition of equality, compared with a specification map"),
    ("C21", c21, "each adapter on an opaque storage: one call of the same operation with the same arguments, its answer returned"),
    ("C22", c22, "operation sequences on the in-memory trees, roots and proofs compared with the definition"),
    ("C23", c23, "traversals over an oracle tree with opaque nodes: yielded pairs compared with the definition"),
    ("C24", c24, "paths of leaf i of n: yielded pairs compared with the recursive tree shape"),
    ("C25", c25, "operations on lists of opaque nodes compared with a specification list"),
    ("C26", c26, "operation sequences over symbolic keys: the root equals the canonical tree of the remaining leaves"),
    ("C27", c27, "the rules of C04-C10, C17, C20, C22 on the program as compiled without the standard library, and without debug assertions"),
    ("C28", c28, "scan of all items, fields and call graphs for state outside arguments and storage"),
    ("C29", c29, "counts of the storage accesses in the effect log of each abstract run against a bound in the height"),
):
    RULES[_id] = (_fn, "other", (AI if _id != "C28" else "") + _ex)
