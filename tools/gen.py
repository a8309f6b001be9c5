#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BM, BH, BN, BP, BI = "src/binary/merkle_tree.rs", "src/binary/hash.rs", "src/binary/node.rs", "src/binary/primitive.rs", "src/binary/in_memory.rs"
SM, SH, SN, SP, SI = "src/sparse/merkle_tree.rs", "src/sparse/hash.rs", "src/sparse/node.rs", "src/sparse/primitive.rs", "src/sparse/in_memory.rs"
UM, UH, UN = "src/sum/merkle_tree.rs", "src/sum/hash.rs", "src/sum/node.rs"
POS, PIT, PPA, MSB, PATH, PRE, MAP, SUB = ("src/common/%s.rs" % n for n in ("position", "path_iterator", "position_path", "msb", "path", "prefix", "storage_map", "subtree"))
STO = "src/storage.rs"


def P(id, title, statement, over, text, why, mech, technique, note, state=None):
    files = sorted({w.split(":")[0] for _, w in mech})
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, "technique": technique, "note": note}


AI = "abstract interpretation of the compiled MIR with symbolic bytes"
TRUST = " Trusts rustc's MIR, the library models in lib/models.py, and SHA-256 as an ideal hash."

PROPS = [
P("C01", "Binary tree hashes leaves, nodes and the empty tree in the RFC 6962 format",
  "In the binary tree, every leaf hash is SHA-256 of the byte 0x00 followed by the leaf's data, every inner hash is SHA-256 of the byte 0x01 followed by the left and the right child's hash in that order, and the root of a tree without leaves is SHA-256 of the empty string. This holds for leaf data of any length and content, in roots, in proofs and in stored nodes alike.",
  ["inputs", "histories"], "every leaf datum (any length, any bytes) and every tree built by appends",
  "Known-answer tests fix a few data and trees of up to seven leaves; a layout that differs for another length, position or height passes them.",
  [("leaf_sum", BH + ": leaf_sum"), ("node_sum", BH + ": node_sum"), ("empty_sum", "src/common.rs: empty_sum_sha256"), ("create_leaf / create_node", BN + ": Node")],
  AI + ": hash terms compared with the specified byte layout",
  "All leaf data at once (symbolic bytes); trees grown from empty to 23 leaves, and single appends at leaf counts up to 2^61 (60 shapes in quick, all in thorough)." + TRUST),
P("C02", "Sparse tree hashes leaves, nodes and empty subtrees in its specified format",
  "In the sparse tree, a leaf's hash is SHA-256 of the byte 0x00, the 32-byte key and SHA-256 of the value; an inner node's hash is SHA-256 of the byte 0x01, the left child's and the right child's hash, in that order; an empty subtree and the empty tree are 32 zero bytes. This holds for every key and every non-empty value.",
  ["inputs", "histories"], "every 32-byte key, every value and every tree of up to a handful of leaves",
  "Known-answer tests use a few dozen keys that are themselves hashes, and short values.",
  [("leaf and node hashing", SN + ": Node::hash"), ("create_leaf / create_node", SN + ": Node"), ("sum", SH + ": sum"), ("zero_sum", SH + ": zero_sum")],
  AI + ": hash terms compared with the specified byte layout",
  "All keys and values at once; operation sequences on up to four keys, updates on paths of up to three nodes." + TRUST),
P("C03", "Sum tree hashes fees and digests in its specified format",
  "In the sum tree, a leaf's digest is SHA-256 of the byte 0x00, the fee as eight big-endian bytes and the data; an inner digest is SHA-256 of the byte 0x01, the left fee, the left digest, the right fee and the right digest, each fee as eight big-endian bytes. A tree without leaves has total 0 and the digest SHA-256 of the empty string.",
  ["inputs", "histories"], "every fee whose total fits 64 bits, every leaf datum, every tree built by appends",
  "Known-answer tests use small fees that are multiples of one another and trees of up to seven leaves; wide or unequal fees are not sampled.",
  [("leaf_sum", UH + ": leaf_sum"), ("node_sum", UH + ": node_sum"), ("create_leaf / create_node", UN + ": Node"), ("empty_sum", UH + ": empty_sum")],
  AI + ": hash terms compared with the specified byte layout",
  "Symbolic fees and data, and extreme concrete fees; appends up to 40 leaves (quick) or 255 (thorough)." + TRUST),
P("C04", "Appending to the binary tree yields the RFC 6962 root for every leaf count",
  "After any number of appends, the root of the binary tree equals the Merkle tree hash defined by RFC 6962 over the leaves in order: a tree of n leaves splits at the largest power of two smaller than n. Asking for the root at any time does not change later roots.",
  ["inputs", "histories"], "every leaf count up to 2^61 and every leaf datum",
  "Tests compare roots for at most a few dozen leaves; carries that join many complete subtrees at once, and large leaf counts, are not reached.",
  [("push", BM + ": MerkleTree::push"), ("join_all_subtrees", BM + ": MerkleTree::join_all_subtrees"), ("root over the spine", BM + ": build_root_node")],
  AI + ": one append on an abstract tree of each shape, compared with the recursive definition",
  "Append proved for one more leaf onto abstract trees of every leaf count below 40 and of 180 further shapes up to 2^61 (thorough: below 300, and 1000 further shapes); symbolic data." + TRUST),
P("C05", "Binary inclusion proofs hold the leaf and its audit path, for every leaf",
  "For every leaf of a binary tree, the proof returns the tree's root and a list that starts with the leaf's hash and continues with exactly the RFC 6962 audit path for that leaf, from the bottom up. Hence recomputing the root from the proof succeeds for every leaf of every tree, balanced or not, and asking for a proof changes nothing.",
  ["inputs", "histories"], "every leaf count and leaf index, every leaf datum",
  "Tests check proofs for 1, 4, 5 and 7 leaves and a few indices; the interplay of the spine nodes that are not stored with the stored ones is specific to each leaf count and index.",
  [("prove", BM + ": MerkleTree::prove"), ("peak and root positions", BM + ": MerkleTree::peak_positions, root_position"), ("path to a leaf", PPA + ": PositionPath")],
  AI + ": proof lists compared with the audit path as hash terms",
  "All indices of trees below 13 leaves, and selected indices of 200 further leaf counts up to 2^61 (thorough: all indices up to 72 leaves)." + TRUST),
P("C06", "A binary tree loaded from its storage continues exactly where it was left",
  "Loading a binary tree with a leaf count its storage holds yields a tree with the same root and the same proofs as the tree that was stored at that leaf count, and later appends to the loaded tree give the same roots, proofs and stored nodes as appends to the original. Loading with an earlier leaf count gives the earlier tree; loading with zero leaves gives the empty tree.",
  ["inputs", "histories"], "every history of appends and every leaf count up to the stored one",
  "Tests load one tree of seven leaves and one of zero; whether the peaks of any other leaf count are found is not sampled.",
  [("load / build", BM + ": MerkleTree::load, build"), ("peak_positions", BM + ": MerkleTree::peak_positions"), ("stored record", BP + ": From<&Node>")],
  AI + ": grow, load, grow again; compared with the definition",
  "Histories of up to 10 appends with every kind of reload (thorough: 21), plus load and append at leaf counts up to 2^61." + TRUST),
P("C07", "Binary tree reports missing nodes and bad indices as errors that name them",
  "When a node a binary tree needs is missing from storage, load and proofs fail with the load error carrying that node's storage position; a proof for an index that is not a leaf fails with the invalid-index error carrying that index, for every 64-bit index. Neither panics or hangs, the tree's root is unchanged afterwards, and a tree whose needed nodes are all present always loads.",
  ["inputs", "histories", "fault_sequences"], "every leaf count, every missing node, every 64-bit index",
  "Tests remove one node once and try two bad indices; extreme indices such as the largest 64-bit value overflowed until repaired.",
  [("index check in prove", BM + ": MerkleTree::prove"), ("missing node in load", BM + ": MerkleTree::build"), ("error type", BM + ": MerkleTreeError")],
  AI + ": the only outcome on storage with holes, or with a bad index",
  "1500 holes and 780 bad indices over leaf counts up to 2^60 (thorough: every bit length)." + TRUST),
P("C08", "Sum tree's root, total and stored nodes follow the recursive definition",
  "After any appends of leaves with fees, the sum tree's root is the total of all fees together with the digest of the tree that splits n leaves at the largest power of two smaller than n. Every stored node is found under its own digest and records its height, total, digest and its children's digests; asking for the root at any point changes no later result.",
  ["inputs", "histories"], "every sequence of fees whose total fits 64 bits, every leaf datum, every interleaving of root requests",
  "Tests check the root for up to seven leaves with simple fees and never what is stored or a root asked for between appends.",
  [("push", UM + ": MerkleTree::push"), ("join_all_subtrees / join_subtrees", UM + ": MerkleTree"), ("root", UM + ": MerkleTree::root_node"), ("create_node", UN + ": Node::create_node")],
  AI + ": append sequences compared with the recursive definition",
  "Sequences of up to 17 appends with roots asked at each step, at odd steps, or at the end, symbolic and extreme fees; single long sequences of 33 and 40 (thorough: up to 65, 129 and 255)." + TRUST),
P("C09", "Sparse update sets exactly one key: root and stored nodes follow the definition",
  "Setting a key to a non-empty value gives the root of the sparse tree in which that key holds the value and every other key is unchanged, whatever the tree held before at that key or beside it. Every node of the new path is stored under its hash with its contents, and no stored node is removed or overwritten with something else.",
  ["inputs", "histories"], "every tree, key and value: paths of any depth ending in an empty place, in the key's own leaf, or in a leaf sharing any number of bits with the key",
  "Tests use hashed keys, which part within the first few bits; long shared prefixes and deep paths never occur.",
  [("update", SM + ": MerkleTree::update"), ("update_with_path_set", SM + ": MerkleTree::update_with_path_set"), ("common_path_length", SN + ": Node::common_path_length"), ("create_node_on_path", SN + ": Node::create_node_on_path")],
  AI + ": one update along an abstract path of each depth and ending",
  "120 path shapes in quick, with depths up to 255 and every kind of ending (thorough: over 800); the rest of the tree is symbolic." + TRUST),
P("C10", "Sparse delete removes exactly one key and restores the canonical tree",
  "Deleting a present key, directly or by setting an empty value, gives the root of the tree without that key: the nearest sibling leaf moves up past empty siblings, an inner sibling stays in place, and nothing else changes. The nodes of the old path are removed from storage and all nodes of the new path are stored; deleting an absent key changes neither the root nor storage.",
  ["inputs", "histories"], "every tree and key: paths of any depth, every mix of empty, leaf and inner siblings",
  "Tests delete hashed keys from small trees; runs of empty siblings above a lone leaf, and absent keys that share a path with present ones, are rare there.",
  [("delete", SM + ": MerkleTree::delete"), ("delete_with_path_set", SM + ": MerkleTree::delete_with_path_set")],
  AI + ": one delete along an abstract path, all kinds of siblings at once",
  "Depths up to 20 with siblings of unknown kind (thorough: 40), depths up to 256 with fixed kinds; both ways of deleting." + TRUST),
P("C11", "A sparse tree loaded from its root and storage continues where it was left",
  "At every moment of any history of updates and deletes, loading a sparse tree from the storage and the current root yields a tree with that root on which every further update and delete gives the same roots as on the original. In particular the zero root loads as the empty tree, and everything reachable from the current root is in storage.",
  ["histories", "inputs"], "every history of updates and deletes with reloads anywhere between",
  "Tests load one tree once, right after five updates; a delete that drops a node still needed shows only on a later operation after a reload.",
  [("load", SM + ": MerkleTree::load"), ("insertion of path nodes", SM + ": MerkleTree::update_with_path_set, delete_with_path_set"), ("stored record", SP + ": From<&Node>")],
  AI + ": operation sequences on symbolic keys with a reload after every step",
  "103 histories of up to ten operations on up to five keys with chosen shared prefixes (thorough: over 600)." + TRUST),
P("C12", "Sparse tree reports missing or invalid stored nodes as errors that name them",
  "When a node on the path of an operation is missing from storage, the operation fails with an error naming that node's key; when a record's kind is neither leaf nor node, it fails with the error naming the offending kind. Nothing panics, the root stays as it was, storage is not written, and loading a root that is not stored fails with an error naming that root.",
  ["inputs", "fault_sequences"], "every node of a path (or beside it), missing or of any invalid kind, for load, update and delete",
  "Tests cover one missing root and one invalid record at fixed places of one tree.",
  [("load", SM + ": MerkleTree::load"), ("child lookup", SN + ": StorageNode::left_child, right_child"), ("kind check", PRE + ": TryFrom<u8>"), ("error types", SM + ": MerkleTreeError")],
  AI + ": operations on abstract storage with one bad record at each place",
  "Every node on and beside paths of up to three nodes, missing or of kind 2 or 255 (thorough: six nodes, six kinds)." + TRUST),
P("C13", "A failed storage access leaves the binary tree as it was, ready to retry",
  "When storage reports an error during an append, the append returns it, and the root and later behaviour are those of the tree before the append: appending again gives what a first successful append gives. When storage reports an error during load or a proof, that error is returned, the tree's root is unchanged, and repeating the call succeeds.",
  ["fault_sequences", "inputs"], "every leaf count and every single storage access that may fail",
  "The tests' storages never fail; the append lost the whole tree on a failed write until repaired.",
  [("push", BM + ": MerkleTree::push"), ("join_all_subtrees", BM + ": MerkleTree::join_all_subtrees"), ("prove", BM + ": MerkleTree::prove")],
  AI + " with one more abstract branch at each storage access, on which it fails",
  "3100 failing accesses over leaf counts up to 2^61 (thorough: all shapes of C04)." + TRUST),
P("C14", "A failed storage access leaves the sparse tree usable and consistent",
  "When storage reports an error during an update or a delete, the call returns that error and makes no further write; the tree's root is the old root or the fully applied new root, and every node reachable from it is in storage. Repeating the call succeeds and gives the root of the fully applied operation.",
  ["fault_sequences", "inputs"], "every path shape and every single storage access that may fail",
  "The tests' storages never fail; the order of removals and insertions, and when the new root takes effect, matter only then.",
  [("update_with_path_set", SM + ": MerkleTree::update_with_path_set"), ("delete_with_path_set", SM + ": MerkleTree::delete_with_path_set"), ("set_root_node", SM + ": MerkleTree::set_root_node")],
  AI + " with one more abstract branch at each storage access, on which it fails",
  "Paths of up to four nodes with every kind of ending (thorough: eight)." + TRUST),
P("C15", "A failed storage write leaves the sum tree as it was, ready to retry",
  "When storage reports an error during an append to the sum tree or while its root is computed, the call returns that error, and the tree still represents the leaves it had: its root and total are unchanged and appending again gives what a first successful append gives.",
  ["fault_sequences", "histories"], "every leaf count and every single storage write that may fail",
  "The tests' storages never fail; the append lost the whole tree on a failed write until repaired.",
  [("push", UM + ": MerkleTree::push"), ("join_all_subtrees", UM + ": MerkleTree::join_all_subtrees"), ("root_node", UM + ": MerkleTree::root_node")],
  AI + " with one more abstract branch at each storage access, on which it fails",
  "Trees of 0 to 17 leaves (thorough: 39), every write of the next append and of the root." + TRUST),
P("C16", "Loading, roots, proofs and rejected calls never write to storage",
  "Creating or loading a tree, asking a binary or sparse tree for its root, and proving in the binary tree never write to storage or remove from it, whatever the tree and whether or not the call succeeds. No write operation of the storage is even reachable from them.",
  ["programs", "inputs", "histories"], "every call path from a reading operation, every tree",
  "Tests look at results; a write that does not change a result goes unseen.",
  [("prove on scratch storage", BM + ": MerkleTree::prove"), ("root on scratch storage", BM + ": MerkleTree::root_node"), ("load", BM + ": MerkleTree::load"), ("sparse load", SM + ": MerkleTree::load")],
  "call-graph reachability of storage writes over the resolved MIR, plus effect logs of abstract runs",
  "The reachability result covers all inputs; the effect logs are checked on sampled shapes." + TRUST),
P("C17", "Tree positions: parent, sibling, uncle, children, height and index agree",
  "For every position of the in-order numbering of a binary tree, up to height 60: the parent of either child is the position itself, siblings are each other's sibling and share their parent, the uncle is the parent's sibling, children are one level lower on either side, and the height is the number of trailing one bits. Leaf i has index 2i and back; a leaf has height 0.",
  ["inputs"], "all positions of every height from 0 to 60",
  "Tests list positions of trees with up to 16 leaves; carries into the upper bits of 64-bit positions are not exercised.",
  [("height", POS + ": Position::height"), ("parent / sibling / uncle", POS + ": Position"), ("children", POS + ": Position::left_child, right_child, child")],
  AI + ": all positions of one height at once, bit by bit",
  "Complete for heights 0 to 61: the unknown upper bits are symbolic." + TRUST),
P("C18", "Sparse tree follows key bits from the most significant bit, at all 256 depths",
  "Two keys whose first d bits agree and whose next bit differs share exactly d inner nodes below the root and part at the next level, the key with bit 0 on the left and the one with bit 1 on the right, for every d from 0 to 255. Bits count from the most significant bit of the first byte.",
  ["inputs"], "every depth from 0 to 255 and all pairs of keys that part there",
  "Hashed test keys part within the first dozen bits; an error in a later byte or bit is never reached.",
  [("bit order", MSB + ": get_bit_at_index_from_msb, common_prefix_count"), ("instruction per bit", PATH + ": get_instruction"), ("path nodes", SN + ": create_node_on_path")],
  AI + ": two symbolic keys parting at each depth",
  "79 depths in quick (all below 34, every sixth above, byte and word boundaries), all 256 in thorough." + TRUST),
P("C19", "Stored records follow the fixed layout and survive a round trip",
  "A binary node is stored under its in-order position as the pair of position and hash; a sparse node is stored under its hash as height, kind byte (0 for a leaf, 1 for a node) and two 32-byte halves: key and value digest, or left and right hash; empty subtrees are never stored. Records of this layout are read back as the node that was stored, and a sparse record of any other kind byte is refused.",
  ["inputs", "histories"], "every stored node of every operation",
  "Tests convert four records; which height or half a node at some depth gets, or that an operation stores an empty subtree, shows elsewhere.",
  [("binary record", BP + ": From<&Node>, From<Primitive>"), ("sparse record", SP + ": From<&Node>, TryFrom<Primitive>"), ("kinds", PRE + ": Prefix")],
  AI + ": every write of an operation compared with the layout, every read decoded",
  "Writes of appends at leaf counts up to 2^61, of updates along paths of up to eight nodes, records of invalid kinds." + TRUST),
P("C20", "The provided map storage behaves as a map and reports previous values",
  "The provided storage returns for each key the value inserted last and not removed since, for any sequence of operations; insert and remove return the value the key held before, if any. Operations on one key never affect another, and reading changes nothing.",
  ["histories", "inputs"], "all sequences of insert, remove, get and contains over keys equal or different in any way",
  "Tests make single operations with one key.",
  [("StorageMap", MAP + ": StorageInspect, StorageMutate")],
  AI + ": one operation on a map of unknown contents, and operation sequences over symbolic keys",
  "Single operations for all maps (unknown contents); sequences of up to four operations over three keys (thorough: five)." + TRUST),
P("C21", "Infallible storage views pass every operation through unchanged",
  "The infallible view of a storage whose errors cannot occur performs, for each of get, insert, remove and contains, exactly that one operation on the underlying storage with the same key and value, and returns its answer unchanged.",
  ["inputs", "programs"], "every storage type, key, value and answer",
  "No test addresses the views directly; a swapped or repeated operation shows only with storages that count.",
  [("StorageInspectInfallible", STO + ": get, contains_key"), ("StorageMutateInfallible", STO + ": insert, remove")],
  AI + " on an opaque storage: the sequence of calls it receives",
  "Complete: four operations, opaque keys, values and answers." + TRUST),
P("C22", "In-memory trees behave as the storage-backed trees on an own empty storage",
  "A new in-memory binary or sparse tree is empty, and after any operations gives the same roots and proofs as the definition prescribes for the leaves it was given; deletes, empty values and overwrites are respected. A proof of an index outside the tree is refused by returning nothing, and no call panics.",
  ["histories", "inputs"], "every sequence of operations, keys and data",
  "The in-memory trees have a few known-answer tests each.",
  [("binary in-memory tree", BI + ": MerkleTree"), ("sparse in-memory tree", SI + ": MerkleTree")],
  AI + ": operation sequences on the in-memory types",
  "Up to 19 appends with all proofs; 43 sparse histories on symbolic keys (thorough: 40 appends, 65, and 200 histories)." + TRUST),
P("C23", "Path traversal over any tree yields each level's path node and its sibling",
  "Traversing from a node toward a leaf yields first the start node paired with itself, then at each level the child on the side given by the leaf's key bit for that level, paired with its sibling, and ends at a leaf or after the last key bit. A child that cannot be read is yielded as an error at its place, on either side, and ends the traversal when it lies on the path.",
  ["inputs", "programs"], "every implementation of the node interface, key width, start height, key and set of unreadable children",
  "Tests traverse two hand-made trees of 8-bit and 64-bit keys without errors.",
  [("PathIter", PIT + ": PathIter::new, next"), ("Instruction", PATH + ": Path::get_instruction")],
  AI + " over an oracle implementation of the node interface",
  "300 traversals: widths 1 to 16 and 256, every start height, leaves met early, unreadable children." + TRUST),
P("C24", "Paths in a binary tree of any leaf count list the right positions and siblings",
  "The path from the root position of a binary tree of n leaves to leaf i lists, from the root down, exactly the positions on the way to that leaf in the tree that splits at the largest power of two smaller than n, each paired with its sibling in that tree. It starts with the root paired with itself and ends with the leaf.",
  ["inputs"], "every leaf count and leaf index",
  "Tests compare paths for up to eight leaves.",
  [("PositionPathIter", PPA + ": PositionPathIter::next"), ("path", POS + ": Position::path")],
  AI + ": yielded pairs compared with the recursive shape",
  "All leaves of trees of up to 33 leaves, selected leaves up to 2^60 (thorough: up to 129 leaves and every power of two)." + TRUST),
P("C25", "The linked list of subtrees keeps its nodes in order and gives up its tail",
  "A list of subtrees holds the node it was created with and then the nodes of the list it was created before, in order; reading and modifying reach exactly that node or the next. Taking the tail returns it whole and leaves the list with its first node only; a copy of a list holds copies of all its nodes.",
  ["inputs", "histories"], "every node type and every list",
  "Tests use lists of two integers.",
  [("Subtree", SUB + ": Subtree")],
  AI + " with opaque nodes",
  "Lists of up to four opaque nodes, copies of up to 66." + TRUST),
P("C26", "The sparse root depends only on the current keys and values",
  "After any sequence of updates and deletes, the sparse tree's root equals the root of the canonical tree of the keys present and their latest values: a subtree holding one leaf is that leaf, an empty one is 32 zero bytes. Thus histories that end with the same contents give the same root, and deleting everything gives the empty root.",
  ["histories", "inputs"], "every sequence of updates and deletes on any keys and values",
  "Tests compare a few fixed orders with hashed keys; cases that need close keys and particular orders are not reached.",
  [("update", SM + ": MerkleTree::update_with_path_set"), ("delete", SM + ": MerkleTree::delete_with_path_set")],
  AI + ": operation sequences on symbolic keys of chosen tries, compared with the canonical tree",
  "243 histories of up to 12 operations on up to six keys with shared prefixes up to 24 bits (thorough: 2700); each covers all keys of that trie and all values." + TRUST),
P("C27", "The crate behaves the same without std, and without debug assertions",
  "Built without the standard library, and built with overflow checks and debug assertions off, the crate's trees, positions, paths and storage give the same roots, proofs, stored nodes and errors as in the default build.",
  ["configurations", "inputs"], "both feature sets and both build profiles, every input",
  "The tests run in one configuration only, the default one with debug assertions.",
  [("feature switch", "src/lib.rs: cfg_attr(not(feature = std))"), ("bit helpers", MSB + ": Msb"), ("map storage", MAP + ": StorageMap")],
  AI + " of the program as compiled in each configuration",
  "A selection of the rules of C04-C10, C17, C20, C22 and C24 in each of the two configurations." + TRUST),
P("C28", "Results depend only on arguments, the tree and its storage",
  "No operation depends on or leaves behind state outside the tree and its storage: there is no global or thread-local state, no environment, clock, file or random input, no memory address, and no dependence on the order of a hash map. Reading through a shared reference changes nothing in the tree.",
  ["programs", "schedules", "histories"], "every operation and call path, every thread schedule",
  "Tests run single operations in one process; hidden caches show only across trees, threads or runs.",
  [("tree types without shared state", BM + ": MerkleTree"), ("sparse tree", SM + ": MerkleTree"), ("map storage without iteration", MAP + ": StorageMap")],
  "scan of all items, field types and resolved call graphs",
  "Complete over the crate's items and the call graphs of all its functions that are not derived; foreign crates' insides are not scanned." + TRUST),
P("C29", "Operations access storage a number of times linear in the tree's height",
  "Loading, appending, proving and asking for roots in the binary tree, and updating and deleting in the sparse tree, read and write storage at most a small constant number of times per level of the tree, not per leaf: at most four reads and one write per level plus a constant in the binary tree, six reads and three writes per level plus a constant in the sparse tree.",
  ["inputs", "histories"], "every leaf count, every path depth",
  "Tests do not count accesses.",
  [("load / build", BM + ": MerkleTree::build"), ("prove", BM + ": MerkleTree::prove"), ("path_set", SM + ": MerkleTree::path_set")],
  AI + ": length of the effect log against a bound in the height",
  "Leaf counts up to 2^60, path depths up to 255 (deletes: 64)." + TRUST),
]

NA = [
P("C90", "Finding two leaf lists, or two key-value sets, with the same root is infeasible",
  "No feasible computation finds two different lists of leaves with the same root, or a proof that a leaf is in a tree that does not hold it.",
  ["inputs"], "all pairs of inputs", "It is a hardness claim about SHA-256.",
  [("hashing", BH + ": leaf_sum, node_sum"), ("hashing", SH + ": sum")], "", ""),
P("C91", "The code's SHA-256 is SHA-256",
  "The hash function used computes SHA-256 as standardised, for every input.",
  ["inputs"], "all byte strings", "Known-answer tests fix finitely many inputs.",
  [("hashing", BH + ": leaf_sum"), ("hashing", SH + ": sum")], "", ""),
P("C92", "Running time and memory stay proportional to the tree's height",
  "Each operation runs in time and memory proportional to the tree's height and the size of its data.",
  ["inputs"], "all inputs", "Tests do not measure.",
  [("append", BM + ": MerkleTree::push"), ("update", SM + ": MerkleTree::update")], "", ""),
]
REASONS = {
 "C90": "A cryptographic hardness claim: nothing in the source decides it. The structural part, that leaf and node inputs are separated and unambiguous, is decided by C01 to C03.",
 "C91": "The hash is computed by the sha2 crate outside this repository, chosen at run time by CPU features; a static argument over its compression function is a different verification task, and a run-time comparison would not be static analysis.",
 "C92": "Wall-clock time and heap use are run-time quantities of the allocator and the machine; the statically decidable part, the number of storage accesses, is C29.",
}

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "cd driver && RUSTUP_TOOLCHAIN=nightly cargo build --release --offline -q",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "technique": p["technique"], "level": "other", "level_note": p["note"],
        } for p in PROPS],
        "not_applicable": [{"property": p["id"], "reason": REASONS[p["id"]]} for p in NA],
        "notes": "Static analysis only: driver/ dumps the MIR of /repo's working tree, lib/ interprets it abstractly. No hooks in /repo. Known findings and repaired defects: known-findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
