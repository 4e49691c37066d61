#!/usr/bin/env python3
"""Writes properties.jsonl. The properties are edited here."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

WM = [("oldMaxNodeId", "nodes with a larger id were created by this transaction alone", "txn.go Txn"),
      ("maxNodeId", "largest id used by any node of the tree", "tree.go RadixTree")]
p("C01", "A published tree never changes",
  "Once a tree has been obtained from the constructor, a tree-level insert, delete or prefix delete, a tree clone, or a transaction commit, no later operation on any tree or transaction changes the keys, values, order or length it reports.",
  ["histories", "inputs"], "every history of operations on any number of trees and transactions, every key set and node layout",
  "A leak needs a particular interleaving of commits and further writes over a particular node layout; the tests keep few old trees and compare them after few writes.",
  ["txn.go", "helpers.go", "tree.go", "node_4.go", "node_16.go", "node_48.go", "node_256.go", "node_leaf.go"],
  [("copy before write, guarded by the id watermark", "txn.go writeNode"), ("clone of each layout", "node_*.go clone"),
   ("watermark raised when nodes become shared", "txn.go CommitOnly, Clone")], WM, ["any reader of an older tree"])
p("C02", "Transactions and their clones are isolated from each other",
  "Writes made in a transaction are never visible in the tree it was started from, in another transaction started from that tree, in a clone taken earlier, or in the transaction it was cloned from.",
  ["histories", "inputs"], "every history of transactions, clones, writes and commits",
  "Isolation fails only for writes to nodes created before the clone or commit and modified after it; the tests clone once and write little.",
  ["txn.go", "tree.go", "helpers.go"],
  [("fresh tree header and watermark per transaction", "txn.go RadixTree.Txn, Txn.Clone"), ("copy before write", "txn.go writeNode")], WM, ["Get and iteration on the base tree and the clones"])
p("C03", "Byte slices passed by callers are neither modified nor kept",
  "No operation modifies the bytes or the spare capacity of a key, prefix or path slice passed to it. Changing such a slice after the call returns never changes what any tree, transaction or iterator reports later.",
  ["inputs", "histories"], "every operation taking a byte slice, every slice length and capacity, every later change by the caller",
  "The tests pass freshly converted strings, so aliasing with caller memory cannot show.",
  ["helpers.go", "txn.go", "tree.go", "iterator.go", "lower_bound_iterator.go", "reverse_iterator.go", "path_iter.go", "node_leaf.go"],
  [("key copied on entry", "helpers.go getTreeKey")])
p("C04", "Keys handed out can be appended to without harm",
  "Appending to a key slice obtained from a lookup, an iterator or a walk never changes any key stored in a tree, and never changes the result of another such append to the same key.",
  ["inputs", "histories"], "every key handed out by every query, every append",
  "The tests never append to a returned key; the damage needs spare capacity behind the stored key.",
  ["helpers.go", "tree.go", "iterator.go", "lower_bound_iterator.go", "reverse_iterator.go", "path_iter.go"],
  [("capacity clipped on the way out", "helpers.go getKey")])
p("C05", "Reading a tree writes no memory that other goroutines can see",
  "Lookups, iteration, walks, length, minimum and maximum, starting a transaction and cloning a tree never modify a tree or its nodes, apart from atomically installing a missing watch channel. So any number of goroutines may read a tree without synchronisation.",
  ["schedules", "inputs"], "all interleavings of readers, all trees and queries",
  "The tests do not run readers concurrently under the race detector, and a race needs a specific schedule to show.",
  ["tree.go", "iterator.go", "lower_bound_iterator.go", "reverse_iterator.go", "path_iter.go", "node_4.go", "node_16.go", "node_48.go", "node_256.go", "node_leaf.go", "helpers.go"],
  [("read-only traversal", "tree.go iterativeSearch and the iterators"), ("atomic pointer for the watch channel", "node_*.go getMutateCh")])
p("C06", "All watchers of an entry share one channel that is never swapped",
  "Concurrent first requests for the watch channel of the same place in a tree all receive the same channel. A channel handed out for a published tree is never replaced by another one in that tree.",
  ["schedules", "histories"], "all interleavings of first watchers, all later operations",
  "Losing the race to install a channel needs a schedule that no test forces.",
  ["node_4.go", "node_16.go", "node_48.go", "node_256.go", "node_leaf.go", "txn.go"],
  [("compare-and-swap from empty", "node_*.go getMutateCh"), ("channel refreshed only on owned nodes", "txn.go trackChannel")])
p("C07", "Watch channels are closed only by notifying a tracking transaction",
  "A watch channel is closed only when a transaction with mutation tracking turned on is committed or asked to notify, and never by reading, by uncommitted writes or by committing without notification. A channel that is already closed is never closed again.",
  ["histories", "inputs"], "every history of writes, aborted transactions, commits and notifications",
  "A premature or double close needs a node that is touched twice, or a transaction that is dropped; the tests commit every tracked transaction once.",
  ["txn.go"], [("single closing loop with a closed test", "txn.go slowNotify"), ("tracking switch", "txn.go Notify, Commit, trackChannel")],
  [("trackChnSlice", "channels to close on notify", "txn.go Txn")])
p("C08", "Every node replaced by a tracking transaction has its channel recorded",
  "When mutation tracking is on and a write replaces or removes a part of the tree that a watcher may hold a channel for, that channel is among those closed by the notification.",
  ["histories", "inputs"], "every write, every node layout and shape change, every watcher",
  "Each insert, split, growth, shrink, merge and removal path has to record its nodes; the tests watch a handful of shapes.",
  ["txn.go", "helpers.go"], [("trackChannel before writeNode", "txn.go recursiveInsert, recursiveDelete"), ("tracking in growth and shrinking", "helpers.go addChild*, removeChild*")])
p("C09", "No operation waits, spins or starts goroutines",
  "No operation of the library waits for another goroutine: it takes no lock, performs no blocking channel operation, sleeps nowhere and starts no goroutine.",
  ["schedules", "inputs"], "all schedules, all inputs",
  "A wait that is rarely reached passes any finite set of runs.",
  ["txn.go", "tree.go", "node_4.go", "helpers.go"], [("non-blocking select", "txn.go isClosed"), ("atomics instead of locks", "node_*.go getMutateCh")])
p("C10", "Results depend only on the operations performed",
  "The result of an operation depends only on the tree it is applied to and its arguments: not on other trees, earlier unrelated calls, time, randomness, the environment or map iteration order.",
  ["histories", "inputs", "schedules"], "all programs using the library",
  "Hidden shared state shows only in combinations of trees that no test builds.",
  ["tree.go", "txn.go", "helpers.go", "iterator.go"], [("no package state", "whole package")])
p("C11", "A lookup hit is for exactly the requested key",
  "A lookup, with or without watch, reports a key as found only when an entry with exactly that key is stored, and then returns that entry's value and that entry's watch channel.",
  ["inputs", "histories"], "all trees, all lookup keys",
  "Wrong hits need keys that share long prefixes or stop inside a node; the tests look up keys they stored.",
  ["tree.go", "helpers.go"], [("full key comparison before every hit", "tree.go iterativeSearch, iterativeSearchWithWatch"), ("key equality", "helpers.go leafMatches")])
p("C12", "Prefix iteration yields only keys that start with the prefix",
  "After seeking to a prefix, a forward or reverse iterator yields only keys that start with that prefix.",
  ["inputs", "histories"], "all trees, all prefixes",
  "The seek may stop at a node whose subtree is wider than the prefix; only some shapes get there.",
  ["iterator.go", "reverse_iterator.go", "node_leaf.go", "helpers.go"], [("prefix test on every yield", "iterator.go Next, reverse_iterator.go Previous"), ("prefix remembered by the seek", "iterator.go SeekPrefix")])
p("C13", "Bounded iteration yields only keys on the right side of the bound",
  "After seeking to a lower bound, iteration yields only keys greater than or equal to it. After seeking to a reverse lower bound, reverse iteration yields only keys less than or equal to it.",
  ["inputs", "histories"], "all trees, all bounds",
  "Whether the seek pushes a subtree that straddles the bound depends on shapes that random tests rarely build.",
  ["lower_bound_iterator.go", "reverse_iterator.go"], [("comparison on every yield", "lower_bound_iterator.go Next, reverse_iterator.go Previous")])
p("C14", "Longest-prefix and path queries yield only prefixes of the query",
  "A longest-prefix query returns only a stored key that is a prefix of the query, and a path iterator yields only keys that are prefixes of the path.",
  ["inputs", "histories"], "all trees, all queries",
  "A wrong candidate needs a compressed prefix longer than the part kept in the node.",
  ["tree.go", "path_iter.go", "node_leaf.go"], [("prefix test before a candidate is accepted", "tree.go LongestPrefix, node_leaf.go prefixContainsMatch")])
p("C15", "A key and a value returned together belong to the same entry",
  "Whenever an iterator, a walk or a longest-prefix query returns a key and a value, both come from the same stored entry, and the key is that entry's complete key.",
  ["inputs", "histories"], "all trees, all queries, all node layouts",
  "Mixing a node's own entry with its child's needs a specific nesting of keys in each of five layouts.",
  ["iterator.go", "lower_bound_iterator.go", "reverse_iterator.go", "path_iter.go", "tree.go"], [("key and value read from one leaf", "the Next and Previous methods, tree.go recursiveWalk")])
p("C16", "Length and result flags agree with what a write did",
  "An insert reports a replacement, with the replaced value, exactly when it overwrote the value of an existing key, and otherwise raises the length by one. A delete reports success, with the removed value, exactly when it removed an entry, and then lowers the length by one; a committed tree reports the length of its transaction.",
  ["inputs", "histories"], "all write paths through all node shapes",
  "Overwriting or deleting a key held by an inner node takes other paths than the ones most tests reach.",
  ["txn.go", "tree.go"], [("old flag set where a key matched", "txn.go recursiveInsert"), ("length adjusted where an entry was found", "txn.go Insert, Delete")])
p("C17", "A write that changes nothing leaves the tree as it was",
  "Deleting a key that is not stored changes no node of the tree and loses no entry, and every subtree dropped by a successful delete holds no other entry.",
  ["inputs", "histories"], "all trees, all absent or present keys",
  "The path that ends at a mismatch or at a missing child returns to every ancestor; the tests mostly delete keys that exist.",
  ["txn.go", "helpers.go"], [("node returned unchanged on a miss", "txn.go recursiveDelete"), ("emptiness test before dropping", "txn.go recursiveDelete")])
p("C18", "An insert always links the new entry and keeps the old ones",
  "After an insert, the tree contains an entry with exactly the given key and value on every path through the insertion code, and the subtree that was at the insertion point is still part of the tree.",
  ["inputs", "histories"], "all insertion paths: empty tree, leaf split, prefix split, new child, new inner entry, overwrite, growth of each layout",
  "Some paths are reached only by keys that end inside a compressed prefix or at a node boundary.",
  ["txn.go", "helpers.go"], [("link on every path", "txn.go recursiveInsert"), ("growth copies everything", "helpers.go addChild*")])
p("C19", "Adding, removing and copying children keeps all the others",
  "Adding a child to a node, removing one and copying a node keep the node's own entry, its compressed prefix and every other child under its key byte, in every layout and through every change of layout. A look-up by a byte finds the child stored for it and nothing else, and a node that is replaced by its last child passes its prefix and that child's byte on to it.",
  ["inputs", "histories"], "all fill levels of all layouts, including both ends of every capacity range",
  "Each conversion is reached only at an exact child count; most tests never shrink the large layouts.",
  ["helpers.go", "node_4.go", "node_16.go", "node_48.go", "node_256.go"], [("conversion loops", "helpers.go addChild*, removeChild*"), ("clone", "node_*.go clone")])
p("C20", "Descents consume exactly the compressed prefix and one branching byte",
  "Every operation that walks down towards a key chooses the child stored for the key byte that follows the part consumed so far, and then has consumed exactly the node's complete compressed prefix and that one byte. So all operations agree on where a key lives.",
  ["inputs", "histories"], "all descents, all prefix lengths including those longer than the part kept in the node",
  "A wrong step needs a compressed prefix longer than the kept part, which few tests build.",
  ["tree.go", "txn.go", "iterator.go", "lower_bound_iterator.go", "reverse_iterator.go"], [("depth bookkeeping", "all descent loops and recursions")])
p("C21", "Full traversals reach every child of every layout in key order",
  "Iterators and walks that traverse a whole subtree visit the node's own entry and every child exactly once, in ascending key order forwards and descending order backwards, for each of the node layouts. A walk ends early exactly when the function it calls asks for it.",
  ["inputs", "histories"], "all layouts and fill levels",
  "The large layouts hold children in insertion order behind an index; tests with few children per node cannot tell.",
  ["iterator.go", "lower_bound_iterator.go", "reverse_iterator.go", "path_iter.go", "tree.go"], [("push loops per layout", "Next and Previous"), ("walk loop", "tree.go recursiveWalk, DFSNode")])
p("C22", "No operation indexes outside a key or a node",
  "No key, prefix or bound of any length makes an operation index a key outside its length or a node outside its slots.",
  ["inputs", "histories"], "all keys including empty ones and proper prefixes of stored keys, all trees",
  "Running out of key inside a descent needs a query that ends exactly at a node boundary.",
  ["tree.go", "txn.go", "helpers.go", "iterator.go", "lower_bound_iterator.go", "reverse_iterator.go"], [("length test before indexing", "all descents")])
p("C23", "Every operation terminates",
  "No operation runs for ever: every round of every loop and every recursive call brings the operation closer to its end, on every tree and for every key.",
  ["inputs", "histories"], "all trees and inputs",
  "A round without progress needs a tree shape or key on which the loop does not leave; a test that never meets it passes.",
  ["tree.go", "txn.go", "helpers.go", "iterator.go", "lower_bound_iterator.go", "reverse_iterator.go", "path_iter.go"], [("descending loops", "iterativeSearch, LongestPrefix, SeekPrefix, SeekLowerBound"), ("popping loops", "Next, Previous"), ("recursions", "recursiveInsert, recursiveDelete, minimum, maximum, recursiveWalk")])
p("C24", "A stored key is always found again",
  "A lookup, insert or delete treats a key as absent only where the tree cannot hold it: where the compressed prefix differs from the key, no child exists for the next byte, or the key ends at a node without that entry. So a stored key is found again, whatever other keys were inserted and deleted before.",
  ["inputs", "histories"], "all histories, all key shapes", "Unbounded histories and key shapes; a wrong miss needs a key that ends or differs at a particular place of a long compressed prefix.",
  ["tree.go", "txn.go", "helpers.go"], [("search", "tree.go iterativeSearch, iterativeSearchWithWatch"), ("prefix comparison", "helpers.go checkPrefix, prefixMismatch")])
p("C25", "Iteration misses no key within its bound or prefix",
  "After seeking to a bound or prefix, iteration yields every stored key that satisfies it. An iterator that was not seeked yields every stored key. A path iterator yields every stored key that is a prefix of its path.",
  ["inputs", "histories"], "all trees, bounds and prefixes", "A key is missed only for particular shapes of the tree around the bound; trees, keys and bounds are unbounded.",
  ["iterator.go", "lower_bound_iterator.go", "reverse_iterator.go", "path_iter.go"], [("seeks", "SeekPrefix, SeekLowerBound, SeekReverseLowerBound"), ("yields", "Next, Previous"), ("new iterators", "Iterator, LowerBoundIterator, ReverseIterator, PathIterator")])
p("C26", "Minimum and maximum are the smallest and the largest stored key",
  "The minimum query returns the stored key that is smallest in byte order together with its value, and the maximum query the largest. Both report nothing only when no key is stored.",
  ["inputs", "histories"], "all trees", "The answer depends on the layout and fill of every node on the way; each layout has its own code for its first and last child.",
  ["helpers.go", "node.go", "tree.go"], [("queries", "Minimum, Maximum"), ("descents", "minimum, maximum")])
p("C27", "Longest-prefix queries return the longest stored prefix",
  "A longest-prefix query returns the longest stored key that is a prefix of the given key. It reports nothing only when no stored key is a prefix of it.",
  ["inputs", "histories"], "all trees and keys", "A longer match is missed only where it ends at particular places of a node's prefix; trees and keys are unbounded.",
  ["tree.go"], [("query", "LongestPrefix")])
p("C28", "A prefix delete removes exactly the keys with that prefix",
  "A prefix delete removes every stored key that starts with the prefix and no other key. It reports whether it removed any.",
  ["inputs", "histories"], "all trees and prefixes", "Keys are missed or lost only for particular shapes of the subtree being removed; trees and prefixes are unbounded.",
  ["txn.go", "tree.go", "iterator.go"], [("prefix delete", "Txn.DeletePrefix, RadixTree.DeletePrefix")])
p("C29", "Watches of absent keys and of prefixes fire",
  "A watch channel returned for a key that is not stored closes when a tracking transaction inserts that key. A channel returned by a prefix seek closes when a tracking transaction adds, changes or removes any key with that prefix.",
  ["inputs", "histories"], "all trees, keys and prefixes", "The channel must belong to a node that the later write replaces; which node that is depends on where the search ends in the tree.",
  ["tree.go", "iterator.go"], [("watched lookups", "GetWatch, iterativeSearchWithWatch"), ("watched prefix seek", "SeekPrefixWatch")])
p("C30", "No length, position or count is cut off",
  "Keys of any length below two gigabytes and nodes with up to 256 children are handled exactly. No length, offset, position or count is reduced to a smaller range on the way.",
  ["inputs"], "all key lengths, prefix lengths and numbers of children", "The values wrap around only at 128, 256 or 65536; keys that long or nodes that full are rarely written in tests, and each place has its own limit.",
  ["txn.go", "helpers.go", "node_4.go", "node_16.go", "node_48.go", "node_256.go", "node_leaf.go"], [("stored lengths and counts", "setPartialLen, setKeyLen, setNumChildren"), ("offsets", "recursiveInsert, recursiveDelete, checkPrefix, longestCommonPrefix")])
p("C31", "A commit closes no watch of the tree it returns",
  "The channels that committing a tracking transaction closes all belong to what it replaced or removed. A watch that the committed tree hands out for a key or a prefix was not closed by that commit.",
  ["inputs", "histories"], "all trees, all sequences of writes in a tracking transaction, all keys and prefixes", "A channel that is closed too early costs one needless wake-up or a busy loop, which no result shows; it depends on which nodes the writes replaced, kept or changed in place.",
  ["txn.go", "helpers.go", "node_4.go", "node_16.go", "node_48.go", "node_256.go", "node_leaf.go"], [("recording", "trackChannel, writeNode"), ("copies", "clone"), ("writes", "recursiveInsert, recursiveDelete")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
assert all(len(x["title"]) <= 80 for x in P), [x["title"] for x in P if len(x["title"])>80]
