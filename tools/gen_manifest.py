#!/usr/bin/env python3
"""Writes MANIFEST.json. The claimed checks are listed here."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SSA = "static analysis of the type-checked SSA form of the package, instantiated with an opaque value type; trusted: go/types, x/tools SSA construction, the analyzer and its table of standard-library effects. "
C = [
 ("C01", "ownership and effect analysis", "Flow-sensitive ownership analysis of every exported operation, with rules for node ids and watermarks."),
 ("C02", "ownership and effect analysis", "As C01, plus exclusive ownership of the transaction's own fields."),
 ("C03", "escape and effect analysis of parameters", "Interprocedural: no write to and no retention of byte slices of callers."),
 ("C04", "capacity analysis of returned slices", "Interprocedural: every key handed out is fresh or clipped."),
 ("C05", "effect analysis of the read operations", "Interprocedural effect summaries; the only shared writes are compare-and-swaps of missing watch channels."),
 ("C06", "typestate of the watch-channel slot", "Installation only from nil by compare-and-swap; winner rule by edge dominance."),
 ("C07", "path-sensitive dataflow and who-may-close rule", "Every path of every operation that can close a channel; only notification of a tracked, finished write closes, each channel once."),
 ("C08", "path-sensitive dataflow over value terms", "Every path of every write: each replaced or changed node and entry has its channel recorded or closed; recursion by outcome classes."),
 ("C09", "call-graph lint over SSA", "Reachability of blocking constructs from every exported operation."),
 ("C10", "call-graph lint over SSA and effect analysis", "Reachability of nondeterministic constructs and of mutable package state."),
 ("C11", "path-sensitive dataflow over value terms", "Every path of every lookup that can report a hit; loops by induction."),
 ("C12", "path-sensitive dataflow over value terms", "Every path of every yield operation, under the iterator fields set by the matching seek."),
 ("C13", "path-sensitive dataflow over value terms", "Every path of every yield operation, under the iterator fields set by the matching seek."),
 ("C14", "path-sensitive dataflow over value terms", "Every path that returns a key; the candidate chosen in a loop by induction over its rounds."),
 ("C15", "path-sensitive dataflow over value terms", "Every return and call-back that hands out a key with a value."),
 ("C16", "path-sensitive dataflow over value terms", "Every path of Insert, recursion by a least fixpoint over outcome classes. A broken rule of C30 is reported too."),
 ("C17", "path-sensitive dataflow over value terms", "Every path of Delete and DeletePrefix, recursion by a least fixpoint over outcome classes. Broken rules about removing children (C19) and cut-off lengths (C30) are reported too."),
 ("C18", "path-sensitive dataflow over value terms", "Every path of every write: how nodes are split, joined and linked, with the keys they stand for. Broken rules about adding children and of C30 are reported too."),
 ("C19", "array dataflow over value terms with linear constraints", "Every path of every operation that adds, removes, finds or copies children, for each layout and any number of children: contents of arrays after single writes, copies and counting loops, at an arbitrary slot or byte. It rests on the form of each layout, which the same check shows to be kept."),
 ("C20", "path-sensitive dataflow over value terms with induction", "Every look-up of a child by a key byte, every restructuring path of Insert, every start field of an iterator; offsets as linear terms. Broken rules about the prefix of a joined node and of C30 are reported too."),
 ("C21", "array dataflow over value terms with linear constraints", "Every way through one round of every traversal, for each layout and any number of children: what is added to the nodes waiting, at an arbitrary child. It rests on C19 for the form of the nodes. Numbers cut off within a traversal (C30) are reported too."),
 ("C22", "path-sensitive dataflow over value terms with linear constraints", "Every index and slice expression on every path of every operation, for each layout and any number of children. An access is reported when the constraints on its path allow an index outside; an access whose index the analysis cannot express is counted as not understood, not as shown. It rests on C19 for the form of the nodes."),
 ("C23", "dataflow analysis of loop rounds and recursive calls", "Every round of every loop and every recursive call on every path: a round is reported when all branches it takes would be taken again, whatever it changes. Rounds whose branches depend on values the analysis cannot follow are counted as not understood, so this is a necessary condition for termination."),
 ("C24", "path-sensitive dataflow over value terms with induction", "Every path that treats a key as absent must have established a reason at a node on the key's way. It rests on C19 and C20 for the shape of the tree. Broken rules of C17 to C20 and C30 are reported too."),
 ("C25", "path-sensitive dataflow over value terms with induction", "Every round of every seek and every yield: a node, child or entry left out must be shown to lie outside the bound. New iterators must start at their node. It rests on C19 to C21 for children and offsets. Broken traversal rules of C21 are reported too."),
 ("C26", "array dataflow over value terms with linear constraints", "Every path of the minimum and maximum queries, for each layout and any number of children: the child taken is the first or last one, and a node's own entry is taken exactly where it comes first or last."),
 ("C27", "path-sensitive dataflow over value terms with induction", "Every path of the longest-prefix queries: the candidate of each round, and every way the walk can end. It rests on C19 and C20 for children and offsets. Broken rules of C20 in the query are reported too."),
 ("C28", "path-sensitive dataflow over value terms with induction", "Every path of the prefix deletes: which keys are deleted, that the collection runs to its end and over a tree the transaction is not changing, and what the result depends on. It rests on C12 and C25 for the iterator and on C17 for the single delete. Broken rules of C12, C21 and C25 in the functions it uses, and of C17, are reported too."),
 ("C29", "path-sensitive dataflow over value terms with induction", "Every path of every watched lookup and seek: the channel handed out belongs to a node the search passed through, and a watched search goes on to a child only after it compared the complete prefix. It rests on C08 for the writes that replace such nodes. Broken rules of C08 are reported too."),
 ("C30", "value-range dataflow over value terms with linear constraints", "Every conversion to a type narrower than 32 bits, every sum in such a type and every mask of a length or position, on every path of every operation; and the types in which lengths, counts and ids are stored. A value whose range the analysis cannot express is counted as not understood."),
 ("C31", "path-sensitive dataflow over value terms with ownership facts", "Every path that records a channel, every copy made with tracking on, and every path of insert and delete: a recorded channel is not the channel of a node that stays. It rests on C01 and C08 for which nodes stay."),
]
NA = []
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "checks": [{"property": i, "quick_cmd": f"bash /verif/check.sh {i}", "technique": t, "level": "other", "level_note": n + " Decided by " + SSA.strip()} for i, t, n in C],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA],
     "notes": "All checks share one analyzer in /verif/analyzer. Each run loads the sources in /repo afresh."}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
done = {c[0] for c in C} | {n[0] for n in NA}
for i in ids:
    if i not in done:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
