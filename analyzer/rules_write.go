package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A writeModel is what the write operations do, by paths, with the recursive
// functions described by their classes.
type writeModel struct {
	c     *Ctx
	specs []*recSpec
	runs  []*recRun
	hit   map[*recSpec]map[string]*hitInfo // by class
}

type hitInfo struct{ yes, no int }

// pathFact: what one path through a recursive function does.
type pathFact struct {
	run   *recRun
	o     outcome
	class *recClass
	recs  []*event
	match *Term // the entry whose key was found equal
	hit   bool
	known bool
}

func (c *Ctx) writeModel(res *Result) *writeModel {
	m := &writeModel{c: c, hit: map[*recSpec]map[string]*hitInfo{}}
	m.specs, m.runs = c.solveRecs(res, innerStart, trackRoles, true)
	if res.err != "" {
		return nil
	}
	return m
}

func (m *writeModel) isInsert(rs *recSpec) bool { return rs.valP >= 0 }

func recEvents(st *State) []*event {
	var out []*event
	for _, v := range st.events() {
		if v.kind == "rec" {
			out = append(out, v)
		}
	}
	return out
}

// matched: an entry that existed before whose key equals k on this path.
func (e *Eng) matched(st *State, k *Term) *Term {
	seen := map[*Term]bool{}
	var found *Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || found != nil {
			return
		}
		seen[t] = true
		if t.op == "attr" && t.aux == rKey && len(t.args) == 1 && e.allocs[t.args[0]] == nil {
			if e.sure(st, e.eqBytes(st, t, k)) {
				found = t.args[0]
				return
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.lin != nil {
			for _, a := range t.lin.atoms {
				walk(a)
			}
		}
	}
	for _, f := range st.facts {
		walk(f.t)
	}
	return found
}

// facts classifies the paths of a run as hits and misses, by induction over the
// recursion.
func (m *writeModel) facts(r *recRun) []*pathFact {
	hi := map[string]*hitInfo{}
	m.hit[r.rs] = hi
	get := func(k string) *hitInfo {
		if hi[k] == nil {
			hi[k] = &hitInfo{}
		}
		return hi[k]
	}
	var out []*pathFact
	for _, o := range r.outs {
		p := &pathFact{run: r, o: o, class: r.rs.classOf(r.e, o, r.args), recs: recEvents(o.st)}
		if len(p.recs) == 0 {
			p.match = r.e.matched(o.st, r.args[r.rs.keyP])
			p.hit, p.known = p.match != nil, true
			h := get(p.class.key)
			if p.hit {
				h.yes++
			} else {
				h.no++
			}
		}
		out = append(out, p)
	}
	for changed := true; changed; {
		changed = false
		for _, p := range out {
			if p.known {
				continue
			}
			h := hi[p.recs[len(p.recs)-1].class.key]
			if h == nil {
				continue
			}
			p.known, p.hit = true, h.yes > h.no
			g := get(p.class.key)
			if p.hit {
				g.yes++
			} else {
				g.no++
			}
			changed = true
		}
	}
	return out
}

func (m *writeModel) isHit(ev *event) (hit, ok bool) {
	h := m.hit[ev.spec][ev.class.key]
	if h == nil {
		return false, false
	}
	return h.yes > h.no, true
}

// lineage: the node and what stands for it after copying it and adding or
// removing children.
func (e *Eng) lineage(st *State, n *Term) map[*Term]bool {
	set := map[*Term]bool{n: true}
	for changed := true; changed; {
		changed = false
		for v := st.ev; v != nil; v = v.prev {
			var from, to *Term
			switch v.kind {
			case "clone":
				from, to = v.args[0], v.args[1]
			case "add", "remove":
				from, to = v.args[0], v.res[0]
			default:
				continue
			}
			if set[from] && !set[to] {
				set[to] = true
				changed = true
			}
		}
	}
	return set
}

func (e *Eng) at(p *pathFact) string {
	if p.o.pos.IsValid() {
		return e.c.p.pos(p.o.pos)
	}
	return e.retPos(p.o)
}

// txnWrites are the exported operations of a transaction on one key.
func (c *Ctx) txnWrites() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.r.apiRoots() {
		if f.Signature.Recv() == nil || !c.r.isTxnPtr(f.Signature.Recv().Type()) {
			continue
		}
		s := c.shape(f.Signature)
		if s.val >= 0 && s.ok >= 0 && s.key < 0 && byteParam(f) >= 0 && !c.readsOnly(f) {
			out = append(out, f)
		}
	}
	return out
}

type topRun struct {
	f    *ssa.Function
	e    *Eng
	args []*Term
	outs []outcome
}

func (m *writeModel) tops(res *Result) []*topRun {
	var out []*topRun
	for _, f := range m.c.txnWrites() {
		e := newEng(m.c)
		e.ignore = trackRoles
		e.hook = recHook(m.specs, true)
		args := e.params(f)
		st := &State{}
		// a tree always has a root
		e.assume(st, e.eq(e.t.mk("attr", "RadixTree."+rRoot, e.t.mk("attr", "Txn."+rTree, args[0])), e.t.tnil), false)
		t := &topRun{f: f, e: e, args: args, outs: e.Run(f, args, st)}
		engErr(res, e)
		out = append(out, t)
	}
	return out
}

// ---- C16 ----

func checkC16(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms with least-fixpoint summaries of the recursive write functions: on each path, the flags and values returned must agree with whether an entry with an equal key was found, and the length fields must change by the matching amount; copies of trees and transactions must take over the length."
	m := c.writeModel(res)
	if m == nil {
		return
	}
	for _, r := range m.runs {
		e, rs := r.e, r.rs
		ins := m.isInsert(rs)
		facts := m.facts(r)
		for _, p := range facts {
			if !p.known {
				continue
			}
			res.count("paths classified as replacing, removing or neither", 1)
			h := m.hit[rs][p.class.key]
			// the results tell hits from misses
			minority := h.yes > 0 && h.no > 0 && (p.hit == (h.yes <= h.no))
			msg := ""
			if minority {
				if p.hit {
					msg = "an entry with an equal key was found, but the results are those of a path without one"
				} else {
					msg = "no entry with an equal key was found, but the results are those of a path with one"
				}
			}
			res.ob(msg == "", Finding{Rule: "flag-tells-hit", At: e.at(p), Func: fname(rs.f), Msg: msg, Path: e.pathOf(p.o.st)})
			if msg != "" || !p.hit {
				continue
			}
			bad := ""
			if len(p.recs) == 0 {
				bad = m.payloadOf(p)
				if bad == "" && !ins && !m.removed(p) {
					bad = fmt.Sprintf("reports the removal of %s, which is still in the returned node", p.match)
				}
			} else {
				ev := p.recs[len(p.recs)-1]
				for i, t := range resultTypes(rs.f.Signature) {
					if i != rs.nodeR && (types.Identical(t, c.p.valT) || c.r.isNodeVal(t)) && p.o.res[i] != ev.res[i] {
						bad = fmt.Sprintf("returns %s instead of what was returned for the child", p.o.res[i])
					}
				}
			}
			res.ob(bad == "", Finding{Rule: "replaced-value-returned", At: e.at(p), Func: fname(rs.f), Msg: bad, Path: e.pathOf(p.o.st)})
		}
		// what the recursion did reaches the returned node
		for _, p := range facts {
			bad := m.unlinked(p)
			res.ob(bad == "", Finding{Rule: "new-child-linked", At: e.at(p), Func: fname(rs.f), Msg: bad, Path: e.pathOf(p.o.st)})
		}
	}
	for _, t := range m.tops(res) {
		m.topC16(t, res)
	}
	c.sizesCopied(res)
	c.treeLevel(res)
	res.floor("recursive functions of the write operations", 2)
	res.floor("write operations on one key", 2)
	res.floor("operations that return a new tree or transaction", 3)
	res.assumptions = append(res.assumptions, "the nodes below the root are inner nodes, entries only hang off them",
		"a path that did not find an equal key adds a new one (that it is not stored elsewhere in the tree follows from C20)")
}

// payloadOf: a path that found an entry returns its old value, or the entry.
func (m *writeModel) payloadOf(p *pathFact) string {
	rs, e := p.run.rs, p.run.e
	some := false
	for i, t := range resultTypes(rs.f.Signature) {
		if i == rs.nodeR {
			continue
		}
		switch {
		case types.Identical(t, m.c.p.valT):
			some = true
			if want := e.t.mk("attr", rValue, p.match); p.o.res[i] != want {
				return fmt.Sprintf("returns %s instead of the old value of the entry %s", p.o.res[i], p.match)
			}
		case m.c.r.isNodeVal(t):
			some = true
			if p.o.res[i] != p.match {
				return fmt.Sprintf("returns %s instead of the entry %s", p.o.res[i], p.match)
			}
		}
	}
	if !some {
		return ""
	}
	return ""
}

// removed: the entry found is not in the node that is returned.
func (m *writeModel) removed(p *pathFact) bool {
	e, rs := p.run.e, p.run.rs
	n := p.o.res[rs.nodeR]
	if n.isNil() {
		return true
	}
	l := e.read(p.o.st, p.o.st.mem, n, rLeaf, nil, nil)
	return l != p.match
}

// unlinked: the recursive call returned another node that was not stored.
func (m *writeModel) unlinked(p *pathFact) string {
	e, rs := p.run.e, p.run.rs
	n := p.run.args[rs.nodeP]
	lin := e.lineage(p.o.st, n)
	for _, ev := range p.recs {
		if ev.class.node == "same" || ev.class.node == "inplace" {
			continue
		}
		nc := ev.res[ev.spec.nodeR]
		ok := p.o.res[rs.nodeR] == nc
		for v := p.o.st.ev; v != nil; v = v.prev {
			if v.seq < ev.seq {
				break
			}
			if v.kind == "write" && v.name == rChildren && lin[v.args[0]] && v.args[1] == nc {
				ok = true
			}
			if v.kind == "remove" && lin[v.args[0]] && nc.isNil() {
				ok = true
			}
			if v.kind == "add" && lin[v.args[0]] && v.args[1] == nc {
				ok = true
			}
		}
		r := p.o.res[rs.nodeR]
		if r.isNil() {
			continue
		}
		if !ok {
			return "the node returned for the child is not stored in the parent"
		}
		if !lin[r] && r != nc {
			return fmt.Sprintf("the node returned, %s, does not stand for the node that was given", r)
		}
	}
	return ""
}

func (m *writeModel) topC16(t *topRun, res *Result) {
	e, c := t.e, m.c
	sh := c.shape(t.f.Signature)
	tx := t.args[0]
	tree0 := e.t.mk("attr", "Txn."+rTree, tx)
	sizes := []struct {
		obj  *Term
		role string
	}{{tx, "Txn." + rSize}, {tree0, "RadixTree." + rSize}}
	some := false
	for _, o := range t.outs {
		recs := recEvents(o.st)
		if len(recs) == 0 {
			continue
		}
		ev := recs[len(recs)-1]
		hit, ok := m.isHit(ev)
		if !ok {
			continue
		}
		some = true
		ins := m.isInsert(ev.spec)
		res.count("paths of write operations", 1)
		msg := ""
		v, known := e.decide(o.st, o.res[sh.ok])
		if !known {
			msg = fmt.Sprintf("the result flag %s does not follow from the outcome", o.res[sh.ok])
		} else if v != hit {
			msg = fmt.Sprintf("reports %v on a path where an entry with the key was found: %v", v, hit)
		}
		if msg == "" && hit {
			good := false
			for i, r := range ev.res {
				if i == ev.spec.nodeR {
					continue
				}
				if o.res[sh.val] == r {
					good = true
				}
				if a := o.res[sh.val]; a.op == "attr" && baseRole(a) == rValue && len(a.args) == 1 && a.args[0] == r {
					good = true
				}
			}
			if !good {
				msg = fmt.Sprintf("returns %s instead of the old value", o.res[sh.val])
			}
		}
		res.ob(msg == "", Finding{Rule: "result-flag", At: e.retPos(o), Func: fname(t.f), Msg: msg, Path: e.pathOf(o.st)})
		want := int64(0)
		switch {
		case ins && !hit:
			want = 1
		case !ins && hit:
			want = -1
		}
		for _, s := range sizes {
			before := e.t.mk("attr", s.role, s.obj)
			after := e.read(o.st, o.st.mem, s.obj, s.role, nil, nil)
			d, ok := diffConst(after, before)
			msg := ""
			if !ok || d != want {
				msg = fmt.Sprintf("%s becomes %s, expected a change of %+d", s.role, after, want)
			}
			res.ob(msg == "", Finding{Rule: "length-change", At: e.retPos(o), Func: fname(t.f), Msg: msg, Path: e.pathOf(o.st)})
		}
	}
	if some {
		res.count("write operations on one key", 1)
		res.sample(fname(t.f))
	}
}

// sizesCopied: operations that return a new tree or transaction made from the
// receiver take over its length.
func (c *Ctx) sizesCopied(res *Result) {
	for _, f := range c.r.apiRoots() {
		if f.Signature.Recv() == nil || byteParam(f) >= 0 {
			continue
		}
		rt := f.Signature.Recv().Type()
		fromTxn := c.r.isTxnPtr(rt)
		if !fromTxn && !c.r.isTreePtr(rt) {
			continue
		}
		if f.Signature.Results().Len() != 1 {
			continue
		}
		out := f.Signature.Results().At(0).Type()
		lenRes := basicInfo(out)&types.IsInteger != 0 && len(f.Params) == 1 && strings.HasPrefix(f.Name(), "Len")
		if !c.r.isTxnPtr(out) && !c.r.isTreePtr(out) && !lenRes {
			continue
		}
		e := newEng(c)
		args := e.params(f)
		outs := e.Run(f, args, &State{})
		engErr(res, e)
		want := e.t.mk("attr", "RadixTree."+rSize, args[0])
		if fromTxn {
			want = e.t.mk("attr", "Txn."+rSize, args[0])
		}
		// both lengths of a transaction change together
		also := want
		if fromTxn {
			also = e.t.mk("attr", "RadixTree."+rSize, e.t.mk("attr", "Txn."+rTree, args[0]))
		}
		isWant := func(t *Term) bool { return t == want || t == also }
		made := false
		for _, o := range outs {
			r := o.res[0]
			if lenRes {
				made = true
				ok := isWant(stripConv(r))
				res.ob(ok, Finding{Rule: "length-reported", At: e.retPos(o), Func: fname(f), Msg: fmt.Sprintf("reports %s as the length", r), Path: e.pathOf(o.st)})
				continue
			}
			if e.allocs[r] == nil {
				continue
			}
			made = true
			role := "RadixTree." + rSize
			if c.r.isTxnPtr(out) {
				role = "Txn." + rSize
				tr := e.read(o.st, o.st.mem, r, "Txn."+rTree, nil, nil)
				if e.allocs[tr] != nil {
					got := e.read(o.st, o.st.mem, tr, "RadixTree."+rSize, nil, nil)
					res.ob(isWant(got), Finding{Rule: "length-taken-over", At: e.retPos(o), Func: fname(f), Msg: fmt.Sprintf("the tree of the new transaction has length %s, expected %s", got, want), Path: e.pathOf(o.st)})
				}
			}
			got := e.read(o.st, o.st.mem, r, role, nil, nil)
			res.ob(isWant(got), Finding{Rule: "length-taken-over", At: e.retPos(o), Func: fname(f), Msg: fmt.Sprintf("the new object has length %s, expected %s", got, want), Path: e.pathOf(o.st)})
		}
		if made {
			res.count("operations that return a new tree or transaction", 1)
		}
	}
}

func stripConv(t *Term) *Term {
	for t.op == "conv" || t.op == "view" {
		t = t.args[0]
	}
	return t
}

// treeLevel: tree-level writes pass on what the transaction reported.
func (c *Ctx) treeLevel(res *Result) {
	tw := map[*ssa.Function]bool{}
	for _, f := range c.txnWrites() {
		tw[f] = true
	}
	for _, f := range c.r.apiRoots() {
		if f.Signature.Recv() == nil || !c.r.isTreePtr(f.Signature.Recv().Type()) || byteParam(f) < 0 {
			continue
		}
		sh := c.shape(f.Signature)
		treeR := -1
		for i, t := range resultTypes(f.Signature) {
			if c.r.isTreePtr(t) {
				treeR = i
			}
		}
		if treeR < 0 || sh.ok < 0 {
			continue
		}
		e := newEng(c)
		e.hook = func(e *Eng, st *State, in ssa.CallInstruction, g *ssa.Function, args []*Term) ([]outcome, bool) {
			if g.Signature.Recv() == nil || !c.r.isTxnPtr(g.Signature.Recv().Type()) || !g.Object().Exported() {
				return nil, false
			}
			var rs []*Term
			for _, t := range resultTypes(g.Signature) {
				rs = append(rs, e.typed(e.sym("nonnil.res"), t))
			}
			e.note(st, nil, &event{kind: "txncall", name: g.Name(), args: args, res: rs, pos: in.Pos()})
			return []outcome{{st: st, res: rs}}, true
		}
		args := e.params(f)
		outs := e.Run(f, args, &State{})
		engErr(res, e)
		n := 0
		for _, o := range outs {
			var w, commit *event
			for _, v := range o.st.events() {
				if v.kind != "txncall" {
					continue
				}
				for i, r := range v.res {
					_ = i
					if r == o.res[sh.ok] && basicInfo(r.typ)&types.IsBoolean != 0 {
						w = v
					}
					if r == o.res[treeR] {
						commit = v
					}
				}
			}
			if commit == nil {
				// nothing was written, or it is done in another way
				wrote := false
				for _, v := range o.st.events() {
					if v.kind == "txncall" && len(v.args) > 1 {
						wrote = true
					}
				}
				if wrote && o.res[treeR] != args[0] {
					continue
				}
				if wrote {
					fl, known := e.decide(o.st, o.res[sh.ok])
					res.ob(known && !fl || w == nil, Finding{Rule: "tree-level-result", At: e.retPos(o), Func: fname(f), Msg: "returns the old tree with the result of a write", Path: e.pathOf(o.st)})
				}
				continue
			}
			n++
			msg := ""
			if w == nil {
				msg = fmt.Sprintf("the result flag %s is not what the transaction reported", o.res[sh.ok])
			} else if w.seq > commit.seq {
				msg = "the tree is committed before the write"
			} else if w.args[0] != commit.args[0] {
				msg = "the tree returned comes from another transaction"
			} else if sh.val >= 0 {
				good := false
				for _, r := range w.res {
					good = good || r == o.res[sh.val]
				}
				if !good {
					msg = fmt.Sprintf("the value %s is not what the transaction reported", o.res[sh.val])
				}
			}
			res.ob(msg == "", Finding{Rule: "tree-level-result", At: e.retPos(o), Func: fname(f), Msg: msg, Path: e.pathOf(o.st)})
		}
		if n > 0 {
			res.count("tree-level write operations", 1)
		}
	}
}

// ---- C17 ----

func checkC17(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms with least-fixpoint summaries of the recursive delete: a path that found no entry with an equal key must return the node it was given and contain no write to a node; a node is only dropped when its child count was found zero and its own entry nil; a child is only removed or replaced by what the recursive call returned for that child."
	m := c.writeModel(res)
	if m == nil {
		return
	}
	for _, r := range m.runs {
		facts := m.facts(r)
		if m.isInsert(r.rs) {
			continue
		}
		e, rs := r.e, r.rs
		res.count("recursive deletes", 1)
		for _, p := range facts {
			if !p.known {
				continue
			}
			st := p.o.st
			bad := ""
			if !p.hit {
				res.count("paths that found no equal key", 1)
				if p.class.node != "same" {
					bad = "the key was not found, but nodes are changed or another node is returned"
					if ws := e.contentWrites(st); len(ws) > 0 {
						bad += " (" + ws[0].kind + " at " + c.p.pos(ws[0].pos) + ")"
					}
				}
				res.ob(bad == "", Finding{Rule: "miss-changes-nothing", At: e.at(p), Func: fname(rs.f), Msg: bad, Path: e.pathOf(st)})
				continue
			}
			res.count("paths that remove an entry", 1)
			bad = m.droppedTooMuch(p)
			res.ob(bad == "", Finding{Rule: "dropped-is-empty", At: e.at(p), Func: fname(rs.f), Msg: bad, Path: e.pathOf(st)})
			bad = m.childWrites(p)
			res.ob(bad == "", Finding{Rule: "child-replaced-by-its-successor", At: e.at(p), Func: fname(rs.f), Msg: bad, Path: e.pathOf(st)})
		}
	}
	for _, t := range m.tops(res) {
		e := t.e
		for _, o := range t.outs {
			recs := recEvents(o.st)
			if len(recs) == 0 || m.isInsert(recs[len(recs)-1].spec) {
				continue
			}
			ev := recs[len(recs)-1]
			hit, ok := m.isHit(ev)
			if !ok {
				continue
			}
			tree := e.t.mk("attr", "Txn."+rTree, t.args[0])
			root0 := e.t.mk("attr", "RadixTree."+rRoot, tree)
			root := e.read(o.st, o.st.mem, tree, "RadixTree."+rRoot, nil, nil)
			tree1 := e.read(o.st, o.st.mem, t.args[0], "Txn."+rTree, nil, nil)
			bad := ""
			switch {
			case tree1 != tree:
				bad = "the tree of the transaction is replaced"
			case !hit && root != root0:
				bad = fmt.Sprintf("the root becomes %s although the key was not found", root)
			case !hit && len(e.contentWrites(o.st)) > 0:
				bad = "nodes are written although the key was not found"
			case hit && root == root0 && ev.class.node != "inplace":
				bad = "the root stays the same although an entry was removed"
			case hit && root != ev.res[ev.spec.nodeR] && !ev.res[ev.spec.nodeR].isNil():
				bad = fmt.Sprintf("the root becomes %s instead of the node returned for it", root)
			}
			res.count("paths of delete operations", 1)
			res.ob(bad == "", Finding{Rule: "root-follows", At: e.retPos(o), Func: fname(t.f), Msg: bad, Path: e.pathOf(o.st)})
		}
	}
	res.floor("recursive deletes", 1)
	res.floor("paths that found no equal key", 3)
	res.floor("paths that remove an entry", 2)
	res.floor("paths of delete operations", 2)
	res.assumptions = append(res.assumptions, "removing a child keeps the other children (C19)", "the nodes below the root are inner nodes, entries only hang off them", "the child count of a node is the number of its children (C19)")
}

// droppedTooMuch: the node is only dropped when it was found empty.
func (m *writeModel) droppedTooMuch(p *pathFact) string {
	e, rs, st := p.run.e, p.run.rs, p.o.st
	n := p.run.args[rs.nodeP]
	lin := e.lineage(st, n)
	r := p.o.res[rs.nodeR]
	if !r.isNil() {
		if !lin[r] {
			return fmt.Sprintf("returns %s, which does not stand for the node that was given", r)
		}
		return ""
	}
	for x := range lin {
		num := e.read(st, st.mem, x, rNum, nil, types.Typ[types.Uint16])
		lf := e.read(st, st.mem, x, rLeaf, nil, nil)
		if e.sure(st, e.eqInt(num, e.t.intT(0))) && (lf.isNil() || e.sure(st, e.eq(lf, e.t.tnil)) || lf == p.match) {
			return ""
		}
	}
	return "drops a node that was not found to have no children and no entry"
}

// childWrites: slots are only overwritten with what the recursive call returned
// for the child that was there, and only a child that is gone is removed.
func (m *writeModel) childWrites(p *pathFact) string {
	e, rs, st := p.run.e, p.run.rs, p.o.st
	n := p.run.args[rs.nodeP]
	lin := e.lineage(st, n)
	for _, v := range st.events() {
		switch {
		case v.kind == "write" && v.name == rChildren && lin[v.args[0]]:
			ok := false
			for _, ev := range p.recs {
				ch := ev.args[ev.spec.nodeP]
				if v.args[1] == ev.res[ev.spec.nodeR] && v.idx != nil && slotOf(ch, v.idx) {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("a slot of the node is overwritten with %s at %s, which is not what the recursive call returned for the child in that slot", v.args[1], m.c.p.pos(v.pos))
			}
		case v.kind == "remove" && lin[v.args[0]]:
			ok := false
			for _, ev := range p.recs {
				ch := ev.args[ev.spec.nodeP]
				if ch.op == "child" && ch.args[1] == v.args[1] && ev.res[ev.spec.nodeR].isNil() {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("the child for %s is removed at %s although it was not found empty", v.args[1], m.c.p.pos(v.pos))
			}
		case v.kind == "write" && v.name == rLeaf && lin[v.args[0]]:
			if p.match != nil || v.args[1].isNil() == false {
				continue
			}
			return fmt.Sprintf("the entry of the node is removed at %s although its key was not found equal", m.c.p.pos(v.pos))
		}
	}
	return ""
}

// slotOf: idx is the slot of the child.
func slotOf(ch, idx *Term) bool {
	switch {
	case ch.op == "child" && idx.op == "childidx":
		return ch.args[0] == idx.args[0] && ch.args[1] == idx.args[1] && ch.aux == idx.aux
	case ch.op == "attr" && baseRole(ch) == rChildren && len(ch.args) == 2:
		return ch.args[1] == idx
	}
	return false
}

// ---- C18 ----

func checkC18(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms with least-fixpoint summaries of the recursive insert: on each path, an entry with the given key and value, and the node that was given (or its entry, if it had no children), must be linked into the returned node; entries are only overwritten when their key is the given one."
	m := c.writeModel(res)
	if m == nil {
		return
	}
	for _, r := range m.runs {
		facts := m.facts(r)
		if !m.isInsert(r.rs) {
			continue
		}
		e, rs := r.e, r.rs
		res.count("recursive inserts", 1)
		for _, p := range facts {
			if m.exhausted(p) || r.otherEntry(p.o.st) {
				res.count("paths excluded because keys agree with the path to a node", 1)
				continue
			}
			res.count("paths checked for links", 1)
			for _, ch := range []struct {
				rule string
				f    func(*pathFact) string
			}{{"new-entry-linked", m.newEntry}, {"old-subtree-linked", m.oldSubtree}, {"entry-overwritten", m.overwritten}, {"child-replaced-by-its-successor", m.insertSlots}} {
				bad := ch.f(p)
				res.ob(bad == "", Finding{Rule: ch.rule, At: e.at(p), Func: fname(rs.f), Msg: bad, Path: e.pathOf(p.o.st)})
			}
		}
	}
	for _, t := range m.tops(res) {
		e := t.e
		for _, o := range t.outs {
			recs := recEvents(o.st)
			if len(recs) == 0 || !m.isInsert(recs[len(recs)-1].spec) {
				continue
			}
			ev := recs[len(recs)-1]
			rs := ev.spec
			tree := e.t.mk("attr", "Txn."+rTree, t.args[0])
			root0 := e.t.mk("attr", "RadixTree."+rRoot, tree)
			root := e.read(o.st, o.st.mem, tree, "RadixTree."+rRoot, nil, nil)
			var val *Term
			for i, p := range t.f.Params {
				if types.Identical(p.Type(), c.p.valT) {
					val = t.args[i]
				}
			}
			bad := ""
			switch {
			case ev.args[rs.nodeP] != root0:
				bad = "the insertion does not start at the root"
			case !e.sure(o.st, e.eqBytes(o.st, ev.args[rs.keyP], t.args[byteParam(t.f)])):
				bad = fmt.Sprintf("inserts under %s instead of the given key", ev.args[rs.keyP])
			case ev.args[rs.valP] != val:
				bad = fmt.Sprintf("inserts %s instead of the given value", ev.args[rs.valP])
			case root != ev.res[rs.nodeR]:
				bad = fmt.Sprintf("the root becomes %s instead of the node returned for it", root)
			}
			res.count("paths of insert operations", 1)
			res.ob(bad == "", Finding{Rule: "root-follows", At: e.retPos(o), Func: fname(t.f), Msg: bad, Path: e.pathOf(o.st)})
		}
	}
	res.floor("recursive inserts", 1)
	res.floor("paths checked for links", 6)
	res.floor("paths of insert operations", 2)
	res.assumptions = append(res.assumptions, "adding a child keeps the other children (C19)", "the nodes below the root are inner nodes, entries only hang off them",
		"keys met below a node agree with the key being inserted up to the depth reached (C20)", "a tree of length zero has no entries")
}

// linked collects what hangs off a node when the function returns.
func (e *Eng) linked(st *State, n *Term) map[*Term]bool {
	set := map[*Term]bool{}
	var visit func(x *Term)
	visit = func(x *Term) {
		if x == nil || x.isNil() || set[x] {
			return
		}
		set[x] = true
		if e.isNodeTerm(x) || x.op == "sym" {
			visit(e.read(st, st.mem, x, rLeaf, nil, nil))
		}
		if a := e.allocs[x]; a != nil && a.cloneOf != nil {
			set[a.cloneOf] = true
			// children that are kept
		}
		for v := st.ev; v != nil; v = v.prev {
			switch {
			case v.kind == "add" && v.res[0] == x:
				visit(v.args[0])
				visit(v.args[1])
			case v.kind == "write" && v.name == rChildren && v.args[0] == x:
				visit(v.args[1])
			}
		}
	}
	visit(n)
	return set
}

func (m *writeModel) newEntry(p *pathFact) string {
	e, rs, st := p.run.e, p.run.rs, p.o.st
	k, v := p.run.args[rs.keyP], p.run.args[rs.valP]
	r := p.o.res[rs.nodeR]
	set := e.linked(st, r)
	for x := range set {
		if e.allocs[x] == nil && x != e.t.mk("attr", rLeaf, p.run.args[rs.nodeP]) {
			continue
		}
		if e.mask(st, x)&^e.leafB != 0 {
			continue
		}
		if e.read(st, st.mem, x, rValue, nil, nil) == v && e.sure(st, e.eqBytes(st, e.read(st, st.mem, x, rKey, nil, nil), k)) {
			return ""
		}
	}
	for _, ev := range p.recs {
		if ev.spec != rs || ev.class.node == "same" {
			continue
		}
		nc := ev.res[rs.nodeR]
		if !set[nc] && ev.class.node != "inplace" {
			continue
		}
		if ev.args[rs.valP] == v && e.sure(st, e.eqBytes(st, ev.args[rs.keyP], k)) {
			return ""
		}
	}
	return fmt.Sprintf("no entry with the given key and value is linked into the returned node %s", r)
}

func (m *writeModel) oldSubtree(p *pathFact) string {
	e, rs, st := p.run.e, p.run.rs, p.o.st
	n := p.run.args[rs.nodeP]
	r := p.o.res[rs.nodeR]
	set := e.linked(st, r)
	if set[n] || e.emptyTree(st, p.run.args) {
		return ""
	}
	lin := e.lineage(st, n)
	for x := range lin {
		if set[x] {
			return ""
		}
	}
	// a node without children is replaced by its entry
	if e.sure(st, e.eqInt(e.t.mk("attr", rNum, n), e.t.intT(0))) {
		l := e.t.mk("attr", rLeaf, n)
		if set[l] || e.sure(st, e.eq(l, e.t.tnil)) {
			return ""
		}
		for v := st.ev; v != nil; v = v.prev {
			if v.kind == "clone" && v.args[0] == l && set[v.args[1]] {
				return ""
			}
		}
		return fmt.Sprintf("the entry of the node that was given is not linked into the returned node %s", r)
	}
	return fmt.Sprintf("the node that was given is not linked into the returned node %s", r)
}

// emptyTree: the path is only taken when the tree has no entries.
func (e *Eng) emptyTree(st *State, args []*Term) bool {
	for _, a := range args {
		if a.typ != nil && e.c.r.isTxnPtr(a.typ) {
			tree := e.t.mk("attr", "Txn."+rTree, a)
			for _, s := range []*Term{e.t.mk("attr", "RadixTree."+rSize, tree), e.t.mk("attr", "Txn."+rSize, a)} {
				if e.sure(st, e.eqInt(s, e.t.intT(0))) {
					return true
				}
			}
		}
	}
	return false
}

// overwritten: an entry is only replaced if its key is the given one.
func (m *writeModel) overwritten(p *pathFact) string {
	e, rs, st := p.run.e, p.run.rs, p.o.st
	n, k := p.run.args[rs.nodeP], p.run.args[rs.keyP]
	lin := e.lineage(st, n)
	l := e.t.mk("attr", rLeaf, n)
	if e.emptyTree(st, p.run.args) || e.sure(st, e.eq(l, e.t.tnil)) {
		return ""
	}
	set := e.linked(st, p.o.res[rs.nodeR])
	for _, v := range st.events() {
		if v.kind != "write" || v.name != rLeaf || !lin[v.args[0]] || v.args[1] == l || set[l] {
			continue
		}
		if a := e.allocs[v.args[1]]; a != nil && a.cloneOf == l {
			continue
		}
		if e.sure(st, e.eqBytes(st, e.t.mk("attr", rKey, l), k)) {
			continue
		}
		return fmt.Sprintf("the entry of the node is overwritten at %s without its key having been found equal", m.c.p.pos(v.pos))
	}
	return ""
}

// otherEntry: the path assumes that the key ends at this node and that the entry
// of the node has another key. This cannot be: the key of a node's own entry is
// what was consumed on the way to it.
func (r *recRun) otherEntry(st *State) bool {
	e, rs := r.e, r.rs
	n, k := r.args[rs.nodeP], r.args[rs.keyP]
	l := e.t.mk("attr", rLeaf, n)
	if v, ok := e.decide(st, e.eqBytes(st, e.t.mk("attr", rKey, l), k)); !ok || v {
		return false
	}
	lk := e.length(st, k)
	pl := e.t.mk("attr", rPLen, n)
	for i, pr := range rs.f.Params {
		if basicKind(pr.Type()) != types.Int {
			continue
		}
		d := r.args[i].linOf()
		rest := linAdd(lk.linOf(), linAdd(d, pl.linOf(), 1), -1)
		if e.entails(st, rest, 3) && !e.entails(st, linAdd(rest, &linear{k: 1}, 1), 3) {
			return true
		}
	}
	return false
}

func (m *writeModel) insertSlots(p *pathFact) string {
	e, rs, st := p.run.e, p.run.rs, p.o.st
	lin := e.lineage(st, p.run.args[rs.nodeP])
	for _, v := range st.events() {
		if v.kind == "write" && v.name == rChildren && lin[v.args[0]] {
			ok := false
			for _, ev := range p.recs {
				if v.args[1] == ev.res[ev.spec.nodeR] && v.idx != nil && slotOf(ev.args[ev.spec.nodeP], v.idx) {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("a slot of the node is overwritten with %s at %s, which is not what the recursive call returned for the child in that slot", v.args[1], m.c.p.pos(v.pos))
			}
		}
	}
	return ""
}

// exhausted: the path assumes that a key ends where the common prefix of the two
// keys ends, and also that it is not a prefix of the other key. This cannot be,
// since both keys agree up to the depth reached.
func (m *writeModel) exhausted(p *pathFact) bool {
	e, st := p.run.e, p.o.st
	for _, f := range st.facts {
		if f.t.op != "hasp" || f.v {
			continue
		}
		long, short := f.t.args[0], f.t.args[1]
		for _, l := range st.les {
			// len(short) <= something with a common prefix of both
			d := linAdd(e.length(st, short).linOf(), &linear{}, 1)
			_ = long
			for _, a := range l.atoms {
				if a.op == "call" && e.commonPrefix(a) {
					for i := range p.run.rs.f.Params {
						if basicKind(p.run.rs.f.Params[i].Type()) != types.Int {
							continue
						}
						bound := linAdd(p.run.args[i].linOf(), a.linOf(), 1)
						if e.entails(st, linAdd(d, bound, -1), 3) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// commonPrefix: a function of two keys or entries and a depth.
func (e *Eng) commonPrefix(t *Term) bool {
	n := 0
	for _, a := range t.args {
		if a.typ != nil && (e.c.r.isNodeVal(a.typ) || isByteSlice(a.typ)) || e.allocs[a] != nil {
			n++
		}
	}
	return n == 2 && len(t.args) == 3
}
