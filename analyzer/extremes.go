package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// extreme is an operation that looks for the first or the last entry of a
// subtree, by calling itself or in a loop.
type extreme struct {
	c   *Ctx
	e   *Eng
	f   *ssa.Function
	res *Result
	max bool
}

func (c *Ctx) isLeafPtr(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj() == c.r.leaf.Obj()
}

// extremeSig: a function of a node that returns an entry.
func (c *Ctx) extremeSig(f *ssa.Function) (node int, ok bool) {
	rs := resultTypes(f.Signature)
	if len(rs) != 1 || !c.isLeafPtr(rs[0]) {
		return 0, false
	}
	node = -1
	for i, p := range f.Params {
		if c.r.isNodeVal(p.Type()) {
			if node >= 0 {
				return 0, false
			}
			node = i
		}
	}
	return node, node >= 0
}

func checkC26(c *Ctx, res *Result) {
	res.explanation = "Array dataflow over value terms for the operations that return the first or the last entry, and the functions they call: on each path and for each layout, the entry returned must be the node's own one where that comes first or is the only one, or that of the child whose byte is below or above the byte of an arbitrary other child."
	type job struct {
		f   *ssa.Function
		max bool
	}
	seen := map[job]bool{}
	var todo []job
	for _, f := range c.r.apiRoots() {
		rs := resultTypes(f.Signature)
		if len(rs) != 1 || f.Signature.Params().Len() != 0 || !c.isLeafPtr(rs[0]) {
			continue
		}
		switch {
		case strings.Contains(f.Name(), "Minimum"):
			todo = append(todo, job{f, false})
		case strings.Contains(f.Name(), "Maximum"):
			todo = append(todo, job{f, true})
		}
	}
	res.count("operations that return the first or last entry", len(todo))
	for len(todo) > 0 {
		j := todo[0]
		todo = todo[1:]
		if seen[j] {
			continue
		}
		seen[j] = true
		e := newEng(c)
		e.ignore = trackRoles
		e.hook = func(e *Eng, st *State, in ssa.CallInstruction, g *ssa.Function, args []*Term) ([]outcome, bool) {
			np, ok := c.extremeSig(g)
			if !ok || !selfCalls(g, g, nil) {
				return nil, false
			}
			todo = append(todo, job{g, j.max})
			r := e.typed(e.t.mk("call", "extreme", e.norm(st, args[np])), g.Signature.Results().At(0).Type())
			return []outcome{{st: st, res: []*Term{r}}}, true
		}
		args := e.params(j.f)
		outs := e.Run(j.f, args, &State{})
		if e.err != "" {
			engErr(res, e)
			return
		}
		res.count("branches followed", e.states)
		res.count("functions analysed", 1)
		x := &extreme{c: c, e: e, f: j.f, res: res, max: j.max}
		var n *Term
		if np, ok := c.extremeSig(j.f); ok {
			n = args[np]
		}
		x.check(n, outs)
	}
	res.floor("operations that return the first or last entry", 2)
	res.floor("goals established", 10)
	res.assumptions = append(res.assumptions, "nodes have the form that C19 shows to be kept", "the key of a node's own entry is a prefix of the keys below it, and the keys below a child start with its byte after that (C18)")
}

func (x *extreme) check(n *Term, outs []outcome) {
	e := x.e
	// nodes of a loop
	at := map[*loopInfo]*Term{}
	for _, l := range e.loops {
		for i, s := range l.syms {
			if !x.c.r.isNodeVal(l.phis[i].phi.Type()) {
				continue
			}
			moves := false
			for _, b := range l.phis[i].backs {
				v := stripConv(b.val)
				moves = moves || (v.op == "attr" && baseRole(v) == rChildren || v.op == "child") && v.args[0] == s
			}
			if !moves {
				continue
			}
			at[l] = s
			for k, b := range l.backs {
				x.choice(b.st, outcome{st: b.st, fr: b.fr, pos: b.pos}, s, stripConv(l.phis[i].backs[k].val))
			}
			en := l.phis[i].entry
			x.res.count("starts", 1)
			if en != nil && n != nil && en != n && (en.op == "child" || en.op == "attr" && baseRole(en) == rChildren) {
				x.res.ob(false, Finding{Rule: "starts-at-the-node", At: x.c.p.pos(l.l.head.Instrs[0].Pos()), Func: fname(x.f), Msg: "the search starts below the node"})
			}
		}
	}
	for _, o := range outs {
		m := n
		for l := o.st.loops; l != nil; l = l.prev {
			if s := at[l.info]; s != nil {
				m = s
				break
			}
		}
		r := stripConv(o.res[0])
		x.res.count("paths", 1)
		if m == nil {
			// hands on
			ok := r.op == "call" && r.aux == "extreme" && r.args[0].op == "attr" && baseRole(r.args[0]) != rChildren && baseRole(r.args[0]) != rLeaf
			if r.op == "call" && r.aux == "extreme" || r.isNil() && e.opaqueIn(o.st) == nil && !x.emptyPath(o.st) {
				x.res.ob(ok, Finding{Rule: "whole-tree", At: e.retPos(o), Func: fname(x.f), Msg: fmt.Sprintf("returns %s, which is not that of the whole tree", r), Path: e.pathOf(o.st)})
			}
			continue
		}
		if v, ok := e.decide(o.st, e.eq(m, e.t.tnil)); ok && v || e.infeasible(o.st) {
			continue
		}
		x.result(o, m, r)
	}
}

// emptyPath: the path found that there is no root.
func (x *extreme) emptyPath(st *State) bool {
	for _, f := range st.facts {
		if f.t.op == "eq" && f.v && f.t.args[1].isNil() {
			return true
		}
	}
	return len(st.facts) > 0
}

func (x *extreme) fail(o outcome, st *State, msg string) {
	x.res.ob(false, Finding{Rule: x.rule(), At: x.pos(o), Func: fname(x.f), Msg: msg, Path: x.e.pathOf(st)})
}

func (x *extreme) pos(o outcome) string {
	if o.res == nil && o.pos.IsValid() {
		return x.c.p.pos(o.pos)
	}
	return x.e.retPos(o)
}

func (x *extreme) rule() string {
	if x.max {
		return "last-entry"
	}
	return "first-entry"
}

// result: the entry returned for the node.
func (x *extreme) result(o outcome, n, r *Term) {
	e := x.e
	leaf := e.t.mk("attr", rLeaf, n)
	mask := e.mask(o.st, n)
	if mask&e.leafB != 0 {
		st := o.st.clone()
		if e.restrict(st, n, e.leafB) {
			ok := r == n || r == leaf || r.op == "call" || e.alias(st, r, n) != aNo
			x.res.ob(ok, Finding{Rule: x.rule(), At: x.pos(o), Func: fname(x.f), Msg: fmt.Sprintf("returns %s for an entry", r), Path: e.pathOf(st)})
		}
	}
	if mask&^e.leafB == 0 {
		return
	}
	st := o.st.clone()
	if !e.restrict(st, n, e.allB&^e.leafB) {
		return
	}
	switch {
	case r == leaf:
		if x.max {
			x.noChild(o, st, n, "the node's own entry is returned, though a child has keys above it")
			return
		}
		st2 := st.clone()
		if e.assume(st2, e.eq(leaf, e.t.tnil), true) {
			x.noChild(o, st2, n, "nothing is returned, though there are children")
		} else {
			x.res.ob(true, Finding{})
		}
	case r.op == "call" && r.aux == "extreme":
		x.choice(st, o, n, r.args[0])
	case r.isNil():
		st2 := st.clone()
		if e.assume(st2, e.eq(leaf, e.t.tnil), false) {
			if e.opaqueIn(st2) == nil && !e.infeasible(st2) && !x.impossible(st2, n) {
				x.fail(o, st2, "nothing is returned, though the node has an entry")
			}
		}
		x.noChild(o, st, n, "nothing is returned, though there are children")
	default:
		x.res.count("results not understood", 1)
	}
}

// impossible: for no layout.
func (x *extreme) impossible(st *State, n *Term) bool {
	e := x.e
	for _, lay := range e.layouts() {
		if e.mask(st, n)&lay.bit == 0 {
			continue
		}
		s := st.clone()
		if !e.restrict(s, n, lay.bit) {
			continue
		}
		op := x.op(lay, n)
		x.slots(s, op)
		num := e.typed(e.t.mk("attr", rNum, n), types.Typ[types.Uint16])
		for _, some := range []bool{false, true} {
			s, inv := s.clone(), op.inv
			if !e.assume(s, e.eqInt(num, e.t.intT(0)), !some) {
				continue
			}
			if some {
				// one of them
				var b *Term
				b, _, _, inv = op.pair(s)
				inv.points = append(inv.points, b)
			}
			if v := e.prove(s, inv, 14, func(q *slotQuery) verdict { return verdict{v: no} }); v.v == no {
				return false
			}
		}
	}
	return true
}

func (x *extreme) op(lay *layout, n *Term) *slotOp {
	r := &round{t: &trav{c: x.c, e: x.e, f: x.f, res: x.res}, n: n}
	return r.op(lay)
}

func (x *extreme) slots(st *State, op *slotOp) {
	e := x.e
	slots := linAdd(e.t.mk("len", "", e.t.mk("view", rChildren, op.n)).linOf(), &linear{k: op.lay.slot}, -1)
	st.les = append(append([]*linear{}, st.les...), slots, linNeg(slots), linAdd(op.inv.num.linOf(), &linear{k: op.lay.slot}, -1))
}

// each runs a goal for an arbitrary child of each layout.
func (x *extreme) each(o outcome, st *State, n *Term, what string, goal func(q *slotQuery, lay *layout, b, ch, slot *Term) verdict) {
	e := x.e
	mask := e.mask(st, n)
	for _, lay := range e.layouts() {
		if mask&lay.bit == 0 {
			continue
		}
		s := st.clone()
		if !e.restrict(s, n, lay.bit) {
			continue
		}
		op := x.op(lay, n)
		x.slots(s, op)
		b, ch, slot, inv := op.pair(s)
		inv.points = append(inv.points, b)
		q := &slotQuery{e: e, st: s, inv: inv}
		num := e.typed(e.t.mk("attr", rNum, n), types.Typ[types.Uint16])
		q.learn(e.le(e.t.intT(1), num), true)
		q.learn(e.eq(e.t.mk("child", "", n, b), e.t.tnil), false)
		op.ruleGoal(x.rule(), x.pos(o), s, what, inv, func(q *slotQuery) verdict { return goal(q, lay, b, ch, slot) })
	}
}

// noChild: the node has no children on this path.
func (x *extreme) noChild(o outcome, st *State, n *Term, msg string) {
	x.each(o, st, n, "there are no children", func(q *slotQuery, lay *layout, b, ch, slot *Term) verdict {
		return verdict{v: no, msg: msg}
	})
}

// choice: the search goes on with the right child.
func (x *extreme) choice(st *State, o outcome, n, to *Term) {
	e := x.e
	if to == n {
		return
	}
	leaf := e.t.mk("attr", rLeaf, n)
	st2 := st.clone()
	some := e.assume(st2, e.eq(leaf, e.t.tnil), false)
	if some && !x.max && e.opaqueIn(st2) == nil && !e.infeasible(st2) && !x.impossible(st2, n) {
		x.fail(o, st2, "goes on with a child, though the node's own entry comes first")
		return
	}
	num := e.typed(e.t.mk("attr", rNum, n), types.Typ[types.Uint16])
	if some && x.max && e.assume(st2, e.eqInt(num, e.t.intT(0)), true) && e.opaqueIn(st2) == nil && !e.infeasible(st2) && !x.impossible(st2, n) {
		x.fail(o, st2, "goes on with a child, though there may be none and the node has an entry")
		return
	}
	word := "first"
	if x.max {
		word = "last"
	}
	x.each(o, st, n, "the search goes on with the "+word+" child", func(q *slotQuery, lay *layout, b, ch, slot *Term) verdict {
		v := stripConv(to)
		var a, other *Term
		switch {
		case v.op == "child" && v.args[0] == n:
			a, other = v.args[1], b
		case v.op == "attr" && baseRole(v) == rChildren && len(v.args) == 2 && v.args[0] == n:
			a, other = v.args[1], slot
			if lay.kind == layMap {
				var key *Term
				for _, t := range a.linOf().atoms {
					if t.op == "attr" && baseRole(t) == rKeys && len(t.args) == 2 {
						key = t
					}
				}
				if key == nil {
					if _, ok := a.isInt(); ok {
						return verdict{v: no, msg: fmt.Sprintf("%s is in the slots, which are not in the order of the bytes", v)}
					}
					q.giveUp("%s is chosen", v)
					return verdict{}
				}
				a, other = key.args[1], b
			}
		case v.isNil():
			return verdict{v: no, msg: "there is another one"}
		default:
			q.giveUp("%s is chosen", v)
			return verdict{}
		}
		ok := false
		if x.max {
			ok = q.le(other, a)
		} else {
			ok = q.le(a, other)
		}
		if q.stopped() {
			return verdict{}
		}
		if ok {
			return verdict{v: yes}
		}
		return verdict{v: no, msg: fmt.Sprintf("%s is chosen, but there may be one for the byte %s", v, b)}
	})
}
