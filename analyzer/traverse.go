package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Traversals. A traversal takes a node off a sequence of nodes, puts the children
// of that node on it and goes on. What one round puts on it is read off the terms
// for the sequence: single nodes, and loops that put on one node per round.

type seqItem struct {
	val   *Term
	self  bool // the node itself
	loop  *loopInfo
	paths []seqPath // through the body of the loop
}

type seqPath struct {
	st    *State
	items []seqItem
}

// seq is a sequence made of an older one by adding nodes, the oldest first.
type seq struct {
	base  *Term // nil: empty
	items []seqItem
	front bool // added in front
	back  bool // added behind
}

func (s *seq) add(front bool, items ...seqItem) {
	s.items = append(s.items, items...)
	if len(items) > 0 {
		s.front = s.front || front
		s.back = s.back || !front
	}
}

// seqOf takes a sequence apart. It fails for sequences made in another way.
func (e *Eng) seqOf(t *Term, mem *memEntry, stop func(*Term) bool, depth int) *seq {
	if depth > 12 {
		return nil
	}
	if stop(t) {
		return &seq{base: t}
	}
	switch t.op {
	case "nil":
		return &seq{}
	case "append":
		s := e.seqOf(t.args[0], mem, stop, depth+1)
		if s == nil {
			return nil
		}
		for _, x := range t.args[1:] {
			s.add(false, seqItem{val: x})
		}
		return s
	case "appendall":
		a := e.seqOf(t.args[0], mem, stop, depth+1)
		b := e.seqOf(t.args[1], mem, stop, depth+1)
		switch {
		case a == nil || b == nil:
			return nil
		case b.base == nil && !b.front:
			a.add(false, b.items...)
			return a
		case a.base == nil && !a.front:
			for i := len(a.items) - 1; i >= 0; i-- {
				if a.items[i].loop != nil {
					return nil
				}
				b.add(true, a.items[i])
			}
			return b
		}
		return nil
	case "slice":
		if n, ok := t.args[1].isInt(); ok && n == 0 {
			if d, ok := diffConst(t.args[2], e.t.mk("len", "", t.args[0])); ok && d == 0 {
				return e.seqOf(t.args[0], mem, stop, depth+1)
			}
			if n, ok := t.args[2].isInt(); ok && n == 0 {
				return &seq{}
			}
		}
		return &seq{base: t}
	case "alloc":
		return e.seqAlloc(t, mem, stop, depth)
	case "sym":
		if pi := e.phis[t]; pi != nil {
			if pi.entry == nil {
				return nil
			}
			s := e.seqOf(pi.entry, pi.run.entry.mem, stop, depth+1)
			if s == nil {
				return nil
			}
			it := seqItem{loop: pi.run}
			front := false
			for _, b := range pi.backs {
				p := e.seqOf(b.val, b.st.mem, func(x *Term) bool { return x == t }, depth+1)
				if p == nil || p.base != t || p.front && p.back {
					return nil
				}
				front = front || p.front
				it.paths = append(it.paths, seqPath{b.st, p.items})
			}
			s.add(front, it)
			return s
		}
		for m := mem; m != nil; m = m.next {
			if m.val != t || m.loop == nil {
				continue
			}
			before := e.fieldBefore(m.next, m.obj, m.role)
			if before == nil {
				return nil
			}
			s := e.seqOf(before, m.next, stop, depth+1)
			if s == nil {
				return nil
			}
			it := seqItem{loop: m.loop}
			front := false
			for _, b := range m.loop.backs {
				v := e.fieldBefore(b.st.mem, m.obj, m.role)
				if v == nil {
					return nil
				}
				p := e.seqOf(v, b.st.mem, func(x *Term) bool { return x == t }, depth+1)
				if p == nil || p.base != t || p.front && p.back {
					return nil
				}
				front = front || p.front
				it.paths = append(it.paths, seqPath{b.st, p.items})
			}
			s.add(front, it)
			return s
		}
		return nil
	case "attr":
		return &seq{base: t}
	}
	return nil
}

// fieldBefore: the value last stored in a field.
func (e *Eng) fieldBefore(m *memEntry, obj *Term, role string) *Term {
	for ; m != nil; m = m.next {
		if m.role != role {
			continue
		}
		if m.obj == obj {
			return m.val
		}
		if m.obj == nil || m.under != nil {
			return nil
		}
	}
	return e.t.mk("attr", role, obj)
}

// seqAlloc: a new slice, filled with single elements and a copy of an older one.
func (e *Eng) seqAlloc(t *Term, mem *memEntry, stop func(*Term) bool, depth int) *seq {
	a := e.allocs[t]
	if a == nil {
		return nil
	}
	var cp *memEntry
	elems := map[string]*Term{}
	var idxs []*Term
	for m := mem; m != nil; m = m.next {
		if m.obj != t {
			continue
		}
		switch {
		case m.cp != nil:
			if cp != nil {
				return nil
			}
			cp = m
		case m.role == "contents" && m.val != nil:
			return e.seqOf(m.val, m.next, stop, depth+1)
		case m.role == "contents":
		case m.role == "[]" && m.idx != nil && m.val != nil:
			k := m.idx.String()
			if elems[k] == nil {
				elems[k] = m.val
				idxs = append(idxs, m.idx)
			}
		default:
			return nil
		}
	}
	length := e.length(&State{mem: mem}, t)
	if cp == nil {
		n, ok := length.isInt()
		if !ok || n > 8 {
			return nil
		}
		s := &seq{}
		for i := int64(0); i < n; i++ {
			v := elems[e.t.intT(i).String()]
			if v == nil {
				return nil
			}
			s.add(false, seqItem{val: v})
		}
		return s
	}
	if len(idxs) != 1 {
		return nil
	}
	// one more than the one copied
	if d, ok := diffConst(length, cp.cp.slen); !ok || d != 1 {
		return nil
	}
	s := e.seqOf(cp.cp.src, cp.next, stop, depth+1)
	if s == nil {
		return nil
	}
	lo, ok := cp.cp.lo.isInt()
	at, ok2 := idxs[0].isInt()
	if ok && ok2 && lo == 1 && at == 0 {
		s.add(true, seqItem{val: elems[idxs[0].String()]})
		return s
	}
	if d, ok3 := diffConst(idxs[0], cp.cp.slen); ok && lo == 0 && ok3 && d == 0 {
		s.add(false, seqItem{val: elems[idxs[0].String()]})
		return s
	}
	return nil
}

// takeOff: the sequence is the one at the head of the loop without one end.
func takeOff(e *Eng, t, s *Term) (last, ok bool) {
	if t == nil || t.op != "slice" || t.args[0] != s {
		return false, false
	}
	n := e.t.mk("len", "", s)
	lo, isC := t.args[1].isInt()
	d, isD := diffConst(t.args[2], n)
	if !isC || !isD {
		return false, false
	}
	if lo == 0 && d == -1 {
		return true, true
	}
	return false, lo == 1 && d == 0
}

// trav is one loop of a traversal.
type trav struct {
	c    *Ctx
	e    *Eng
	res  *Result
	f    *ssa.Function
	loop *loopInfo
	obj  *Term // the sequence is in a field
	role string
	phi  int
	s    *Term // the sequence at the head
	down bool  // in descending order
	any  bool  // in any order
	path bool  // only one child of a node is of interest
	walk bool  // by recursion: visited in the order of the items
}

// travLoops finds the loops that take nodes off a sequence.
func (c *Ctx) travLoops(e *Eng, f *ssa.Function, res *Result) []*trav {
	var out []*trav
	for _, l := range e.loops {
		for m := l.head.mem; m != nil && m.loop == l; m = m.next {
			if m.obj == nil || m.val == nil {
				continue
			}
			t := &trav{c: c, e: e, f: f, res: res, loop: l, obj: m.obj, role: m.role, phi: -1, s: m.val}
			for _, b := range l.backs {
				if v := e.fieldBefore(b.st.mem, m.obj, m.role); v != nil {
					if s := t.seq(v, b.st.mem); s != nil {
						if _, ok := takeOff(e, s.base, t.s); ok {
							out = append(out, t)
							break
						}
					}
				}
			}
		}
		for i, s := range l.syms {
			t := &trav{c: c, e: e, f: f, res: res, loop: l, phi: i, s: s}
			for _, b := range l.phis[i].backs {
				if q := t.seq(b.val, b.st.mem); q != nil {
					if _, ok := takeOff(e, q.base, s); ok {
						out = append(out, t)
						break
					}
				}
			}
		}
	}
	return out
}

func (t *trav) seq(v *Term, mem *memEntry) *seq {
	return t.e.seqOf(v, mem, func(x *Term) bool {
		if x == t.s {
			return true
		}
		_, ok := takeOff(t.e, x, t.s)
		return ok
	}, 0)
}

// popped: the node taken off in this round.
func (t *trav) popped(st *State, last bool) *Term {
	want := t.e.t.intT(0)
	if last {
		want = t.e.t.sub(t.e.t.mk("len", "", t.s), t.e.t.intT(1))
	}
	var found *Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if (x.op == "elem" || x.op == "attr" && baseRole(x) == "[]") && len(x.args) == 2 && x.args[0] == t.s && x.args[1] == want {
			found = x
			return
		}
		for _, a := range x.args {
			walk(a)
		}
		if x.op == "lin" {
			for _, a := range x.lin.atoms {
				walk(a)
			}
		}
	}
	for _, k := range st.kinds {
		walk(k.t)
	}
	for _, f := range st.facts {
		if found == nil {
			walk(f.t)
		}
	}
	return found
}

// round is one way through the body of the loop.
type round struct {
	t    *trav
	o    outcome
	n    *Term // taken off
	seq  *seq
	ret  bool  // ends the operation
	key  *Term // returned
	okay bool
	late bool // nodes are added at the end they are not taken from
}

func (r *round) at() string {
	if r.ret {
		return r.t.e.retPos(r.o)
	}
	if r.o.st.tr != nil {
		return r.t.c.p.pos(r.o.st.tr.pos)
	}
	return r.t.c.p.pos(r.t.f.Pos())
}

// yields of iterators.
func (c *Ctx) iterYields() []*ssa.Function {
	var out []*ssa.Function
	for _, y := range c.yielders() {
		if y.Signature.Params().Len() == 0 && y.Signature.Recv() != nil && c.r.isIterPtr(y.Signature.Recv().Type()) {
			out = append(out, y)
		}
	}
	return out
}

// rounds lists the ways through a round of the traversal.
func (t *trav) rounds(outs []outcome) []*round {
	e := t.e
	var rs []*round
	add := func(o outcome, v *Term, ret bool) *round {
		if v == nil {
			t.res.count("rounds not understood", 1)
			return nil
		}
		s := t.seq(v, o.st.mem)
		if s == nil {
			t.res.count("rounds not understood", 1)
			return nil
		}
		last, ok := takeOff(e, s.base, t.s)
		if !ok {
			if ret && s.base == t.s && len(s.items) == 0 {
				r := &round{t: t, o: o, seq: s, ret: ret}
				rs = append(rs, r)
				return r
			}
			return nil
		}
		n := t.popped(o.st, last)
		if n == nil {
			return nil
		}
		r := &round{t: t, o: o, n: n, seq: s, ret: ret, late: last && s.front || !last && s.back}
		rs = append(rs, r)
		return r
	}
	for i, b := range t.loop.backs {
		var v *Term
		if t.phi >= 0 {
			v = t.loop.phis[t.phi].backs[i].val
		} else {
			v = e.fieldBefore(b.st.mem, t.obj, t.role)
		}
		add(outcome{st: b.st, fr: b.fr}, v, false)
	}
	sh := t.c.shape(t.f.Signature)
	for _, o := range outs {
		in := false
		for l := o.st.loops; l != nil; l = l.prev {
			in = in || l.info == t.loop
		}
		if !in || t.phi >= 0 {
			continue
		}
		r := add(o, e.fieldBefore(o.st.mem, t.obj, t.role), true)
		if r == nil {
			continue
		}
		if sh.ok >= 0 {
			if r.n == nil {
				st := o.st.clone()
				if !e.assume(st, o.res[sh.ok], false) {
					rs = rs[:len(rs)-1]
				}
				r.o.st = st
				continue
			}
			if st := e.accepted(o, sh.ok); st != nil {
				r.okay = true
				r.o.st = st
				r.key = e.norm(st, o.res[sh.key])
			}
		}
	}
	return rs
}

func (r *round) op(lay *layout) *slotOp {
	e := r.t.e
	if e.fixed == nil {
		e.fixed = map[*Term]bool{}
	}
	e.fixed[r.n] = true
	op := &slotOp{c: r.t.c, e: e, res: r.t.res, f: r.t.f, lay: lay, n: r.n}
	op.inv = &nodeInv{e: e, n: r.n, lay: lay, num: e.numOf(r.n)}
	return op
}

// check looks at one round.
func (r *round) check() {
	e, res := r.t.e, r.t.res
	st := r.o.st
	if r.ret && !r.t.walk && r.n == nil {
		// the end of it
		n := e.t.mk("len", "", r.t.s)
		more := st.clone()
		bad := e.assume(more, e.le(e.t.intT(1), n), true) && !e.contradicts(more) && e.opaqueIn(more) == nil
		res.count("ends of traversals", 1)
		res.ob(!bad, Finding{Rule: "goes-on", At: r.at(), Func: fname(r.t.f), Msg: "the traversal ends while there are nodes left", Path: e.pathOf(st)})
		return
	}
	if v, ok := e.decide(st, e.eq(r.n, e.t.tnil)); ok && v {
		return
	}
	mask := e.mask(st, r.n)
	if mask == 0 {
		return
	}
	res.count("rounds of traversals", 1)
	if mask&e.leafB != 0 && !r.t.walk {
		r.entry(st, r.n)
	}
	for _, lay := range e.layouts() {
		if mask&lay.bit == 0 {
			continue
		}
		st := st.clone()
		if !e.restrict(st, r.n, lay.bit) {
			continue
		}
		if r.ret && !r.okay && !r.t.walk {
			res.ob(false, Finding{Rule: "goes-on", At: r.at(), Func: fname(r.t.f), Msg: fmt.Sprintf("the traversal ends at a %s", lay.name), Path: e.pathOf(st)})
			continue
		}
		r.children(st, lay)
		r.entry(st, e.t.mk("attr", rLeaf, r.n))
	}
}

// children: every child is put on the sequence once, and in order.
func (r *round) children(st *State, lay *layout) {
	e := r.t.e
	op := r.op(lay)
	st = r.relevant(st)
	slots := linAdd(e.t.mk("len", "", e.t.mk("view", rChildren, r.n)).linOf(), &linear{k: lay.slot}, -1)
	st.les = append(st.les, slots, linNeg(slots), linAdd(op.inv.num.linOf(), &linear{k: lay.slot}, -1))
	st2 := st.clone()
	b, ch, slot, inv := op.pair(st2)
	q := &slotQuery{e: e, st: st2, inv: inv}
	q.learn(e.eq(e.t.mk("child", "", r.n, b), e.t.tnil), false)
	goal := func(what string, st *State, inv *nodeInv, g func(q *slotQuery) verdict) {
		op.ruleGoal("traversal", r.at(), st, what, inv, g)
	}
	goal("every child is visited once", st2, inv, func(q *slotQuery) verdict {
		n := 0
		for _, it := range r.seq.items {
			if v := it.val; v != nil && v.op == "child" {
				if _, ok := v.args[1].isInt(); !ok {
					return verdict{v: unknown, msg: "the children are selected"}
				}
			}
		}
		for _, it := range r.seq.items {
			k := e.delivers(q, it, r.n, lay, b, ch, slot)
			if q.stopped() {
				return verdict{}
			}
			n += k
		}
		switch n {
		case 1:
			return verdict{v: yes}
		case 0:
			return verdict{v: no, msg: fmt.Sprintf("the child for the byte %s is left out", b)}
		}
		return verdict{v: no, msg: fmt.Sprintf("the child for the byte %s is visited %d times", b, n)}
	})
	// only children, and none that is missing
	for _, it := range r.seq.items {
		for _, p := range it.paths {
			for _, x := range p.items {
				if !x.self {
					r.element(op, st, p.st, it.loop, x.val)
				}
			}
		}
		if it.loop == nil && !it.self {
			r.element(op, st, nil, nil, it.val)
		}
	}
	if !r.t.any {
		r.order(st, lay)
	}
}

// relevant leaves out what was only found out after the children were dealt with.
func (r *round) relevant(st *State) *State {
	e := r.t.e
	st = st.clone()
	var first *loopInfo
	for _, it := range r.seq.items {
		if it.loop != nil && first == nil {
			first = it.loop
		}
	}
	if first == nil {
		return st
	}
	before := map[*Term]bool{}
	for _, f := range first.head.facts {
		before[f.t] = true
	}
	var facts []fact
	for _, f := range st.facts {
		if before[f.t] || e.opaqueIn(&State{facts: []fact{f}}) == nil {
			facts = append(facts, f)
		}
	}
	st.facts = facts
	return st
}

// element: what is put on the sequence is a child or the entry of the node.
func (r *round) element(op *slotOp, st, in *State, loop *loopInfo, v *Term) {
	e := r.t.e
	if v == nil {
		return
	}
	v = stripConv(v)
	if v == e.t.mk("attr", rLeaf, r.n) || v == r.n {
		if v == r.n {
			op.res.ob(false, Finding{Rule: "traversal", At: r.at(), Func: fname(r.t.f), Msg: "the node is put back and visited again", Path: e.pathOf(st)})
			return
		}
		s := st
		if in != nil {
			s = in
		}
		ok := e.sure(s, e.not(e.eq(v, e.t.tnil)))
		op.res.ob(ok, Finding{Rule: "traversal", At: r.at(), Func: fname(r.t.f), Msg: "the entry of the node is put on the sequence even if there is none", Path: e.pathOf(st)})
		return
	}
	st = st.clone()
	var it *iter
	inv := *op.inv
	if loop != nil {
		// in any round
		c, step, ok := loop.counter()
		if !ok {
			op.res.count("loops that do not count", 1)
			return
		}
		i := e.typed(e.t.mk("sym", "any.round"), types.Typ[types.Int])
		q := &slotQuery{e: e, st: st, inv: &inv}
		lo, hi := loop.phis[c].entry, loop.syms[c]
		if lo == nil {
			return
		}
		if step < 0 {
			lo, hi = e.t.add(hi, e.t.intT(1)), e.t.add(lo, e.t.intT(1))
		}
		q.learn(e.le(lo, i), true)
		q.learn(e.lt(i, hi), true)
		inv.points = append([]*Term{i}, inv.points...)
		it = &iter{loop, i, nil}
		// the path is taken
		for _, f := range in.facts[len(loop.head.facts):] {
			if c := q.resolve(f.t, in.mem, it); c != nil && !q.stopped() {
				q.learn(c, f.v)
			}
			q.split, q.fail = nil, ""
		}
	}
	op.ruleGoal("traversal", r.at(), st, "only children of the node are put on the sequence", &inv, func(q *slotQuery) verdict {
		x := v
		if in != nil {
			x = q.resolve(v, in.mem, it)
		} else {
			x = q.resolve(v, q.st.mem, nil)
		}
		if q.stopped() {
			return verdict{}
		}
		x = stripConv(x)
		switch {
		case x.isNil():
			return verdict{v: no, msg: "nil is put on it, where the traversal ends"}
		case (x.op == "attr" && baseRole(x) == rChildren && len(x.args) == 2 || x.op == "child") && x.args[0] == r.n:
			if x.op == "attr" {
				q.came(x)
			}
			if q.is(e.eq(x, e.t.tnil)) && !q.stopped() {
				return verdict{v: no, msg: fmt.Sprintf("%s is put on it even if it is nil, where the traversal ends", x)}
			}
			if q.stopped() {
				return verdict{}
			}
			return verdict{v: yes}
		}
		q.giveUp("%s is put on it", x)
		return verdict{}
	})
}

// delivers counts how often an addition puts the child on the sequence.
func (e *Eng) delivers(q *slotQuery, it seqItem, n *Term, lay *layout, b, ch, slot *Term) int {
	if it.loop == nil {
		if it.self {
			return 0
		}
		v := stripConv(it.val)
		if v.op == "attr" && baseRole(v) == rLeaf {
			return 0
		}
		if q.childIs(q.resolve(v, q.st.mem, nil), n, b, ch) && !q.stopped() {
			return 1
		}
		return 0
	}
	total := 0
	for _, p := range it.paths {
		for _, x := range p.items {
			if x.loop != nil {
				q.giveUp("loops in loops")
				return 0
			}
			if x.self {
				continue
			}
			v := stripConv(x.val)
			var cands []*Term
			known := false
			switch {
			case v.op == "attr" && baseRole(v) == rChildren && len(v.args) == 2:
				cands, known = q.rounds(it.loop, v.args[1], slot)
			case v.op == "child":
				cands, known = q.rounds(it.loop, v.args[1], b)
			case v.op == "attr" && baseRole(v) == rLeaf:
				known = true
			}
			if q.stopped() {
				return 0
			}
			if !known {
				q.giveUp("%s is put on the sequence", v)
				return 0
			}
			for _, i := range cands {
				if !q.ran(it.loop, i, nil) {
					if q.stopped() {
						return 0
					}
					continue
				}
				in := &iter{it.loop, i, nil}
				if !q.takes(it.loop, p.st, in) {
					if q.stopped() {
						return 0
					}
					continue
				}
				got := q.resolve(v, p.st.mem, in)
				if q.childIs(got, n, b, ch) && !q.stopped() {
					total++
				}
				if q.stopped() {
					return 0
				}
			}
		}
	}
	return total
}

// childIs: the term is the child for the byte.
func (q *slotQuery) childIs(v, n, b, ch *Term) bool {
	if v == nil || q.stopped() {
		return false
	}
	v = stripConv(v)
	if v.op == "child" && v.args[0] == n {
		return q.is(q.e.eqInt(v.args[1], b))
	}
	if v.op == "attr" && baseRole(v) == rChildren && len(v.args) == 2 && v.args[0] == n {
		return q.equal(v, ch)
	}
	return false
}

// order: the nodes put on last are visited first.
func (r *round) order(st *State, lay *layout) {
	e, res := r.t.e, r.t.res
	bad := ""
	kids, first, leafAt, kidAt := 0, 0, -1, -1
	inc := r.t.down || r.t.walk // in the order of the items
	for i, it := range r.seq.items {
		if it.loop == nil {
			if it.self || it.val == e.t.mk("attr", rLeaf, r.n) {
				leafAt = i
			} else {
				kids++
				kidAt = i
			}
			continue
		}
		kids++
		kidAt = i
		d, byByte := e.direction(it, r.n, lay)
		if !byByte {
			bad = "the children are visited in the order of their slots, not of their bytes"
		}
		first = d
	}
	if r.t.path {
		first, bad = 0, ""
	}
	if kids > 1 {
		return
	}
	switch {
	case r.late:
		bad = ""
		if !r.t.path && kids > 0 {
			bad = "the children are visited after the nodes waiting"
		}
	case bad != "":
	case first > 0 && !inc:
		bad = "the children are visited in descending order"
	case first < 0 && inc:
		bad = "the children are visited in ascending order"
		if r.t.walk {
			bad = "the children are visited in descending order"
		}
	case leafAt >= 0 && kidAt >= 0 && (leafAt < kidAt) != inc:
		bad = "the entry of the node is visited after its children"
		if r.t.down {
			bad = "the entry of the node is visited before its children"
		}
	case r.t.down && r.ret && r.okay && kidAt >= 0 && entryOf(r.key, rKey) == e.t.mk("attr", rLeaf, r.n):
		bad = "the entry of the node is returned before its children"
	}
	res.ob(bad == "", Finding{Rule: "order", At: r.at(), Func: fname(r.t.f), Msg: fmt.Sprintf("for a %s: %s", lay.name, bad), Path: e.pathOf(st)})
}

// direction: whether later rounds of a loop deal with higher bytes.
func (e *Eng) direction(it seqItem, n *Term, lay *layout) (dir int, byByte bool) {
	c, step, ok := it.loop.counter()
	if !ok {
		return 0, true
	}
	i := it.loop.syms[c]
	for _, p := range it.paths {
		for _, x := range p.items {
			if x.self {
				continue
			}
			v := stripConv(x.val)
			if v == nil || len(v.args) != 2 {
				continue
			}
			idx := v.args[1]
			if v.op == "attr" && baseRole(v) == rChildren && lay.kind == layMap {
				// through the map
				var key *Term
				for _, a := range idx.linOf().atoms {
					if a.op == "attr" && baseRole(a) == rKeys && len(a.args) == 2 {
						key = a
					}
				}
				if key == nil {
					return 0, false
				}
				idx = key.args[1]
			}
			l := idx.linOf()
			for k, a := range l.atoms {
				if a == i {
					if l.coef[k] > 0 {
						return int(step), true
					}
					return -int(step), true
				}
			}
		}
	}
	return 0, true
}

// entry: the entry of the node is returned, put on the sequence or looked at.
func (r *round) entry(st *State, l *Term) {
	e, res := r.t.e, r.t.res
	if v, ok := e.decide(st, e.eq(l, e.t.tnil)); ok && v {
		return
	}
	done := r.key != nil && entryOf(r.key, rKey) == l
	for _, it := range r.seq.items {
		done = done || it.loop == nil && (it.val == l || it.self)
	}
	if !done {
		k := e.t.mk("attr", rKey, l)
		for _, f := range st.facts {
			done = done || f.t.mentions(k)
		}
	}
	res.count("entries met by traversals", 1)
	res.ob(done, Finding{Rule: "entry-visited", At: r.at(), Func: fname(r.t.f), Msg: fmt.Sprintf("the entry %s is passed over", l), Path: e.pathOf(st)})
}

// ruleGoal reports a goal about the slots of a node under a rule.
func (op *slotOp) ruleGoal(rule, at string, st *State, what string, inv *nodeInv, goal func(q *slotQuery) verdict) {
	e := op.e
	v := e.prove(st, inv, 14, goal)
	op.res.count("goals", 1)
	switch v.v {
	case unknown:
		op.res.count("goals not decided", 1)
		if debugSlots {
			fmt.Printf("UNDECIDED %s %s: %s: %s\n     %s\n", op.lay.name, at, what, v.msg, e.pathOf(st))
		}
	case yes, vacuous:
		op.res.count("goals established", 1)
	}
	msg := what
	if v.msg != "" {
		msg += ": " + v.msg
	}
	op.res.ob(v.v != no, Finding{Rule: rule, At: at, Func: fname(op.f), Msg: fmt.Sprintf("for a %s: %s", op.lay.name, msg), Path: e.pathOf(st)})
	if v.v == no && debugSlots {
		for _, f := range v.st.facts {
			fmt.Println("      ", f.t, f.v)
		}
		for _, l := range v.st.les {
			fmt.Println("       <=0", e.t.fromLin(l))
		}
	}
}

// walkers finds the functions that visit a subtree by calling themselves.
func (c *Ctx) walkers() []*ssa.Function {
	is := func(f *ssa.Function) bool { return c.walkParams(f) >= 0 && selfCalls(f, f, nil) }
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if !seen[f] && is(f) {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, f := range c.r.apiRoots() {
		if c.walkParams(f) >= 0 {
			add(f)
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						add(g)
					}
				}
			}
		}
	}
	return out
}

// walkParams: the parameter for the node, of functions with a call-back.
func (c *Ctx) walkParams(f *ssa.Function) int {
	n, cb := -1, false
	for i, p := range f.Params {
		if c.r.isNodeVal(p.Type()) && n < 0 {
			n = i
		}
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			cb = true
		}
	}
	if !cb {
		return -1
	}
	return n
}

// selfCalls: the function calls itself, perhaps through another.
func selfCalls(f, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen == nil {
		seen = map[*ssa.Function]bool{}
	}
	if seen[g] {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h != nil {
					if h == f || selfCalls(f, h, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// checkWalker: a function that visits a subtree by calling itself.
func (c *Ctx) checkWalker(f *ssa.Function, res *Result) {
	e := newEng(c)
	e.ignore = trackRoles
	np := c.walkParams(f)
	e.hook = func(e *Eng, st *State, in ssa.CallInstruction, g *ssa.Function, args []*Term) ([]outcome, bool) {
		if g != f {
			return nil, false
		}
		var rs []*Term
		for _, t := range resultTypes(g.Signature) {
			rs = append(rs, e.typed(e.sym("visit"), t))
		}
		e.note(st, nil, &event{kind: "visit", args: args[np : np+1], res: rs, pos: in.Pos()})
		return []outcome{{st: st, res: rs}}, true
	}
	args := e.params(f)
	outs := e.Run(f, args, &State{})
	if e.err != "" {
		engErr(res, e)
		return
	}
	res.count("branches followed", e.states)
	n := args[np]
	boolR := -1
	for i, t := range resultTypes(f.Signature) {
		if basicInfo(t)&types.IsBoolean != 0 {
			boolR = i
		}
	}
	t := &trav{c: c, e: e, f: f, res: res, walk: true, any: true}
	items := func(st *State, from *event) []seqItem {
		var out []seqItem
		for v := st.ev; v != nil && v != from; v = v.prev {
			switch {
			case v.kind == "visit":
				out = append(out, seqItem{val: e.norm(st, v.args[0])})
			case v.kind == "callback" && len(v.args) == 2:
				t.any = false
				if l := entryOf(e.norm(st, v.args[0]), rKey); l != nil && (l == n || l == e.t.mk("attr", rLeaf, n)) {
					out = append(out, seqItem{self: true})
				}
			case v.kind == "callback" && len(v.args) == 1:
				if e.norm(st, v.args[0]) == n {
					out = append(out, seqItem{self: true})
				}
			}
		}
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
		return out
	}
	answers := map[*Term]bool{}
	visit := func(st *State) {
		for v := st.ev; v != nil; v = v.prev {
			if (v.kind == "visit" || v.kind == "callback") && len(v.res) == 1 {
				answers[v.res[0]] = true
			}
		}
	}
	for _, o := range outs {
		visit(o.st)
	}
	for _, l := range e.loops {
		for _, b := range l.backs {
			visit(b.st)
		}
	}
	for _, l := range e.loops {
		// variables for an answer
		for i, s := range l.syms {
			is := l.phis[i].entry != nil && l.phis[i].entry == e.t.boolT(false)
			for _, b := range l.phis[i].backs {
				is = is && (answers[b.val] || b.val == s || b.val == e.t.boolT(false))
			}
			if is {
				answers[s] = true
			}
		}
	}
	asked := func(st *State) bool {
		for a := range answers {
			if v, ok := e.decide(st, a); ok && v {
				return true
			}
		}
		return false
	}
	if boolR >= 0 {
		// an answer that is not looked at
		for _, l := range e.loops {
			for _, b := range l.backs {
				for v := b.st.ev; v != nil && v != l.head.ev; v = v.prev {
					if len(v.res) != 1 || !answers[v.res[0]] {
						continue
					}
					x, ok := e.decide(b.st, v.res[0])
					kept := ok && !x
					for _, p := range l.phis {
						for _, y := range p.backs {
							kept = kept || y.val.mentions(v.res[0])
						}
					}
					res.ob(kept, Finding{Rule: "stops", At: c.p.pos(v.pos), Func: fname(f), Msg: "the walk goes on although the function called asked to stop it", Path: e.pathOf(b.st)})
				}
			}
		}
	}
	for _, o := range outs {
		st := o.st
		if boolR >= 0 {
			// told to stop
			stop := st.clone()
			if e.assume(stop, o.res[boolR], true) {
				told := asked(stop)
				res.count("early ends", 1)
				res.ob(told || e.opaqueIn(stop) != nil, Finding{Rule: "goes-on", At: e.retPos(o), Func: fname(f), Msg: "the walk is stopped although the function called did not ask for it", Path: e.pathOf(st)})
			}
			st = st.clone()
			if !e.assume(st, o.res[boolR], false) {
				continue
			}
			told := asked(st)
			res.ob(!told, Finding{Rule: "stops", At: e.retPos(o), Func: fname(f), Msg: "the walk goes on although the function called asked to stop it", Path: e.pathOf(st)})
			if told {
				continue
			}
		}
		s := &seq{}
		pos := func(v *event) int {
			k := 0
			for ; v != nil; v = v.prev {
				k++
			}
			return k
		}
		type at struct {
			k  int
			it seqItem
		}
		var all []at
		for v := st.ev; v != nil; v = v.prev {
			for _, it := range items(&State{ev: v, mem: st.mem, facts: st.facts, kinds: st.kinds, les: st.les}, v.prev) {
				all = append(all, at{2 * pos(v), it})
			}
		}
		for l := st.loops; l != nil; l = l.prev {
			it := seqItem{loop: l.info}
			for _, b := range l.info.backs {
				if xs := items(b.st, l.info.head.ev); len(xs) > 0 {
					it.paths = append(it.paths, seqPath{b.st, xs})
				}
			}
			if len(it.paths) > 0 {
				all = append(all, at{2*pos(l.info.head.ev) + 1, it})
			}
		}
		for len(all) > 0 {
			m := 0
			for i := range all {
				if all[i].k < all[m].k {
					m = i
				}
			}
			s.add(false, all[m].it)
			all = append(all[:m], all[m+1:]...)
		}
		o.st = st
		r := &round{t: t, o: o, n: n, seq: s, ret: true}
		r.check()
	}
	res.count("traversals by recursion", 1)
}

func checkC21(c *Ctx, res *Result) {
	res.explanation = "Array dataflow over value terms: for every way through one round of a traversal, what is added to its sequence of nodes is read off the terms for that sequence; for an arbitrary child of each layout exactly one addition must deliver it, in the order of key bytes, and the node's own entry must be returned, added or looked at."
	res.assumptions = append(res.assumptions,
		"nodes have the form that C19 shows to be kept: a child for each used key byte, slots that are not used are empty",
		"a node lies below one other node only, so a subtree is visited as often as its root is put on the sequence")
	path := map[*ssa.Function]bool{}
	for _, r := range c.boundRules("path") {
		path[r.yield] = true
	}
	for _, f := range c.iterYields() {
		e := newEng(c)
		e.ignore = trackRoles
		args := e.params(f)
		outs := e.Run(f, args, &State{})
		if e.err != "" {
			engErr(res, e)
			return
		}
		res.count("branches followed", e.states)
		ts := c.travLoops(e, f, res)
		for _, t := range ts {
			t.down = f.Name() == "Previous"
			t.path = path[f]
			for _, r := range t.rounds(outs) {
				r.check()
			}
		}
		if len(ts) > 0 {
			res.count("traversals by an iterator", 1)
		}
	}
	for _, f := range c.walkers() {
		c.checkWalker(f, res)
	}
	res.floor("traversals by an iterator", 2)
	res.floor("rounds of traversals", 20)
}
