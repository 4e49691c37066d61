package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// How a kind of node stores its children.
const (
	layList   = iota // sorted keys, child i belongs to key i
	layMap           // a slot number for each byte
	layDirect        // a child for each byte
)

type layout struct {
	name       string
	kind       int
	bit        uint
	keys, slot int64
}

func (e *Eng) layouts() []*layout {
	var out []*layout
	for i, n := range e.kinds {
		if e.leafB&(1<<i) != 0 {
			continue
		}
		ch, ok := e.arrayLen(n, rChildren)
		if !ok {
			continue
		}
		l := &layout{name: n.Obj().Name(), bit: 1 << i, slot: ch}
		l.keys, ok = e.arrayLen(n, rKeys)
		switch {
		case !ok && ch == 256:
			l.kind = layDirect
		case ok && l.keys == ch:
			l.kind = layList
		case ok && l.keys == 256:
			l.kind = layMap
		default:
			continue
		}
		out = append(out, l)
	}
	return out
}

func (e *Eng) layoutOf(st *State, n *Term) *layout {
	m := e.mask(st, n)
	for _, l := range e.layouts() {
		if m == l.bit {
			return l
		}
	}
	return nil
}

// nodeInv is what holds of the node before the operation.
type nodeInv struct {
	e      *Eng
	n      *Term
	lay    *layout
	num    *Term
	absent []*Term // bytes without a child
	points []*Term // slots that matter
	free   *Term   // a slot that no byte uses
}

func (e *Eng) keyAt(n, x *Term) *Term {
	return e.typed(e.t.mk("attr", rKeys, n, x), types.Typ[types.Uint8])
}

func (e *Eng) childAt(n, x *Term) *Term {
	return e.typed(e.t.mk("attr", rChildren, n, x), e.c.r.nodeIface)
}

func (e *Eng) numOf(n *Term) *Term {
	return e.typed(e.t.mk("attr", rNum, n), types.Typ[types.Uint16])
}

func (e *Eng) lt(a, b *Term) *Term { return e.le(e.t.add(a, e.t.intT(1)), b) }

func (inv *nodeInv) sure(q *slotQuery, c *Term) bool {
	v, ok := q.raw(c)
	return ok && v
}

// learn adds a fact; a contradiction shows up later.
func (q *slotQuery) learn(c *Term, v bool) {
	if c.op == "not" {
		c, v = c.args[0], !v
	}
	if b, ok := c.isBool(); ok {
		if b != v {
			q.st.les = append(q.st.les, &linear{k: 1})
		}
		return
	}
	for _, f := range q.st.facts {
		if f.t == c {
			if f.v != v {
				q.st.les = append(q.st.les, &linear{k: 1})
			}
			return
		}
	}
	q.st.facts = append(q.st.facts, fact{c, v})
	switch c.op {
	case "le0":
		l := c.args[0].linOf()
		if !v {
			l = neg1(l)
		}
		q.st.les = append(q.st.les, l)
	case "eq0":
		l := c.args[0].linOf()
		if v {
			q.st.les = append(q.st.les, l, linNeg(l))
		} else {
			q.apart(l)
		}
	case "kin":
		q.e.assume(q.st, c, v)
	}
}

// facts adds what is known of the elements that came up.
func (inv *nodeInv) facts(q *slotQuery) {
	for round := 0; round < 3; round++ {
		q.stale = false
		before := len(q.st.facts) + len(q.st.les)
		inv.scan(q)
		inv.pass(q)
		if !q.stale && len(q.st.facts)+len(q.st.les) == before {
			return
		}
	}
	q.stale = false
}

// scan finds elements that facts mention.
func (inv *nodeInv) scan(q *slotQuery) {
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "attr" && len(t.args) == 2 && (t.aux == rKeys || t.aux == rChildren) {
			q.came(t)
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.op == "lin" {
			for _, a := range t.lin.atoms {
				walk(a)
			}
		}
	}
	for _, f := range q.st.facts {
		walk(f.t)
		if f.t.op == "eq0" && !f.v {
			q.apart(f.t.args[0].linOf())
		}
	}
}

// apart: different and ordered is strictly ordered.
func (q *slotQuery) apart(l *linear) {
	for _, l := range []*linear{l, linNeg(l)} {
		strict := linAdd(l, &linear{k: 1}, 1)
		if q.e.linImpossible(q.st.les, neg1(l)) {
			if !q.e.linImpossible(q.st.les, neg1(strict)) {
				q.st.les = append(q.st.les, strict)
			}
			return
		}
	}
}

func (inv *nodeInv) pass(q *slotQuery) {
	e := inv.e
	zero := e.t.intT(0)
	var reads []*Term
	for t := range q.reads {
		reads = append(reads, t)
	}
	sort.Slice(reads, func(i, j int) bool { return reads[i].id < reads[j].id })
	idxs := map[*Term]bool{}
	var xs []*Term
	note := func(x *Term) {
		if !idxs[x] {
			idxs[x] = true
			xs = append(xs, x)
		}
	}
	for _, p := range inv.points {
		note(p)
	}
	for _, t := range reads {
		if inv.lay.kind != layMap || t.aux == rKeys {
			note(t.args[1])
		}
	}
	for _, s := range q.usedSearches() {
		note(s)
		note(e.t.sub(s, e.t.intT(1)))
	}
	for l := q.st.loops; l != nil; l = l.prev {
		if c, _, ok := l.info.counter(); ok {
			note(l.info.syms[c])
		}
	}
	q.searchFacts(xs)
	q.roundFacts(xs)
	switch inv.lay.kind {
	case layList:
		in := map[*Term]bool{}
		for _, x := range xs {
			switch {
			case inv.sure(q, e.le(inv.num, x)):
				q.learn(e.eq(e.childAt(inv.n, x), e.t.tnil), true)
			case inv.sure(q, e.le(zero, x)) && inv.sure(q, e.lt(x, inv.num)):
				in[x] = true
				k := e.keyAt(inv.n, x)
				for _, v := range inv.absent {
					q.learn(e.eqInt(k, v), false)
				}
				q.learn(e.eq(e.childAt(inv.n, x), e.t.tnil), false)
			}
		}
		for i, x := range xs {
			for _, y := range xs[:i] {
				if !in[x] || !in[y] {
					continue
				}
				kx, ky := e.keyAt(inv.n, x), e.keyAt(inv.n, y)
				switch {
				case inv.sure(q, e.lt(x, y)):
					q.learn(e.lt(kx, ky), true)
				case inv.sure(q, e.lt(y, x)):
					q.learn(e.lt(ky, kx), true)
				case inv.sure(q, e.eqInt(x, y)):
					q.learn(e.eqInt(kx, ky), true)
				case inv.sure(q, e.eqInt(kx, ky)):
					q.learn(e.eqInt(x, y), true)
				case inv.sure(q, e.lt(kx, ky)):
					q.learn(e.lt(x, y), true)
				case inv.sure(q, e.lt(ky, kx)):
					q.learn(e.lt(y, x), true)
				}
			}
		}
	case layMap:
		var used []*Term
		for _, x := range xs {
			if !inv.sure(q, e.le(zero, x)) || !inv.sure(q, e.lt(x, e.t.intT(256))) {
				continue
			}
			m := e.keyAt(inv.n, x)
			q.st.les = append(q.st.les, linAdd(m.linOf(), &linear{k: -inv.lay.slot}, 1))
			for _, v := range inv.absent {
				if inv.sure(q, e.eqInt(x, v)) {
					q.learn(e.eqInt(m, zero), true)
				}
			}
			if inv.sure(q, e.not(e.eqInt(m, zero))) {
				used = append(used, x)
				q.learn(e.eq(e.childAt(inv.n, e.t.sub(m, e.t.intT(1))), e.t.tnil), false)
			}
			if inv.free != nil {
				q.learn(e.eqInt(m, e.t.add(inv.free, e.t.intT(1))), false)
			}
		}
		for i, x := range used {
			for _, y := range used[:i] {
				mx, my := e.keyAt(inv.n, x), e.keyAt(inv.n, y)
				switch {
				case inv.sure(q, e.eqInt(x, y)):
					q.learn(e.eqInt(mx, my), true)
				case inv.sure(q, e.not(e.eqInt(x, y))):
					q.learn(e.eqInt(mx, my), false)
				}
			}
		}
	case layDirect:
		for _, x := range xs {
			for _, v := range inv.absent {
				if inv.sure(q, e.eqInt(x, v)) {
					q.learn(e.eq(e.childAt(inv.n, x), e.t.tnil), true)
				}
			}
		}
	}
}

func (q *slotQuery) usedSearches() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, l := range q.st.les {
		for _, a := range l.atoms {
			if q.e.searches[a] != nil && !seen[a] {
				seen[a] = true
				out = append(out, a)
			}
		}
	}
	return out
}

// searchFacts adds what binary searches found out about indexes.
func (q *slotQuery) searchFacts(xs []*Term) {
	e := q.e
	for _, s := range q.usedSearches() {
		si := e.searches[s]
		if si.in != nil {
			q.indexFacts(s, si, xs)
			continue
		}
		sub := &slotQuery{e: e, st: q.st, inv: q.inv, reads: q.reads}
		n := sub.resolve(si.n, si.mem, nil)
		if n == nil {
			continue
		}
		for _, x := range xs {
			if v, ok := q.raw(e.le(e.t.intT(0), x)); !ok || !v {
				continue
			}
			before, ok1 := q.raw(e.lt(x, s))
			within, ok2 := q.raw(e.lt(x, n))
			if !ok1 || !before && (!ok2 || !within) {
				continue
			}
			c := e.predicate(si, x)
			if c == nil {
				continue
			}
			sub := &slotQuery{e: e, st: q.st, inv: q.inv, reads: q.reads}
			if c = sub.resolve(c, si.mem, nil); c != nil {
				q.learn(c, !before)
			}
		}
	}
}

// indexFacts adds what looking for a byte found out.
func (q *slotQuery) indexFacts(s *Term, si *searchInfo, xs []*Term) {
	e := q.e
	obj, role, off := e.sliceLoc(si.in)
	elem := func(i *Term) *Term {
		sub := &slotQuery{e: e, st: q.st, inv: q.inv, reads: q.reads}
		v := sub.get(si.mem, obj, role, e.t.add(off, i), types.Typ[types.Uint8], nil)
		if sub.stopped() {
			return nil
		}
		return v
	}
	sure := func(c *Term) bool {
		v, ok := q.raw(c)
		return ok && v
	}
	found := sure(e.le(e.t.intT(0), s))
	missing := sure(e.lt(s, e.t.intT(0)))
	if found {
		if v := elem(s); v != nil {
			q.learn(e.eqInt(v, si.val), true)
		}
	}
	sub := &slotQuery{e: e, st: q.st, inv: q.inv, reads: q.reads}
	n := sub.resolve(si.n, si.mem, nil)
	for _, x := range xs {
		i := e.t.sub(x, off)
		if !sure(e.le(e.t.intT(0), i)) {
			continue
		}
		if found && sure(e.lt(i, s)) || missing && n != nil && sure(e.lt(i, n)) {
			if v := elem(i); v != nil {
				q.learn(e.eqInt(v, si.val), false)
			}
		}
	}
}

// roundFacts adds what every completed round of a loop established.
func (q *slotQuery) roundFacts(xs []*Term) {
	e := q.e
	for l := q.st.loops; l != nil; l = l.prev {
		info := l.info
		c, step, ok := info.counter()
		if !ok || len(info.backs) != 1 {
			continue
		}
		b := info.backs[0].st
		q.counted(info, c, step, b)
		// the rounds that deal with one of the places
		var at []*Term
		at = append(at, xs...)
		offs := map[int64]bool{0: true}
		for _, f := range b.facts[len(info.head.facts):] {
			if r := arrayRead(f.t); r != nil {
				if d, ok := diffConst(r.args[1], info.syms[c]); ok && !offs[d] {
					offs[d] = true
					for _, x := range xs {
						at = append(at, e.t.sub(x, e.t.intT(d)))
					}
				}
			}
		}
		for _, x := range at {
			lo, hi := info.phis[c].entry, info.syms[c]
			if step < 0 {
				lo, hi = e.t.add(hi, e.t.intT(1)), e.t.add(lo, e.t.intT(1))
			}
			if v, ok := q.raw(e.le(lo, x)); !ok || !v {
				continue
			}
			if v, ok := q.raw(e.lt(x, hi)); !ok || !v {
				continue
			}
			in := &iter{info, x, nil}
			for _, f := range b.facts[len(info.head.facts):] {
				if !info.varies(f.t) {
					continue
				}
				sub := &slotQuery{e: e, st: q.st, inv: q.inv, reads: q.reads}
				if cond := sub.resolve(f.t, b.mem, in); cond != nil {
					q.learn(cond, f.v)
				}
			}
		}
	}
}

// counted: a loop that only goes past children goes round at most as often as
// there are children.
func (q *slotQuery) counted(info *loopInfo, c int, step int64, b *State) {
	e := q.e
	if q.inv == nil || q.inv.lay.kind != layMap || step != 1 {
		return
	}
	from, ok := info.phis[c].entry.isInt()
	if !ok {
		return
	}
	for _, f := range b.facts[len(info.head.facts):] {
		if f.t.op != "eq" || f.v || !f.t.args[1].isNil() {
			continue
		}
		sub := &slotQuery{e: e, st: q.st, inv: q.inv, reads: q.reads}
		ch := sub.resolve(f.t.args[0], b.mem, &iter{info, info.syms[c], nil})
		if ch != nil && ch.op == "attr" && ch.aux == rChildren && ch.args[0] == q.inv.n {
			if d, ok := diffConst(ch.args[1], info.syms[c]); ok && from+d >= 0 {
				q.learn(e.le(e.t.sub(info.syms[c], info.phis[c].entry), q.inv.num), true)
			}
		}
	}
}

// equal compares two contents.
func (q *slotQuery) equal(a, b *Term) bool {
	e := q.e
	if q.stopped() || a == nil || b == nil {
		return false
	}
	if a == b || e.origin(a) == e.origin(b) {
		return true
	}
	if a.op == "attr" && b.op == "attr" && len(a.args) == 2 && len(b.args) == 2 && a.aux == b.aux && a.args[0] == b.args[0] {
		if a.aux == rChildren {
			// different slots have different children
			return q.is(e.eqInt(a.args[1], b.args[1]))
		}
		if v, ok := q.decide(e.eqInt(a, b)); ok {
			return v
		}
		return q.is(e.eqInt(a.args[1], b.args[1]))
	}
	if a.isNil() {
		a, b = b, a
	}
	if b.isNil() {
		return q.is(e.eq(a, b))
	}
	if isNum(a) || isNum(b) {
		return q.is(e.eqInt(a, b))
	}
	if e.allocs[a] != nil || e.allocs[b] != nil || a.op == "param" || b.op == "param" {
		return false
	}
	q.giveUp("comparison of %s and %s", a, b)
	return false
}

func isNum(t *Term) bool {
	return t.op == "lin" || t.typ != nil && basicInfo(t.typ)&types.IsInteger != 0
}

// slotOp is an operation on the children of one node.
type slotOp struct {
	c    *Ctx
	e    *Eng
	res  *Result
	f    *ssa.Function
	role int
	lay  *layout
	n    *Term
	b    *Term // the byte
	ch   *Term // added
	p    *Term // slot of the removed child
	inv  *nodeInv
}

// slotRoots: the functions that add or remove a child, as called from elsewhere.
func (c *Ctx) slotRoots(role int) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.p.funcs {
		if c.nodeFn(f) != role {
			continue
		}
		root := false
		for _, g := range c.p.funcs {
			if c.nodeFn(g) == role {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
						root = true
					}
				}
			}
		}
		if root {
			out = append(out, f)
		}
	}
	return out
}

func (c *Ctx) slotOps(res *Result, role int) {
	for _, f := range c.slotRoots(role) {
		kinds := newEng(c).layouts()
		for i := range kinds {
			e := newEng(c)
			e.ignore = trackRoles
			e.openFind, e.openAll = true, true
			op := &slotOp{c: c, e: e, res: res, f: f, role: role, lay: e.layouts()[i]}
			args := e.params(f)
			st := op.begin(args)
			if st == nil {
				continue
			}
			outs := e.Run(f, args, st)
			if e.err != "" {
				engErr(res, e)
				return
			}
			res.count("branches followed", e.states)
			for _, o := range outs {
				op.outcome(o)
			}
		}
	}
}

// begin finds the parts of the operation among the arguments.
func (op *slotOp) begin(args []*Term) *State {
	c, e, f := op.c, op.e, op.f
	var nodes []*Term
	for i, p := range f.Params {
		switch {
		case i == 0 && f.Signature.Recv() != nil && !c.r.isNodeVal(p.Type()):
		case c.r.isNodeVal(p.Type()):
			nodes = append(nodes, args[i])
		case basicKind(p.Type()) == types.Uint8:
			op.b = args[i]
		}
	}
	if len(nodes) == 0 || op.b == nil {
		return nil
	}
	op.n = nodes[0]
	if len(nodes) > 1 {
		op.ch = nodes[1]
	}
	st := &State{}
	if !e.restrict(st, op.n, op.lay.bit) {
		return nil
	}
	if op.ch != nil {
		e.restrict(st, op.ch, e.allB&^e.leafB)
	}
	op.start(st)
	return st
}

func (op *slotOp) start(st *State) {
	e := op.e
	num := e.numOf(op.n)
	op.inv = &nodeInv{e: e, n: op.n, lay: op.lay, num: num}
	st.les = append(st.les, linAdd(num.linOf(), &linear{k: -op.lay.slot}, 1))
	q := &slotQuery{e: e, st: st, inv: op.inv}
	if op.role == fnAdd {
		op.inv.absent = append(op.inv.absent, op.b)
		st.les = append(st.les, linAdd(num.linOf(), &linear{k: -255}, 1))
		switch op.lay.kind {
		case layMap:
			q.learn(e.eqInt(e.keyAt(op.n, op.b), e.t.intT(0)), true)
		case layDirect:
			q.learn(e.eq(e.childAt(op.n, op.b), e.t.tnil), true)
		}
		return
	}
	// what is removed is there
	st.les = append(st.les, linAdd(&linear{k: 1}, num.linOf(), -1))
	switch op.lay.kind {
	case layList:
		op.p = e.typed(e.t.mk("sym", "slot.of.removed"), types.Typ[types.Int])
		q.learn(e.le(e.t.intT(0), op.p), true)
		q.learn(e.lt(op.p, num), true)
		q.learn(e.eqInt(e.keyAt(op.n, op.p), op.b), true)
		op.inv.points = append(op.inv.points, op.p)
	case layMap:
		q.learn(e.eqInt(e.keyAt(op.n, op.b), e.t.intT(0)), false)
	case layDirect:
		q.learn(e.eq(e.childAt(op.n, op.b), e.t.tnil), false)
	}
}

// pair: an arbitrary child of the old node.
func (op *slotOp) pair(st *State) (b, ch, slot *Term, inv *nodeInv) {
	e := op.e
	i2 := *op.inv
	inv = &i2
	q := &slotQuery{e: e, st: st, inv: inv}
	switch op.lay.kind {
	case layList:
		j := e.typed(e.t.mk("sym", "any.slot"), types.Typ[types.Int])
		q.learn(e.le(e.t.intT(0), j), true)
		q.learn(e.lt(j, op.inv.num), true)
		inv.points = append([]*Term{j}, op.inv.points...)
		return e.keyAt(op.n, j), e.childAt(op.n, j), j, inv
	case layMap:
		b = e.typed(e.t.mk("sym", "any.byte"), types.Typ[types.Uint8])
		m := e.keyAt(op.n, b)
		q.learn(e.eqInt(m, e.t.intT(0)), false)
		slot = e.t.sub(m, e.t.intT(1))
		return b, e.childAt(op.n, slot), slot, inv
	}
	b = e.typed(e.t.mk("sym", "any.byte"), types.Typ[types.Uint8])
	q.learn(e.eq(e.childAt(op.n, b), e.t.tnil), false)
	return b, e.childAt(op.n, b), b, inv
}

// lookup: the child of a result node for a byte, and whether there is one.
func (op *slotOp) lookup(q *slotQuery, r *Term, lay *layout, b *Term) *Term {
	e := op.e
	mem := q.st.mem
	switch lay.kind {
	case layMap:
		m := q.get(mem, r, rKeys, b, types.Typ[types.Uint8], nil)
		if q.stopped() {
			return nil
		}
		if q.is(e.eqInt(m, e.t.intT(0))) || q.stopped() {
			return e.t.tnil
		}
		return q.get(mem, r, rChildren, e.t.sub(m, e.t.intT(1)), nil, nil)
	case layDirect:
		return q.get(mem, r, rChildren, b, nil, nil)
	}
	return nil
}

// holds: the result has the child under the byte.
func (op *slotOp) holds(q *slotQuery, r *Term, lay *layout, num, b, ch, slot *Term) verdict {
	e := op.e
	if lay.kind != layList {
		got := op.lookup(q, r, lay, b)
		if q.stopped() {
			return verdict{}
		}
		if q.equal(got, ch) {
			return verdict{v: yes}
		}
		return verdict{v: no, msg: fmt.Sprintf("the child %s is expected, but %s is stored", ch, got)}
	}
	var cands []*Term
	if op.lay.kind != layList {
		slot = nil
	}
	if slot != nil {
		cands = append(cands, slot, e.t.add(slot, e.t.intT(1)), e.t.sub(slot, e.t.intT(1)))
	}
	cands = append(cands, op.written(q, r, b)...)
	wrong := ""
	for _, w := range cands {
		if w.op == "at" {
			// the counter numbers the children from its first value on
			if pi := q.counterOf(w); pi == nil || pi.entry == nil {
				continue
			} else if !q.equal(pi.entry, e.t.intT(0)) {
				if q.stopped() {
					return verdict{}
				}
				wrong = fmt.Sprintf("the children are stored from slot %s on", pi.entry)
				continue
			}
		} else if !q.le(e.t.intT(0), w) || !q.lt(w, num) {
			if q.stopped() {
				return verdict{}
			}
			continue
		}
		k := q.get(q.st.mem, r, rKeys, w, types.Typ[types.Uint8], nil)
		if q.fail != "" {
			continue
		}
		same := q.equal(k, b)
		if q.stopped() {
			return verdict{}
		}
		if !same {
			continue
		}
		got := q.get(q.st.mem, r, rChildren, w, nil, nil)
		if q.equal(got, ch) {
			return verdict{v: yes}
		}
		if q.stopped() {
			return verdict{}
		}
		wrong = fmt.Sprintf("slot %s has the key byte %s, but the child %s instead of %s", w, b, got, ch)
	}
	if q.stopped() {
		return verdict{}
	}
	if wrong == "" {
		wrong = fmt.Sprintf("no slot has the key byte %s", b)
	}
	return verdict{v: no, msg: wrong}
}

// counterOf: the variable of a loop whose value in a round the term is.
func (q *slotQuery) counterOf(t *Term) *phiInfo {
	for s, p := range q.e.phis {
		if s.aux == t.aux {
			return p
		}
	}
	return nil
}

// written: slots of the result that were written one by one.
func (op *slotOp) written(q *slotQuery, r, b *Term) []*Term {
	var out []*Term
	for m := q.st.mem; m != nil; m = m.next {
		if m.role != rKeys || m.obj != r {
			continue
		}
		switch {
		case m.idx != nil:
			out = append(out, m.idx)
		case m.loop != nil:
			ws, ok := op.e.loopWrites(m.loop, r, rKeys)
			if !ok {
				continue
			}
			for _, w := range ws {
				// the round that stores the byte
				sub := &slotQuery{e: op.e, st: q.st, inv: q.inv}
				is, ok := sub.rounds(m.loop, w.m.val, b)
				if !ok || sub.stopped() {
					continue
				}
				for _, i := range is {
					if x := sub.inRound(w.idx, &iter{m.loop, i, nil}); !sub.stopped() {
						out = append(out, x)
					}
				}
			}
		}
	}
	return out
}

func (op *slotOp) goal(o outcome, what string, st *State, inv *nodeInv, goal func(q *slotQuery) verdict) {
	e := op.e
	v := e.prove(st, inv, 14, goal)
	op.res.count("goals", 1)
	switch v.v {
	case unknown:
		op.res.count("goals not decided", 1)
		if debugSlots {
			fmt.Printf("UNDECIDED %s %s: %s: %s\n     %s\n", op.lay.name, e.retPos(o), what, v.msg, e.pathOf(o.st))
		}
	case yes, vacuous:
		op.res.count("goals established", 1)
	}
	msg := what
	if v.msg != "" {
		msg += ": " + v.msg
	}
	op.res.ob(v.v != no, Finding{Rule: "children-kept", At: e.retPos(o), Func: fname(op.f), Msg: fmt.Sprintf("for a %s: %s", op.lay.name, msg), Path: e.pathOf(o.st)})
	if v.v == no && debugSlots {
		for _, f := range v.st.facts {
			fmt.Println("      ", f.t, f.v)
		}
		for _, l := range v.st.les {
			fmt.Println("       <=0", e.t.fromLin(l))
		}
	}
}

var debugSlots = os.Getenv("DEBUG_SLOTS") != ""

// settle splits the cases of where the removed child is.
func (op *slotOp) settle(q *slotQuery) bool {
	if op.p == nil {
		return true
	}
	var at []*Term
	at = append(at, q.usedSearches()...)
	for l := q.st.loops; l != nil; l = l.prev {
		if c, _, ok := l.info.counter(); ok && len(l.info.backs) == 1 {
			at = append(at, l.info.syms[c])
		}
	}
	for _, s := range at {
		if !q.lt(op.p, s) && !q.stopped() {
			q.lt(s, op.p)
		}
		if q.stopped() {
			return false
		}
	}
	return true
}

func (op *slotOp) outcome(o outcome) {
	e := op.e
	if len(o.res) != 1 {
		return
	}
	r := stripConv(o.res[0])
	num0 := op.inv.num
	// the last child taking the place of its parent
	if e.origin(r) != op.n && e.allocs[r] == nil || e.allocs[r] != nil && e.allocs[r].cloneOf != nil && e.origin(r) != op.n {
		op.replaced(o, r)
		return
	}
	lay := e.layoutOf(o.st, r)
	if lay == nil && e.origin(r) == op.n {
		lay = op.lay
	}
	if lay == nil {
		op.res.count("results of unknown kind", 1)
		return
	}
	op.res.count("paths through operations on children", 1)
	d := int64(1)
	if op.role == fnRemove {
		d = -1
	}
	num := e.t.add(num0, e.t.intT(d))
	op.goal(o, "the number of children changes by one", o.st.clone(), op.inv, func(q *slotQuery) verdict {
		if !op.settle(q) {
			return verdict{}
		}
		got := q.get(q.st.mem, r, rNum, nil, types.Typ[types.Uint16], nil)
		if q.stopped() {
			return verdict{}
		}
		if q.equal(got, num) {
			return verdict{v: yes}
		}
		return verdict{v: no, msg: fmt.Sprintf("it becomes %s", got)}
	})
	op.goal(o, fmt.Sprintf("the children fit into a %s", lay.name), o.st.clone(), op.inv, func(q *slotQuery) verdict {
		if q.le(num, e.t.intT(lay.slot)) {
			return verdict{v: yes}
		}
		return verdict{v: no, msg: fmt.Sprintf("%d slots", lay.slot)}
	})
	// every other child stays
	st := o.st.clone()
	b, ch, slot, inv := op.pair(st)
	if op.role == fnRemove {
		q := &slotQuery{e: e, st: st, inv: inv}
		q.learn(e.eqInt(b, op.b), false)
	}
	op.goal(o, "every other child keeps its place", st, inv, func(q *slotQuery) verdict {
		if !op.settle(q) {
			return verdict{}
		}
		return op.holds(q, r, lay, num, b, ch, slot)
	})
	if op.role == fnAdd {
		op.goal(o, "the new child is stored under its byte", o.st.clone(), op.inv, func(q *slotQuery) verdict {
			return op.holds(q, r, lay, num, op.b, op.ch, nil)
		})
	}
	// nothing else appears
	if lay.kind != layList {
		st := o.st.clone()
		inv := *op.inv
		q := &slotQuery{e: e, st: st, inv: &inv}
		x := e.typed(e.t.mk("sym", "other.byte"), types.Typ[types.Uint8])
		inv.absent = append([]*Term{x}, op.inv.absent...)
		if op.role == fnAdd {
			q.learn(e.eqInt(x, op.b), false)
		}
		switch op.lay.kind {
		case layMap:
			q.learn(e.eqInt(e.keyAt(op.n, x), e.t.intT(0)), true)
		case layDirect:
			q.learn(e.eq(e.childAt(op.n, x), e.t.tnil), true)
		}
		op.goal(o, "no other child appears", st, &inv, func(q *slotQuery) verdict {
			got := op.lookup(q, r, lay, x)
			if q.stopped() {
				return verdict{}
			}
			if q.equal(got, e.t.tnil) {
				return verdict{v: yes}
			}
			return verdict{v: no, msg: fmt.Sprintf("%s is stored under a byte that had no child", got)}
		})
		if op.role == fnRemove {
			op.goal(o, "the removed child is gone", o.st.clone(), op.inv, func(q *slotQuery) verdict {
				got := op.lookup(q, r, lay, op.b)
				if q.stopped() {
					return verdict{}
				}
				if q.equal(got, e.t.tnil) {
					return verdict{v: yes}
				}
				return verdict{v: no, msg: fmt.Sprintf("%s is still stored", got)}
			})
		}
	} else {
		// in order
		st := o.st.clone()
		inv := *op.inv
		q := &slotQuery{e: e, st: st, inv: &inv}
		x := e.typed(e.t.mk("sym", "any.place"), types.Typ[types.Int])
		q.learn(e.le(e.t.intT(0), x), true)
		next := e.t.add(x, e.t.intT(1))
		q.learn(e.lt(next, num), true)
		inv.points = append([]*Term{x, next, e.t.sub(x, e.t.intT(1)), e.t.add(next, e.t.intT(1))}, op.inv.points...)
		op.goal(o, "the key bytes stay in order", st, &inv, func(q *slotQuery) verdict {
			if !op.settle(q) {
				return verdict{}
			}
			k1 := q.get(q.st.mem, r, rKeys, x, types.Typ[types.Uint8], nil)
			k2 := q.get(q.st.mem, r, rKeys, next, types.Typ[types.Uint8], nil)
			if q.fail != "" {
				if ok, known := op.ordered(q, r); known {
					q.fail, q.split = "", nil
					if ok {
						return verdict{v: yes}
					}
					return verdict{v: no, msg: "they are stored in descending order"}
				}
			}
			if q.stopped() {
				return verdict{}
			}
			if q.lt(k1, k2) {
				return verdict{v: yes}
			}
			return verdict{v: no, msg: fmt.Sprintf("%s is followed by %s", k1, k2)}
		})
	}
	op.unused(o, r, lay, num)
	op.header(o, r, r, op.n)
}

// unused: a slot that no byte uses is empty, since some operations look at all of
// them.
func (op *slotOp) unused(o outcome, r *Term, lay *layout, num *Term) {
	e := op.e
	if lay.kind == layDirect || op.lay.kind == layDirect || lay.kind == layList && op.lay.kind == layMap {
		return
	}
	st := o.st.clone()
	inv := *op.inv
	q := &slotQuery{e: e, st: st, inv: &inv}
	x := e.typed(e.t.mk("sym", "unused.slot"), types.Typ[types.Int])
	q.learn(e.le(e.t.intT(0), x), true)
	q.learn(e.lt(x, e.t.intT(lay.slot)), true)
	switch {
	case lay.kind == layList:
		q.learn(e.le(num, x), true)
	case op.lay.kind == layList:
		q.learn(e.le(op.inv.num, x), true)
	default:
		inv.free = x
		q.learn(e.eq(e.childAt(op.n, x), e.t.tnil), true)
	}
	inv.points = append([]*Term{x}, op.inv.points...)
	slots := []*Term{x}
	if lay.kind == layMap && op.lay.kind == layMap && op.role == fnRemove {
		slots = append(slots, e.t.sub(e.keyAt(op.n, op.b), e.t.intT(1)))
	}
	for _, x := range slots {
		op.goal(o, "a slot that is not used is empty", st.clone(), &inv, func(q *slotQuery) verdict {
			if !op.settle(q) {
				return verdict{}
			}
			got := q.get(q.st.mem, r, rChildren, x, nil, nil)
			if q.stopped() {
				return verdict{}
			}
			if q.equal(got, e.t.tnil) {
				return verdict{v: yes}
			}
			if q.stopped() {
				return verdict{}
			}
			if lay.kind == layMap && op.role == fnAdd {
				m := q.get(q.st.mem, r, rKeys, op.b, types.Typ[types.Uint8], nil)
				if q.stopped() {
					return verdict{}
				}
				if q.equal(m, e.t.add(x, e.t.intT(1))) {
					return verdict{v: yes}
				}
				if q.stopped() {
					return verdict{}
				}
			}
			return verdict{v: no, msg: fmt.Sprintf("slot %s has %s", x, got)}
		})
	}
}

// header: the prefix and the entry stay.
func (op *slotOp) header(o outcome, r, hdr, old *Term) {
	e := op.e
	op.goal(o, "the length of the prefix stays", o.st.clone(), op.inv, func(q *slotQuery) verdict {
		got := q.get(q.st.mem, r, rPLen, nil, types.Typ[types.Uint32], nil)
		if q.stopped() {
			return verdict{}
		}
		if q.equal(got, e.typed(e.t.mk("attr", rPLen, old), types.Typ[types.Uint32])) {
			return verdict{v: yes}
		}
		return verdict{v: no, msg: fmt.Sprintf("it becomes %s", got)}
	})
	op.goal(o, "the entry of the node stays", o.st.clone(), op.inv, func(q *slotQuery) verdict {
		got := q.get(q.st.mem, r, rLeaf, nil, nil, nil)
		if q.stopped() {
			return verdict{}
		}
		if q.equal(got, e.t.mk("attr", rLeaf, old)) {
			return verdict{v: yes}
		}
		return verdict{v: no, msg: fmt.Sprintf("it becomes %s", got)}
	})
	op.prefixBytes(o, r, old)
}

func (op *slotOp) prefixBytes(o outcome, r, old *Term) {
	e := op.e
	st := o.st.clone()
	inv := *op.inv
	q := &slotQuery{e: e, st: st, inv: &inv}
	x := e.typed(e.t.mk("sym", "any.offset"), types.Typ[types.Int])
	plen := e.typed(e.t.mk("attr", rPLen, old), types.Typ[types.Uint32])
	q.learn(e.le(e.t.intT(0), x), true)
	q.learn(e.lt(x, plen), true)
	kept := op.c.keptBytes()
	if kept == 0 {
		return
	}
	q.learn(e.lt(x, e.t.intT(kept)), true)
	op.goal(o, "the bytes of the prefix stay", st, &inv, func(q *slotQuery) verdict {
		got := op.prefixByte(q, r, x)
		if q.stopped() {
			return verdict{}
		}
		want := e.typed(e.t.mk("elem", "", e.t.mk("attr", rPartial, old), x), types.Typ[types.Uint8])
		if got == want {
			return verdict{v: yes}
		}
		return verdict{v: no, msg: fmt.Sprintf("byte %s is %s", x, got)}
	})
}

func (op *slotOp) prefixByte(q *slotQuery, r, x *Term) *Term {
	p := q.get(q.st.mem, r, rPartial, nil, nil, nil)
	if q.stopped() {
		return nil
	}
	off := op.e.t.intT(0)
	for p.op == "slice" {
		off = op.e.t.add(off, p.args[1])
		p = p.args[0]
	}
	return q.get(q.st.mem, p, "[]", op.e.t.add(x, off), types.Typ[types.Uint8], nil)
}

// keptBytes: how many bytes of a prefix a node keeps.
func (c *Ctx) keptBytes() int64 {
	if c.kept == 0 {
		for _, f := range c.p.funcs {
			if c.nodeFn(f) != fnClone {
				continue
			}
			e := newEng(c)
			e.Run(f, e.params(f), &State{})
			for _, l := range e.partialLens {
				if l > c.kept {
					c.kept = l
				}
			}
		}
	}
	return c.kept
}

// replaced: the last child takes the place of the node. It is the only one left,
// the node had no entry, and its prefix is that of the node, its byte and its own
// prefix.
func (op *slotOp) replaced(o outcome, r *Term) {
	e := op.e
	op.res.count("paths on which the last child replaces the node", 1)
	child := e.origin(r)
	if !e.restrict(o.st.clone(), child, e.allB&^e.leafB) || !e.restrict(o.st.clone(), r, e.allB&^e.leafB) {
		// children are no leaves
		return
	}
	op.goal(o, "a node is only replaced by its last child", o.st.clone(), op.inv, func(q *slotQuery) verdict {
		if !op.settle(q) {
			return verdict{}
		}
		c := q.resolve(child, q.st.mem, nil)
		if q.stopped() {
			return verdict{}
		}
		if c.op != "attr" || c.aux != rChildren || c.args[0] != op.n {
			return verdict{v: no, msg: fmt.Sprintf("it is replaced by %s", c)}
		}
		last := false
		switch op.lay.kind {
		case layList:
			last = !q.equal(c.args[1], op.p)
		case layMap:
			last = !q.equal(c.args[1], e.t.sub(e.keyAt(op.n, op.b), e.t.intT(1)))
		default:
			last = !q.equal(c.args[1], op.b)
		}
		if q.stopped() {
			return verdict{}
		}
		if !last {
			return verdict{v: no, msg: "by the child that was to be removed"}
		}
		if !q.equal(op.inv.num, e.t.intT(2)) {
			return verdict{v: no, msg: "it may have other children"}
		}
		if !q.equal(e.t.mk("attr", rLeaf, op.n), e.t.tnil) {
			return verdict{v: no, msg: "it may have an entry"}
		}
		return verdict{v: yes}
	})
	for _, x := range []struct {
		role, what string
		ty         types.Type
	}{{rNum, "the number of children", types.Typ[types.Uint16]}, {rLeaf, "the entry", nil}} {
		op.goal(o, x.what+" of the last child stays", o.st.clone(), op.inv, func(q *slotQuery) verdict {
			got := q.get(q.st.mem, r, x.role, nil, x.ty, nil)
			if q.stopped() || q.equal(got, e.typed(e.t.mk("attr", x.role, child), x.ty)) {
				return verdict{v: yes}
			}
			return verdict{v: no, msg: fmt.Sprintf("it becomes %s", got)}
		})
	}
	// prefixes of nodes without children do not matter
	st := o.st.clone()
	q := &slotQuery{e: e, st: st, inv: op.inv}
	q.learn(e.lt(e.t.intT(0), e.numOf(child)), true)
	pn := e.typed(e.t.mk("attr", rPLen, op.n), types.Typ[types.Uint32])
	pc := e.typed(e.t.mk("attr", rPLen, child), types.Typ[types.Uint32])
	plen := e.t.add(e.t.add(pn, pc), e.t.intT(1))
	op.goal(o, "the prefix of the last child becomes longer by the prefix of the node and the byte", st, op.inv, func(q *slotQuery) verdict {
		got := q.get(q.st.mem, r, rPLen, nil, types.Typ[types.Uint32], nil)
		if q.stopped() || q.equal(got, plen) {
			return verdict{v: yes}
		}
		return verdict{v: no, msg: fmt.Sprintf("its length becomes %s", got)}
	})
	kept := op.c.keptBytes()
	if kept == 0 || op.lay.kind != layList {
		return
	}
	st = st.clone()
	inv := *op.inv
	q = &slotQuery{e: e, st: st, inv: &inv}
	x := e.typed(e.t.mk("sym", "any.offset"), types.Typ[types.Int])
	left := e.typed(e.t.mk("sym", "slot.left"), types.Typ[types.Int])
	q.learn(e.le(e.t.intT(0), x), true)
	q.learn(e.lt(x, plen), true)
	q.learn(e.lt(x, e.t.intT(kept)), true)
	q.learn(e.le(e.t.intT(0), left), true)
	q.learn(e.lt(left, op.inv.num), true)
	q.learn(e.eqInt(left, op.p), false)
	inv.points = append([]*Term{left}, op.inv.points...)
	op.goal(o, "the prefix of the last child starts with the prefix of the node and the byte", st, &inv, func(q *slotQuery) verdict {
		if !op.settle(q) {
			return verdict{}
		}
		var want *Term
		switch {
		case q.lt(x, pn):
			want = e.typed(e.t.mk("elem", "", e.t.mk("attr", rPartial, op.n), x), types.Typ[types.Uint8])
		case q.stopped():
			return verdict{}
		case q.lt(pn, x):
			want = e.typed(e.t.mk("elem", "", e.t.mk("attr", rPartial, child), e.t.sub(e.t.sub(x, pn), e.t.intT(1))), types.Typ[types.Uint8])
		case q.stopped():
			return verdict{}
		default:
			want = e.keyAt(op.n, left)
		}
		got := q.resolve(op.prefixByte(q, r, x), q.st.mem, nil)
		want = q.resolve(want, q.st.mem, nil)
		if q.stopped() {
			return verdict{}
		}
		if got == want || got.op == "elem" && want.op == "elem" && got.args[0] == want.args[0] && q.equal(got.args[1], want.args[1]) {
			return verdict{v: yes}
		}
		if got.op == "attr" && want.op == "attr" && q.equal(got, want) {
			return verdict{v: yes}
		}
		if q.stopped() {
			return verdict{}
		}
		return verdict{v: no, msg: fmt.Sprintf("byte %s is %s instead of %s", x, got, want)}
	})
}

// ordered: a counting loop that fills slots in order.
func (op *slotOp) ordered(q *slotQuery, r *Term) (ok, known bool) {
	for m := q.st.mem; m != nil; m = m.next {
		if m.role != rKeys || m.obj != r {
			continue
		}
		if m.loop == nil {
			return false, false
		}
		info := m.loop
		ws, ok := op.e.loopWrites(info, r, rKeys)
		c, step, ok2 := info.counter()
		if !ok || !ok2 || len(ws) != 1 {
			return false, false
		}
		w := ws[0]
		for n, s := range info.syms {
			if s != w.idx {
				continue
			}
			for _, b := range info.phis[n].backs {
				d, ok := diffConst(b.val, s)
				if !ok || d != 0 && d != 1 || (d == 1) != (b.st == w.st) {
					return false, false
				}
			}
			if _, ok := diffConst(w.m.val, info.syms[c]); !ok {
				return false, false
			}
			return step > 0, true
		}
		return false, false
	}
	return false, false
}

// copies: a copy of a node has the contents of the node.
func (c *Ctx) copies(res *Result) {
	for _, f := range c.p.funcs {
		if c.nodeFn(f) != fnClone {
			continue
		}
		e := newEng(c)
		e.ignore = trackRoles
		e.openAll = true
		args := e.params(f)
		n := args[0]
		st := &State{}
		outs := e.Run(f, args, st)
		if e.err != "" {
			engErr(res, e)
			return
		}
		res.count("methods that copy a node", 1)
		op := &slotOp{c: c, e: e, res: res, f: f, role: fnClone, n: n, lay: e.layoutOf(st, n)}
		for _, o := range outs {
			r := stripConv(o.res[0])
			if e.mask(st, n) == e.leafB {
				op.copiedEntry(o, r)
				continue
			}
			if op.lay == nil {
				continue
			}
			op.inv = &nodeInv{e: e, n: n, lay: op.lay, num: e.numOf(n)}
			op.copied(o, r)
		}
	}
}

func (op *slotOp) copied(o outcome, r *Term) {
	e := op.e
	op.goal(o, "the number of children stays", o.st.clone(), op.inv, func(q *slotQuery) verdict {
		got := q.get(q.st.mem, r, rNum, nil, types.Typ[types.Uint16], nil)
		if q.stopped() || q.equal(got, op.inv.num) {
			return verdict{v: yes}
		}
		return verdict{v: no, msg: fmt.Sprintf("it is %s", got)}
	})
	for _, a := range []struct {
		role string
		ty   types.Type
		n    int64
	}{{rKeys, types.Typ[types.Uint8], op.lay.keys}, {rChildren, nil, op.lay.slot}} {
		if a.n == 0 {
			continue
		}
		st := o.st.clone()
		q := &slotQuery{e: e, st: st, inv: op.inv}
		x := e.typed(e.t.mk("sym", "any.slot"), types.Typ[types.Int])
		q.learn(e.le(e.t.intT(0), x), true)
		q.learn(e.lt(x, e.t.intT(a.n)), true)
		if op.lay.kind == layList {
			q.learn(e.lt(x, op.inv.num), true)
		}
		op.goal(o, "the copy has the same "+a.role, st, op.inv, func(q *slotQuery) verdict {
			got := q.get(q.st.mem, r, a.role, x, a.ty, nil)
			if q.stopped() || q.equal(got, e.typed(e.t.mk("attr", a.role, op.n, x), a.ty)) {
				return verdict{v: yes}
			}
			return verdict{v: no, msg: fmt.Sprintf("slot %s has %s", x, got)}
		})
	}
	op.header(o, r, r, op.n)
}

func (op *slotOp) copiedEntry(o outcome, r *Term) {
	e := op.e
	op.lay = &layout{name: recvName(op.f)}
	op.goal(o, "the copy has the same value", o.st.clone(), nil, func(q *slotQuery) verdict {
		got := q.get(q.st.mem, r, rValue, nil, nil, nil)
		if q.stopped() || got == e.t.mk("attr", rValue, op.n) {
			return verdict{v: yes}
		}
		return verdict{v: no, msg: fmt.Sprintf("it is %s", got)}
	})
	key := e.t.mk("attr", rKey, op.n)
	op.goal(o, "the copy has a key of the same length", o.st.clone(), nil, func(q *slotQuery) verdict {
		got := q.get(q.st.mem, r, rKey, nil, nil, nil)
		if q.stopped() || q.equal(e.length(q.st, got), e.length(q.st, key)) {
			return verdict{v: yes}
		}
		return verdict{v: no, msg: fmt.Sprintf("it is %s", got)}
	})
	st := o.st.clone()
	q := &slotQuery{e: e, st: st}
	x := e.typed(e.t.mk("sym", "any.offset"), types.Typ[types.Int])
	q.learn(e.le(e.t.intT(0), x), true)
	q.learn(e.lt(x, e.length(st, key)), true)
	op.goal(o, "the copy has the same key", st, nil, func(q *slotQuery) verdict {
		k := q.get(q.st.mem, r, rKey, nil, nil, nil)
		if q.stopped() {
			return verdict{}
		}
		obj, role, off := e.sliceLoc(k)
		got := q.get(q.st.mem, obj, role, e.t.add(off, x), types.Typ[types.Uint8], nil)
		if q.stopped() || got == e.t.mk("elem", "", key, x) {
			return verdict{v: yes}
		}
		return verdict{v: no, msg: fmt.Sprintf("byte %s is %s", x, got)}
	})
}

// finds: looking up a byte yields the child stored for it.
func (c *Ctx) finds(res *Result) {
	for _, f := range c.p.funcs {
		if c.nodeFn(f) != fnFind {
			continue
		}
		res.count("functions that find a child", 1)
		n0 := len(newEng(c).layouts())
		for i := 0; i < n0; i++ {
			for _, there := range []bool{true, false} {
				e := newEng(c)
				e.ignore = trackRoles
				e.openFind, e.openAll = true, true
				args := e.params(f)
				op := &slotOp{c: c, e: e, res: res, f: f, role: fnRemove, lay: e.layouts()[i]}
				for i, p := range f.Params {
					switch {
					case c.r.isNodeVal(p.Type()):
						op.n = args[i]
					case basicKind(p.Type()) == types.Uint8:
						op.b = args[i]
					}
				}
				st := &State{}
				if op.n == nil || op.b == nil || !e.restrict(st, op.n, op.lay.bit) {
					continue
				}
				if !there {
					op.role = fnAdd
				}
				op.start(st)
				outs := e.Run(f, args, st)
				if e.err != "" {
					engErr(res, e)
					return
				}
				for _, o := range outs {
					op.found(o, there)
				}
			}
		}
	}
}

func (op *slotOp) found(o outcome, there bool) {
	e := op.e
	op.res.count("paths through the search for a child", 1)
	want, slot := e.t.tnil, (*Term)(nil)
	what := "no child is found for a byte without one"
	if there {
		what = "the child of the byte is found"
		switch op.lay.kind {
		case layList:
			slot = op.p
		case layMap:
			slot = e.t.sub(e.keyAt(op.n, op.b), e.t.intT(1))
		default:
			slot = op.b
		}
		want = e.childAt(op.n, slot)
	}
	op.goal(o, what, o.st.clone(), op.inv, func(q *slotQuery) verdict {
		if !op.settle(q) {
			return verdict{}
		}
		got := q.resolve(o.res[0], q.st.mem, nil)
		if q.stopped() {
			return verdict{}
		}
		if got.op == "attr" && got.aux == rChildren && got.args[0] == op.n {
			q.came(got)
		}
		same := q.equal(got, want)
		if q.stopped() {
			return verdict{}
		}
		if !same {
			return verdict{v: no, msg: fmt.Sprintf("%s is returned", got)}
		}
		if there && len(o.res) > 1 && isNum(o.res[1]) && !q.equal(q.resolve(o.res[1], q.st.mem, nil), slot) && !q.stopped() {
			return verdict{v: no, msg: fmt.Sprintf("its slot is given as %s", o.res[1])}
		}
		return verdict{v: yes}
	})
}

func checkC19(c *Ctx, res *Result) {
	res.explanation = "Array dataflow over value terms: the log of single writes, copies and counting loops of each path through an operation on children is read back at an arbitrary slot or byte, with linear constraints on indexes; the operation has to keep every other child, the number of children, the order of key bytes, empty slots, the entry and the prefix."
	res.assumptions = append(res.assumptions,
		"a node is well formed before an operation, and its callers add a byte that has no child and remove one that has",
		"a goal that is not understood raises no alarm; evidence counts such goals")
	c.slotOps(res, fnAdd)
	c.slotOps(res, fnRemove)
	c.copies(res)
	c.finds(res)
	res.floor("paths through operations on children", 8)
	res.floor("methods that copy a node", 3)
	res.floor("functions that find a child", 1)
	res.floor("goals established", 60)
}
