package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// seek is a descent that notes the nodes an iterator has to visit.
type seek struct {
	c    *Ctx
	d    *descent
	e    *Eng
	res  *Result
	kind string
	loop *loopInfo
	n    *Term   // the node at the head of a round
	x    *linear // bytes consumed before it
	role string
	s    *Term // the sequence at the head
}

// byteAt: the byte of the bound that chooses among the children of the node.
func (k *seek) byteAt() *Term {
	pos := linAdd(k.x, k.d.plen0(k.n).linOf(), 1)
	return k.e.typed(k.e.t.mk("elem", "", k.d.key, k.e.t.fromLin(pos)), types.Typ[types.Uint8])
}

// end is where a round of the seek ends.
type seekEnd struct {
	k    *seek
	st   *State
	o    outcome
	next *Term // the node of the next round; nil: no more
	seq  *seq
	back bool
}

func (x *seekEnd) at() string {
	if !x.back {
		return x.k.e.retPos(x.o)
	}
	if x.st.tr != nil {
		return x.k.c.p.pos(x.st.tr.pos)
	}
	return x.k.c.p.pos(x.k.d.f.Pos())
}

func (x *seekEnd) ob(ok bool, rule, msg string) {
	k := x.k
	k.res.ob(ok, Finding{Rule: rule, At: x.at(), Func: fname(k.d.f), Msg: msg, Path: k.e.pathOf(x.st)})
}

// compared: the prefix of the node was looked at.
func (x *seekEnd) compared() bool {
	k := x.k
	pl := k.d.plen0(k.n)
	pa := k.e.t.mk("attr", rPartial, k.n)
	for _, f := range x.st.facts {
		if f.t.mentions(pa) || f.t.mentions(pl) && !x.position(f.t) {
			return true
		}
	}
	return k.e.entails(x.st, pl.linOf(), 3)
}

// position: the condition only says whether the bound goes on after the prefix.
func (x *seekEnd) position(t *Term) bool {
	k := x.k
	if !outside(t, k.d.plen0(k.n), k.d.key) {
		return true
	}
	if t.op != "le0" && t.op != "eq0" {
		return false
	}
	length := k.e.length(x.st, k.d.key)
	for _, a := range t.args[0].linOf().atoms {
		ok := a == length || a == k.d.plen0(k.n) || a.op == "elem" && a.args[0] == k.d.key
		for _, b := range k.x.atoms {
			ok = ok || a == b
		}
		if !ok {
			return false
		}
	}
	return true
}

func hasAtom(l *linear, t *Term) bool {
	for _, a := range l.atoms {
		if a == t {
			return true
		}
	}
	return false
}

// outside: the term occurs other than in the position of a byte of the key.
func outside(t, x, key *Term) bool {
	if t == x {
		return true
	}
	if t.op == "elem" && t.args[0] == key {
		return false
	}
	for _, a := range t.args {
		if outside(a, x, key) {
			return true
		}
	}
	if t.op == "lin" {
		for _, a := range t.lin.atoms {
			if outside(a, x, key) {
				return true
			}
		}
	}
	return false
}

// excluded: no key below the node satisfies the bound.
func (x *seekEnd) excluded() bool {
	k, e := x.k, x.k.e
	st := x.st
	if v, ok := e.decide(st, e.eq(k.n, e.t.tnil)); ok && v {
		return true
	}
	if k.d.empty(st, k.n) {
		return true
	}
	pl := k.d.plen0(k.n).linOf()
	length := e.length(st, k.d.key).linOf()
	for _, f := range st.facts {
		if f.t.op != "le0" {
			continue
		}
		l := f.t.args[0].linOf()
		for _, a := range l.atoms {
			if a.op != "cmpb" {
				continue
			}
			first := entryOf(a.args[0], rKey)
			sign := int64(1)
			if first == nil || a.args[1] != k.d.key {
				first, sign = entryOf(a.args[1], rKey), -1
				if first == nil || a.args[0] != k.d.key {
					continue
				}
			}
			if !e.below(first, k.n) || !x.compared() {
				continue
			}
			switch k.kind {
			case "ge":
				if e.entails(st, linAdd(&linear{k: 1}, a.linOf(), sign), 3) {
					return true
				}
			case "le":
				if e.entails(st, linAdd(&linear{k: 1}, a.linOf(), -sign), 3) {
					return true
				}
			case "prefix":
				return true
			}
		}
	}
	switch k.kind {
	case "le":
		// the bound ends within the prefix
		return x.compared() && e.entails(st, linAdd(linAdd(linAdd(length, k.x, -1), pl, -1), &linear{k: 1}, 1), 3)
	case "prefix":
		within := e.consistent(st, linAdd(linAdd(linAdd(length, k.x, -1), pl, -1), &linear{k: 1}, 1))
		st2 := st.clone()
		if within {
			// compared as slices, they also differ if the bound ends
			st2.facts = nil
			for _, f := range st.facts {
				if f.t.op != "hasp" && f.t.op != "eqb" {
					st2.facts = append(st2.facts, f)
				}
			}
		}
		if k.d.prefixDiffers(st2, k.n, k.x) {
			return true
		}
		for _, f := range st.facts {
			// fewer bytes agree than the prefix has, and the bound does not end there
			if f.t.op != "le0" || !f.t.mentions(k.d.plen0(k.n)) {
				continue
			}
			t := e.opaqueIn(&State{facts: []fact{f}})
			if t == nil {
				continue
			}
			if !within {
				return true
			}
			if x.agreesToEnd(f) {
				continue
			}
			for _, g := range st.facts {
				if g.t.op == "le0" && hasAtom(g.t.args[0].linOf(), t) && hasAtom(g.t.args[0].linOf(), e.length(st, k.d.key)) {
					return true
				}
			}
		}
	}
	return false
}

// agreesToEnd: the number of bytes found to agree with the prefix of the node
// reaches the end of the bound.
func (x *seekEnd) agreesToEnd(f fact) bool {
	k, e := x.k, x.k.e
	l := f.t.args[0].linOf()
	if !f.v {
		l = linAdd(&linear{k: 1}, l, -1)
	}
	// the first byte that was not found to agree
	pos := linAdd(linAdd(linAdd(k.x, k.d.plen0(k.n).linOf(), 1), l, 1), &linear{k: 1}, -1)
	if hasAtom(pos, k.d.plen0(k.n)) {
		return false
	}
	return e.entails(x.st, linAdd(e.length(x.st, k.d.key).linOf(), pos, -1), 3)
}

// lost: the bound ends within the prefix of the node and agrees with it.
func (x *seekEnd) lost() bool {
	k, e := x.k, x.k.e
	for _, f := range x.st.facts {
		if f.t.op != "le0" || !f.t.mentions(k.d.plen0(k.n)) {
			continue
		}
		if t := e.opaqueIn(&State{facts: []fact{f}}); t != nil && t.op == "call" && t.mentions(k.n) && t.mentions(k.d.key) && x.agreesToEnd(f) {
			return true
		}
	}
	return false
}

// consistent: the linear expression may be <= 0 on this path.
func (e *Eng) consistent(st *State, l *linear) bool { return !e.refuted(st, l) }

// kept: an entry below the node was found to satisfy the bound.
func (x *seekEnd) kept() bool {
	k, e := x.k, x.k.e
	for _, f := range x.st.facts {
		if f.t.op != "le0" {
			continue
		}
		for _, a := range f.t.args[0].linOf().atoms {
			if a.op != "cmpb" {
				continue
			}
			for i := 0; i < 2; i++ {
				if l := entryOf(a.args[i], rKey); l != nil && a.args[1-i] == k.d.key && e.below(l, k.n) && e.satisfies(x.st, k.kind, a.args[i], k.d.key) {
					if v, ok := e.decide(x.st, e.eqInt(a, e.t.intT(0))); ok && v {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}

// shorter: the bound goes on after the node's own key.
func (x *seekEnd) shorter() (is, known bool) {
	k, e := x.k, x.k.e
	length := e.length(x.st, k.d.key).linOf()
	pos := linAdd(k.x, k.d.plen0(k.n).linOf(), 1)
	l := linAdd(linAdd(pos, length, -1), &linear{k: 1}, 1)
	if e.entails(x.st, l, 3) {
		return true, true
	}
	if e.refuted(x.st, l) {
		return false, true
	}
	return false, false
}

func (x *seekEnd) check() {
	k, e := x.k, x.k.e
	st := x.st
	if e.infeasible(st) {
		return
	}
	if v, ok := e.decide(st, e.eq(k.n, e.t.tnil)); ok && v {
		return
	}
	k.res.count("ends of rounds of seeks", 1)
	for _, it := range x.seq.items {
		if it.loop == nil && stripConv(it.val) == k.n {
			x.ob(true, "seek", "")
			return
		}
	}
	if x.seq.base != nil && x.seq.base != k.s && k.kind != "prefix" {
		k.res.count("rounds not understood", 1)
		return
	}
	if x.excluded() {
		x.ob(true, "seek", "")
		return
	}
	if k.kind == "prefix" {
		// only the node itself or the child for the next byte
		more, known := x.shorter()
		switch {
		case !known:
			if !x.back && len(x.seq.items) == 0 && (x.lost() || x.ends()) {
				x.ob(false, "seek", "nothing is noted, though the entries below the node may start with the prefix")
				return
			}
			k.res.count("rounds not understood", 1)
		case !more:
			x.ob(false, "seek", "the keys below the node start with the prefix, but it is not noted")
		case x.back:
			x.ob(true, "seek", "")
		case !x.childGone():
			x.ob(false, "seek", "the child for the next byte of the prefix is not looked at")
		default:
			// the key of a node without children goes on behind its prefix
			x.ob(x.hasChildren(), "seek", "the node is not noted, though it may be one without children whose own entry starts with the prefix")
		}
		return
	}
	if !x.compared() {
		if e.opaqueIn(st) == nil {
			x.ob(false, "seek", "the prefix of the node is not compared with the bound")
		}
		return
	}
	more, known := x.shorter()
	if !known {
		if !x.back && len(x.seq.items) == 0 && x.kept() {
			x.ob(false, "seek", "an entry below the node was found to satisfy the bound, but nothing is noted")
			return
		}
		k.res.count("rounds not understood", 1)
		return
	}
	// the own entry
	l := e.t.mk("attr", rLeaf, k.n)
	none, ok := e.decide(st, e.eq(l, e.t.tnil))
	pushed := false
	for _, it := range x.seq.items {
		pushed = pushed || it.loop == nil && stripConv(it.val) == l
	}
	own := pushed || ok && none || k.kind == "ge" && more
	x.ob(own, "seek-entry", "the entry of the node is passed over, though its key "+kindText[k.kind])
	// the children
	mask := e.mask(st, k.n)
	for _, lay := range e.layouts() {
		if mask&lay.bit == 0 {
			continue
		}
		st2 := st.clone()
		if !e.restrict(st2, k.n, lay.bit) {
			continue
		}
		x.children(st2, lay, more)
	}
}

// ends: the bound may end within the prefix of the node, as far as it agrees.
func (x *seekEnd) ends() bool {
	k, e := x.k, x.k.e
	for _, f := range x.st.facts {
		if e.opaqueIn(&State{facts: []fact{f}}) != nil && !f.t.mentions(k.d.plen0(k.n)) {
			return false
		}
	}
	end := linAdd(k.x, k.d.plen0(k.n).linOf(), 1)
	return e.consistent(x.st, linAdd(linAdd(e.length(x.st, k.d.key).linOf(), end, -1), &linear{k: 1}, 1))
}

func (x *seekEnd) hasChildren() bool {
	e, n := x.k.e, x.k.n
	num := e.typed(e.t.mk("attr", rNum, n), types.Typ[types.Uint16])
	if e.entails(x.st, linAdd(&linear{k: 1}, num.linOf(), -1), 3) || e.sure(x.st, e.eq(e.t.mk("attr", rLeaf, n), e.t.tnil)) {
		return true
	}
	if e.entails(x.st, num.linOf(), 3) {
		return false
	}
	for _, f := range x.st.facts {
		if f.t.mentions(num) || f.t.mentions(e.t.mk("attr", rKey, e.t.mk("attr", rLeaf, n))) {
			return true
		}
	}
	return false
}

// childGone: there is no child for the next byte.
func (x *seekEnd) childGone() bool {
	k, e := x.k, x.k.e
	for _, f := range x.st.facts {
		if f.t.op == "eq" && f.v && f.t.args[1].isNil() && f.t.args[0].op == "child" && f.t.args[0].args[0] == k.n {
			if kb, pos, ok := k.d.keyByte(x.st, f.t.args[0].args[1]); ok && kb == k.d.key && sameLin(e, x.st, pos, linAdd(k.x, k.d.plen0(k.n).linOf(), 1)) {
				return true
			}
		}
	}
	return false
}

func (x *seekEnd) children(st *State, lay *layout, more bool) {
	k, e := x.k, x.k.e
	if k.kind == "le" && !more {
		return
	}
	// what is known about the prefix has been dealt with
	st = st.clone()
	var facts []fact
	for _, f := range st.facts {
		if e.opaqueIn(&State{facts: []fact{f}}) != nil && (f.t.mentions(k.d.plen0(k.n)) || f.t.mentions(e.t.mk("attr", rPartial, k.n)) || mentionsCmp(f.t, k.d.key)) {
			continue
		}
		facts = append(facts, f)
	}
	st.facts = facts
	r := &round{t: &trav{c: k.c, e: e, f: k.d.f, res: k.res}, o: outcome{st: st}, n: k.n, seq: x.seq}
	op := r.op(lay)
	slots := linAdd(e.t.mk("len", "", e.t.mk("view", rChildren, k.n)).linOf(), &linear{k: lay.slot}, -1)
	st.les = append(append([]*linear{}, st.les...), slots, linNeg(slots), linAdd(op.inv.num.linOf(), &linear{k: lay.slot}, -1))
	st2 := st.clone()
	b, ch, slot, inv := op.pair(st2)
	q := &slotQuery{e: e, st: st2, inv: inv}
	q.learn(e.eq(e.t.mk("child", "", k.n, b), e.t.tnil), false)
	kb := k.byteAt()
	gone := x.childGone()
	op.ruleGoal("seek", x.at(), st2, "every child that may hold such keys is noted", inv, func(q *slotQuery) verdict {
		n := 0
		for _, it := range x.seq.items {
			d := e.delivers(q, it, k.n, lay, b, ch, slot)
			if q.stopped() {
				return verdict{}
			}
			n += d
		}
		if n == 1 {
			return verdict{v: yes}
		}
		if n > 1 {
			return verdict{v: no, msg: fmt.Sprintf("the child for the byte %s is noted %d times", b, n)}
		}
		if more {
			lower := q.lt(b, kb)
			if q.stopped() {
				return verdict{}
			}
			higher := !lower && q.lt(kb, b)
			if q.stopped() {
				return verdict{}
			}
			switch {
			case lower && k.kind == "ge" || higher && k.kind == "le":
				return verdict{v: yes}
			case !lower && !higher:
				if x.next != nil && x.next.op == "child" && x.next.args[0] == k.n || gone {
					return verdict{v: yes}
				}
				return verdict{v: no, msg: "the child for the next byte of the bound is left out"}
			}
		}
		return verdict{v: no, msg: fmt.Sprintf("the child for the byte %s is left out", b)}
	})
	// later ones are visited first
	for _, it := range x.seq.items {
		if it.loop == nil {
			continue
		}
		dir, byByte := e.direction(it, k.n, lay)
		if !byByte || dir > 0 && k.kind == "ge" || dir < 0 && k.kind == "le" {
			x.ob(false, "seek-order", fmt.Sprintf("for a %s: the children are noted in the wrong order", lay.name))
		}
	}
	if k.kind == "le" {
		leafAt, kidAt := -1, -1
		for i, it := range x.seq.items {
			if it.loop != nil {
				kidAt = i
			} else if stripConv(it.val) == e.t.mk("attr", rLeaf, k.n) {
				leafAt = i
			}
		}
		x.ob(leafAt < 0 || kidAt < 0 || leafAt < kidAt, "seek-order", "the entry of the node is noted so that it is visited before the children")
	}
}

func mentionsCmp(t, key *Term) bool {
	if t.op == "cmpb" {
		return t.args[0] == key || t.args[1] == key
	}
	for _, a := range t.args {
		if mentionsCmp(a, key) {
			return true
		}
	}
	if t.op == "lin" {
		for _, a := range t.lin.atoms {
			if mentionsCmp(a, key) {
				return true
			}
		}
	}
	return false
}

// seekLoops checks the rounds of a seek.
func (c *Ctx) seekLoops(d *descent, kind string, roles map[string]bool, res *Result) {
	e := d.e
	for _, l := range e.loops {
		for i, n := range l.syms {
			x := d.at[n]
			if x == nil {
				continue
			}
			k := &seek{c: c, d: d, e: e, res: res, kind: kind, loop: l, n: n, x: x}
			for m := l.head.mem; m != nil && m.loop == l; m = m.next {
				if roles[m.role] && m.obj != nil {
					k.role, k.s = m.role, m.val
					// nothing is left of an earlier seek
					if kind != "prefix" {
						if before := e.fieldBefore(m.next, m.obj, m.role); before != nil {
							s := e.seqOf(before, m.next, func(*Term) bool { return false }, 0)
							if s != nil {
								res.ob(s.base == nil && len(s.items) == 0, Finding{Rule: "seek-fresh", At: c.p.pos(l.l.head.Instrs[0].Pos()), Func: fname(d.f), Msg: "the seek starts with nodes left from before"})
							}
						}
					}
				}
			}
			if k.role == "" {
				continue
			}
			res.count("rounds of a seek analysed", 1)
			end := func(st *State, o outcome, next *Term, back bool) {
				st = d.bounded(st)
				var v *Term
				for m := st.mem; m != nil && v == nil; m = m.next {
					if m.role == k.role {
						v = e.fieldBefore(m, m.obj, m.role)
					}
				}
				if v == nil {
					return
				}
				s := e.seqOf(v, st.mem, func(t *Term) bool { return t == k.s }, 0)
				if s == nil {
					res.count("rounds not understood", 1)
					return
				}
				(&seekEnd{k: k, st: st, o: o, next: next, seq: s, back: back}).check()
			}
			for j, b := range l.backs {
				end(b.st, outcome{st: b.st, fr: b.fr}, l.phis[i].backs[j].val, true)
			}
			for _, o := range d.outs {
				in := false
				for q := o.st.loops; q != nil; q = q.prev {
					in = in || q.info == l
				}
				if in {
					end(o.st, o, nil, false)
				}
			}
		}
	}
}

// passedOver: an entry met by the yielding operation and not returned does not
// satisfy the bound.
func (c *Ctx) passedOver(br boundRule, res *Result, roles map[string]bool) {
	e := newEng(c)
	args := e.params(br.seek)
	var arg *Term
	if i := byteParam(br.seek); i >= 0 {
		arg = args[i]
	}
	outs := e.Run(br.seek, args, &State{})
	root := func(o outcome) *Term {
		if br.make {
			return o.res[0]
		}
		return args[0]
	}
	cf := e.configAfter(outs, root, arg)
	yargs := e.params(br.yield)
	e.loops = nil
	youts := e.Run(br.yield, yargs, e.withConfig(yargs[0], arg, cf))
	if e.err != "" {
		engErr(res, e)
		return
	}
	res.count("branches followed", e.states)
	name := fname(br.seek) + " then " + fname(br.yield)
	for _, t := range c.travLoops(e, br.yield, res) {
		roles[t.role] = true
		c.entriesMet(e, t, youts, br.kind, arg, name, res)
	}
	res.count("pairs of seek and yield operations", 1)
}

// entriesMet: what is met in a round and passed over does not satisfy the bound.
func (c *Ctx) entriesMet(e *Eng, t *trav, outs []outcome, kind string, arg *Term, name string, res *Result) {
	for _, r := range t.rounds(outs) {
		if r.n == nil {
			continue
		}
		if v, ok := e.decide(r.o.st, e.eq(r.n, e.t.tnil)); ok && v {
			continue
		}
		mask := e.mask(r.o.st, r.n)
		var ls []*Term
		if mask&e.leafB != 0 {
			ls = append(ls, r.n)
		}
		if mask&^e.leafB != 0 {
			ls = append(ls, e.t.mk("attr", rLeaf, r.n))
		}
		for _, l := range ls {
			st := r.o.st.clone()
			if l == r.n && !e.restrict(st, r.n, e.leafB) || l != r.n && !e.restrict(st, r.n, e.allB&^e.leafB) {
				continue
			}
			if !e.assume(st, e.eq(l, e.t.tnil), false) && l != r.n {
				continue
			}
			done := r.okay && entryOf(r.key, rKey) == l
			for _, it := range r.seq.items {
				done = done || it.loop == nil && stripConv(it.val) == l
			}
			res.count("entries met by yielding operations", 1)
			ok := done || !e.mayAccept(st, kind, e.t.mk("attr", rKey, l), arg)
			res.ob(ok, Finding{Rule: "passed-over-" + kind, At: r.at(), Func: fname(t.f), Msg: fmt.Sprintf("%s: the entry %s is passed over, though its key %s", name, l, kindText[kind]), Path: e.pathOf(st)})
		}
	}
}

// mayAccept: the path does not rule out that the key satisfies the bound.
func (e *Eng) mayAccept(st *State, kind string, key, bound *Term) bool {
	st = st.clone()
	cmp := func(a, b *Term) *Term { return e.t.mk("cmpb", "", a, b) }
	zero := e.t.intT(0)
	for _, f := range st.facts {
		if f.t.mentions(key) && !e.plainTest(f.t, key, bound) {
			return false
		}
	}
	ok := true
	switch kind {
	case "all":
	case "prefix":
		ok = e.assume(st, e.t.mk("hasp", "", key, bound), true)
	case "path":
		ok = e.assume(st, e.t.mk("hasp", "", bound, key), true)
	case "ge":
		ok = e.assume(st, e.le(zero, cmp(key, bound)), true) && e.assume(st, e.le(cmp(bound, key), zero), true)
	case "le":
		ok = e.assume(st, e.le(cmp(key, bound), zero), true) && e.assume(st, e.le(zero, cmp(bound, key)), true)
	}
	return ok && !e.infeasible(st)
}

// plainTest: a comparison of the key with the bound.
func (e *Eng) plainTest(t, key, bound *Term) bool {
	if !t.mentions(key) {
		return e.opaqueIn(&State{facts: []fact{{t, true}}}) == nil || t == bound
	}
	switch t.op {
	case "hasp", "cmpb", "eqb":
		return (t.args[0] == key || t.args[0] == bound) && (t.args[1] == key || t.args[1] == bound)
	case "le0", "eq0", "eq", "lin", "not":
		for _, a := range t.args {
			if a != key && !e.plainTest(a, key, bound) {
				return false
			}
		}
		if t.op == "lin" {
			for _, a := range t.lin.atoms {
				if !e.plainTest(a, key, bound) {
					return false
				}
			}
		}
		return true
	case "len":
		return t.args[0] == key || t.args[0] == bound
	}
	return t == key
}

// fromNew: a new iterator starts at its node and passes nothing over.
func (c *Ctx) fromNew(res *Result) {
	seeks := map[string]map[string]bool{}
	ys := map[string][]*ssa.Function{}
	for _, y := range c.iterYields() {
		ys[recvName(y)] = append(ys[recvName(y)], y)
	}
	for _, br := range c.boundRules("prefix", "ge", "le") {
		if !br.make {
			n := recvName(br.seek)
			if seeks[n] == nil {
				seeks[n] = map[string]bool{}
			}
			seeks[n][br.kind] = true
		}
	}
	for _, f := range c.r.apiRoots() {
		rs := resultTypes(f.Signature)
		if len(rs) != 1 || !c.r.isIterPtr(rs[0]) || f.Signature.Recv() == nil || !c.r.isNode[namedOf(f.Signature.Recv().Type()).Obj()] {
			continue
		}
		name := namedOf(rs[0]).Obj().Name()
		if k := seeks[name]; k["ge"] && !k["prefix"] {
			continue // to be used after a seek
		}
		for _, y := range ys[name] {
			e := newEng(c)
			args := e.params(f)
			st0 := &State{}
			e.assume(st0, e.eq(args[0], e.t.tnil), false)
			for _, o := range e.Run(f, args, st0) {
				e.loops = nil
				outs := e.Run(y, []*Term{o.res[0]}, o.st.clone())
				if e.err != "" {
					engErr(res, e)
					return
				}
				res.count("new iterators followed", 1)
				what := fname(f) + " then " + fname(y)
				ts := c.travLoops(e, y, res)
				for _, t := range ts {
					var before *Term
					mem := t.loop.entry.mem
					if t.phi >= 0 {
						before = t.loop.phis[t.phi].entry
					} else {
						before = e.fieldBefore(mem, t.obj, t.role)
					}
					if before == nil {
						continue
					}
					s := e.seqOf(before, mem, func(*Term) bool { return false }, 0)
					if s == nil || s.base != nil {
						res.count("rounds not understood", 1)
						continue
					}
					n := 0
					for _, it := range s.items {
						if it.loop == nil && stripConv(it.val) == args[0] {
							n++
						}
					}
					res.count("starts of traversals", 1)
					res.ob(n == 1 && len(s.items) == 1, Finding{Rule: "starts-at-its-node", At: c.p.pos(f.Pos()), Func: fname(f), Msg: what + " does not start with the node alone", Path: e.pathOf(t.loop.entry)})
					if byteParam(f) >= 0 {
						continue
					}
					c.entriesMet(e, t, outs, "all", nil, what, res)
				}
				if len(ts) == 0 {
					sh := c.shape(y.Signature)
					some := false
					for _, o := range outs {
						some = some || sh.ok < 0 || e.accepted(o, sh.ok) != nil || e.opaqueIn(o.st) != nil
					}
					res.ob(some, Finding{Rule: "starts-at-its-node", At: c.p.pos(f.Pos()), Func: fname(f), Msg: what + " yields nothing"})
					continue
				}
				// ends before it starts
				for _, o := range outs {
					in := false
					for l := o.st.loops; l != nil; l = l.prev {
						in = in || l.info == ts[0].loop
					}
					if !in && !e.infeasible(o.st) && e.opaqueIn(o.st) == nil {
						res.ob(false, Finding{Rule: "starts-at-its-node", At: e.retPos(o), Func: fname(y), Msg: what + " ends at once", Path: e.pathOf(o.st)})
					}
				}
			}
		}
	}
}

func checkC25(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms. For every end of every round of a seek, each part of the node's subtree must be noted for the iterator, be left to the next round, or be ruled out by a comparison with the bound: the own entry, and an arbitrary child of each layout by its byte. For every round of the yielding operation, under the fields set by the seek, an entry that is met but not returned must have been found not to satisfy the bound."
	roles := map[string]bool{}
	rules := c.boundRules("prefix", "ge", "le", "path")
	kinds := map[*ssa.Function]string{}
	for _, br := range rules {
		c.passedOver(br, res, roles)
		kinds[br.seek] = br.kind
	}
	if res.err != "" {
		return
	}
	c.fromNew(res)
	for _, d := range c.descents(res, false) {
		kind := kinds[d.f]
		if d.rec != nil || kind == "" || kind == "path" {
			continue
		}
		d.place1()
		c.seekLoops(d, kind, roles, res)
	}
	res.floor("pairs of seek and yield operations", 5)
	res.floor("entries met by yielding operations", 20)
	res.floor("new iterators followed", 6)
	res.floor("rounds of a seek analysed", 2)
	res.floor("ends of rounds of seeks", 8)
	res.assumptions = append(res.assumptions, "traversals visit everything below the nodes noted (C21)", "the byte that chooses a child follows the bytes consumed (C20)",
		"the keys below a node start with the bytes consumed on the way to it and its prefix (C18, C20)")
}
