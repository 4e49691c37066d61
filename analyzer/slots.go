package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contents of arrays. The writes to an array form a log of single stores, copies
// and loops; an element at an index given by a term is found by going back
// through that log. A loop that counts writes, in the round i, the elements that
// its body writes for that i. Where the order of two indexes matters and is not
// known, the caller splits the case and asks again.

type iter struct {
	info *loopInfo
	at   *Term // the round
	prev *iter
}

func (it *iter) of(info *loopInfo) *Term {
	for ; it != nil; it = it.prev {
		if it.info == info {
			return it.at
		}
	}
	return nil
}

// slotQuery answers questions about the contents of arrays in one state.
type slotQuery struct {
	e     *Eng
	st    *State
	split *Term  // not known, and needed
	fail  string // not understood
	depth int

	inv   *nodeInv
	reads map[*Term]bool // elements of the old node that came up
	stale bool           // some of them are new
}

func (q *slotQuery) stopped() bool { return q.split != nil || q.fail != "" }

func (q *slotQuery) giveUp(format string, args ...any) *Term {
	if q.fail == "" {
		q.fail = fmt.Sprintf(format, args...)
	}
	return nil
}

// is decides a condition, or asks for it.
func (q *slotQuery) is(c *Term) bool {
	if q.stopped() {
		return false
	}
	if v, ok := q.decide(c); ok {
		return v
	}
	if q.split == nil {
		q.split = c
	}
	return false
}

// decide: a condition follows from what is known.
func (q *slotQuery) decide(c *Term) (bool, bool) {
	if q.stale && q.inv != nil {
		q.inv.facts(q)
	}
	return q.raw(c)
}

func (q *slotQuery) raw(c *Term) (bool, bool) {
	if v, ok := q.e.decide(q.st, c); ok {
		return v, ok
	}
	if v, ok := q.e.linDecide(q.st, c); ok {
		return v, ok
	}
	switch {
	case c.op == "eq0":
		// different contents, hence different places
		l := c.args[0].linOf()
		for i, f := range q.st.facts {
			x := arrayRead(f.t)
			if x == nil {
				continue
			}
			for _, g := range q.st.facts[:i] {
				y := arrayRead(g.t)
				if y == nil || f.v == g.v || x.aux != y.aux || x.args[0] != y.args[0] || f.t.op != g.t.op {
					continue
				}
				d := linAdd(x.args[1].linOf(), y.args[1].linOf(), -1)
				if same := linAdd(d, l, -1); len(same.atoms) == 0 && same.k == 0 {
					return false, true
				}
				if same := linAdd(d, l, 1); len(same.atoms) == 0 && same.k == 0 {
					return false, true
				}
			}
		}
	case arrayRead(c) != nil:
		// the same place under another name
		x := arrayRead(c)
		for _, f := range q.st.facts {
			y := arrayRead(f.t)
			if y == nil || y == x || f.t.op != c.op || y.aux != x.aux || y.args[0] != x.args[0] {
				continue
			}
			if v, ok := q.e.linDecide(q.st, q.e.eqInt(x.args[1], y.args[1])); ok && v {
				return f.v, true
			}
		}
	}
	return false, false
}

// arrayRead: the condition compares an element with nil or zero.
func arrayRead(c *Term) *Term {
	switch {
	case c.op == "eq" && c.args[1].isNil() && c.args[0].op == "attr" && len(c.args[0].args) == 2:
		return c.args[0]
	case c.op == "eq0" && c.args[0].op == "attr" && len(c.args[0].args) == 2:
		return c.args[0]
	}
	return nil
}

func (q *slotQuery) lt(a, b *Term) bool { return q.is(q.e.le(q.e.t.add(a, q.e.t.intT(1)), b)) }
func (q *slotQuery) le(a, b *Term) bool { return q.is(q.e.le(a, b)) }

// counter of a loop: the variable that changes by the same amount in each round.
func (info *loopInfo) counter() (i int, step int64, ok bool) {
	best := -1
	for n, p := range info.phis {
		if p.entry == nil || len(p.backs) == 0 || basicInfo(p.phi.Type())&types.IsInteger == 0 {
			continue
		}
		good := true
		var s int64
		for k, b := range p.backs {
			d, ok := diffConst(b.val, info.syms[n])
			if !ok || d != 1 && d != -1 || k > 0 && d != s {
				good = false
				break
			}
			s = d
		}
		if good {
			if best >= 0 {
				// several: any of them will do
				continue
			}
			best, step = n, s
		}
	}
	return best, step, best >= 0
}

// at: the value of a variable of the loop at the start of the given round.
func (q *slotQuery) at(info *loopInfo, n int, i *Term) *Term {
	e := q.e
	c, step, ok := info.counter()
	if !ok {
		return q.giveUp("a loop that does not count")
	}
	if n == c {
		return i
	}
	p := info.phis[n]
	if p.entry == nil {
		return q.giveUp("a loop entered in several ways")
	}
	rounds := e.t.sub(i, info.phis[c].entry)
	if step < 0 {
		rounds = e.t.sub(info.phis[c].entry, i)
	}
	same, moved := true, int64(0)
	var skip *Term
	skips := true
	for k, b := range p.backs {
		d, ok := diffConst(b.val, info.syms[n])
		if !ok {
			same, skips = false, false
			break
		}
		if k > 0 && d != moved {
			same = false
		}
		moved = d
		// the round that is left out
		u, eq := e.onlyRound(info, c, b.st)
		switch {
		case d == 0 && u != nil && eq && (skip == nil || skip == u):
			skip = u
		case d == 1 && u != nil && !eq && (skip == nil || skip == u):
			skip = u
		default:
			skips = false
		}
	}
	switch {
	case same:
		l := p.entry.linOf()
		l = linAdd(l, rounds.linOf(), moved)
		return e.t.fromLin(l)
	case skips && skip != nil && step == 1:
		v := e.t.add(p.entry, rounds)
		if q.lt(skip, i) && q.le(info.phis[c].entry, skip) {
			v = e.t.sub(v, e.t.intT(1))
		}
		if q.stopped() {
			return nil
		}
		return v
	}
	t := e.typed(e.t.mk("at", info.syms[n].aux, i), types.Typ[types.Int])
	// it only grows
	grows := true
	for _, b := range p.backs {
		if d, ok := diffConst(b.val, info.syms[n]); !ok || d < 0 || d > 1 {
			grows = false
		}
	}
	if grows && q.le(e.t.intT(0), rounds) {
		q.st.les = append(q.st.les, linAdd(p.entry.linOf(), t.linOf(), -1), linAdd(t.linOf(), linAdd(p.entry.linOf(), rounds.linOf(), 1), -1))
	}
	if q.stopped() {
		return nil
	}
	return t
}

// onlyRound: the path compares the counter with something fixed.
func (e *Eng) onlyRound(info *loopInfo, c int, st *State) (u *Term, eq bool) {
	for _, f := range st.facts[len(info.head.facts):] {
		if f.t.op != "eq0" {
			continue
		}
		l := f.t.args[0].linOf()
		for i, a := range l.atoms {
			if a != info.syms[c] || l.coef[i] != 1 && l.coef[i] != -1 {
				continue
			}
			rest := linAdd(a.linOf(), l, -l.coef[i])
			u := e.t.fromLin(rest)
			if !info.varies(u) {
				return u, f.v
			}
		}
	}
	return nil, false
}

func (info *loopInfo) varies(t *Term) bool {
	for _, s := range info.syms {
		if t.mentions(s) {
			return true
		}
	}
	return false
}

// rewrite rebuilds a term from changed parts. The function returns nil to go on
// into a term.
func (e *Eng) rewrite(t *Term, f func(*Term) *Term) *Term {
	if r := f(t); r != nil {
		return r
	}
	if t.op == "lin" {
		l := &linear{k: t.lin.k}
		for i, a := range t.lin.atoms {
			l = linAdd(l, e.rewrite(a, f).linOf(), t.lin.coef[i])
		}
		return e.t.fromLin(l)
	}
	if len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = e.rewrite(a, f)
		if args[i] != a {
			same = false
		}
	}
	if same {
		return t
	}
	switch t.op {
	case "eq":
		return e.eq(args[0], args[1])
	case "eq0":
		return e.eqInt(args[0], e.t.intT(0))
	case "le0":
		return e.le(args[0], e.t.intT(0))
	case "not":
		return e.not(args[0])
	}
	return e.typed(e.t.mk(t.op, t.aux, args...), t.typ)
}

// inRound replaces the variables of loops by their values in the round looked at.
func (q *slotQuery) inRound(t *Term, it *iter) *Term {
	for ; it != nil && t != nil; it = it.prev {
		info, at := it.info, it.at
		if !info.varies(t) {
			continue
		}
		t = q.e.rewrite(t, func(x *Term) *Term {
			for n, s := range info.syms {
				if x == s {
					if v := q.at(info, n, at); v != nil {
						return v
					}
					return x
				}
			}
			return nil
		})
	}
	return t
}

func hasVersion(t *Term) bool {
	if (t.op == "attr" || t.op == "elem") && strings.IndexByte(t.aux, '@') >= 0 {
		return true
	}
	for _, a := range t.args {
		if hasVersion(a) {
			return true
		}
	}
	if t.op == "lin" {
		for _, a := range t.lin.atoms {
			if hasVersion(a) {
				return true
			}
		}
	}
	return false
}

// resolve replaces reads of memory at some point by what they yield.
func (q *slotQuery) resolve(t *Term, m *memEntry, it *iter) *Term {
	if q.stopped() || t == nil {
		return nil
	}
	e := q.e
	t = q.inRound(t, it)
	if q.stopped() {
		return nil
	}
	if !hasVersion(t) && !hasArrayElem(t) {
		return t
	}
	r := e.rewrite(t, func(x *Term) *Term {
		if q.stopped() || e.fixed[x] {
			return x
		}
		switch {
		case x.op == "attr" && strings.IndexByte(x.aux, '@') >= 0:
			y := m
			if from := entrySeq(x); from > 0 {
				for y != nil && y.seq != from {
					y = y.next
				}
				if y == nil {
					q.giveUp("read of older memory")
					return x
				}
			}
			obj := q.resolve(x.args[0], y.next, it)
			var idx *Term
			if len(x.args) > 1 {
				idx = q.resolve(x.args[1], m, it)
			}
			if q.stopped() {
				return x
			}
			if v := q.get(y, obj, baseRole(x), idx, x.typ, it); v != nil {
				return v
			}
			return x
		case x.op == "elem" && x.args[0].op == "attr" && isArrayRole(baseRole(x.args[0])):
			// an element of a whole array that was read before
			b := x.args[0]
			y := m
			if from := entrySeq(b); from > 0 {
				for y != nil && y.seq != from {
					y = y.next
				}
			} else {
				y = nil
			}
			idx := q.resolve(x.args[1], m, it)
			if q.stopped() {
				return x
			}
			if v := q.get(y, b.args[0], baseRole(b), idx, x.typ, it); v != nil {
				return v
			}
			return x
		}
		return nil
	})
	if q.stopped() {
		return nil
	}
	return r
}

func isArrayRole(r string) bool { return r == rKeys || r == rChildren }

func hasArrayElem(t *Term) bool {
	if t.op == "elem" && t.args[0].op == "attr" && isArrayRole(baseRole(t.args[0])) {
		return true
	}
	for _, a := range t.args {
		if hasArrayElem(a) {
			return true
		}
	}
	if t.op == "lin" {
		for _, a := range t.lin.atoms {
			if hasArrayElem(a) {
				return true
			}
		}
	}
	return false
}

func entrySeq(t *Term) int {
	i := strings.IndexByte(t.aux, '@')
	if i < 0 {
		return 0
	}
	n := 0
	fmt.Sscanf(t.aux[i+1:], "%d", &n)
	return n
}

// get finds the value of a field or element.
func (q *slotQuery) get(m *memEntry, obj *Term, role string, idx *Term, ty types.Type, it *iter) *Term {
	if q.stopped() {
		return nil
	}
	q.depth++
	defer func() { q.depth-- }()
	if q.depth > 40 {
		return q.giveUp("too deep")
	}
	e := q.e
	if obj.op == "append" || obj.op == "appendall" {
		return q.giveUp("element of %s", obj)
	}
	for ; m != nil; m = m.next {
		if m.role == "*" && m.obj == obj && m.val != nil && m.val.op == "attr" && baseRole(m.val) == "*" && role != "*" {
			// the whole object was copied
			y := m.next
			if from := entrySeq(m.val); from > 0 {
				for y != nil && y.seq != from {
					y = y.next
				}
			}
			return q.get(y, m.val.args[0], role, idx, ty, it)
		}
		if role == "[]" && m.role == "contents" && m.obj == obj && m.val != nil {
			src, srole, so := e.sliceLoc(m.val)
			return q.get(m.next, src, srole, e.t.add(so, idx), ty, it)
		}
		if m.role != role {
			continue
		}
		if m.under != nil || m.obj == nil {
			if a := e.allocs[obj]; a != nil && a.seq > m.seq {
				continue
			}
			return q.giveUp("memory changed by a recursive call")
		}
		mo := q.inRound(m.obj, it)
		if q.stopped() {
			return nil
		}
		if mo != obj {
			if e.origin(mo) == e.origin(obj) && e.allocs[mo] == nil && e.allocs[obj] == nil {
				// the same node under two names
			} else {
				switch q.alias(mo, obj) {
				case aNo:
					continue
				case aMaybe:
					return q.giveUp("%s may be %s", mo, obj)
				}
			}
		}
		switch {
		case m.loop != nil && m.anyIdx:
			v, hit := q.fromLoop(m, obj, role, idx, it)
			if q.stopped() {
				return nil
			}
			if hit {
				return v
			}
			continue
		case m.loop != nil:
			return q.giveUp("a field changed in a loop")
		case m.cp != nil:
			if idx == nil {
				return q.giveUp("copied")
			}
			v, hit := q.fromCopy(m, idx, it)
			if q.stopped() {
				return nil
			}
			if hit {
				return v
			}
			continue
		case m.anyIdx || m.val == nil:
			return q.giveUp("unknown change of %s", role)
		case m.idx == nil && idx != nil:
			// the whole array
			if m.val.op == "zero" {
				return q.zeroOf(role, ty)
			}
			if m.val.op == "attr" && baseRole(m.val) == role {
				y := m.next
				if from := entrySeq(m.val); from > 0 {
					for y != nil && y.seq != from {
						y = y.next
					}
				}
				return q.get(y, m.val.args[0], role, idx, ty, it)
			}
			return q.giveUp("array assigned")
		case m.idx != nil && idx != nil:
			mi := q.resolve(m.idx, m.next, it)
			if q.stopped() {
				return nil
			}
			if !q.is(e.eqInt(mi, idx)) {
				if q.stopped() {
					return nil
				}
				continue
			}
		}
		return q.resolve(m.val, m.next, it)
	}
	if a := e.allocs[obj]; a != nil {
		if a.cloneOf != nil && role != rID {
			return q.get(a.snap, a.cloneOf, role, idx, ty, it)
		}
		if idx != nil || role != "[]" {
			return q.zeroOf(role, ty)
		}
	}
	if idx != nil {
		if role == "[]" {
			return e.typed(e.t.mk("elem", "", obj, idx), ty)
		}
		t := e.typed(e.t.mk("attr", role, obj, idx), ty)
		q.came(t)
		return t
	}
	return e.typed(e.t.mk("attr", role, obj), ty)
}

func (q *slotQuery) alias(a, b *Term) int {
	// every node has its own prefix
	if a.op == "attr" && b.op == "attr" && baseRole(a) == rPartial && baseRole(b) == rPartial {
		if q.e.alias(q.st, a.args[0], b.args[0]) == aNo {
			return aNo
		}
	}
	return q.e.alias(q.st, a, b)
}

// lens: the prefixes of all nodes have room for the same number of bytes.
func (q *slotQuery) lens(t *Term) *Term {
	kept := q.e.c.keptBytes()
	if t == nil || kept == 0 {
		return t
	}
	return q.e.rewrite(t, func(x *Term) *Term {
		if x.op == "len" && x.args[0].op == "attr" && baseRole(x.args[0]) == rPartial {
			return q.e.t.intT(kept)
		}
		return nil
	})
}

// came notes an element of the old node.
func (q *slotQuery) came(t *Term) {
	if q.inv != nil && t.args[0] == q.inv.n && !q.reads[t] {
		if q.reads == nil {
			q.reads = map[*Term]bool{}
		}
		q.reads[t] = true
		q.stale = true
	}
}

func (q *slotQuery) zeroOf(role string, ty types.Type) *Term {
	switch role {
	case rKeys, rNum, rPLen:
		return q.e.t.intT(0)
	case rChildren, rLeaf, rPartial:
		return q.e.t.tnil
	}
	return q.e.zero(ty)
}

func (q *slotQuery) fromCopy(m *memEntry, idx *Term, it *iter) (*Term, bool) {
	e := q.e
	cp := m.cp
	lo := q.resolve(cp.lo, m.next, it)
	dl := q.resolve(q.lens(cp.dlen), m.next, it)
	sl := q.resolve(q.lens(cp.slen), m.next, it)
	if q.stopped() {
		return nil, false
	}
	if !q.le(lo, idx) {
		return nil, false
	}
	off := e.t.sub(idx, lo)
	if !q.lt(off, dl) || q.stopped() || !q.lt(off, sl) {
		return nil, false
	}
	obj, role, so := e.sliceLoc(cp.src)
	so = q.resolve(so, m.next, it)
	if q.stopped() {
		return nil, false
	}
	var ty types.Type
	if role == rKeys || role == "[]" {
		ty = types.Typ[types.Uint8]
	}
	obj = q.resolve(obj, m.next, it)
	if q.stopped() {
		return nil, false
	}
	return q.get(m.next, obj, role, e.t.add(so, off), ty, it), true
}

// written: the elements a loop writes in one round, by path through its body.
type written struct {
	st  *State
	m   *memEntry
	idx *Term
}

func (e *Eng) loopWrites(info *loopInfo, obj *Term, role string) (ws []written, ok bool) {
	for _, b := range info.backs {
		for m := b.st.mem; m != nil && m != info.head.mem; m = m.next {
			if m.role != role {
				continue
			}
			if m.obj != obj {
				if m.obj == nil || m.under != nil {
					return nil, false
				}
				switch e.alias(b.st, m.obj, obj) {
				case aNo:
					continue
				case aMaybe:
					return nil, false
				}
			}
			if m.anyIdx || m.idx == nil || m.val == nil {
				return nil, false
			}
			ws = append(ws, written{b.st, m, m.idx})
		}
	}
	return ws, true
}

// rounds: candidates for the round of the loop in which the term has the value.
func (q *slotQuery) rounds(info *loopInfo, t, val *Term) (out []*Term, known bool) {
	e := q.e
	c, _, ok := info.counter()
	if !ok {
		return nil, false
	}
	i := info.syms[c]
	l := t.linOf()
	for k, a := range l.atoms {
		if l.coef[k] != 1 {
			continue
		}
		rest := linAdd(l, a.linOf(), -1)
		if info.varies(e.t.fromLin(rest)) {
			continue
		}
		target := e.t.fromLin(linAdd(val.linOf(), rest, -1))
		switch {
		case a == i:
			return []*Term{target}, true
		case a.op == "sym":
			for n, s := range info.syms {
				if a != s {
					continue
				}
				// the same variable in a given round
				if target.op == "at" && target.aux == s.aux {
					return []*Term{target.args[0]}, true
				}
				p := info.phis[n]
				if p.entry == nil {
					return nil, false
				}
				if len(target.linOf().atoms) > 0 {
					for _, x := range target.linOf().atoms {
						if x.op == "at" {
							return nil, false
						}
					}
				}
				v := q.at(info, n, i)
				if q.stopped() {
					// depends on the round left out
					q.split, q.fail = nil, ""
					base := e.t.add(e.t.sub(target, p.entry), info.phis[c].entry)
					return []*Term{base, e.t.add(base, e.t.intT(1))}, true
				}
				if v.op == "at" {
					return nil, false
				}
				return q.rounds(info, v, target)
			}
		case a.op == "attr" && len(a.args) == 2 && info.varies(a.args[1]):
			// stored under a key byte: the same slot
			for _, x := range target.linOf().atoms {
				if x.op == "attr" && len(x.args) == 2 && baseRole(x) == baseRole(a) && e.origin(x.args[0]) == e.origin(a.args[0]) {
					return q.rounds(info, a.args[1], x.args[1])
				}
			}
			return nil, true
		}
	}
	return nil, false
}

// ran: the round is one of those the loop completed before the given point.
func (q *slotQuery) ran(info *loopInfo, i *Term, it *iter) bool {
	c, step, ok := info.counter()
	if !ok {
		return false
	}
	end := it.of(info)
	if end == nil {
		end = info.syms[c]
	}
	if step > 0 {
		return q.le(info.phis[c].entry, i) && q.lt(i, end)
	}
	return q.le(i, info.phis[c].entry) && q.lt(end, i)
}

// takes: the round takes the path.
func (q *slotQuery) takes(info *loopInfo, st *State, it *iter) bool {
	for _, f := range st.facts[len(info.head.facts):] {
		if !info.varies(f.t) && !hasVersion(f.t) {
			continue
		}
		if info.always(f) {
			continue
		}
		c := q.resolve(f.t, st.mem, it)
		if q.stopped() {
			return false
		}
		if q.is(c) != f.v {
			return false
		}
		if q.stopped() {
			return false
		}
	}
	return true
}

// always: known in every round that was completed.
func (info *loopInfo) always(f fact) bool {
	for _, b := range info.backs {
		has := false
		for _, x := range b.st.facts[len(info.head.facts):] {
			has = has || x.t == f.t && x.v == f.v
		}
		if !has {
			return false
		}
	}
	return true
}

func (q *slotQuery) fromLoop(h *memEntry, obj *Term, role string, idx *Term, it *iter) (*Term, bool) {
	e := q.e
	info := h.loop
	if idx == nil {
		q.giveUp("a field changed in a loop")
		return nil, false
	}
	ws, ok := e.loopWrites(info, h.obj, role)
	if !ok {
		q.giveUp("a loop writes in a way not understood")
		return nil, false
	}
	c, _, ok := info.counter()
	if !ok {
		q.giveUp("a loop that does not count")
		return nil, false
	}
	for _, w := range ws {
		cands, known := q.rounds(info, w.idx, idx)
		if q.stopped() {
			return nil, false
		}
		if !known {
			// outside all of them
			if q.outside(info, w.idx, idx, it) {
				continue
			}
			q.giveUp("the loop may write %s in some round", idx)
			return nil, false
		}
		for _, i := range cands {
			if !q.ran(info, i, it) {
				if q.stopped() {
					return nil, false
				}
				continue
			}
			in := &iter{info, i, it}
			if !q.takes(info, w.st, in) {
				if q.stopped() {
					return nil, false
				}
				continue
			}
			wi := q.resolve(w.idx, w.m.next, in)
			if q.stopped() {
				return nil, false
			}
			if !q.is(e.eqInt(wi, idx)) {
				if q.stopped() {
					return nil, false
				}
				continue
			}
			return q.resolve(w.m.val, w.m.next, in), true
		}
	}
	_ = c
	return nil, false
}

// outside: a variable that only grows has not reached the index, or is past it.
func (q *slotQuery) outside(info *loopInfo, t, idx *Term, it *iter) bool {
	e := q.e
	l := t.linOf()
	for k, a := range l.atoms {
		if l.coef[k] != 1 {
			continue
		}
		for n, s := range info.syms {
			if a != s {
				continue
			}
			rest := linAdd(l, a.linOf(), -1)
			if info.varies(e.t.fromLin(rest)) {
				return false
			}
			target := e.t.fromLin(linAdd(idx.linOf(), rest, -1))
			p := info.phis[n]
			grows := p.entry != nil
			for _, b := range p.backs {
				if d, ok := diffConst(b.val, s); !ok || d < 0 || d > 1 {
					grows = false
				}
			}
			if !grows {
				return false
			}
			end := s
			if r := it.of(info); r != nil {
				if end = q.at(info, n, r); end == nil {
					return false
				}
			}
			if v, ok := q.decide(e.le(end, target)); ok && v {
				return true
			}
			if v, ok := q.decide(e.le(p.entry, target)); ok && !v {
				return true
			}
		}
	}
	return false
}

// ---- cases ----

const (
	vacuous = iota
	yes
	unknown
	no
)

type verdict struct {
	v   int
	msg string
	st  *State
}

// prove establishes a goal in all cases of a state.
func (e *Eng) prove(st *State, inv *nodeInv, depth int, goal func(q *slotQuery) verdict) verdict {
	st = st.clone()
	q := &slotQuery{e: e, st: st, inv: inv}
	if inv != nil {
		inv.facts(q)
	}
	if e.contradicts(st) {
		return verdict{v: vacuous}
	}
	q.split, q.fail = nil, ""
	var r verdict
	if q.finals() {
		r = goal(q)
	}
	if e.contradicts(st) {
		return verdict{v: vacuous}
	}
	if q.split != nil {
		if depth == 0 {
			return verdict{v: unknown, msg: "too many cases: " + q.split.String(), st: st}
		}
		out := verdict{v: vacuous}
		for _, b := range []bool{true, false} {
			st2 := st.clone()
			if !e.assume(st2, q.split, b) {
				continue
			}
			x := e.prove(st2, inv, depth-1, goal)
			if x.v > out.v {
				out = x
			}
			if out.v == no {
				break
			}
		}
		return out
	}
	if q.fail != "" {
		return verdict{v: unknown, msg: q.fail, st: st}
	}
	r.st = st
	if r.v == no {
		if t := e.opaqueIn(st); t != nil {
			return verdict{v: unknown, msg: "depends on " + t.String(), st: st}
		}
	}
	return r
}

// opaqueIn: a condition of the path that is not understood.
func (e *Eng) opaqueIn(st *State) *Term {
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		switch t.op {
		case "call":
			if e.searches[t] == nil {
				return t
			}
			return nil
		case "bin", "un", "cmpb", "eqb", "hasp", "agree", "agreeo", "append", "appendall", "extract", "rangekey", "rangeval", "cap":
			return t
		}
		for _, a := range t.args {
			if r := walk(a); r != nil {
				return r
			}
		}
		if t.op == "lin" {
			for _, a := range t.lin.atoms {
				if r := walk(a); r != nil {
					return r
				}
			}
		}
		return nil
	}
	for _, f := range st.facts {
		if r := walk(f.t); r != nil {
			return r
		}
	}
	for l := st.loops; l != nil; l = l.prev {
		if _, _, ok := l.info.counter(); !ok && len(l.info.syms) > 0 {
			for _, f := range st.facts {
				if l.info.varies(f.t) {
					return f.t
				}
			}
		}
	}
	return nil
}

// finals adds the values of variables after the loops that were passed, and what
// conditions on memory say of the old node.
func (q *slotQuery) finals() bool {
	e := q.e
	for l := q.st.loops; l != nil; l = l.prev {
		c, _, ok := l.info.counter()
		if !ok {
			continue
		}
		for n, s := range l.info.syms {
			if n == c || !q.plain(l.info, n) {
				continue
			}
			v := q.at(l.info, n, l.info.syms[c])
			if q.split != nil {
				return false
			}
			if v == nil || v.op == "at" {
				q.fail = ""
				continue
			}
			q.learn(e.eqInt(s, v), true)
		}
	}
	for i := 0; i < len(q.st.facts); i++ {
		f := q.st.facts[i]
		if !hasVersion(f.t) {
			continue
		}
		t := q.resolve(f.t, q.st.mem, nil)
		if q.split != nil {
			return false
		}
		if t == nil || q.fail != "" {
			q.fail = ""
			continue
		}
		q.learn(t, f.v)
	}
	return true
}

// plain: an integer that changes by a constant on each path through the loop.
func (q *slotQuery) plain(info *loopInfo, n int) bool {
	p := info.phis[n]
	if p.entry == nil || basicInfo(p.phi.Type())&types.IsInteger == 0 {
		return false
	}
	for _, b := range p.backs {
		if _, ok := diffConst(b.val, info.syms[n]); !ok {
			return false
		}
	}
	return true
}

// contradicts: the case cannot arise.
func (e *Eng) contradicts(st *State) bool {
	if e.linImpossible(st.les) {
		return true
	}
	for _, f := range st.facts {
		if f.t.op != "eq0" || f.v {
			continue
		}
		l := f.t.args[0].linOf()
		if e.linImpossible(st.les, neg1(l)) && e.linImpossible(st.les, neg1(linNeg(l))) {
			return true
		}
	}
	// one element, two contents
	for i, f := range st.facts {
		x := arrayRead(f.t)
		if x == nil {
			continue
		}
		for _, g := range st.facts[:i] {
			y := arrayRead(g.t)
			if y == nil || f.v == g.v || x.aux != y.aux || x.args[0] != y.args[0] || f.t.op != g.t.op {
				continue
			}
			if v, ok := e.linDecide(st, e.eqInt(x.args[1], y.args[1])); ok && v {
				return true
			}
		}
	}
	return false
}

// predicate: the condition a search evaluates for an index.
func (e *Eng) predicate(si *searchInfo, x *Term) *Term {
	if si.pred.op != "closure" && si.pred.op != "func" {
		return nil
	}
	var f *ssa.Function
	for _, g := range e.c.ownership().fn {
		if g.String() == si.pred.aux {
			f = g
		}
	}
	if f == nil {
		return nil
	}
	var outs []outcome
	st := &State{mem: si.mem}
	e.enter(f, []*Term{x}, si.pred.args, st, nil, func(o outcome) { outs = append(outs, o) })
	if len(outs) != 1 || len(outs[0].res) != 1 {
		return nil
	}
	return outs[0].res[0]
}
