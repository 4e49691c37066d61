package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A findSite is a place where the child for a byte is looked up.
type findSite struct {
	st  *State
	fn  *ssa.Function
	n   *Term
	b   *Term
	res []*Term
	pos token.Pos
}

// A descent is one analysed function that walks down towards a key. For every
// node variable it has a linear expression that gives the number of key bytes
// consumed before that node, found at the look-ups of children and then proved
// by induction over the rounds of the loop or the depth of the recursion.
type descent struct {
	c     *Ctx
	e     *Eng
	f     *ssa.Function
	args  []*Term
	outs  []outcome
	sites []*findSite
	rec   *recRun // of a recursive function
	key   *Term
	at    map[*Term]*linear // node variable -> bytes consumed before it
}

// origin strips the copies off a node.
func (e *Eng) origin(n *Term) *Term {
	for i := 0; i < 10; i++ {
		if a := e.allocs[n]; a != nil && a.cloneOf != nil {
			n = a.cloneOf
			continue
		}
		break
	}
	return n
}

// keyByte: the byte is an element of a key; its position counted from the start
// of the key.
func (d *descent) keyByte(st *State, b *Term) (key *Term, pos *linear, ok bool) {
	if b.op != "elem" || b.aux != "" {
		return nil, nil, false
	}
	k := b.args[0]
	pos = b.args[1].linOf()
	for k.op == "slice" {
		pos = linAdd(pos, k.args[1].linOf(), 1)
		k = k.args[0]
	}
	if pi := d.e.phis[k]; pi != nil {
		pos = linAdd(pos, d.e.t.mk("off", "", k).linOf(), 1)
		seen := map[*Term]bool{}
		for pi != nil && pi.entry != nil && !seen[k] {
			seen[k] = true
			k = pi.entry
			for k.op == "slice" {
				k = k.args[0]
			}
			k = d.e.norm(st, k)
			pi = d.e.phis[k]
		}
	}
	return d.e.norm(st, k), pos, true
}

func mentionsElem(t *Term) bool {
	if t.op == "elem" {
		return true
	}
	for _, a := range t.args {
		if mentionsElem(a) {
			return true
		}
	}
	if t.lin != nil {
		for _, a := range t.lin.atoms {
			if mentionsElem(a) {
				return true
			}
		}
	}
	return false
}

func (d *descent) plen(st *State, n *Term) *Term {
	return d.e.read(st, st.mem, n, rPLen, nil, types.Typ[types.Uint32])
}

// childless: the node has no children on this path.
func (e *Eng) childless(st *State, n *Term) bool {
	if m := e.mask(st, n); m != 0 && m&^e.leafB == 0 {
		return true
	}
	return e.sure(st, e.eqInt(e.read(st, st.mem, n, rNum, nil, types.Typ[types.Int]), e.t.intT(0)))
}

// before: the bytes consumed before the node, given that the look-up in it uses
// the byte at pos.
func (d *descent) before(st *State, n *Term, pos *linear) (*linear, bool) {
	pl := d.plen(st, n)
	if l := pl.linOf(); len(l.atoms) > 0 {
		for i, a := range pos.atoms {
			if a == l.atoms[0] && pos.coef[i] == l.coef[0] {
				return linAdd(pos, l, -1), true
			}
		}
	}
	if d.e.entails(st, pl.linOf(), 3) {
		return pos, true
	}
	return nil, false
}

// substAt replaces the loop variables by their values on an edge.
func (d *descent) subst(l *linear, info *loopInfo, val func(i int) *Term) *linear {
	out := &linear{k: l.k}
	for i, a := range l.atoms {
		r := a
		for j, s := range info.syms {
			if s == a {
				if v := val(j); v != nil {
					r = v
				}
			}
			if a.op == "off" && a.args[0] == s {
				r = d.offOf(val(j))
			}
		}
		out = linAdd(out, r.linOf(), l.coef[i])
	}
	return out
}

// offOf: how many bytes of the key have been cut off.
func (d *descent) offOf(k *Term) *Term {
	off := d.e.t.intT(0)
	for k != nil && k.op == "slice" {
		off = d.e.t.add(off, k.args[1])
		k = k.args[0]
	}
	if k != nil && d.e.phis[k] != nil {
		off = d.e.t.add(off, d.e.t.mk("off", "", k))
	}
	return off
}

// consumed: the bytes consumed before a node.
func (d *descent) consumed(st *State, n *Term, seen map[*Term]bool) (*linear, bool) {
	n = d.e.origin(n)
	if l := d.at[n]; l != nil {
		return l, true
	}
	if n.op == "child" {
		k, pos, ok := d.keyByte(st, n.args[1])
		if !ok || k != d.key {
			return nil, false
		}
		return linAdd(pos, &linear{k: 1}, 1), true
	}
	if pi := d.e.phis[n]; pi != nil {
		if seen[n] || pi.entry == nil {
			return nil, false
		}
		seen[n] = true
		defer delete(seen, n)
		l, ok := d.consumed(pi.run.entry, pi.entry, seen)
		if !ok {
			return nil, false
		}
		for _, b := range pi.backs {
			if b.val == n {
				continue
			}
			l2, ok := d.consumed(b.st, b.val, seen)
			if !ok || d.e.t.fromLin(l) != d.e.t.fromLin(l2) {
				return nil, false
			}
		}
		return l, true
	}
	if n.op == "attr" && !versioned(n) && baseRole(n) != rChildren && baseRole(n) != rLeaf {
		// the root of the tree or the node an iterator starts from
		return &linear{}, true
	}
	return nil, false
}

func sameLin(e *Eng, st *State, a, b *linear) bool {
	x := linAdd(a, b, -1)
	if len(x.atoms) == 0 {
		return x.k == 0
	}
	return e.entails(st, x, 3) && e.entails(st, linAdd(&linear{}, x, -1), 3)
}

// placeSites finds the expressions and reports look-ups that do not fit.
func (d *descent) placeSites(report func(rule string, st *State, pos token.Pos, fn *ssa.Function, bad string)) (found, enum int) {
	e := d.e
	for _, s := range d.sites {
		n := e.origin(s.n)
		k, pos, ok := d.keyByte(s.st, s.b)
		if !ok {
			if mentionsElem(s.b) {
				report("byte-of-the-key", s.st, s.pos, s.fn, fmt.Sprintf("the child is looked up by %s, which is not a byte of the key", s.b))
				continue
			}
			enum++
			continue
		}
		found++
		if e.childless(s.st, s.n) {
			continue
		}
		if k != d.key {
			report("byte-of-the-key", s.st, s.pos, s.fn, fmt.Sprintf("the child is looked up by a byte of %s instead of the key", k))
			continue
		}
		x, ok := d.before(s.st, n, pos)
		if !ok {
			report("prefix-consumed", s.st, s.pos, s.fn, fmt.Sprintf("the byte at %s is used to choose a child, without the compressed prefix of the node having been consumed", e.t.fromLin(pos)))
			continue
		}
		bad := ""
		switch {
		case e.phis[n] != nil || n.op == "param":
			old := d.at[n]
			if old == nil {
				d.at[n] = x
			} else if !sameLin(e, s.st, old, x) {
				bad = fmt.Sprintf("the byte at %s is used to choose a child of the node, elsewhere the one at %s plus the prefix of the node", e.t.fromLin(pos), e.t.fromLin(old))
			}
		default:
			l, ok := d.consumed(s.st, n, map[*Term]bool{})
			if !ok {
				bad = fmt.Sprintf("%s is not reached by the bytes of the key", n)
			} else if !sameLin(e, s.st, l, x) {
				bad = fmt.Sprintf("the byte at %s is used to choose a child of %s, expected the one at %s plus its prefix", e.t.fromLin(pos), n, e.t.fromLin(l))
			}
		}
		report("byte-follows-the-consumed-part", s.st, s.pos, s.fn, bad)
	}
	return
}

// induction checks that the expressions hold on entry and on every move.
func (d *descent) induction(report func(rule string, st *State, pos token.Pos, fn *ssa.Function, bad string)) int {
	e := d.e
	moves := 0
	for _, n := range d.nodes() {
		x := d.at[n]
		pi := e.phis[n]
		if pi == nil || pi.entry == nil {
			continue
		}
		info := pi.run
		check := func(st *State, to *Term, val func(int) *Term, pos token.Pos, rule string) {
			if to.isNil() || e.sure(st, e.eq(to, e.t.tnil)) || to.op == "child" && e.childless(st, to.args[0]) {
				return
			}
			moves++
			now := d.subst(x, info, val)
			bad := ""
			want, ok := d.consumed(st, to, map[*Term]bool{})
			if to == n {
				want, ok = x, true
			}
			if !ok {
				bad = fmt.Sprintf("moves to %s, which is not the child for the next byte of the key", to)
			} else if !sameLin(e, st, want, now) {
				bad = fmt.Sprintf("moves to %s, before which %s bytes are consumed, but counts %s", to, e.t.fromLin(want), e.t.fromLin(now))
			}
			report(rule, st, pos, info.fn, bad)
		}
		check(info.entry, pi.entry, func(i int) *Term { return info.phis[i].entry }, lastPos(info.l.head), "starts-at-zero")
		for bi, b := range info.backs {
			bi := bi
			to := pi.backs[bi].val
			check(b.st, to, func(i int) *Term { return info.phis[i].backs[bi].val }, b.pos, "one-byte-per-level")
		}
	}
	if d.rec == nil {
		return moves
	}
	rs := d.rec.rs
	n := d.args[rs.nodeP]
	x := d.at[n]
	if x == nil {
		return moves
	}
	seen := map[*event]bool{}
	for _, o := range d.outs {
		for v := o.st.ev; v != nil; v = v.prev {
			if v.kind != "rec" || v.spec != rs || seen[v] {
				continue
			}
			seen[v] = true
			moves++
			st := o.st.clone()
			st.mem = v.mem
			bad := d.recMove(st, x, d.args, v)
			report("one-byte-per-level", st, v.pos, rs.f, bad)
		}
	}
	return moves
}

// recMove: a call of a recursive function passes on the child and the bytes
// consumed before it, as x counts them in the parameters of that function.
func (d *descent) recMove(st *State, x *linear, params []*Term, v *event) string {
	e := d.e
	rs := v.spec
	to := v.args[rs.nodeP]
	now := &linear{k: x.k}
	for i, a := range x.atoms {
		at := -1
		for j, p := range params {
			if p.aux == a.aux && p.op == a.op {
				at = j
			}
		}
		if at < 0 {
			return fmt.Sprintf("the bytes consumed are counted by %s", a)
		}
		now = linAdd(now, v.args[at].linOf(), x.coef[i])
	}
	if k := v.args[rs.keyP]; k != d.key && !e.sure(st, e.eqBytes(st, k, d.key)) {
		return fmt.Sprintf("goes on with the key %s", k)
	}
	want, ok := d.consumed(st, to, map[*Term]bool{})
	if !ok {
		return fmt.Sprintf("goes on with %s, which is not the child for the next byte of the key", to)
	}
	if !sameLin(e, st, want, now) {
		return fmt.Sprintf("goes on with %s, before which %s bytes are consumed, but counts %s", to, e.t.fromLin(want), e.t.fromLin(now))
	}
	return ""
}

// descents analyses every operation that takes a key and the recursive functions
// they call.
func (c *Ctx) descents(res *Result, open bool) []*descent {
	var out []*descent
	specs, runs := c.solveRecs(res, innerStart, trackRoles, true, open)
	if res.err != "" {
		return nil
	}
	for _, r := range runs {
		out = append(out, &descent{c: c, e: r.e, f: r.rs.f, args: r.args, outs: r.outs, sites: r.sites, rec: r, key: r.args[r.rs.keyP], at: map[*Term]*linear{}})
	}
	for _, f := range c.r.apiRoots() {
		if byteParam(f) < 0 {
			continue
		}
		if s := c.shape(f.Signature); s.ok >= 0 && s.val < 0 {
			// made up of other operations on many keys
			res.count("operations made up of others, left out", 1)
			continue
		}
		e := newEng(c)
		e.openAll = open
		e.hook = recHook(specs, true)
		e.ignore = trackRoles
		d := &descent{c: c, e: e, f: f, at: map[*Term]*linear{}}
		e.onFind = func(s *findSite) { d.sites = append(d.sites, s) }
		d.args = e.params(f)
		d.key = d.args[byteParam(f)]
		d.outs = e.Run(f, d.args, &State{})
		engErr(res, e)
		out = append(out, d)
	}
	return out
}

// ---- C20 ----

func checkC20(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms: at every look-up of a child by a byte of the key, the position of that byte is split into the bytes consumed before the node and the complete length of the node's compressed prefix; the expression for the former is then proved by induction over the rounds of the loop or the depth of the recursion."
	ds := c.descents(res, false)
	if res.err != "" {
		return
	}
	recX := map[*recSpec]*descent{}
	for _, d := range ds {
		report := func(rule string, st *State, pos token.Pos, fn *ssa.Function, bad string) {
			res.ob(bad == "", Finding{Rule: rule, At: c.p.pos(pos), Func: fname(fn), Msg: bad, Path: d.e.pathOf(st)})
		}
		found, enum := d.placeSites(report)
		moves := d.induction(report)
		res.count("look-ups of a child by a byte of the key, per path", found)
		res.count("look-ups of a child by another byte, per path", enum)
		res.count("moves to another node, per path", moves)
		if found > 0 {
			res.count("functions that descend", 1)
		}
		if d.rec != nil {
			recX[d.rec.rs] = d
		} else {
			res.count("operations that take a key", 1)
		}
		for _, n := range d.nodes() {
			res.sample(fmt.Sprintf("%s: before %s: %s bytes", fname(d.f), n, d.e.t.fromLin(d.at[n])))
		}
	}
	// where the recursion starts
	for _, d := range ds {
		if d.rec != nil {
			continue
		}
		seen := map[*event]bool{}
		for _, o := range d.outs {
			for v := o.st.ev; v != nil; v = v.prev {
				if v.kind != "rec" || seen[v] {
					continue
				}
				seen[v] = true
				r := recX[v.spec]
				x := r.at[r.args[v.spec.nodeP]]
				if x == nil {
					continue
				}
				st := o.st.clone()
				st.mem = v.mem
				bad := d.recMove(st, x, r.args, v)
				res.ob(bad == "", Finding{Rule: "starts-at-zero", At: c.p.pos(v.pos), Func: fname(d.f), Msg: bad, Path: d.e.pathOf(o.st)})
				res.count("starts of a recursion, per path", 1)
			}
		}
	}
	c.keptStarts(res, ds)
	c.placements(res)
	res.floor("functions that descend", 7)
	res.floor("operations that take a key", 15)
	res.assumptions = append(res.assumptions, "the look-up of a child returns the child stored for the byte (C19)", "the slot of a child in a node stands for the byte after the node's prefix (C18)")
}

func (d *descent) nodes() []*Term {
	var ns []*Term
	for n := range d.at {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].id < ns[j].id })
	return ns
}

// keptStarts: the node an iterator starts from stays the same, since a later seek
// starts there again with nothing consumed.
func (c *Ctx) keptStarts(res *Result, ds []*descent) {
	starts := map[string]bool{}
	for _, d := range ds {
		for _, n := range d.nodes() {
			pi := d.e.phis[n]
			if pi == nil || pi.entry == nil || pi.entry.op != "attr" {
				continue
			}
			if role := baseRole(pi.entry); c.iteratorRole(role) {
				starts[role] = true
			}
		}
	}
	done := map[*ssa.Function]bool{}
	check := func(f *ssa.Function, e *Eng, outs []outcome) {
		if done[f] {
			return
		}
		done[f] = true
		var ends []*State
		for _, o := range outs {
			ends = append(ends, o.st)
		}
		for _, l := range e.loops {
			for _, b := range l.backs {
				ends = append(ends, b.st)
			}
		}
		seen := map[*event]bool{}
		for _, st := range ends {
			for v := st.ev; v != nil; v = v.prev {
				if v.kind != "write" || !starts[v.name] || e.allocs[v.args[0]] != nil || seen[v] {
					continue
				}
				seen[v] = true
				bad := ""
				if v.args[1] != e.t.mk("attr", v.name, v.args[0]) {
					bad = fmt.Sprintf("moves the node the next seek starts from to %s", v.args[1])
				}
				res.ob(bad == "", Finding{Rule: "start-kept", At: c.p.pos(v.pos), Func: fname(f), Msg: bad, Path: e.pathOf(st)})
			}
		}
		res.count("operations of iterators", 1)
	}
	for _, d := range ds {
		if d.rec == nil && recvName(d.f) != "" && c.iteratorRole(recvName(d.f)+".") {
			check(d.f, d.e, d.outs)
		}
	}
	for _, f := range c.yielders() {
		if recvName(f) == "" || !c.iteratorRole(recvName(f)+".") || done[f] {
			continue
		}
		e := newEng(c)
		outs := e.Run(f, e.params(f), &State{})
		engErr(res, e)
		check(f, e, outs)
	}
	res.count("fields seeks start from", len(starts))
	res.floor("fields seeks start from", 2)
}

// iteratorRole: the field belongs to an iterator.
func (c *Ctx) iteratorRole(role string) bool {
	i := strings.IndexByte(role, '.')
	return i >= 0 && strings.HasSuffix(role[:i], "Iterator")
}
