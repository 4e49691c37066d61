package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// infeasible: what is known about the path contradicts itself.
func (e *Eng) infeasible(st *State) bool {
	for _, f := range st.facts {
		switch f.t.op {
		case "eq0":
			l := f.t.args[0].linOf()
			m := linAdd(&linear{}, l, -1)
			if !f.v && e.entails(st, l, 4) && e.entails(st, m, 4) {
				return true
			}
		case "hasp":
			if !f.v {
				continue
			}
			a, b := f.t.args[0], f.t.args[1]
			if e.entails(st, neg1(linAdd(e.length(st, b).linOf(), e.length(st, a).linOf(), -1)), 3) {
				return true
			}
			if v, ok := e.decide(st, e.eqBytes(st, a, b)); ok && !v {
				if e.entails(st, linAdd(e.length(st, a).linOf(), e.length(st, b).linOf(), -1), 3) {
					return true
				}
			}
			for _, g := range st.facts {
				x, y, ok := elemDiffer(g)
				if !ok || x.args[1] != y.args[1] {
					continue
				}
				if x.args[0] == b {
					x, y = y, x
				}
				if x.args[0] == a && y.args[0] == b && e.entails(st, linAdd(linAdd(y.args[1].linOf(), e.length(st, b).linOf(), -1), &linear{k: 1}, 1), 3) {
					return true
				}
			}
		}
	}
	for _, l := range st.les {
		if e.entails(st, neg1(l), 3) {
			return true
		}
	}
	return false
}

// refuted: the linear expression cannot be <= 0 on this path.
func (e *Eng) refuted(st *State, l *linear) bool {
	if e.entails(st, neg1(l), 3) {
		return true
	}
	st2 := st.clone()
	st2.les = append(append([]*linear{}, st.les...), l)
	return e.infeasible(st2)
}

// elemDiffer: the fact says that two bytes differ.
func elemDiffer(f fact) (x, y *Term, ok bool) {
	if f.v || f.t.op != "eq0" {
		return nil, nil, false
	}
	l := f.t.args[0].linOf()
	if l.k != 0 || len(l.atoms) != 2 || l.coef[0]+l.coef[1] != 0 {
		return nil, nil, false
	}
	x, y = l.atoms[0], l.atoms[1]
	return x, y, x.op == "elem" && y.op == "elem"
}

// place: the byte is one of a slice, counted from the start of what it was cut
// from.
func (e *Eng) place(st *State, b *Term) (base *Term, pos *linear) {
	base, pos = b.args[0], b.args[1].linOf()
	for base.op == "slice" {
		pos = linAdd(pos, base.args[1].linOf(), 1)
		base = base.args[0]
	}
	return e.norm(st, base), pos
}

// below: the entry belongs to the subtree of the node.
func (e *Eng) below(l, n *Term) bool {
	for i := 0; i < 10 && l != nil; i++ {
		if e.origin(l) == e.origin(n) {
			return true
		}
		switch {
		case l.op == "attr" && (baseRole(l) == rLeaf || baseRole(l) == rChildren), l.op == "child":
			l = l.args[0]
		case l.op == "call" && len(l.args) == 1:
			// the first or last entry of a subtree
			l = l.args[0]
		default:
			return false
		}
	}
	return false
}

// ownBytes: the slice is the compressed prefix of the node (at = 0) or the key of
// an entry below it (at = the bytes consumed before it).
func (d *descent) ownBytes(st *State, base, n *Term, x *linear) (at *linear, ok bool) {
	e := d.e
	if base.op == "attr" && baseRole(base) == rPartial && e.origin(base.args[0]) == e.origin(n) {
		return &linear{}, true
	}
	if base.op == "attr" && baseRole(base) == rKey && e.below(base.args[0], n) {
		return x, true
	}
	return nil, false
}

// prefixDiffers: the key does not go on with the compressed prefix of the node.
func (d *descent) prefixDiffers(st *State, n *Term, x *linear) bool {
	e := d.e
	pl := d.plen0(n).linOf()
	for _, f := range st.facts {
		if a, b, ok := elemDiffer(f); ok {
			for i := 0; i < 2; i++ {
				kb, kp := e.place(st, b)
				ob, op := e.place(st, a)
				a, b = b, a
				if kb != d.key {
					continue
				}
				at, ok := d.ownBytes(st, ob, n, x)
				if !ok {
					continue
				}
				// the same byte of the prefix
				j := linAdd(kp, x, -1)
				if !sameLin(e, st, j, linAdd(op, at, -1)) {
					continue
				}
				if e.entails(st, linAdd(&linear{}, j, -1), 3) && e.entails(st, linAdd(linAdd(j, pl, -1), &linear{k: 1}, 1), 3) {
					return true
				}
			}
			continue
		}
		if f.v || f.t.op != "hasp" && f.t.op != "eqb" {
			continue
		}
		// compared as slices
		for i := 0; i < 2; i++ {
			k, p := f.t.args[0], f.t.args[1]
			if i == 1 {
				if f.t.op == "hasp" {
					break
				}
				k, p = p, k
			}
			kb, klo := sliceBase(e, st, k)
			pb, plo := sliceBase(e, st, p)
			if kb != d.key {
				continue
			}
			at, ok := d.ownBytes(st, pb, n, x)
			if !ok || !sameLin(e, st, linAdd(klo, x, -1), linAdd(plo, at, -1)) {
				continue
			}
			if !e.entails(st, linAdd(x, klo, -1), 3) {
				continue
			}
			end := linAdd(linAdd(plo, at, -1), e.length(st, p).linOf(), 1)
			if e.entails(st, linAdd(end, pl, -1), 3) {
				return true
			}
		}
	}
	return false
}

func sliceBase(e *Eng, st *State, t *Term) (*Term, *linear) {
	pos := &linear{}
	for t.op == "slice" {
		pos = linAdd(pos, t.args[1].linOf(), 1)
		t = t.args[0]
	}
	return e.norm(st, t), pos
}

// notBelow: no child of the node leads to the key.
func (d *descent) notBelow(st *State, n *Term, x *linear) bool {
	e := d.e
	if d.childless0(st, n) {
		return true
	}
	pos := linAdd(x, d.plen0(n).linOf(), 1)
	// the key ends here
	if e.refuted(st, linAdd(linAdd(pos, e.length(st, d.key).linOf(), -1), &linear{k: 1}, 1)) {
		return true
	}
	for _, f := range st.facts {
		if f.t.op != "eq" || !f.v || !f.t.args[1].isNil() {
			continue
		}
		ch := f.t.args[0]
		if ch.op != "child" || e.origin(ch.args[0]) != e.origin(n) {
			continue
		}
		if k, p, ok := d.keyByte(st, ch.args[1]); ok && k == d.key && sameLin(e, st, p, pos) {
			return true
		}
	}
	return d.prefixDiffers(st, n, x)
}

// plen0 and childless0 are about the node as it was found.
func (d *descent) plen0(n *Term) *Term {
	return d.e.typed(d.e.t.mk("attr", rPLen, d.e.origin(n)), types.Typ[types.Uint32])
}

func (d *descent) childless0(st *State, n *Term) bool {
	st = st.clone()
	st.mem = nil
	return d.e.childless(st, d.e.origin(n))
}

// notOwn: the entry of the node itself does not have the key.
func (d *descent) notOwn(st *State, n *Term, x *linear) bool {
	e := d.e
	l := e.t.mk("attr", rLeaf, e.origin(n))
	if e.sure(st, e.eq(l, e.t.tnil)) {
		return true
	}
	if v, ok := e.decide(st, e.eqBytes(st, e.t.mk("attr", rKey, l), d.key)); ok && !v {
		return true
	}
	num := e.typed(e.t.mk("attr", rNum, e.origin(n)), types.Typ[types.Uint16])
	if !e.entails(st, linAdd(&linear{k: 1}, num.linOf(), -1), 3) {
		return false
	}
	// with children below, the key of the entry is what was consumed
	pos := linAdd(x, d.plen0(n).linOf(), 1)
	return d.prefixDiffers(st, n, x) || e.refuted(st, linAdd(e.length(st, d.key).linOf(), pos, -1)) || e.refuted(st, linAdd(pos, e.length(st, d.key).linOf(), -1))
}

// collected: the node was put into a list, whose elements are not told apart later on.
func (d *descent) collected(st *State, n *Term) bool {
	for v := st.ev; v != nil; v = v.prev {
		if v.kind == "write" && v.name == "[]" && v.args[1] != nil && d.e.origin(v.args[1]) == d.e.origin(n) {
			return true
		}
	}
	return false
}

// reason: why the key is not in the tree, at one of the nodes of the descent.
func (d *descent) reason(st *State) (string, bool) {
	e := d.e
	why := "the descent reached no node"
	cand := d.nodes()
	seen := map[*Term]bool{}
	for _, n := range cand {
		seen[n] = true
	}
	for _, n := range cand {
		if pi := e.phis[n]; pi != nil && pi.entry != nil && !seen[pi.entry] {
			seen[pi.entry] = true
			cand = append(cand, pi.entry)
		}
	}
	if len(cand) == 0 {
		return why, false
	}
	for _, n := range cand {
		if n.isNil() || e.sure(st, e.eq(n, e.t.tnil)) {
			return "", true
		}
		if m := e.mask(st, n); m != 0 && m&^e.leafB == 0 {
			return "", true // entries only hang off inner nodes
		}
		x, ok := d.consumed(st, n, map[*Term]bool{})
		if !ok {
			continue
		}
		if d.empty(st, n) {
			return "", true
		}
		own, sub := d.notOwn(st, n, x) || d.collected(st, n), d.notBelow(st, n, x)
		switch {
		case own && sub:
			return "", true
		case own:
			why = fmt.Sprintf("at %s nothing rules out that one of its children leads to the key", n)
		default:
			why = fmt.Sprintf("at %s nothing rules out that its own entry has the key", n)
		}
	}
	return why, false
}

// empty: the subtree was found to have no first entry.
func (d *descent) empty(st *State, n *Term) bool {
	for _, f := range st.facts {
		if f.t.op != "eq" || !f.v || !f.t.args[1].isNil() {
			continue
		}
		if t := f.t.args[0]; t.op == "call" && len(t.args) == 1 && d.e.origin(t.args[0]) == d.e.origin(n) {
			return true
		}
	}
	return false
}

// ---- C24 ----

func checkC24(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms: each path on which a lookup or delete reports that the key is absent, or an insert adds a new entry, must have found a reason at a node reached by the bytes of the key: its own entry has another key, and its prefix differs from the key, the key ends there, or it has no child for the next byte."
	ds := c.descents(res, true)
	if res.err != "" {
		return
	}
	look := map[*ssa.Function]bool{}
	for _, f := range c.lookups() {
		look[f] = true
	}
	m := c.writeModel(res)
	if m == nil {
		return
	}
	for _, d := range ds {
		if d.rec == nil && !look[d.f] {
			continue
		}
		d.place1()
		e := d.e
		miss := 0
		check := func(o outcome, st *State) {
			if e.infeasible(st) {
				res.count("paths excluded as contradictory", 1)
				return
			}
			miss++
			bad, ok := d.reason(st)
			if ok {
				bad = ""
			} else {
				bad = "reports the key as absent: " + bad
			}
			res.ob(ok, Finding{Rule: "absent-for-a-reason", At: e.retPos(o), Func: fname(d.f), Msg: bad, Path: e.pathOf(st)})
		}
		if d.rec == nil {
			sh := c.shape(d.f.Signature)
			for _, o := range d.outs {
				st := o.st.clone()
				if !e.assume(st, o.res[sh.ok], false) {
					continue
				}
				check(o, d.bounded(st))
			}
			res.count("lookup operations", 1)
			res.count("paths on which a lookup reports a miss", miss)
			continue
		}
		for _, p := range m.facts(d.rec) {
			if len(p.recs) > 0 || p.hit || e.emptyTree(p.o.st, d.args) {
				continue
			}
			check(p.o, d.bounded(p.o.st))
		}
		res.count("recursive writes", 1)
		res.count("paths on which a write takes the key as absent", miss)
	}
	res.floor("lookup operations", 4)
	res.floor("recursive writes", 2)
	res.floor("paths on which a lookup reports a miss", 8)
	res.floor("paths on which a write takes the key as absent", 8)
	res.assumptions = append(res.assumptions, "the key of an entry below a node starts with the bytes consumed on the way to it, and with the node's prefix (C18, C20)",
		"the key of a node's own entry ends where its children begin (C18)", "the look-up of a child returns the child stored for the byte (C19)",
		"the first entry of a subtree is an entry of that subtree")
}

// place1 finds the positions without reporting.
func (d *descent) place1() {
	d.placeSites(func(rule string, st *State, pos token.Pos, fn *ssa.Function, bad string) {})
}

// bounded adds what is known about the bytes consumed before each node: they are
// part of the key.
func (d *descent) bounded(st *State) *State {
	st = st.clone()
	les := append([]*linear{}, st.les...)
	for _, n := range d.nodes() {
		x := d.at[n]
		own := d.e.t.mk("attr", rKey, d.e.t.mk("attr", rLeaf, n))
		les = append(les, linAdd(&linear{}, x, -1), linAdd(x, d.e.length(st, d.key).linOf(), -1), linAdd(x, d.e.length(st, own).linOf(), -1))
	}
	st.les = les
	// the keys below a node with children contain its prefix
	for _, n := range d.nodes() {
		num := d.e.typed(d.e.t.mk("attr", rNum, n), types.Typ[types.Uint16])
		if !d.e.entails(st, linAdd(&linear{k: 1}, num.linOf(), -1), 3) {
			continue
		}
		for _, f := range st.facts {
			l := f.t
			if l.op != "eq" || f.v || !l.args[1].isNil() {
				continue
			}
			if l = l.args[0]; (l.op == "call" && len(l.args) == 1 || l.op == "attr" && l.aux == rLeaf) && d.e.origin(l.args[0]) == n {
				pos := linAdd(d.at[n], d.plen0(n).linOf(), 1)
				st.les = append(st.les, linAdd(pos, d.e.length(st, d.e.t.mk("attr", rKey, l)).linOf(), -1))
			}
		}
	}
	return st
}
