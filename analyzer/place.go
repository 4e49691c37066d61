package main

import (
	"fmt"
	"go/types"
)

// grown strips the results of adding children off a node.
func (e *Eng) grown(st *State, n *Term) *Term {
	for v := st.ev; v != nil; v = v.prev {
		if v.kind == "add" && v.res[0] == n {
			n = v.args[0]
		}
	}
	return n
}

// placements: an insert puts children where a descent will look for them.
func (c *Ctx) placements(res *Result) {
	ds := c.descents(newResult(), true)
	if ds == nil {
		res.err = "the recursive functions could not be analysed"
		return
	}
	for _, d := range ds {
		if d.rec == nil || d.rec.rs.valP < 0 {
			continue
		}
		d.place1()
		rs := d.rec.rs
		n := d.args[rs.nodeP]
		x := d.at[n]
		if x == nil {
			continue
		}
		e := d.e
		for _, o := range d.outs {
			adds := 0
			for v := o.st.ev; v != nil; v = v.prev {
				if v.kind == "add" {
					adds++
				}
			}
			same := e.origin(o.res[rs.nodeR]) == n
			if adds == 0 && same && len(recEvents(o.st)) == 0 && len(e.contentWrites(o.st)) == 0 {
				continue
			}
			if e.emptyTree(o.st, d.args) {
				continue
			}
			// a node without children has no prefix that matters
			num := e.typed(e.t.mk("attr", rNum, n), types.Typ[types.Uint16])
			for _, none := range []bool{false, true} {
				st := o.st.clone()
				if m := e.mask(st, n); m == 0 || m&^e.leafB != 0 {
					if !e.assume(st, e.eqInt(num, e.t.intT(0)), none) {
						continue
					}
				} else if none {
					continue
				}
				st = d.bounded(st)
				if e.infeasible(st) || !none && d.empty(st, n) {
					continue
				}
				// the value of an entry replaced
				own := e.t.mk("attr", rKey, e.t.mk("attr", rLeaf, n))
				if adds == 0 && same && e.sure(st, e.eqBytes(st, own, d.key)) {
					continue
				}
				if len(recEvents(o.st)) > 0 {
					res.count("paths that insert below a node", 1)
					bad := d.common(st, n, x, d.plen0(n).linOf())
					if bad != "" {
						bad = "the key is inserted below a node, but it may not start with the node's prefix: " + bad
					}
					res.ob(bad == "", Finding{Rule: "placed-where-it-is-looked-for", At: e.retPos(o), Func: fname(d.f), Msg: bad, Path: e.pathOf(o.st)})
					continue
				}
				res.count("paths that restructure a node", 1)
				bad, pos := d.placed(st, o, x, res)
				at := e.retPos(o)
				if pos != "" {
					at = pos
				}
				res.ob(bad == "", Finding{Rule: "placed-where-it-is-looked-for", At: at, Func: fname(d.f), Msg: bad, Path: e.pathOf(o.st)})
			}
		}
	}
	res.floor("paths that restructure a node", 4)
}

func (d *descent) placed(st *State, o outcome, x *linear, res *Result) (bad, at string) {
	e, rs := d.e, d.rec.rs
	n := d.args[rs.nodeP]
	top := e.grown(st, o.res[rs.nodeR])
	split := e.origin(top) != n
	p := e.read(st, st.mem, top, rPLen, nil, types.Typ[types.Uint32]).linOf()
	if !split {
		p = d.plen0(n).linOf()
		if now := e.read(st, st.mem, top, rPLen, nil, types.Typ[types.Uint32]); !sameLin(e, st, now.linOf(), p) {
			return fmt.Sprintf("the length of the prefix becomes %s", now), ""
		}
	}
	pos := linAdd(x, p, 1)
	if bad := d.ownEntry(st, o, top, pos, res); bad != "" {
		return bad, ""
	}
	type slot struct {
		base *Term
		b    *Term
	}
	var slots []slot
	for _, v := range st.events() {
		if v.kind != "add" || e.grown(st, v.args[0]) != top && e.origin(e.grown(st, v.args[0])) != e.origin(top) {
			continue
		}
		res.count("children added, per path", 1)
		at = e.c.p.pos(v.pos)
		child, b := v.args[1], v.args[2]
		old := e.origin(child) == n
		if b.op != "elem" {
			return fmt.Sprintf("the child %s is stored under %s, which is not a byte of a key", child, b), at
		}
		base, bp := e.place(st, b)
		for _, s := range slots {
			if s.base == base {
				return "two children are stored under the same byte", at
			}
			if v, ok := e.decide(st, e.eqInt(s.b, b)); ok && v || !ok && !e.innerChildless(st, n) && !d.differAt(st, n, x, p) {
				return fmt.Sprintf("the bytes %s and %s under which two children are stored are not known to differ", s.b, b), at
			}
		}
		slots = append(slots, slot{base, b})
		switch {
		case base == d.key:
			if !split {
				if !d.notBelow(st, n, x) {
					return "the new entry is stored under a byte that may have a child already", at
				}
			}
			if old {
				return "the old node is stored under a byte of the new key", at
			}
			if !sameLin(e, st, bp, pos) {
				return fmt.Sprintf("the new entry is stored under the byte at %s of its key, expected %s", e.t.fromLin(bp), e.t.fromLin(pos)), at
			}
		default:
			own, ok := d.ownBytes(st, base, n, x)
			switch {
			case !ok:
				res.count("bytes of children not resolved", 1)
				continue
			case !old:
				return fmt.Sprintf("the new entry is stored under a byte of %s", base), at
			case !split:
				return "the node is stored below itself", at
			}
			if !sameLin(e, st, linAdd(bp, own, -1), p) {
				return fmt.Sprintf("the old node is stored under the byte at %s of %s, expected the one after the %s bytes of the new node's prefix", e.t.fromLin(bp), base, e.t.fromLin(p)), at
			}
			if base.op == "attr" && baseRole(base) == rPartial && !d.keptByte(st, n, bp) {
				return fmt.Sprintf("the byte at %s may lie outside the part of the prefix that the node keeps", e.t.fromLin(bp)), at
			}
		}
		if old && !d.childless0(st, n) {
			if bad := d.shortened(st, child, n, x, p, res); bad != "" {
				return bad, at
			}
		}
	}
	if !split {
		if bad := d.common(st, n, x, p); bad != "" && !d.childless0(st, n) {
			return bad, ""
		}
	}
	if split && len(p.atoms)+int(p.k) > 0 {
		if bad := d.newPrefix(st, top, n, x, p, res); bad != "" {
			return bad, ""
		}
		if bad := d.common(st, n, x, p); bad != "" {
			return bad, ""
		}
	}
	return "", ""
}

// differAt: the key and those below the node differ in the byte at that offset of
// the node's prefix.
func (d *descent) differAt(st *State, n *Term, x, off *linear) bool {
	e := d.e
	for _, f := range st.facts {
		a, b, ok := elemDiffer(f)
		if !ok {
			continue
		}
		for i := 0; i < 2; i++ {
			kb, kp := e.place(st, b)
			ob, op := e.place(st, a)
			a, b = b, a
			if kb != d.key || !sameLin(e, st, linAdd(kp, x, -1), off) {
				continue
			}
			if at, ok := d.ownBytes(st, ob, n, x); ok && sameLin(e, st, linAdd(op, at, -1), off) {
				return true
			}
		}
	}
	return false
}

func (e *Eng) innerChildless(st *State, n *Term) bool {
	st = st.clone()
	st.mem = nil
	return e.sure(st, e.eqInt(e.read(st, nil, n, rNum, nil, types.Typ[types.Int]), e.t.intT(0)))
}

// ownEntry: an entry becomes a node's own only if its key ends there.
func (d *descent) ownEntry(st *State, o outcome, top *Term, pos *linear, res *Result) string {
	e := d.e
	l := e.read(st, st.mem, top, rLeaf, nil, nil)
	if l == nil || l.op == "nil" || l.op == "zero" || l == e.read(st, nil, e.origin(top), rLeaf, nil, nil) {
		return ""
	}
	key := e.norm(st, e.read(st, st.mem, l, rKey, nil, nil))
	res.count("own entries set, per path", 1)
	if !sameLin(e, st, e.length(st, key).linOf(), pos) {
		return fmt.Sprintf("an entry with the key %s becomes the own entry of a node at which %s bytes are consumed", key, e.t.fromLin(pos))
	}
	return ""
}

// keptByte: the node keeps the byte of its prefix at that position.
func (d *descent) keptByte(st *State, n *Term, pos *linear) bool {
	e := d.e
	lim, ok := e.prefixLimit()
	if !ok {
		return true
	}
	return e.entails(st, linAdd(pos, &linear{k: lim - 1}, -1), 3) || e.entails(st, linAdd(d.plen0(n).linOf(), &linear{k: lim}, -1), 3)
}

// prefixLimit: how many bytes of the prefix a node keeps, from the lengths of the
// slices made for it.
func (e *Eng) prefixLimit() (int64, bool) {
	lim := int64(-1)
	for _, l := range e.partialLens {
		if lim < 0 || l < lim {
			lim = l
		}
	}
	return lim, lim > 0
}

// shortened: the old node's prefix loses the common part and the byte it is
// stored under.
func (d *descent) shortened(st *State, child, n *Term, x, p *linear, res *Result) string {
	e := d.e
	want := linAdd(linAdd(d.plen0(n).linOf(), p, -1), &linear{k: -1}, 1)
	now := e.read(st, st.mem, child, rPLen, nil, types.Typ[types.Uint32]).linOf()
	if !sameLin(e, st, now, want) {
		return fmt.Sprintf("the prefix of the old node gets the length %s, expected %s", e.t.fromLin(now), e.t.fromLin(want))
	}
	res.count("prefixes shortened, per path", 1)
	if e.entails(st, want, 3) {
		return ""
	}
	return d.filled(st, child, n, x, linAdd(p, &linear{k: 1}, 1), want)
}

func (d *descent) newPrefix(st *State, top, n *Term, x, p *linear, res *Result) string {
	if d.e.entails(st, p, 3) {
		return ""
	}
	res.count("prefixes of new nodes, per path", 1)
	return d.filled(st, top, n, x, &linear{}, p)
}

// filled: the part kept of the node's prefix is copied from the given offset of
// the old node's prefix or of a key that goes on with it.
func (d *descent) filled(st *State, node, n *Term, x, off, length *linear) string {
	e := d.e
	obj := e.read(st, st.mem, node, rPartial, nil, nil)
	lim, known := e.prefixLimit()
	var last string
	found, wrote := false, false
	for _, v := range st.events() {
		if v.kind == "write" && v.args[0] == obj && v.name == "[]" {
			wrote = true
		}
		if v.kind != "copy" {
			continue
		}
		dst, _, dlo := e.sliceLoc(v.args[0])
		if dst != obj {
			continue
		}
		found = true
		last = ""
		if k, ok := dlo.isInt(); !ok || k != 0 {
			last = fmt.Sprintf("the prefix is copied to the offset %s", dlo)
			continue
		}
		base, lo := sliceBase(e, st, v.args[1])
		at, ok := d.ownBytes(st, base, n, x)
		if base == d.key {
			at, ok = x, true
		}
		if !ok {
			continue
		}
		if !sameLin(e, st, linAdd(lo, at, -1), off) {
			last = fmt.Sprintf("the prefix is copied from %s on of %s, expected from %s", e.t.fromLin(lo), base, e.t.fromLin(linAdd(off, at, 1)))
			continue
		}
		n := e.length(st, v.args[1]).linOf()
		if base.op == "attr" && baseRole(base) == rPartial && known {
			if end := linAdd(lo, n, 1); !e.entails(st, linAdd(end, &linear{k: lim}, -1), 3) {
				last = fmt.Sprintf("the prefix is copied from bytes up to %s, but the old node keeps only %d", e.t.fromLin(end), lim)
				continue
			}
		}
		if !known || e.entails(st, linAdd(length, n, -1), 3) || e.entails(st, linAdd(&linear{k: lim}, n, -1), 3) {
			continue
		}
		if !e.refuted(st, linAdd(linAdd(n, length, -1), &linear{k: 1}, 1)) && !e.refuted(st, linAdd(linAdd(n, &linear{k: lim}, -1), &linear{k: 1}, 1)) {
			last = fmt.Sprintf("only %s bytes of the prefix are copied, of %s", e.t.fromLin(n), e.t.fromLin(length))
		}
	}
	if !found && !wrote {
		return "the bytes of the prefix are not set"
	}
	return last
}

// common: the old keys and the new one agree on the bytes of the new prefix.
func (d *descent) common(st *State, n *Term, x, p *linear) string {
	e := d.e
	reach := []*linear{{}}
	within := func(l *linear) bool {
		for _, r := range reach {
			if e.entails(st, linAdd(l, r, -1), 3) {
				return true
			}
		}
		return false
	}
	for round := 0; round < 6; round++ {
		if within(p) {
			return ""
		}
		grew := false
		for _, f := range st.facts {
			var a, b *Term
			var ao, bo, cnt *linear
			switch f.t.op {
			case "agree":
				a, b, ao, bo, cnt = f.t.args[0], f.t.args[1], &linear{}, &linear{}, f.t.args[2].linOf()
			case "agreeo":
				a, b, ao, bo, cnt = f.t.args[0], f.t.args[2], f.t.args[1].linOf(), f.t.args[3].linOf(), f.t.args[4].linOf()
			case "eqb", "hasp":
				if !f.v {
					continue
				}
				a, b, ao, bo, cnt = f.t.args[0], f.t.args[1], &linear{}, &linear{}, e.length(st, f.t.args[1]).linOf()
			default:
				continue
			}
			for i := 0; i < 2; i++ {
				if i == 1 {
					a, b, ao, bo = b, a, bo, ao
				}
				kb, k0 := sliceBase(e, st, b)
				ob, o0 := sliceBase(e, st, a)
				if kb != d.key {
					continue
				}
				at, ok := d.ownBytes(st, ob, n, x)
				if !ok {
					continue
				}
				from := linAdd(linAdd(k0, bo, 1), x, -1)
				if !sameLin(e, st, from, linAdd(linAdd(o0, ao, 1), at, -1)) {
					continue
				}
				end := linAdd(from, cnt, 1)
				if within(from) && !within(end) {
					reach = append(reach, end)
					grew = true
				}
			}
		}
		if !grew {
			break
		}
	}
	return fmt.Sprintf("the node on top has a prefix of %s bytes, but only %s bytes were found to be common to the old keys and the new one", e.t.fromLin(p), e.t.fromLin(reach[len(reach)-1]))
}
