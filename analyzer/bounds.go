package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// An idxSite is an index or slice expression as met on one path.
type idxSite struct {
	st    *State
	fn    *ssa.Function
	pos   token.Pos
	base  *Term
	idx   *Term
	slice bool
}

// capOf: the largest number of slots of the kinds a node may have.
func (e *Eng) capOf(st *State, n *Term, role string) (int64, bool) {
	m := e.mask(st, n)
	max := int64(0)
	for i, k := range e.kinds {
		if m&(1<<i) == 0 || m&e.leafB&(1<<i) != 0 {
			continue
		}
		l, ok := e.arrayLen(k, role)
		if !ok {
			return 0, false
		}
		if l > max {
			max = l
		}
	}
	return max, max > 0
}

// forms is what the form of the nodes says about the terms in a constraint.
func (r *idxRun) forms(res *Result, st *State, ts ...*Term) []*linear {
	d, e := r.d, r.d.e
	var out []*linear
	atMost := func(t *Term, k int64) { out = append(out, linAdd(t.linOf(), &linear{k: k}, -1)) }
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.op == "attr" && baseRole(t) == rNum && len(t.args) == 1:
			if k, ok := e.capOf(st, t.args[0], rChildren); ok {
				atMost(t, k)
			}
		case t.op == "attr" && baseRole(t) == rKeys && len(t.args) == 2:
			if k, ok := e.capOf(st, t.args[0], rChildren); ok && e.indexed(st, t.args[0]) {
				atMost(t, k)
			}
		case t.op == "childidx":
			if k, ok := e.capOf(st, t.args[0], rChildren); ok {
				atMost(t, k-1)
				out = append(out, linNeg(t.linOf()))
			}
		case t.op == "len" && t.args[0].op == "attr" && baseRole(t.args[0]) == rKey && len(t.args[0].args) == 1 && t.args[0].args[0].op == "call" && len(t.args[0].args[0].args) == 1:
			// an entry found below a node has at least its prefix
			n := e.origin(t.args[0].args[0].args[0])
			if x := d.at[n]; x != nil {
				num := e.typed(e.t.mk("attr", rNum, n), types.Typ[types.Uint16])
				if e.entails(st, linAdd(&linear{k: 1}, num.linOf(), -1), 3) {
					out = append(out, linAdd(linAdd(x, d.plen0(n).linOf(), 1), t.linOf(), -1))
				}
			}
		case t.op == "len" && t.args[0].op == "attr" && baseRole(t.args[0]) == rPartial && len(t.args[0].args) == 1:
			n := t.args[0].args[0]
			for _, pl := range []*Term{d.plen(st, n), d.plen0(n)} {
				visit(pl)
				if e.linImpossible(append(out, st.les...), pl.linOf()) {
					out = append(out, linAdd(&linear{k: d.c.keptBytes()}, t.linOf(), -1))
				}
			}
			if v := d.plen(st, n); v == d.plen0(n) {
				short := e.t.mk("min", "", e.t.intT(d.c.keptBytes()), v)
				out = append(out, linAdd(short.linOf(), t.linOf(), -1))
			}
			if r.op != nil && r.op.role == fnRemove && n == r.op.n {
				// made for writing
				out = append(out, linAdd(&linear{k: d.c.keptBytes()}, t.linOf(), -1))
			}
		}
		if t.op == "lin" {
			for _, a := range t.lin.atoms {
				visit(a)
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, t := range ts {
		visit(t)
	}
	for _, l := range st.les {
		for _, a := range l.atoms {
			visit(a)
		}
	}
	// a proper prefix is shorter
	for _, f := range st.facts {
		if f.t.op != "hasp" || !f.v {
			continue
		}
		a, b := f.t.args[0], f.t.args[1]
		gap := linAdd(e.length(st, b).linOf(), e.length(st, a).linOf(), -1)
		differ := false
		if v, ok := e.decide(st, e.eqBytes(st, a, b)); ok && !v {
			differ = true
		}
		if v, ok := e.decide(st, e.eqInt(e.length(st, a), e.length(st, b))); ok && !v {
			differ = true
		}
		if differ {
			gap = linAdd(gap, &linear{k: 1}, 1)
		}
		out = append(out, gap)
	}
	return out
}

// follows: the constraint follows from the others. A largest or smallest value
// is one of its parts.
func (e *Eng) follows(les []*linear, goal *linear, depth int) bool {
	if e.linImpossible(les, neg1(goal)) {
		return true
	}
	if depth == 0 {
		return false
	}
	var split *Term
	var find func(l *linear)
	find = func(l *linear) {
		for _, a := range l.atoms {
			if (a.op == "max" || a.op == "min") && (split == nil || a.id < split.id) {
				done := false
				for _, x := range a.args {
					done = done || e.linImpossible(les, neg1(linAdd(a.linOf(), x.linOf(), -1))) && e.linImpossible(les, neg1(linAdd(x.linOf(), a.linOf(), -1)))
				}
				if !done {
					split = a
				}
			}
		}
	}
	find(goal)
	for _, l := range les {
		find(l)
	}
	if split == nil {
		return false
	}
	for _, x := range split.args {
		d := linAdd(split.linOf(), x.linOf(), -1)
		if !e.follows(append([]*linear{d, linNeg(d)}, les...), goal, depth-1) {
			return false
		}
	}
	return true
}

// indexed: the slots of the keys of the node hold positions of children.
func (e *Eng) indexed(st *State, n *Term) bool {
	m := e.mask(st, n)
	for i, k := range e.kinds {
		if m&(1<<i) == 0 {
			continue
		}
		a, ok := e.arrayLen(k, rKeys)
		b, ok2 := e.arrayLen(k, rChildren)
		if !ok || !ok2 || a <= b {
			return false
		}
	}
	return m != 0
}

// An idxRun is one analysed function with the index expressions met.
type idxRun struct {
	d     *descent
	op    *slotOp // of a function that adds or removes a child
	sites []*idxSite
}

func (r *idxRun) watch() {
	r.d.e.onIdx = func(st *State, fr *frame, in ssa.Instruction, base, idx *Term, slice bool) {
		r.sites = append(r.sites, &idxSite{st.clone(), fr.fn, in.Pos(), base, idx, slice})
	}
}

// checkC22: indexes stay within keys and nodes.
func checkC22(c *Ctx, res *Result) {
	res.explanation = "Interval and linear-constraint analysis of every index and slice expression reached from the exported operations and from the functions that add and remove children, on every path: the index must be shown to lie within the length of the key, prefix, list or node array, from the branch facts of the path, the bounds of loops, the bytes consumed on the way to a node and the form of the nodes."
	seen := map[token.Pos]bool{}
	c.eachRun(res, false, func(r *idxRun) { r.watch() }, func(r *idxRun) { r.check(res, seen) })
	res.count("index and slice expressions", len(seen))
	res.floor("index and slice expressions", 60)
	res.assumptions = append(res.assumptions, "nodes have the form that C19 shows to be kept", "a node with a prefix has room for its first bytes", "the keys below a node start with the bytes consumed on the way to it and with its prefix (C18, C20)", "a child to be removed is there")
}

// eachRun analyses every operation, and for each layout the functions that add
// and remove children.
func (c *Ctx) eachRun(res *Result, all bool, prep, done func(r *idxRun)) {
	met := map[*ssa.Function]bool{}
	specs, runs := c.solveRecs(res, innerStart, trackRoles, true, true)
	if res.err != "" {
		return
	}
	do := func(f *ssa.Function, st func(e *Eng, args []*Term, f *ssa.Function) *State, rec *recRun) {
		e := newEng(c)
		e.openAll = true
		e.hook = recHook(specs, true)
		e.ignore = trackRoles
		d := &descent{c: c, e: e, f: f, at: map[*Term]*linear{}, rec: rec}
		r := &idxRun{d: d}
		prep(r)
		e.onFind = func(s *findSite) { d.sites = append(d.sites, s) }
		d.args = e.params(f)
		if b := byteParam(f); b >= 0 {
			d.key = d.args[b]
		}
		if rec != nil {
			d.key = d.args[rec.rs.keyP]
		}
		d.outs = e.Run(f, d.args, st(e, d.args, f))
		engErr(res, e)
		if d.key != nil {
			d.place1()
		}
		res.count("functions analysed", 1)
		res.count("branches followed", e.states)
		for f := range e.fnSeen {
			met[f] = true
		}
		done(r)
	}
	for _, r := range runs {
		do(r.rs.f, innerStart, r)
	}
	many := map[*ssa.Function]bool{}
	for _, f := range c.r.apiRoots() {
		if s := c.shape(f.Signature); byteParam(f) >= 0 && s.ok >= 0 && s.val < 0 {
			many[f] = true
			continue
		}
		do(f, func(e *Eng, args []*Term, f *ssa.Function) *State { return &State{} }, nil)
	}
	res.count("operations made up of others, left out", len(many))
	for _, role := range []int{fnAdd, fnRemove} {
		c.slotRuns(res, role, func(op *slotOp) *idxRun {
			r := &idxRun{d: &descent{c: c, e: op.e, f: op.f, at: map[*Term]*linear{}}, op: op}
			prep(r)
			return r
		}, func(r *idxRun) {
			for f := range r.d.e.fnSeen {
				met[f] = true
			}
			done(r)
		})
	}
	// what the others take as given or only reach by recursion
	if all {
		for _, f := range c.p.funcs {
			if c.p.inPackage(f) && !met[f] && len(f.Blocks) > 0 && f.Parent() == nil && !many[f] && c.nodeFn(f) != fnAdd && c.nodeFn(f) != fnRemove {
				do(f, func(e *Eng, args []*Term, f *ssa.Function) *State { return &State{} }, nil)
			}
		}
	}
}

// slotRuns analyses the functions that add or remove a child, for each layout.
func (c *Ctx) slotRuns(res *Result, role int, prep func(op *slotOp) *idxRun, done func(r *idxRun)) {
	for _, f := range c.slotRoots(role) {
		for i := range newEng(c).layouts() {
			e := newEng(c)
			e.ignore = trackRoles
			e.openFind, e.openAll = true, true
			op := &slotOp{c: c, e: e, res: res, f: f, role: role, lay: e.layouts()[i]}
			args := e.params(f)
			st := op.begin(args)
			if st == nil {
				continue
			}
			r := prep(op)
			e.Run(f, args, st)
			engErr(res, e)
			res.count("functions analysed", 1)
			res.count("branches followed", e.states)
			done(r)
		}
	}
}

func (r *idxRun) check(res *Result, seen map[token.Pos]bool) {
	d, e := r.d, r.d.e
	for _, k := range e.partialLens {
		res.count("prefixes made", 1)
		res.ob(k >= d.c.keptBytes(), Finding{Rule: "room-for-the-prefix", At: d.c.p.pos(d.f.Pos()), Func: fname(d.f), Msg: fmt.Sprintf("a node gets room for %d bytes of its prefix, others for %d", k, d.c.keptBytes())})
	}
	for _, s := range r.sites {
		st := s.st
		if d.key != nil {
			st = d.bounded(st)
		}
		if e.infeasible(st) || d.impossible(st) {
			res.count("paths excluded as contradictory", 1)
			continue
		}
		base := s.base
		if base.op == "faddr" {
			base = e.t.mk("view", base.aux, base.args[0])
		}
		n := e.length(st, base)
		hi := linAdd(s.idx.linOf(), n.linOf(), -1)
		if !s.slice {
			hi = linAdd(hi, &linear{k: 1}, 1)
		}
		lo := linNeg(s.idx.linOf())
		seen[s.pos] = true
		ok := sameSlot(e, base, s.idx)
		if !ok {
			st2 := st.clone()
			st2.les = append(r.forms(res, st, s.idx, n), st.les...)
			shown := func(l *linear) bool {
				return e.follows(st2.les, l, 3) || e.entails(st2, l, 3) || r.op != nil && r.proved(st2, l)
			}
			ok = shown(hi) && shown(lo)
		}
		if !ok {
			_, array := n.isInt()
			les := append(r.forms(res, st, s.idx, n), st.les...)
			if !r.understood(les, s.idx, array) || !r.understood(les, n, array) {
				res.count("index expressions on a path that are not understood", 1)
				continue
			}
		}
		what := "the index"
		if s.slice {
			what = "the bound"
		}
		res.ob(ok, Finding{Rule: "in-bounds", At: d.c.p.pos(s.pos), Func: fname(s.fn), Msg: fmt.Sprintf("%s %s is not known to be within the length %s", what, s.idx, n), Path: e.pathOf(st)})
	}
}

// proved uses the contents of the node the function works on.
func (r *idxRun) proved(st *State, l *linear) bool {
	e := r.d.e
	goal := e.t.mk("le0", "", e.t.fromLin(l))
	v := e.prove(st, r.op.inv, 4, func(q *slotQuery) verdict {
		if v, known := e.linDecide(q.st, goal); known && v {
			return verdict{v: yes}
		}
		return verdict{v: unknown}
	})
	return v.v == yes || v.v == vacuous
}

// impossible: an entry was found below a node that has none.
func (d *descent) impossible(st *State) bool {
	e := d.e
	for _, f := range st.facts {
		if f.t.op != "eq" || f.v || !f.t.args[1].isNil() {
			continue
		}
		l := f.t.args[0]
		if l.op != "call" || len(l.args) != 1 {
			continue
		}
		if d.bare(st, e.origin(l.args[0])) {
			return true
		}
	}
	// the bytes before a node are common, so what agrees after them agrees
	for _, f := range st.facts {
		if f.t.op != "hasp" || f.v {
			continue
		}
		for _, g := range st.facts {
			if g.t.op != "agreeo" || !g.v {
				continue
			}
			a, b, n := g.t.args[0], g.t.args[2], g.t.args[4]
			if a != f.t.args[0] {
				a, b = b, a
			}
			if a != f.t.args[0] || b != f.t.args[1] || g.t.args[1] != g.t.args[3] {
				continue
			}
			common := false
			for _, m := range d.nodes() {
				own := e.t.mk("attr", rKey, e.t.mk("attr", rLeaf, m))
				common = common || sameLin(e, st, d.at[m], g.t.args[1].linOf()) && (a == d.key && b == own || b == d.key && a == own)
			}
			end := linAdd(g.t.args[1].linOf(), n.linOf(), 1)
			if common && e.entails(st, linAdd(e.length(st, b).linOf(), end, -1), 3) {
				return true
			}
		}
	}
	// only the root of an empty tree has neither, and it has no prefix
	for _, n := range d.nodes() {
		if d.bare(st, n) && e.entails(st, linAdd(&linear{k: 1}, d.plen0(n).linOf(), -1), 3) {
			return true
		}
	}
	return false
}

func (d *descent) bare(st *State, n *Term) bool {
	v, ok := d.e.decide(st, d.e.eq(d.e.t.mk("attr", rLeaf, n), d.e.t.tnil))
	return ok && v && d.childless0(st, n)
}

// understood: nothing in the term is unknown to the analysis.
func (r *idxRun) understood(les []*linear, t *Term, array bool) bool {
	e := r.d.e
	for _, a := range t.linOf().atoms {
		switch a.op {
		case "param":
		case "attr":
			if versioned(a) && baseRole(a) != rPLen {
				return false
			}
		case "len", "min", "max":
			for _, x := range a.args {
				if !r.understood(les, x, array) {
					return false
				}
			}
		case "elem", "childidx":
		case "sym":
			if e.phis[a] == nil {
				return false
			}
			// a search whose end is not known
			far := linAdd(&linear{k: 1 << 20}, a.linOf(), -1)
			if array && !e.linImpossible(les, far) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// sameSlot: the position of a child, used on a copy of the node it was found in.
func sameSlot(e *Eng, base, idx *Term) bool {
	return idx.op == "childidx" && base.op == "view" && baseRole(base) == rChildren && e.origin(base.args[0]) == e.origin(idx.args[0])
}
