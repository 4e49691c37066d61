package main

import "golang.org/x/tools/go/ssa"

// checkC27: a longest-prefix query misses no longer match.
func checkC27(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms for every longest-prefix query: in each round of the descent, the node's own entry must become the candidate unless it was found to be missing or no prefix of the query; where the descent ends, no child may lead on; and the query reports nothing only without a candidate."
	qs := 0
	for _, d := range c.descents(res, true) {
		if d.rec != nil || !c.longestQuery(d.f) {
			continue
		}
		qs++
		d.place1()
		e := d.e
		for _, l := range e.loops {
			for _, n := range l.syms {
				if d.at[n] == nil {
					continue
				}
				res.count("descents of longest-prefix queries", 1)
				lq := &longest{c: c, d: d, e: e, l: l, n: n, res: res}
				lq.run()
			}
		}
	}
	res.count("longest-prefix queries", qs)
	res.floor("longest-prefix queries", 2)
	res.floor("descents of longest-prefix queries", 2)
	res.assumptions = append(res.assumptions, "the entries met on the way down have ever longer keys (C18, C20)", "what is returned is a prefix of the query (C14)")
}

func (c *Ctx) longestQuery(f *ssa.Function) bool {
	sh := c.shape(f.Signature)
	return sh.key >= 0 && sh.val >= 0 && sh.ok >= 0 && recvName(f) != "" && !c.iteratorRole(recvName(f)+".")
}

func (c *Ctx) longestQueries() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.r.apiRoots() {
		if c.longestQuery(f) && byteParam(f) >= 0 {
			out = append(out, f)
		}
	}
	return out
}

type longest struct {
	c   *Ctx
	d   *descent
	e   *Eng
	l   *loopInfo
	n   *Term
	res *Result
}

// passed: the entry of the node is not the candidate, though it may match.
func (q *longest) passed(st *State, n, cand *Term) bool {
	e := q.e
	own := e.t.mk("attr", rLeaf, n)
	if cand == own || n.isNil() {
		return false
	}
	st = st.clone()
	if !e.assume(st, e.eq(n, e.t.tnil), false) || !e.assume(st, e.eq(own, e.t.tnil), false) {
		return false
	}
	return e.mayAccept(st, "path", e.t.mk("attr", rKey, own), q.d.key)
}

// candidate finds the variable for the entry to be returned. It takes up the
// entry of the node of the round, or of the one the round moves to.
func (q *longest) candidate() (last int, ahead bool) {
	e := q.e
	for i, p := range q.l.phis {
		for k, b := range p.backs {
			v := stripConv(b.val)
			if v.op != "attr" || baseRole(v) != rLeaf {
				continue
			}
			if v == e.t.mk("attr", rLeaf, q.n) {
				return i, false
			}
			if v == e.t.mk("attr", rLeaf, q.next(k)) {
				return i, true
			}
		}
	}
	return -1, false
}

// next: the node a round moves to.
func (q *longest) next(k int) *Term {
	for i, s := range q.l.syms {
		if s == q.n {
			return stripConv(q.l.phis[i].backs[k].val)
		}
	}
	return q.n
}

func (q *longest) run() {
	e, res, c := q.e, q.res, q.c
	own := e.t.mk("attr", rLeaf, q.n)
	last, ahead := q.candidate()
	if last < 0 {
		// the candidate may only be set where the descent ends
		any := false
		for _, o := range q.d.outs {
			any = any || q.in(o.st) && entryOf(e.norm(o.st, o.res[c.shape(q.d.f.Signature).key]), rKey) == own
		}
		if any {
			res.ob(false, Finding{Rule: "longest", At: c.p.pos(q.d.f.Pos()), Func: fname(q.d.f), Msg: "no entry is kept while the search goes on"})
			return
		}
		res.count("queries not understood", 1)
		return
	}
	sym := q.l.syms[last]
	if ahead {
		// the entry of the first node comes before the loop
		st := q.l.entry
		first := q.l.phis[last].entry
		var n *Term
		for i, s := range q.l.syms {
			if s == q.n {
				n = q.l.phis[i].entry
			}
		}
		if n != nil && first != nil {
			res.ob(!q.passed(st, n, stripConv(first)), Finding{Rule: "longest", At: c.p.pos(q.d.f.Pos()), Func: fname(q.d.f), Msg: "the entry of the first node is left out, which may match", Path: e.pathOf(st)})
		}
	}
	for k, b := range q.l.backs {
		st := q.d.bounded(b.st)
		if e.infeasible(st) {
			continue
		}
		n := q.n
		if ahead {
			n = q.next(k)
		}
		v := stripConv(q.l.phis[last].backs[k].val)
		res.count("rounds", 1)
		ok := !q.passed(st, n, v)
		bad := "goes on without keeping the entry of the node, which may match"
		if v != e.t.mk("attr", rLeaf, n) && v != sym {
			if !v.isNil() {
				res.count("queries not understood", 1)
				continue
			}
			if x, known := e.decide(st, e.eq(sym, e.t.tnil)); !known || !x {
				ok, bad = false, "the entry found last is dropped"
			}
		}
		res.ob(ok, Finding{Rule: "longest", At: c.p.pos(b.pos), Func: fname(q.d.f), Msg: bad, Path: e.pathOf(st)})
	}
	sh := c.shape(q.d.f.Signature)
	for _, o := range q.d.outs {
		if !q.in(o.st) {
			continue
		}
		for _, found := range []bool{true, false} {
			st := o.st.clone()
			if !e.assume(st, o.res[sh.ok], found) {
				continue
			}
			st = q.d.bounded(st)
			if e.infeasible(st) {
				continue
			}
			res.count("ends of descents", 1)
			fd := Finding{Rule: "longest", At: e.retPos(o), Func: fname(q.d.f), Path: e.pathOf(st)}
			var cand *Term
			if found {
				cand = entryOf(e.norm(st, o.res[sh.key]), rKey)
				if cand != nil {
					cand = stripConv(cand)
				}
				if cand != own && cand != sym {
					res.count("queries not understood", 1)
					continue
				}
			} else if v, ok := e.decide(st, e.eq(sym, e.t.tnil)); !ok || !v {
				fd.Msg = "reports no match, though one was found on the way"
				res.ob(e.opaqueIn(st) != nil, fd)
				continue
			}
			if v, ok := e.decide(st, e.eq(q.n, e.t.tnil)); ok && v {
				continue
			}
			if !ahead && q.passed(st, q.n, cand) {
				fd.Msg = "the entry of the node is left out, which may match"
				res.ob(false, fd)
				continue
			}
			fd.Msg = "ends at a node that may have a child that leads on"
			if m := e.mask(st, q.n); m != 0 && m&^e.leafB == 0 {
				continue
			}
			res.ob(q.d.notBelow(st, q.n, q.d.at[q.n]), fd)
		}
	}
}

func (q *longest) in(st *State) bool {
	for l := st.loops; l != nil; l = l.prev {
		if l.info == q.l {
			return true
		}
	}
	return false
}
