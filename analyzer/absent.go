package main

import "fmt"

// checkC29: the channel handed out for an absent key or for a prefix is that of a
// node that a later change has to replace.
func checkC29(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms for every operation that hands out a watch channel for a key or a prefix: where no entry is found, and for prefixes always, the channel must be that of a node the search passed through, so of a node that every insertion of the key, or every change below the prefix, replaces or changes."
	ops := 0
	for _, d := range c.descents(res, true) {
		sh := c.shape(d.f.Signature)
		if d.rec != nil || sh.ch < 0 {
			continue
		}
		ops++
		d.place1()
		e := d.e
		watched := map[*Term]bool{}
		for _, o := range d.outs {
			st := o.st.clone()
			if sh.ok >= 0 && !e.assume(st, o.res[sh.ok], false) {
				continue
			}
			st = d.bounded(st)
			if e.infeasible(st) {
				continue
			}
			res.count("paths that hand out the channel of a node", 1)
			ch := stripConv(o.res[sh.ch])
			bad := ""
			switch {
			case ch.isNil():
				if !d.noTree(st) {
					bad = "hands out no channel"
				}
			case !e.holdsFor(st, ch, func(st *State, t *Term) bool { return d.onTheWay(st, t) }):
				bad = fmt.Sprintf("hands out the channel %s, which is not that of a node the search passed through", ch)
			}
			res.ob(bad == "", Finding{Rule: "watch-of-the-way", At: e.retPos(o), Func: fname(d.f), Msg: bad, Path: e.pathOf(st)})
			if ch.op == "attr" && baseRole(ch) == rChan {
				watched[stripConv(ch.args[0])] = true
			}
		}
		d.watchedMoves(res, watched)
	}
	res.count("operations that hand out a channel", ops)
	res.floor("operations that hand out a channel", 2)
	res.floor("paths that hand out the channel of a node", 4)
	res.assumptions = append(res.assumptions, "the search follows the bytes of the key (C20)", "every node a write replaces or changes has its channel closed (C08)", "a write replaces or changes every node on the way of its key (C01, C18)")
}

// watchedMoves: a search that hands out the channel of the node it has reached
// only moves on from a node whose complete prefix agrees with the key. Otherwise an
// insertion splits that node, and never gets to the one that is watched.
func (d *descent) watchedMoves(res *Result, watched map[*Term]bool) {
	e := d.e
	for _, l := range e.loops {
		for i, n := range l.syms {
			x := d.at[n]
			if x == nil || !watched[n] {
				continue
			}
			for j, b := range l.backs {
				next := e.origin(stripConv(l.phis[i].backs[j].val))
				if next.op != "child" || next.args[0] != n {
					continue
				}
				st := d.bounded(b.st)
				if e.infeasible(st) || d.impossible(st) {
					continue
				}
				res.count("moves of watched searches", 1)
				pl := d.plen0(n).linOf()
				msg := ""
				if !e.entails(st, pl, 3) && !d.comparedBy(st, n) && d.common(st, n, x, pl) != "" {
					msg = "moves on to a child though not all of the node's prefix was compared with the key, so the insertion of the key may not change the node whose channel is handed out"
				}
				res.ob(msg == "", Finding{Rule: "watch-of-the-way", At: d.c.p.pos(b.pos), Func: fname(d.f), Msg: msg, Path: e.pathOf(st)})
			}
		}
	}
}

// comparedBy: something that is not followed compares the key with the node.
func (d *descent) comparedBy(st *State, n *Term) bool {
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		switch t.op {
		case "call", "bin", "un", "extract":
			if t.mentions(d.key) {
				return true
			}
		case "agree", "agreeo", "child", "cmpb", "eqb", "hasp":
			return false
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		if t.op == "lin" {
			for _, a := range t.lin.atoms {
				if walk(a) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range st.facts {
		if walk(f.t) || f.v && (f.t.op == "eqb" || f.t.op == "hasp" || f.t.op == "eq0" && mentionsCmp(f.t, d.key)) && f.t.mentions(d.key) && f.t.mentions(n) {
			return true
		}
	}
	return false
}

// onTheWay: the channel of a node that was reached by the bytes of the key.
func (d *descent) onTheWay(st *State, ch *Term) bool {
	e := d.e
	ch = stripConv(ch)
	if ch.op != "attr" || baseRole(ch) != rChan {
		return false
	}
	n := e.origin(stripConv(ch.args[0]))
	if d.at[n] != nil {
		return true
	}
	for _, m := range d.nodes() {
		// where the search starts
		if pi := e.phis[m]; pi != nil && pi.entry == n {
			return true
		}
	}
	if n.op != "child" || len(n.args) < 2 || d.at[n.args[0]] == nil {
		return false
	}
	_, pos, ok := d.keyByte(st, n.args[1])
	return ok && sameLin(e, st, pos, linAdd(d.at[n.args[0]], d.plen0(n.args[0]).linOf(), 1))
}

// noTree: there is no node to search from.
func (d *descent) noTree(st *State) bool {
	if st.loops != nil {
		return false
	}
	for _, f := range st.facts {
		if f.t.op == "eq" && f.v && f.t.args[1].isNil() && f.t.args[0].typ != nil && d.c.r.isNodeVal(f.t.args[0].typ) {
			return true
		}
	}
	return false
}
