package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A prefix delete collects the keys an iterator yields and removes them.

type delPrefix struct {
	c      *Ctx
	e      *Eng
	f      *ssa.Function
	res    *Result
	prefix *Term
	recv   *Term
	keyOf  map[*Term]*Term // by flag of a step of an iterator
	isStep map[*Term]bool  // keys yielded
	outs   []outcome
}

func (c *Ctx) prefixDeletes() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.r.apiRoots() {
		s := c.shape(f.Signature)
		if f.Signature.Recv() != nil && c.r.isTxnPtr(f.Signature.Recv().Type()) && byteParam(f) >= 0 && len(f.Params) == 2 && s.ok >= 0 && s.n == 1 && !c.readsOnly(f) {
			out = append(out, f)
		}
	}
	return out
}

// checkC28: a prefix delete removes every key with the prefix and no other.
func checkC28(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms for every prefix delete, with the steps of iterators and the removal of single keys as events: the iterator is sought to the given prefix before its first step, steps go on until it is exhausted, every key yielded is removed, directly or through a list that is gone through in full, nothing else is removed, nothing is removed from nodes still to be iterated over, and the result says whether there was a key."
	fs := c.prefixDeletes()
	res.count("prefix deletes", len(fs))
	for _, f := range fs {
		d := &delPrefix{c: c, f: f, res: res, keyOf: map[*Term]*Term{}, isStep: map[*Term]bool{}}
		d.run()
	}
	res.floor("prefix deletes", 1)
	res.floor("removals", 1)
	res.assumptions = append(res.assumptions, "an iterator sought to a prefix yields every key with the prefix once and no other (C12, C21, C25)", "removing a key removes that key only (C17, C18, C24)")
}

func (d *delPrefix) run() {
	c := d.c
	e := newEng(c)
	e.openAll = true
	e.ignore = trackRoles
	d.e = e
	e.hook = func(e *Eng, st *State, in ssa.CallInstruction, g *ssa.Function, args []*Term) ([]outcome, bool) {
		if g == d.f {
			return nil, false
		}
		kind := ""
		s := c.shape(g.Signature)
		it, txn := -1, false
		for i, p := range g.Params {
			if c.r.isIterPtr(p.Type()) {
				it = i
			}
			txn = txn || c.r.isTxnPtr(p.Type())
		}
		switch {
		case it >= 0 && len(g.Params) == 1 && s.key >= 0 && s.val >= 0 && s.ok >= 0 && s.n == 3:
			kind = "step"
		case it >= 0 && len(g.Params) == 2 && byteParam(g) >= 0 && s.val < 0 && c.seekKind(g) != "":
			kind = "seek"
		case txn && byteParam(g) >= 0 && s.val >= 0 && s.ok >= 0 && s.n == 2 && s.key < 0 && !c.takesValue(g) && !c.readsOnly(g):
			kind = "remove"
		default:
			return nil, false
		}
		var rs []*Term
		for _, t := range resultTypes(g.Signature) {
			rs = append(rs, e.typed(e.sym(kind), t))
		}
		as := []*Term{}
		if it >= 0 {
			as = append(as, args[it])
		}
		if b := byteParam(g); b >= 0 {
			as = append(as, e.norm(st, args[b]))
		}
		if kind == "step" {
			d.keyOf[rs[s.ok]] = rs[s.key]
			d.isStep[rs[s.key]] = true
		}
		name := kind
		if kind == "seek" {
			name = c.seekKind(g)
		}
		e.note(st, nil, &event{kind: kind, name: name, args: as, res: rs, pos: in.Pos(), mem: st.mem})
		return []outcome{{st: st, res: rs}}, true
	}
	args := e.params(d.f)
	d.prefix = args[byteParam(d.f)]
	d.recv = args[0]
	d.outs = e.Run(d.f, args, &State{})
	if e.err != "" {
		engErr(d.res, e)
		return
	}
	d.res.count("branches followed", e.states)
	d.check()
}

func (c *Ctx) takesValue(g *ssa.Function) bool {
	for _, p := range g.Params {
		if types.Identical(p.Type(), c.p.valT) {
			return true
		}
	}
	return false
}

// within: the events of one round of a loop.
func within(l *loopInfo, st *State) []*event {
	first := 0
	if l.head != nil && l.head.ev != nil {
		first = l.head.ev.seq
	}
	var out []*event
	for _, v := range st.events() {
		if v.seq > first {
			out = append(out, v)
		}
	}
	return out
}

// flagOf: the term is the flag of a step, whichever it was.
func (d *delPrefix) flagOf(t *Term, seen map[*Term]bool) bool {
	if d.keyOf[t] != nil {
		return true
	}
	pi := d.e.phis[t]
	if pi == nil || pi.entry == nil {
		return false
	}
	if seen[t] {
		return true
	}
	seen[t] = true
	if !d.flagOf(pi.entry, seen) {
		return false
	}
	for _, b := range pi.backs {
		if !d.flagOf(b.val, seen) {
			return false
		}
	}
	return true
}

func (d *delPrefix) keyTerm(t *Term, seen map[*Term]bool) bool {
	t = stripConv(t)
	if d.isStep[t] {
		return true
	}
	pi := d.e.phis[t]
	if pi == nil || pi.entry == nil {
		return false
	}
	if seen[t] {
		return true
	}
	seen[t] = true
	if !d.keyTerm(pi.entry, seen) {
		return false
	}
	for _, b := range pi.backs {
		if !d.keyTerm(b.val, seen) {
			return false
		}
	}
	return true
}

// a list that keys are collected in, at the end of a loop of steps
type keyList struct {
	term *Term
	loop *loopInfo
}

func (d *delPrefix) finding(rule, at string, st *State, msg string) Finding {
	return Finding{Rule: rule, At: at, Func: fname(d.f), Msg: msg, Path: d.e.pathOf(st)}
}

func (d *delPrefix) check() {
	e, c, res := d.e, d.c, d.res
	lists := map[*Term]*loopInfo{}
	stepLoop := map[*loopInfo]bool{}
	for _, l := range e.loops {
		// the flags and keys of the step a round is about
		type step struct{ ok, key *Term }
		var phis []step
		for i, s := range l.syms {
			if !d.flagOf(s, map[*Term]bool{}) || basicInfo(l.phis[i].phi.Type())&types.IsBoolean == 0 {
				continue
			}
			for j, k := range l.syms {
				if isByteSlice(l.phis[j].phi.Type()) && d.keyTerm(k, map[*Term]bool{}) {
					phis = append(phis, step{s, k})
				}
			}
		}
		for _, b := range l.backs {
			st := b.st
			if e.infeasible(st) {
				continue
			}
			evs := within(l, st)
			steps := append([]step(nil), phis...)
			for _, v := range evs {
				if v.kind == "step" {
					sh := -1
					for i, r := range v.res {
						if d.keyOf[r] != nil {
							sh = i
						}
					}
					steps = append(steps, step{v.res[sh], d.keyOf[v.res[sh]]})
				}
			}
			if len(steps) == 0 {
				continue
			}
			stepLoop[l] = true
			for _, s := range steps {
				if v, known := e.decide(st, s.ok); !known || !v {
					continue
				}
				res.count("keys yielded", 1)
				met, other := false, false
				for _, v := range evs {
					switch {
					case v.kind == "remove" && e.norm(st, v.args[0]) == s.key:
						met = true
						res.count("removals", 1)
						safe := d.safe(v)
						res.ob(safe, d.finding("not-while-iterating", c.p.pos(v.pos), st, "removes a key from nodes that are still iterated over"))
					case v.kind == "callback" || v.kind == "mapupdate" || v.kind == "write":
						for _, a := range v.args {
							if a != nil && a.mentions(s.key) {
								other = true
							}
						}
					}
				}
				for i, p := range l.phis {
					if types.Identical(p.phi.Type().Underlying(), types.NewSlice(types.NewSlice(types.Typ[types.Byte]))) || isSliceOfKeys(p.phi.Type()) {
						for _, bk := range p.backs {
							if bk.st != st {
								continue
							}
							q := e.seqOf(bk.val, st.mem, func(x *Term) bool { return x == l.syms[i] }, 0)
							if q == nil {
								other = other || bk.val.mentions(s.key)
								continue
							}
							for _, it := range q.items {
								if it.val != nil && e.norm(st, it.val) == s.key {
									met = true
									lists[l.syms[i]] = l
									if q.base != l.syms[i] {
										res.ob(false, d.finding("all-removed", c.p.pos(b.pos), st, "drops the keys collected so far"))
									}
								}
							}
						}
					}
				}
				if !met && other {
					res.count("rounds not understood", 1)
					continue
				}
				if !met && !e.mayAccept(st, "prefix", s.key, d.prefix) {
					continue
				}
				if met && !d.sought(st) {
					res.ob(e.satisfies(st, "prefix", s.key, d.prefix), d.finding("no-other", c.p.pos(b.pos), st, "removes keys of an iterator that was not sought to the prefix"))
				}
				res.ob(met, d.finding("all-removed", c.p.pos(b.pos), st, "goes on without removing a key that was yielded"))
			}
		}
	}
	var covers []cover
	for _, l := range e.loops {
		covers = append(covers, d.removals(l, lists)...)
	}
	for _, o := range d.outs {
		d.ends(o, lists, stepLoop, covers)
	}
}

func isSliceOfKeys(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteSlice(s.Elem())
}

// sought: before its first step, the iterator is sought to the prefix.
func (d *delPrefix) sought(st *State) bool {
	for v := st.ev; v != nil; v = v.prev {
		if v.kind == "seek" {
			return v.name == "prefix" && v.args[1] == d.prefix
		}
	}
	return false
}

// safe: the nodes iterated over cannot be changed by the removal, since the
// transaction has given up its right to change them in place.
func (d *delPrefix) safe(v *event) bool {
	for p := v.prev; p != nil; p = p.prev {
		if p.kind == "write" && p.name == rMark {
			return true
		}
	}
	return false
}

// elemOf: the term is an element of a list.
func (d *delPrefix) elemOf(t *Term, lists map[*Term]*loopInfo) (list, idx *Term) {
	t = stripConv(t)
	if t.op != "elem" || len(t.args) != 2 {
		return nil, nil
	}
	x, i := t.args[0], t.args[1]
	for x.op == "slice" && lists[x] == nil {
		i = d.e.t.add(i, x.args[1])
		x = x.args[0]
	}
	return x, i
}

// cover: the loop removes the elements of the list, all of them if done holds
// where it is left.
type cover struct {
	list *Term
	loop *loopInfo
	done func(st *State) bool
}

// removals looks at what the rounds of a loop remove.
func (d *delPrefix) removals(l *loopInfo, lists map[*Term]*loopInfo) []cover {
	e, c, res := d.e, d.c, d.res
	var out []cover
	var list *Term
	var idx *Term
	same, any := true, false
	for _, b := range l.backs {
		st := b.st
		if e.infeasible(st) {
			continue
		}
		hit := false
		for _, v := range within(l, st) {
			if v.kind != "remove" {
				continue
			}
			arg := e.norm(st, v.args[0])
			x, i := d.elemOf(arg, lists)
			if x == nil {
				if !d.keyTerm(arg, map[*Term]bool{}) {
					res.ob(arg == d.prefix, d.finding("no-other", c.p.pos(v.pos), st, "removes a key that was not yielded"))
				}
				continue
			}
			if hit || list != nil && (x != list || i != idx) {
				same = false
				continue
			}
			list, idx, hit, any = x, i, true, true
			res.count("removals", 1)
		}
		if !hit {
			same = same && !any
			if list == nil {
				any = true
				same = false
			}
		}
	}
	if list == nil {
		return nil
	}
	// a list that is used up
	if pi := e.phis[list]; pi != nil && pi.run == l && lists[list] == nil && pi.entry != nil && lists[stripConv(pi.entry)] != nil {
		ok := same
		n := e.length(l.head, list)
		for _, b := range pi.backs {
			v := b.val
			front := v.op == "slice" && v.args[0] == list && e.eqTerm(v.args[1], e.t.intT(1)) && e.eqTerm(v.args[2], n) && e.eqTerm(idx, e.t.intT(0))
			back := v.op == "slice" && v.args[0] == list && e.eqTerm(v.args[1], e.t.intT(0)) && e.eqTerm(v.args[2], e.t.add(n, e.t.intT(-1))) && e.eqTerm(idx, e.t.add(n, e.t.intT(-1)))
			ok = ok && (front || back)
		}
		return []cover{{stripConv(pi.entry), l, func(st *State) bool { return ok && e.sure(st, e.le(n, e.t.intT(0))) }}}
	}
	if lists[list] == nil {
		res.count("removals not understood", 1)
		return nil
	}
	n := e.length(l.head, list)
	for i, s := range l.syms {
		off, ok := diffConst(idx, s)
		if !ok || l.phis[i].entry == nil {
			continue
		}
		step := int64(0)
		for _, b := range l.phis[i].backs {
			if k, ok := diffConst(b.val, s); ok && (k == 1 || k == -1) && (step == 0 || step == k) {
				step = k
			} else {
				step = 2
			}
		}
		first := e.t.add(l.phis[i].entry, e.t.intT(off))
		here := e.t.add(s, e.t.intT(off))
		sm := same
		switch step {
		case 1:
			out = append(out, cover{list, l, func(st *State) bool {
				return sm && e.sure(l.entry, e.le(first, e.t.intT(0))) && e.sure(st, e.le(n, here))
			}})
		case -1:
			out = append(out, cover{list, l, func(st *State) bool {
				return sm && e.sure(l.entry, e.le(e.t.add(n, e.t.intT(-1)), first)) && e.sure(st, e.le(here, e.t.intT(-1)))
			}})
		}
	}
	return out
}

func (e *Eng) eqTerm(a, b *Term) bool {
	k, ok := diffConst(a, b)
	return ok && k == 0
}

// ends looks at a path through the whole operation.
func (d *delPrefix) ends(o outcome, lists map[*Term]*loopInfo, stepLoop map[*loopInfo]bool, covers []cover) {
	e, res := d.e, d.res
	st := o.st
	if e.infeasible(st) {
		return
	}
	res.count("paths", 1)
	in := map[*loopInfo]bool{}
	for l := st.loops; l != nil; l = l.prev {
		in[l.info] = true
	}
	steps := false
	for l := range in {
		steps = steps || stepLoop[l]
	}
	others := false
	for _, v := range st.events() {
		steps = steps || v.kind == "step"
		others = others || v.kind == "remove" || v.kind == "callback" || v.kind == "call"
		if v.kind == "write" && v.args[0].mentions(d.recv) {
			others = true
		}
	}
	at := e.retPos(o)
	if !steps {
		for _, f := range st.facts {
			if f.t.mentions(d.recv) && !(f.t.op == "eq" && !f.v) {
				others = true
			}
		}
		if others {
			res.count("paths not understood", 1)
			return
		}
		res.ob(false, d.finding("all-removed", at, st, "returns without looking for keys"))
		return
	}
	done := false
	for _, t := range d.flags() {
		if v, known := e.decide(st, t); known && !v {
			done = true
		}
	}
	if !done {
		for k := range d.isStep {
			if v, known := e.decide(st, e.t.mk("hasp", "", k, d.prefix)); known && !v {
				done = true
			}
		}
	}
	res.ob(done, d.finding("until-exhausted", at, st, "returns before the iterator is exhausted"))
	for list, l := range lists {
		if !in[l] {
			continue
		}
		n := e.length(st, list)
		ok := e.sure(st, e.le(n, e.t.intT(0)))
		for _, cv := range covers {
			ok = ok || cv.list == list && in[cv.loop] && cv.done(st)
		}
		res.ob(ok, d.finding("all-removed", at, st, "not every key collected is removed"))
		for _, some := range []bool{true, false} {
			st := st.clone()
			if !e.assume(st, e.le(e.t.intT(1), n), some) || e.infeasible(st) {
				continue
			}
			r := o.res[d.c.shape(d.f.Signature).ok]
			v, known := e.decide(st, r)
			if !known && !onlyAbout(r, list) {
				res.count("results not understood", 1)
				continue
			}
			msg := "reports a removal where there was no key to remove"
			if some {
				msg = "may report no removal where a key was removed"
			}
			res.ob(known && v == some, d.finding("result", at, st, msg))
		}
	}
	if len(lists) == 0 {
		d.flagResult(o, at)
	}
}

// flagResult: a result kept in a variable starts as false and every round that
// removes a key sets it.
func (d *delPrefix) flagResult(o outcome, at string) {
	e := d.e
	r := o.res[d.c.shape(d.f.Signature).ok]
	pi := e.phis[r]
	if pi == nil || pi.entry == nil {
		if v, ok := r.isBool(); ok {
			removed := false
			for _, l := range e.loops {
				for x := o.st.loops; x != nil; x = x.prev {
					removed = removed || x.info == l && len(l.backs) > 0
				}
			}
			// the loop may have run any number of times
			d.res.ob(!removed, d.finding("result", at, o.st, "the result is "+map[bool]string{true: "true", false: "false"}[v]+" whether or not a key was removed"))
		}
		return
	}
	if v, ok := pi.entry.isBool(); ok {
		d.res.ob(!v, d.finding("result", at, o.st, "reports a removal where there was no key to remove"))
	}
	for _, b := range pi.backs {
		if e.infeasible(b.st) {
			continue
		}
		v, known := e.decide(b.st, b.val)
		if known || b.val == r {
			d.res.ob(known && v, d.finding("result", at, b.st, "a round that removes a key does not make the result true"))
		}
	}
}

func onlyAbout(t, list *Term) bool {
	if t.op == "len" && t.args[0] == list {
		return true
	}
	if t.op == "sym" || t.op == "attr" || t.op == "param" {
		return false
	}
	parts := t.args
	if t.op == "lin" {
		parts = t.lin.atoms
	}
	for _, a := range parts {
		if !onlyAbout(a, list) {
			return false
		}
	}
	return true
}

// flags: all flags of steps, also as loop variables.
func (d *delPrefix) flags() []*Term {
	var out []*Term
	for t := range d.keyOf {
		out = append(out, t)
	}
	for _, l := range d.e.loops {
		for _, s := range l.syms {
			if d.flagOf(s, map[*Term]bool{}) {
				out = append(out, s)
			}
		}
	}
	return out
}
