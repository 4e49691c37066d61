package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A cond is a branch taken on a path.
type cond struct {
	t *Term
	v bool
}

// again decides whether the branches taken in one round of a loop, or on the way
// to a recursive call, would be taken again in the next one.
type again struct {
	e     *Eng
	mark  int              // younger terms were made in the round
	wrote bool             // the round writes to memory
	step  map[*Term]*int64 // what the round changes, nil if by something unknown
	own   map[*Term]bool   // known at the start of the round
	les   []*linear        // what is known of numbers
	cycle *Term            // a counter that starts over
}

// stable: the term has the same value in the next round.
func (a *again) stable(t *Term) bool {
	if _, ok := a.step[t]; ok {
		return false
	}
	if a.own[t] {
		return true
	}
	if t.id > a.mark {
		switch {
		case t.op == "sym" && a.e.phis[t] != nil, t.op == "alloc":
			return false
		case t.op == "sym":
			return false
		case a.wrote && (t.op == "call" || versioned(t)):
			return false
		}
	}
	for _, x := range t.args {
		if !a.stable(x) {
			return false
		}
	}
	if t.op == "lin" {
		for _, x := range t.lin.atoms {
			if !a.stable(x) {
				return false
			}
		}
	}
	return true
}

const (
	keepsOn = iota
	runsOut
	unclear
)

// holds: the branch is taken again for ever, for a limited number of times, or
// neither is known.
func (a *again) holds(c cond) int {
	t, v := c.t, c.v
	for t.op == "not" {
		t, v = t.args[0], !v
	}
	if a.stable(t) {
		return keepsOn
	}
	if t.op != "le0" && t.op != "eq0" {
		return unclear
	}
	l := t.args[0].linOf()
	delta := int64(0)
	wraps := false
	for i, x := range l.atoms {
		d, changed := a.step[x]
		switch {
		case changed && d == nil:
			return unclear
		case changed:
			delta += *d * l.coef[i]
			// an unsigned number that is counted down starts over
			wraps = wraps || *d < 0 && x.typ != nil && basicInfo(x.typ)&types.IsUnsigned != 0
		case !a.stable(x):
			return unclear
		}
	}
	if t.op == "eq0" {
		switch {
		case delta == 0:
			return keepsOn
		case v:
			return runsOut
		}
		return unclear
	}
	if v && len(l.atoms) == 1 && l.coef[0] == 1 && l.atoms[0].typ != nil {
		// as large as the numbers of the type get
		if max, ok := smallMax(l.atoms[0].typ); ok && l.k+max <= 0 {
			return keepsOn
		}
	}
	if v && delta > 0 || !v && delta < 0 {
		if a.startsOver(l, v) {
			return keepsOn
		}
		return runsOut
	}
	if wraps && delta != 0 {
		return unclear
	}
	return keepsOn
}

// startsOver: a counter of a small type does not reach the limit, which depends on
// the length of a key.
func (a *again) startsOver(l *linear, v bool) bool {
	sign := int64(1)
	if !v {
		sign = -1
	}
	var x *Term
	far := false
	for i, t := range l.atoms {
		d, changed := a.step[t]
		switch {
		case changed:
			if x != nil || d == nil || *d != 1 || l.coef[i]*sign != 1 || t.typ == nil {
				return false
			}
			if _, ok := smallMax(t.typ); !ok {
				return false
			}
			x = t
		case t.op == "len" && l.coef[i]*sign < 0:
			far = true
		case t.op == "attr" && baseRole(t) == rPLen && l.coef[i]*sign < 0:
			far = true
		default:
			if t.op != "sym" && t.op != "param" {
				return false
			}
		}
	}
	if x == nil || !far {
		return false
	}
	max, _ := smallMax(x.typ)
	les := []*linear{}
	for _, o := range a.les {
		if !hasAtom(o, x) {
			les = append(les, o)
		}
	}
	rest := linAdd(&linear{k: max}, x.linOf(), -1)
	goal := linAdd(l, rest, 1)
	if !v {
		goal = linAdd(linAdd(&linear{k: 1}, l, -1), rest, 1)
	}
	if a.e.linImpossible(les, goal) {
		return false
	}
	a.cycle = x
	return true
}

// byIndex: the term depends on the counter that starts over only as the position
// of a byte, and so takes the same values again.
func (a *again) byIndex(t *Term) bool {
	if t.op == "elem" && len(t.args) == 2 && a.stable(t.args[0]) {
		for _, x := range t.args[1].linOf().atoms {
			if x != a.cycle && !a.stable(x) {
				return false
			}
		}
		return true
	}
	if a.stable(t) {
		return true
	}
	if len(t.args) == 0 && t.op != "lin" {
		return false
	}
	for _, x := range t.args {
		if !a.byIndex(x) {
			return false
		}
	}
	if t.op == "lin" {
		for _, x := range t.lin.atoms {
			if !a.byIndex(x) {
				return false
			}
		}
	}
	return true
}

// conds are the branches taken since the given point.
func conds(st *State, from *trail) []cond {
	var out []cond
	for t := st.tr; t != nil && t != from; t = t.prev {
		out = append(out, cond{t.cond, t.truth})
	}
	return out
}

// judge: all branches would be taken again.
func (a *again) judge(st *State, from *trail, kinds int) int {
	res := keepsOn
	cs := conds(st, from)
	for _, c := range cs {
		a.holds(c)
	}
	for _, c := range cs {
		if a.cycle != nil && a.byIndex(c.t) {
			continue
		}
		switch a.holds(c) {
		case runsOut:
			return runsOut
		case unclear:
			res = unclear
		}
	}
	for i := kinds; i < len(st.kinds); i++ {
		if !a.stable(st.kinds[i].t) {
			res = unclear
		}
	}
	return res
}

// further: the node is a child or the entry of the other, or lies below one.
func (e *Eng) further(t, n *Term, depth int) bool {
	if depth == 0 || t == nil {
		return false
	}
	if t.op == "attr" && len(t.args) > 0 && (baseRole(t) == rLeaf || baseRole(t) == rChildren) || t.op == "child" && len(t.args) > 0 {
		return t.args[0] == n || e.further(t.args[0], n, depth-1)
	}
	return false
}

// checkC23: every round makes progress.
func checkC23(c *Ctx, res *Result) {
	res.explanation = "Dataflow analysis of one round of every loop and of every recursive call, on every path: what the round changes, and which branches it takes. A round that takes only branches which what it changes can never turn the other way repeats for ever and is reported, as is a recursive call that passes on what it was given."
	loops := map[token.Pos]bool{}
	calls := map[token.Pos]bool{}
	rooted := map[*ssa.Function]bool{}
	prep := func(r *idxRun) {
		rooted[r.d.f] = true
		r.d.e.onRec = func(st *State, fr *frame, in ssa.CallInstruction, f *ssa.Function, args []*Term) {
			if f == r.d.f && r.op == nil {
				calls[in.Pos()] = true
				r.passesOn(res, st, fr, in, args)
			}
		}
	}
	done := func(r *idxRun) {
		for _, l := range r.d.e.loops {
			loops[lastPos(l.l.head)] = true
			r.progress(res, l)
		}
	}
	c.eachRun(res, true, prep, done)
	// loops around other operations
	for _, f := range c.r.apiRoots() {
		if rooted[f] {
			continue
		}
		e := newEng(c)
		e.opaque = func(g *ssa.Function) bool { return g != f }
		r := &idxRun{d: &descent{c: c, e: e, f: f, at: map[*Term]*linear{}}}
		prep(r)
		r.d.args = e.params(f)
		e.Run(f, r.d.args, &State{})
		engErr(res, e)
		done(r)
	}
	for _, f := range c.p.funcs {
		if c.p.inPackage(f) && !rooted[f] && len(f.Blocks) > 0 && f.Parent() == nil && c.nodeFn(f) != fnAdd && c.nodeFn(f) != fnRemove && selfCalls(f, f, map[*ssa.Function]bool{}) {
			e := newEng(c)
			e.openAll = true
			e.ignore = trackRoles
			r := &idxRun{d: &descent{c: c, e: e, f: f, at: map[*Term]*linear{}}}
			prep(r)
			r.d.args = e.params(f)
			e.Run(f, r.d.args, &State{})
			engErr(res, e)
			done(r)
		}
	}
	res.count("loops", len(loops))
	res.count("recursive calls", len(calls))
	res.floor("loops", 10)
	res.assumptions = append(res.assumptions, "callbacks of the caller return", "a round whose branches depend on values the analysis cannot follow is counted, not shown to make progress")
}

func (r *idxRun) excluded(st *State) bool {
	if r.d.key != nil {
		st = r.d.bounded(st)
	}
	return r.d.e.infeasible(st) || r.d.impossible(st)
}

func (r *idxRun) progress(res *Result, l *loopInfo) {
	e := r.d.e
	for bi, b := range l.backs {
		if r.excluded(b.st) {
			res.count("paths excluded as contradictory", 1)
			continue
		}
		a := &again{e: e, mark: l.mark, wrote: b.st.mem != l.head.mem, les: b.st.les, step: map[*Term]*int64{}, own: map[*Term]bool{}}
		moves := false
		for i, p := range l.phis {
			s := l.syms[i]
			a.own[s] = true
			if bi >= len(p.backs) || p.backs[bi].val == s {
				continue
			}
			a.step[s] = nil
			if d, ok := diffConst(p.backs[bi].val, s); ok {
				a.step[s] = &d
			}
			moves = moves || e.further(p.backs[bi].val, s, 3)
			if _, ok := takeOff(e, p.backs[bi].val, s); ok {
				moves = true
			}
		}
		for m := l.head.mem; m != nil && m.loop == l; m = m.next {
			if m.val == nil {
				continue
			}
			if !a.wrote {
				a.own[m.val] = true
				continue
			}
			if m.obj == nil {
				continue
			}
			v := e.fieldBefore(b.st.mem, m.obj, m.role)
			if v == nil {
				continue
			}
			moves = moves || e.further(v, m.val, 3)
			t := &trav{c: r.d.c, e: e, f: l.fn, loop: l, obj: m.obj, role: m.role, phi: -1, s: m.val}
			if q := t.seq(v, b.st.mem); q != nil {
				if _, ok := takeOff(e, q.base, m.val); ok {
					moves = true
				}
			}
		}
		v := a.judge(b.st, l.head.tr, len(l.head.kinds))
		switch {
		case v == runsOut:
			res.count("rounds that come closer to a limit", 1)
		case moves:
			res.count("rounds that go down in the tree or take a node off", 1)
			v = runsOut
		case v == unclear:
			res.count("rounds whose progress is not understood", 1)
			continue
		}
		res.ob(v != keepsOn, Finding{Rule: "progress", At: r.d.c.p.pos(b.pos), Func: fname(l.fn), Msg: "a round of the loop changes nothing that could end it, it is repeated for ever", Path: e.pathOf(b.st)})
	}
}

func (r *idxRun) passesOn(res *Result, st *State, fr *frame, in ssa.CallInstruction, args []*Term) {
	e := r.d.e
	if r.excluded(st) {
		res.count("paths excluded as contradictory", 1)
		return
	}
	a := &again{e: e, mark: 0, wrote: st.mem != nil, les: st.les, step: map[*Term]*int64{}, own: map[*Term]bool{}}
	for i, p := range r.d.args {
		a.own[p] = true
		if i >= len(args) || args[i] == p {
			continue
		}
		a.step[p] = nil
		if d, ok := diffConst(args[i], p); ok {
			a.step[p] = &d
		}
		if e.further(args[i], p, 4) {
			res.count("recursive calls further down in the tree", 1)
			res.ob(true, Finding{})
			return
		}
	}
	v := a.judge(st, nil, 0)
	if v == unclear {
		res.count("recursive calls whose progress is not understood", 1)
		return
	}
	res.ob(v != keepsOn, Finding{Rule: "recursion", At: r.d.c.p.pos(in.Pos()), Func: fname(fr.fn), Msg: "the recursive call is given nothing that could end the recursion", Path: e.pathOf(st)})
}
