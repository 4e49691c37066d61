package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// checkC31: what a tracking transaction notifies is not part of the tree it makes.
func checkC31(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms, with mutation tracking on: on each path that records the channel of a node for notification, the node either belongs to a published tree, so that it is copied before it is written, or gets another channel; a copy made by a tracking transaction does not have the channel of what it was copied from."
	sites := c.constArgs()
	for _, f := range c.p.funcs {
		txn := -1
		for i, p := range f.Params {
			if c.r.isTxnPtr(p.Type()) {
				txn = i
			}
		}
		if rts := resultTypes(f.Signature); len(rts) == 1 && c.r.isTxnPtr(rts[0]) {
			// nothing is recorded yet
			continue
		}
		if txn < 0 || !c.records(f) && !c.makesCopies(f) {
			continue
		}
		if selfCalls(f, f, nil) {
			res.count("recursive functions left to their helpers", 1)
			continue
		}
		for _, given := range sites[f] {
			e := newEng(c)
			args := e.params(f)
			st := &State{}
			e.assume(st, e.t.mk("attr", "Txn."+rTrack, args[txn]), true)
			for i, v := range given {
				e.assume(st, args[i], v)
			}
			outs := e.Run(f, args, st)
			if e.err != "" {
				engErr(res, e)
				return
			}
			for _, o := range outs {
				w := &openWatch{c: c, e: e, st: o.st, res: res, fn: f, txn: args[txn]}
				w.check()
			}
		}
	}
	c.cloneDrops(res)
	c.recordedStays(res)
	res.floor("channels recorded, per path", 2)
	res.floor("copies made, per path", 1)
	res.floor("copying methods that were not asked to keep the channel", 4)
	res.assumptions = append(res.assumptions,
		"nodes of published trees are copied before they are written, and not linked again (C01, C08)",
		"sync/atomic.Pointer behaves as documented")
}

// recordedStays: a node that a write leaves as it is keeps its channel, so that must
// not be recorded.
func (c *Ctx) recordedStays(res *Result) {
	_, runs := c.trackedRuns(res)
	for _, r := range runs {
		e := r.e
		for _, o := range r.outs {
			if r.otherEntry(o.st) || e.infeasible(o.st) {
				continue
			}
			w := &watch{c: c, e: e, st: o.st, res: res, fn: r.rs.f, at: e.retPos(o)}
			w.fill()
			stays := func(n *Term, what string) {
				res.count("nodes left as they are, per path", 1)
				res.ob(!w.own[n], Finding{Rule: "unchanged-not-recorded", At: w.at, Func: fname(r.rs.f), Msg: fmt.Sprintf("%s is left as it is, but its channel was recorded for notification", what), Path: e.pathOf(o.st)})
			}
			if rc := r.rs.classOf(e, o, r.args); !rc.changed() {
				stays(r.args[r.rs.nodeP], "the node that was given")
			}
			entry := func(n *Term, what string) {
				if e.allocs[n] == nil {
					return
				}
				l := e.read(o.st, o.st.mem, n, rLeaf, nil, nil)
				if l == nil || e.allocs[l] != nil || l.isNil() {
					return
				}
				if ch := e.read(o.st, o.st.mem, l, rChan, nil, nil); ch.op == "attr" && baseRole(ch) == rChan {
					stays(l, "the entry of "+what)
				}
			}
			entry(o.res[r.rs.nodeR], "the node that is returned")
			for v := o.st.ev; v != nil; v = v.prev {
				if v.kind == "rec" && !v.class.changed() {
					stays(v.args[v.spec.nodeP], "a child")
				}
				if v.kind == "write" && v.name == rChildren && v.args[0] == o.res[r.rs.nodeR] && v.args[1] != nil {
					entry(v.args[1], "a child of the node that is returned")
				}
			}
		}
	}
}

type openWatch struct {
	c   *Ctx
	e   *Eng
	st  *State
	res *Result
	fn  *ssa.Function
	txn *Term
}

func (w *openWatch) check() {
	e := w.e
	if e.infeasible(w.st) {
		return
	}
	evs := w.st.events()
	for i, v := range evs {
		switch {
		case v.kind == "write" && v.name == "Txn."+rTracked && v.args[1] != nil:
			t := v.args[1]
			if t.op != "append" {
				continue
			}
			for _, a := range t.args[1:] {
				if a.op != "attr" || baseRole(a) != rChan || len(a.args) != 1 {
					w.res.count("recorded channels whose node is not known here", 1)
					continue
				}
				w.recorded(a, v.pos)
			}
		case v.kind == "clone":
			w.res.count("copies made, per path", 1)
			keep, known := e.decide(w.st, v.args[2])
			ok := known && !keep
			for _, x := range evs[i+1:] {
				if x.kind == "write" && x.name == rChan && x.args[0] == v.args[1] && x.args[1] != e.t.mk("attr", rChan, v.args[0]) {
					ok = true
				}
			}
			w.res.ob(ok, Finding{Rule: "copy-starts-open", At: w.c.p.pos(v.pos), Func: fname(w.fn), Msg: fmt.Sprintf("with tracking on, the copy of %s may keep the channel that will be closed", v.args[0]), Path: e.pathOf(w.st)})
		}
	}
}

// recorded: the channel of the node is to be closed.
func (w *openWatch) recorded(ch *Term, pos token.Pos) {
	e := w.e
	n := ch.args[0]
	w.res.count("channels recorded, per path", 1)
	if now := e.read(w.st, w.st.mem, n, rChan, nil, nil); now != ch {
		w.res.count("recorded channels that are replaced", 1)
		w.res.ob(true, Finding{})
		return
	}
	id := e.read(w.st, w.st.mem, n, rID, nil, types.Typ[types.Uint64])
	mark := e.read(w.st, w.st.mem, w.txn, "Txn."+rMark, nil, types.Typ[types.Uint64])
	v, known := e.decide(w.st, e.le(id, mark))
	w.res.ob(known && v, Finding{Rule: "recorded-is-replaced", At: w.c.p.pos(pos), Func: fname(w.fn), Msg: fmt.Sprintf("the channel of %s is recorded for notification, but the node may belong to the transaction and keep it", n), Path: e.pathOf(w.st)})
}

// records: the function changes the list of channels to notify.
func (c *Ctx) records(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !c.r.isTxnPtr(fa.X.Type()) {
				continue
			}
			pt := fa.X.Type().Underlying().(*types.Pointer)
			if _, _, role := c.r.fieldOf(pt.Elem(), fa.Field); role == rTracked {
				if k, ok := s.Val.(*ssa.Const); ok && k.IsNil() {
					continue
				}
				return true
			}
		}
	}
	return false
}

// makesCopies: the function copies a node.
func (c *Ctx) makesCopies(f *ssa.Function) bool {
	a := c.ownership()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			fs, _, _ := a.callees(call.Common())
			for _, g := range fs {
				if c.nodeFn(g) == fnClone {
					return true
				}
			}
		}
	}
	return false
}

// constArgs: the constant flags each function is called with, by parameter. Each
// function has at least one entry.
func (c *Ctx) constArgs() map[*ssa.Function][]map[int]bool {
	a := c.ownership()
	out := map[*ssa.Function][]map[int]bool{}
	seen := map[string]bool{}
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				fs, _, _ := a.callees(call.Common())
				for _, g := range fs {
					args := call.Common().Args
					if call.Common().IsInvoke() || len(args) != len(g.Params) {
						continue
					}
					given := map[int]bool{}
					for i, x := range args {
						if basicInfo(x.Type())&types.IsBoolean == 0 {
							continue
						}
						k, ok := x.(*ssa.Const)
						if !ok || k.Value == nil {
							continue
						}
						given[i] = k.Value.String() == "true"
					}
					key := fmt.Sprint(fname(g), given)
					if !seen[key] {
						seen[key] = true
						out[g] = append(out[g], given)
					}
				}
			}
		}
	}
	for _, f := range c.p.funcs {
		if len(out[f]) == 0 {
			out[f] = []map[int]bool{{}}
		}
	}
	return out
}

// cloneDrops: a copy has a channel of its own if not asked to keep the old one.
func (c *Ctx) cloneDrops(res *Result) {
	for _, f := range c.p.funcs {
		if c.nodeFn(f) != fnClone || len(f.Params) > 2 {
			continue
		}
		e := newEng(c)
		args := e.params(f)
		st := &State{}
		if len(args) == 2 {
			e.assume(st, args[1], false)
		}
		outs := e.Run(f, args, st)
		engErr(res, e)
		for _, o := range outs {
			r := stripConv(o.res[0])
			ch := e.read(o.st, o.st.mem, r, rChan, nil, nil)
			res.count("copying methods that were not asked to keep the channel", 1)
			res.ob(ch != e.t.mk("attr", rChan, args[0]), Finding{Rule: "copy-has-its-own", At: e.retPos(o), Func: fname(f), Msg: "the copy has the channel of the original although it was not asked to keep it", Path: e.pathOf(o.st)})
		}
	}
}
