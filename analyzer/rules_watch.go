package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// states are all ends of paths: returns, and the ends of loop rounds.
func (e *Eng) ends(outs []outcome) []*State {
	var out []*State
	for _, o := range outs {
		out = append(out, o.st)
	}
	for _, l := range e.loops {
		for _, b := range l.backs {
			out = append(out, b.st)
		}
		for _, x := range l.exits {
			out = append(out, x.st)
		}
	}
	return out
}

// ---- C07 ----

type closeSite struct {
	fn  *ssa.Function
	pos token.Pos
}

func (c *Ctx) closeSites() []closeSite {
	var out []closeSite
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					out = append(out, closeSite{f, in.Pos()})
				}
			}
		}
	}
	return out
}

// reaches finds a call chain from f to a function of the set, not going through
// the functions to avoid.
func (c *Ctx) reaches(f *ssa.Function, to, avoid map[*ssa.Function]bool) []string {
	a := c.ownership()
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) []string
	visit = func(f *ssa.Function) []string {
		if seen[f] || avoid[f] || !c.p.inPackage(f) {
			return nil
		}
		seen[f] = true
		if to[f] {
			return []string{fname(f)}
		}
		var next []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					fs, _, _ := a.callees(x.Common())
					next = append(next, fs...)
				case *ssa.MakeClosure:
					next = append(next, x.Fn.(*ssa.Function))
				}
			}
		}
		for _, g := range next {
			if p := visit(g); p != nil {
				return append([]string{fname(f)}, p...)
			}
		}
		return nil
	}
	return visit(f)
}

// notifiers are the exported operations of a transaction that may close
// channels: those called Commit and Notify.
func (c *Ctx) notifiers() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.r.apiRoots() {
		if f.Signature.Recv() == nil || !c.r.isTxnPtr(f.Signature.Recv().Type()) {
			continue
		}
		if f.Name() == "Commit" || f.Name() == "Notify" {
			out = append(out, f)
		}
	}
	return out
}

func checkC07(c *Ctx, res *Result) {
	res.explanation = "Who-may-close over the call graph: only Commit and Notify of a transaction reach a close. Path-sensitive dataflow on those: every close is reached only after mutation tracking was tested on, and only after a test on the same path found that same channel not closed, with no close in between. New transactions start with tracking off, and only the switch itself changes it."
	sites := c.closeSites()
	ends := map[*ssa.Function]bool{}
	for _, s := range sites {
		ends[s.fn] = true
	}
	ns := c.notifiers()
	avoid := map[*ssa.Function]bool{}
	for _, f := range ns {
		avoid[f] = true
	}
	for _, f := range c.r.apiRoots() {
		if avoid[f] {
			continue
		}
		res.count("exported operations that must not close", 1)
		// tree-level writes commit a transaction of their own, which does not track
		via := avoid
		if f.Signature.Recv() != nil && c.r.isTxnPtr(f.Signature.Recv().Type()) {
			via = nil
		}
		p := c.reaches(f, ends, via)
		res.ob(p == nil, Finding{Rule: "who-may-close", At: c.p.pos(f.Pos()), Func: fname(f), Msg: "reaches a close of a channel", Path: strings.Join(p, " -> ")})
	}
	for _, f := range ns {
		e := newEng(c)
		args := e.params(f)
		outs := e.Run(f, args, &State{})
		engErr(res, e)
		flag := e.t.mk("attr", "Txn."+rTrack, args[0])
		closes := 0
		for _, st := range e.ends(outs) {
			evs := st.events()
			for i, v := range evs {
				if v.kind != "close" {
					continue
				}
				closes++
				msg := ""
				if !factBefore(st, v.nf, flag, true) {
					msg = "closes a channel without mutation tracking having been tested on"
				}
				res.ob(msg == "", Finding{Rule: "close-under-tracking", At: c.p.pos(v.pos), Func: fname(f), Msg: msg, Path: e.pathOf(st)})
				msg = ""
				ch := v.args[0]
				from := 0
				for _, w := range evs[:i] {
					if w.kind == "close" && w.nf > from {
						from = w.nf
					}
				}
				if !e.foundOpen(st, from, v.nf, ch) {
					msg = fmt.Sprintf("closes %s without having found it open", ch)
				}
				res.ob(msg == "", Finding{Rule: "close-once", At: c.p.pos(v.pos), Func: fname(f), Msg: msg, Path: e.pathOf(st)})
			}
		}
		res.count("close events on paths", closes)
		res.count("notifying operations", 1)
		res.count("branches followed", e.states)
	}
	c.trackingOff(res)
	res.count("close sites", len(sites))
	res.floor("close sites", 1)
	res.floor("notifying operations", 2)
	res.floor("close events on paths", 2)
	res.floor("exported operations that must not close", 20)
	res.assumptions = append(res.assumptions, "two goroutines do not notify for overlapping parts of a tree at the same time (transactions are not meant to be shared)")
}

func factBefore(st *State, n int, t *Term, v bool) bool {
	for _, f := range st.facts[:min(n, len(st.facts))] {
		if f.t == t && f.v == v {
			return true
		}
	}
	return false
}

// foundOpen: a non-blocking receive on the channel was not ready.
func (e *Eng) foundOpen(st *State, from, to int, ch *Term) bool {
	for i := from; i < to && i < len(st.facts); i++ {
		f := st.facts[i]
		if openFact(f, ch) {
			return true
		}
	}
	return false
}

func openFact(f fact, ch *Term) bool {
	t := f.t
	if t.op != "eq0" && t.op != "le0" && t.op != "eq" && !strings.HasPrefix(t.aux, "ready@") {
		return false
	}
	var ready *Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "call" && strings.HasPrefix(t.aux, "ready@") {
			ready = t
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.lin != nil {
			for _, a := range t.lin.atoms {
				walk(a)
			}
		}
	}
	walk(t)
	if ready == nil || len(ready.args) == 0 || ready.args[0] != ch {
		return false
	}
	// index 0 means that the receive was ready
	if t.op == "eq0" {
		l := t.args[0].linOf()
		if l.k == 0 {
			return !f.v
		}
		return f.v
	}
	return true
}

// trackingOff: transactions are made with tracking off and only the switch, which
// has the wanted state as its parameter, changes it.
func (c *Ctx) trackingOff(res *Result) {
	for _, f := range c.r.apiRoots() {
		isTxn := f.Signature.Recv() != nil && c.r.isTxnPtr(f.Signature.Recv().Type())
		if byteParam(f) >= 0 {
			continue
		}
		rts := resultTypes(f.Signature)
		if len(rts) == 1 && c.r.isTxnPtr(rts[0]) {
			e := newEng(c)
			args := e.params(f)
			outs := e.Run(f, args, &State{})
			engErr(res, e)
			for _, o := range outs {
				if e.allocs[o.res[0]] == nil {
					continue
				}
				v := e.read(o.st, o.st.mem, o.res[0], "Txn."+rTrack, nil, types.Typ[types.Bool])
				on, ok := e.decide(o.st, v)
				good := ok && !on
				if isTxn && v == e.t.mk("attr", "Txn."+rTrack, args[0]) {
					good = true
				}
				res.count("ways to make a transaction", 1)
				res.ob(good, Finding{Rule: "tracking-starts-off", At: e.retPos(o), Func: fname(f), Msg: fmt.Sprintf("the new transaction has tracking %s", v)})
			}
		}
	}
	// stores to the flag
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !c.r.isTxnPtr(fa.X.Type()) {
					continue
				}
				if _, _, role := c.r.fieldOf(pt.Elem(), fa.Field); role != rTrack {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				res.count("stores to the tracking flag", 1)
				_, isParam := s.Val.(*ssa.Parameter)
				good := isParam
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "false" {
					good = true
				}
				res.ob(good, Finding{Rule: "tracking-switch", At: c.p.pos(s.Pos()), Func: fname(f), Msg: "turns mutation tracking on without being asked to"})
			}
		}
	}
}

// ---- C08 ----

func checkC08(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms with least-fixpoint summaries of the recursive write functions, with mutation tracking on: on each path, every node that is copied, written in place, replaced or dropped must have had its channel appended to the list of tracked channels; notification goes through that whole list; a new transaction keeps the channel of the root it copies."
	start, ignore := c.tracking()
	specs, runs := c.trackedRuns(res)
	if res.err != "" {
		return
	}
	for _, r := range runs {
		for _, o := range r.outs {
			if r.otherEntry(o.st) {
				res.count("paths excluded because keys agree with the path to a node", 1)
				continue
			}
			w := &watch{c: c, e: r.e, st: o.st, res: res, fn: r.rs.f, at: r.e.retPos(o)}
			w.common()
			rc := r.rs.classOf(r.e, o, r.args)
			n := r.args[r.rs.nodeP]
			if rc.changed() {
				w.need(n, "the node that was given is changed or replaced", token.NoPos)
			}
			if rc.node == "nil" {
				w.need(r.e.t.mk("attr", rLeaf, n), "the entry of the node is dropped", token.NoPos)
			}
		}
	}
	for _, f := range c.txnWrites() {
		e := newEng(c)
		e.ignore = ignore
		e.hook = recHook(specs, false)
		args := e.params(f)
		outs := e.Run(f, args, start(e, args, f))
		engErr(res, e)
		for _, o := range outs {
			w := &watch{c: c, e: e, st: o.st, res: res, fn: f, at: e.retPos(o)}
			w.common()
			res.count("paths of write operations", 1)
		}
	}
	c.notifyAll(res)
	c.rootChannel(res)
	c.cloneKeeps(res)
	res.floor("recursive functions of the write operations", 2)
	res.floor("nodes that need their channel tracked", 20)
	res.floor("notification loops", 2)
	res.floor("transactions that keep the channel of the root", 1)
	res.floor("copying methods that keep the channel when asked", 4)
	res.assumptions = append(res.assumptions, "watchers hold channels of nodes and entries that are part of a tree, not of nodes made by the running operation")
}

// tracking: writes start with mutation tracking turned on. Whether a node belongs to
// the transaction is left open.
func (c *Ctx) tracking() (func(e *Eng, args []*Term, f *ssa.Function) *State, map[string]bool) {
	start := func(e *Eng, args []*Term, f *ssa.Function) *State {
		st := innerStart(e, args, f)
		for i, p := range f.Params {
			if c.r.isTxnPtr(p.Type()) {
				e.assume(st, e.t.mk("attr", "Txn."+rTrack, args[i]), true)
			}
		}
		return st
	}
	return start, map[string]bool{rID: true, "RadixTree." + rMaxID: true}
}

func (c *Ctx) trackedRuns(res *Result) ([]*recSpec, []*recRun) {
	start, ignore := c.tracking()
	return c.solveRecs(res, start, ignore, false)
}

type watch struct {
	c   *Ctx
	e   *Eng
	st  *State
	res *Result
	fn  *ssa.Function
	at  string

	tracked map[*Term]bool
	own     map[*Term]bool // recorded here, not by a recursive call
}

func (w *watch) fill() {
	w.tracked, w.own = map[*Term]bool{}, map[*Term]bool{}
	e := w.e
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil {
			return
		}
		if t.op == "append" {
			walk(t.args[0])
			for _, a := range t.args[1:] {
				if a.op == "attr" && baseRole(a) == rChan && len(a.args) == 1 {
					w.tracked[a.args[0]] = true
					w.own[a.args[0]] = true
				}
			}
		}
	}
	for v := w.st.ev; v != nil; v = v.prev {
		switch {
		case v.kind == "write" && v.name == "Txn."+rTracked:
			walk(v.args[1])
		case v.kind == "mapupdate":
			for _, a := range v.args {
				if a != nil && a.op == "attr" && baseRole(a) == rChan && len(a.args) == 1 {
					w.tracked[a.args[0]] = true
				}
			}
		case v.kind == "rec" && v.class.changed():
			w.tracked[v.args[v.spec.nodeP]] = true
		}
	}
	_ = e
}

// need: the channel of the node must be tracked on this path.
func (w *watch) need(n *Term, why string, pos token.Pos) {
	e := w.e
	if w.tracked == nil {
		w.fill()
	}
	if n == nil || n.isNil() || n.op == "zero" || e.allocs[n] != nil || n.op == "sym" && !strings.HasPrefix(n.aux, "phi") {
		return
	}
	if e.sure(w.st, e.eq(n, e.t.tnil)) {
		return
	}
	w.res.count("nodes that need their channel tracked", 1)
	at := w.at
	if pos.IsValid() {
		at = w.c.p.pos(pos)
	}
	w.res.ob(w.tracked[n], Finding{Rule: "channel-tracked", At: at, Func: fname(w.fn), Msg: fmt.Sprintf("%s, but the channel of %s is not tracked", why, n), Path: e.pathOf(w.st)})
}

func (w *watch) common() {
	e := w.e
	for _, v := range w.st.events() {
		switch {
		case v.kind == "clone":
			w.need(v.args[0], "the node is replaced by a copy", v.pos)
		case v.kind == "write" && nodeRoles[v.name] && v.name != rPartial:
			w.need(v.args[0], "the node is written", v.pos)
			if v.name == rLeaf && v.mem != nil {
				before := v.mem.next
				old := e.read(w.st, before, v.args[0], rLeaf, nil, nil)
				if old != v.args[1] {
					w.need(old, "the entry is replaced or removed", v.pos)
				}
			}
		case v.kind == "write" && v.name == "Txn."+rTracked:
			prev := e.read(w.st, v.mem.next, v.args[0], "Txn."+rTracked, nil, nil)
			base := v.args[1]
			for base.op == "append" {
				base = base.args[0]
			}
			ok := base == prev
			if !ok {
				b := prev
				for b.op == "append" {
					b = b.args[0]
				}
				ok = base == b || e.sure(w.st, e.eq(prev, e.t.tnil))
			}
			w.res.count("updates of the tracked channels", 1)
			w.res.ob(ok, Finding{Rule: "tracked-kept", At: w.c.p.pos(v.pos), Func: fname(w.fn), Msg: "channels tracked before are dropped", Path: e.pathOf(w.st)})
		}
	}
}

// notifyAll: with tracking on, notification goes through all tracked channels
// and closes each that is open.
func (c *Ctx) notifyAll(res *Result) {
	for _, f := range c.notifiers() {
		e := newEng(c)
		args := e.params(f)
		st := &State{}
		e.assume(st, e.t.mk("attr", "Txn."+rTrack, args[0]), true)
		outs := e.Run(f, args, st)
		engErr(res, e)
		list := e.t.mk("attr", "Txn."+rTracked, args[0])
		good := false
		msg := "does not go through the tracked channels"
		for _, l := range e.loops {
			over := false
			for _, b := range l.backs {
				for _, v := range b.st.events() {
					if v.kind == "close" && v.args[0].op == "elem" && v.args[0].args[0] == list {
						over = true
					}
				}
			}
			if !over {
				continue
			}
			m := e.fullRange(l, list)
			if m == "" {
				good = true
			} else {
				msg = m
			}
		}
		// every return comes after the loop
		if good {
			for _, o := range outs {
				done := false
				for _, l := range e.loops {
					for _, x := range l.exits {
						if descends(o.st, x.st) {
							done = true
						}
					}
				}
				if !done {
					good, msg = false, "may return without going through the tracked channels"
				}
			}
		}
		res.count("notification loops", 1)
		res.ob(good, Finding{Rule: "notifies-all", At: c.p.pos(f.Pos()), Func: fname(f), Msg: msg})
	}
}

// descends: the state is a continuation of another one.
func descends(s, from *State) bool {
	if len(s.facts) < len(from.facts) {
		return false
	}
	for i, f := range from.facts {
		if s.facts[i] != f {
			return false
		}
	}
	return true
}

// fullRange: the loop visits every element of the list and closes it unless it
// is nil or was found closed.
func (e *Eng) fullRange(l *loopInfo, list *Term) string {
	// the counter
	n := e.t.mk("len", "", list)
	for _, b := range l.backs {
		var elem *Term
		closed := false
		for _, v := range b.st.events() {
			if v.kind == "close" {
				closed = true
			}
		}
		if closed {
			continue
		}
		// a round without close: nil, or found closed
		ok := false
		for _, f := range b.st.facts {
			if f.t.op == "eq" && f.v && f.t.args[1].isNil() && f.t.args[0].op == "elem" && f.t.args[0].args[0] == list {
				ok = true
			}
			ft := f
			ft.v = !ft.v
			var find func(t *Term)
			find = func(t *Term) {
				if t.op == "elem" && len(t.args) > 0 && t.args[0] == list {
					elem = t
				}
				for _, a := range t.args {
					find(a)
				}
				if t.lin != nil {
					for _, a := range t.lin.atoms {
						find(a)
					}
				}
			}
			find(f.t)
			if elem != nil && openFact(ft, elem) {
				ok = true
			}
		}
		if !ok {
			return "a tracked channel is passed over without having been found closed"
		}
	}
	// leaves only at the end of the list
	for _, x := range l.exits {
		ok := false
		for _, s := range l.syms {
			d := linAdd(n.linOf(), s.linOf(), -1)
			if e.entails(x.st, d, 2) || e.entails(x.st, linAdd(d, &linear{k: 1}, -1), 2) {
				ok = true
			}
		}
		if !ok {
			return "the loop over the tracked channels may end early"
		}
	}
	// starts at the first
	for i, s := range l.syms {
		pi := e.phis[s]
		if pi == nil || pi.entry == nil {
			continue
		}
		if k, ok := pi.entry.isInt(); ok {
			if k > 0 {
				return "the loop over the tracked channels does not start at the first"
			}
			for _, b := range pi.backs {
				if d, ok := diffConst(b.val, l.syms[i]); !ok || d != 1 {
					return "the loop over the tracked channels does not visit each"
				}
			}
		}
	}
	return ""
}

// rootChannel: a new transaction works on the root itself or on a copy that has
// the same channel.
func (c *Ctx) rootChannel(res *Result) {
	for _, f := range c.r.apiRoots() {
		rts := resultTypes(f.Signature)
		if f.Signature.Recv() == nil || len(rts) != 1 || !c.r.isTxnPtr(rts[0]) || byteParam(f) >= 0 {
			continue
		}
		e := newEng(c)
		args := e.params(f)
		outs := e.Run(f, args, &State{})
		engErr(res, e)
		tree := args[0]
		if c.r.isTxnPtr(f.Signature.Recv().Type()) {
			tree = e.t.mk("attr", "Txn."+rTree, tree)
		}
		root0 := e.t.mk("attr", "RadixTree."+rRoot, tree)
		for _, o := range outs {
			if e.allocs[o.res[0]] == nil {
				continue
			}
			tr := e.read(o.st, o.st.mem, o.res[0], "Txn."+rTree, nil, nil)
			root := e.read(o.st, o.st.mem, tr, "RadixTree."+rRoot, nil, nil)
			ok := root == root0
			if a := e.allocs[root]; a != nil && a.cloneOf == root0 && a.keepCh != nil {
				v, k := e.decide(o.st, a.keepCh)
				ok = k && v
				if ch := e.read(o.st, o.st.mem, root, rChan, nil, nil); ch == e.t.mk("attr", rChan, root0) {
					ok = true
				}
			}
			res.count("transactions that keep the channel of the root", 1)
			res.ob(ok, Finding{Rule: "root-channel-kept", At: e.retPos(o), Func: fname(f), Msg: fmt.Sprintf("the root of the new transaction, %s, does not have the channel of the tree's root", root), Path: e.pathOf(o.st)})
		}
	}
}

// cloneKeeps: copies of nodes have the same channel if asked to.
func (c *Ctx) cloneKeeps(res *Result) {
	for _, f := range c.p.funcs {
		if c.nodeFn(f) != fnClone || len(f.Params) != 2 {
			continue
		}
		e := newEng(c)
		args := e.params(f)
		st := &State{}
		e.assume(st, args[1], true)
		outs := e.Run(f, args, st)
		engErr(res, e)
		for _, o := range outs {
			r := stripConv(o.res[0])
			ch := e.read(o.st, o.st.mem, r, rChan, nil, nil)
			ok := ch == e.t.mk("attr", rChan, args[0])
			res.count("copying methods that keep the channel when asked", 1)
			res.ob(ok, Finding{Rule: "copy-keeps-channel", At: e.retPos(o), Func: fname(f), Msg: fmt.Sprintf("the copy has the channel %s although it was asked to keep the channel", ch), Path: e.pathOf(o.st)})
		}
	}
}
