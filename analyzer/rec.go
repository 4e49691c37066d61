package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A recursive function of the write operations is described by the classes of
// its outcomes: what happened to the node it was given, and the values of its
// flags. The classes are found as a least fixpoint: first from the paths that
// do not recurse, then with the recursive calls replaced by the classes known so
// far, until none is new. What a rule claims about a class then holds by
// induction over the depth of the recursion.
type recSpec struct {
	f       *ssa.Function
	nodeP   int // parameter that is the node
	nodeR   int // result that replaces it
	keyP    int
	valP    int
	cells   []int // parameters that point to flags
	classes []*recClass
}

type recClass struct {
	key   string
	node  string // same, inplace, nil, nonnil, any
	res   []string
	cells []string
	calls map[string]bool // classes it was reached through
}

func (rc *recClass) changed() bool { return rc.node != "same" }

// writeRecs finds the recursive functions of the write operations.
func (c *Ctx) writeRecs() []*recSpec {
	e := newEng(c)
	a := c.ownership()
	var out []*recSpec
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !c.p.inPackage(f) {
			return
		}
		seen[f] = true
		if rs := c.recShape(f); rs != nil && !e.pure(f) && e.recursive(f) {
			out = append(out, rs)
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					fs, _, _ := a.callees(ci.Common())
					for _, g := range fs {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range c.r.apiRoots() {
		if f.Signature.Recv() != nil && c.r.isTxnPtr(f.Signature.Recv().Type()) {
			visit(f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i].f) < fname(out[j].f) })
	return out
}

func (c *Ctx) recShape(f *ssa.Function) *recSpec {
	rs := &recSpec{f: f, nodeP: -1, nodeR: -1, keyP: -1, valP: -1}
	for i, p := range f.Params {
		switch {
		case c.r.isNodeVal(p.Type()) && rs.nodeP < 0:
			rs.nodeP = i
		case isByteSlice(p.Type()) && rs.keyP < 0:
			rs.keyP = i
		case types.Identical(p.Type(), c.p.valT):
			rs.valP = i
		}
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			if _, basic := pt.Elem().Underlying().(*types.Basic); basic {
				rs.cells = append(rs.cells, i)
			}
		}
	}
	for i, t := range resultTypes(f.Signature) {
		if c.r.isNodeVal(t) && rs.nodeR < 0 {
			rs.nodeR = i
		}
	}
	if rs.nodeP < 0 || rs.nodeR < 0 || rs.keyP < 0 {
		return nil
	}
	return rs
}

// nodeRoles are the parts of a node that matter for what a tree contains.
var nodeRoles = map[string]bool{rLeaf: true, rChildren: true, rKeys: true, rNum: true, rPLen: true, rPartial: true, rKey: true, rValue: true}

func (e *Eng) isNodeTerm(t *Term) bool {
	if t == nil {
		return false
	}
	if t.typ != nil && e.c.r.isNodeVal(t.typ) {
		return true
	}
	if a := e.allocs[t]; a != nil {
		return a.cloneOf != nil || e.kindBit(a.typ) != 0
	}
	return false
}

// contentWrites are the writes to nodes that existed before.
func (e *Eng) contentWrites(st *State) []*event {
	var out []*event
	for v := st.ev; v != nil; v = v.prev {
		switch v.kind {
		case "write":
			o := v.args[0]
			if o == nil || e.allocs[o] != nil {
				continue
			}
			if nodeRoles[v.name] || v.name == "[]" {
				out = append(out, v)
			}
		case "copy":
			o, role, _ := e.sliceLoc(v.args[0])
			if e.allocs[o] == nil && (nodeRoles[role] || role == "[]") {
				if !e.ownPartial(v, o) {
					out = append(out, v)
				}
			}
		case "rec":
			if v.class != nil && v.class.changed() {
				out = append(out, v)
			}
		case "add", "remove":
			if e.allocs[v.args[0]] == nil {
				out = append(out, v)
			}
		}
	}
	return out
}

// ownPartial: the bytes belong to the prefix of a copied node.
func (e *Eng) ownPartial(v *event, o *Term) bool { return false }

func (rs *recSpec) classOf(e *Eng, o outcome, args []*Term) *recClass {
	rc := &recClass{}
	n := o.res[rs.nodeR]
	same := n == args[rs.nodeP]
	if v, ok := e.decide(o.st, e.eq(n, args[rs.nodeP])); ok && v {
		same = true
	}
	switch {
	case same:
		rc.node = "same"
		if len(e.contentWrites(o.st)) > 0 {
			rc.node = "inplace"
		}
	case n.isNil():
		rc.node = "nil"
	case e.nonNil(o.st, n):
		rc.node = "nonnil"
	default:
		if v, ok := e.decide(o.st, e.eq(n, e.t.tnil)); ok && !v {
			rc.node = "nonnil"
		} else if ok {
			rc.node = "nil"
		} else {
			rc.node = "any"
		}
	}
	for i, r := range o.res {
		s := "any"
		if i == rs.nodeR {
			s = "-"
		} else {
			t := rs.f.Signature.Results().At(i).Type()
			switch {
			case basicInfo(t)&types.IsBoolean != 0:
				if v, ok := e.decide(o.st, r); ok {
					s = fmt.Sprint(v)
				}
			case pointerLike(t) && !types.Identical(t, e.c.p.valT):
				if v, ok := e.decide(o.st, e.eq(r, e.t.tnil)); ok {
					s = "nonnil"
					if v {
						s = "nil"
					}
				}
			}
		}
		rc.res = append(rc.res, s)
	}
	for _, ci := range rs.cells {
		s := "any"
		v := e.read(o.st, o.st.mem, args[ci], "*", nil, nil)
		if k, ok := v.isInt(); ok {
			s = fmt.Sprintf("=%d", k)
		} else if b, ok := v.isBool(); ok {
			s = fmt.Sprintf("=%v", b)
		} else if v == e.t.mk("attr", "*", args[ci]) {
			s = "kept"
		}
		rc.cells = append(rc.cells, s)
	}
	rc.key = rc.node + "|" + strings.Join(rc.res, ",") + "|" + strings.Join(rc.cells, ",")
	return rc
}

// apply performs a recursive call by its classes.
func (rs *recSpec) apply(e *Eng, st *State, in ssa.CallInstruction, args []*Term) []outcome {
	var outs []outcome
	rts := resultTypes(rs.f.Signature)
	for _, rc := range rs.classes {
		st2 := st.clone()
		var res []*Term
		node := args[rs.nodeP]
		for i, t := range rts {
			var r *Term
			if i == rs.nodeR {
				switch rc.node {
				case "same", "inplace":
					r = node
				case "nil":
					r = e.t.tnil
				case "nonnil":
					r = e.sym("nonnil.sub")
				default:
					r = e.sym("sub")
				}
			} else {
				switch rc.res[i] {
				case "true":
					r = e.t.boolT(true)
				case "false":
					r = e.t.boolT(false)
				case "nil":
					r = e.t.tnil
				case "nonnil":
					r = e.sym("nonnil.out")
				default:
					r = e.sym("out")
				}
			}
			if r.op == "sym" {
				e.typed(r, t)
			}
			res = append(res, r)
		}
		if rc.changed() {
			e.seq++
			for role := range nodeRoles {
				st2.mem = &memEntry{under: node, role: role, anyIdx: true, seq: e.seq, next: st2.mem}
			}
			st2.mem = &memEntry{role: "RadixTree." + rMaxID, seq: e.seq, next: st2.mem, anyIdx: true}
			st2.mem = &memEntry{role: rID, seq: e.seq, next: st2.mem, under: node, anyIdx: true}
			st2.mem = &memEntry{role: rChan, seq: e.seq, next: st2.mem, under: node, anyIdx: true}
		}
		for i, ci := range rs.cells {
			switch s := rc.cells[i]; {
			case s == "kept":
			case s == "any":
				e.seq++
				st2.mem = &memEntry{obj: args[ci], role: "*", seq: e.seq, next: st2.mem, anyIdx: true}
			default:
				var v *Term
				if s == "=true" || s == "=false" {
					v = e.t.boolT(s == "=true")
				} else {
					var k int64
					fmt.Sscanf(s, "=%d", &k)
					v = e.t.intT(k)
				}
				e.seq++
				st2.mem = &memEntry{obj: args[ci], role: "*", val: v, seq: e.seq, next: st2.mem}
			}
		}
		nargs := make([]*Term, len(args))
		for i, a := range args {
			nargs[i] = a
			if i == rs.keyP {
				nargs[i] = e.norm(st, a)
			}
		}
		e.note(st2, nil, &event{kind: "rec", name: rc.key, class: rc, spec: rs, args: nargs, res: res, pos: in.Pos()})
		outs = append(outs, outcome{st: st2, res: res})
	}
	return outs
}

// recHook replaces calls of the recursive functions by their classes, and, if
// asked to, adding and removing a child by an event.
func recHook(specs []*recSpec, events bool) hookFn {
	return func(e *Eng, st *State, in ssa.CallInstruction, f *ssa.Function, args []*Term) ([]outcome, bool) {
		for _, rs := range specs {
			if rs.f == f {
				return rs.apply(e, st, in, args), true
			}
		}
		if !events {
			return nil, false
		}
		role := e.c.nodeFn(f)
		if role != fnAdd && role != fnRemove {
			return nil, false
		}
		var nodes []*Term
		var b *Term
		for i, p := range f.Params {
			switch {
			case e.c.r.isNodeVal(p.Type()):
				nodes = append(nodes, args[i])
			case basicKind(p.Type()) == types.Uint8:
				b = args[i]
			}
		}
		st2 := st.clone()
		r := e.typed(e.sym("nonnil.node"), f.Signature.Results().At(0).Type())
		ev := &event{kind: "add", args: append(nodes, b), res: []*Term{r}, pos: in.Pos()}
		if role == fnRemove {
			ev.kind = "remove"
		}
		e.note(st2, nil, ev)
		e.seq++
		for _, ro := range []string{rChildren, rKeys, rNum} {
			st2.mem = &memEntry{obj: nodes[0], role: ro, anyIdx: true, seq: e.seq, next: st2.mem}
		}
		if role == fnRemove {
			// merging with the last child rewrites prefixes
			for _, ro := range []string{rPLen, rPartial} {
				st2.mem = &memEntry{under: nodes[0], role: ro, anyIdx: true, seq: e.seq, next: st2.mem}
			}
		}
		return []outcome{{st: st2, res: []*Term{r}}}, true
	}
}

type recRun struct {
	rs   *recSpec
	e    *Eng
	args []*Term
	outs []outcome

	sites []*findSite
}

// solveRecs finds the classes of all recursive functions and returns the final
// runs.
func (c *Ctx) solveRecs(res *Result, start func(e *Eng, args []*Term, f *ssa.Function) *State, ignore map[string]bool, events bool, open ...bool) ([]*recSpec, []*recRun) {
	specs := c.writeRecs()
	for round := 0; ; round++ {
		if round > 10 {
			res.err = "the classes of the recursive functions do not stabilise"
			return specs, nil
		}
		var runs []*recRun
		grew := false
		for _, rs := range specs {
			e := newEng(c)
			e.ignore = ignore
			e.openAll = len(open) > 0 && open[0]
			e.hook = recHook(specs, events)
			args := e.params(rs.f)
			run := &recRun{rs: rs, e: e, args: args}
			e.onFind = func(s *findSite) { run.sites = append(run.sites, s) }
			outs := e.Run(rs.f, args, start(e, args, rs.f))
			run.outs = outs
			engErr(res, e)
			runs = append(runs, run)
			have := map[string]bool{}
			for _, x := range rs.classes {
				have[x.key] = true
			}
			for _, o := range outs {
				rc := rs.classOf(e, o, args)
				if !have[rc.key] {
					have[rc.key] = true
					rs.classes = append(rs.classes, rc)
					grew = true
				}
			}
		}
		if res.err != "" {
			return specs, nil
		}
		if !grew {
			for _, r := range runs {
				res.count("recursive functions of the write operations", 1)
				res.count("classes of outcomes of recursive functions", len(r.rs.classes))
				res.count("paths through recursive functions", len(r.outs))
				res.count("branches followed", r.e.states)
			}
			return specs, runs
		}
	}
}

func (rs *recSpec) class(key string) *recClass {
	for _, c := range rs.classes {
		if c.key == key {
			return c
		}
	}
	return nil
}

// innerStart: the nodes of a tree are inner nodes; entries only hang off them.
func innerStart(e *Eng, args []*Term, f *ssa.Function) *State {
	st := &State{}
	for i, p := range f.Params {
		if e.c.r.isNodeVal(p.Type()) {
			e.restrict(st, args[i], e.allB&^e.leafB)
		}
	}
	return st
}
