package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- what the exported operations return ----

type resultShape struct {
	key, val, ok, ch int // indexes, -1 if absent
	n                int
}

func (c *Ctx) shape(sig *types.Signature) resultShape {
	s := resultShape{-1, -1, -1, -1, sig.Results().Len()}
	for i, t := range resultTypes(sig) {
		switch {
		case isByteSlice(t):
			s.key = i
		case types.Identical(t, c.p.valT):
			s.val = i
		case basicInfo(t)&types.IsBoolean != 0:
			s.ok = i
		case isBidiChan(t):
			s.ch = i
		}
	}
	return s
}

// byteParam is the index (including the receiver) of the only []byte parameter.
func byteParam(f *ssa.Function) int {
	at := -1
	for i, p := range f.Params {
		if isByteSlice(p.Type()) {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	return at
}

// readsOnly: the operation links no nodes. That it writes nothing else is C05.
func (c *Ctx) readsOnly(f *ssa.Function) bool {
	if ro, ok := c.reads[f]; ok {
		return ro
	}
	if c.reads == nil {
		c.reads = map[*ssa.Function]bool{}
	}
	ro := true
	for w := range c.ownership().sum(f).writes {
		if w.kind != wCAS {
			ro = false
		}
	}
	c.reads[f] = ro || !c.links(f, map[*ssa.Function]bool{})
	return c.reads[f]
}

// links: a node is stored in a tree or in another node.
func (c *Ctx) links(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] || !c.p.inPackage(f) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr:
					if c.r.isNodeVal(x.Val.Type()) && !c.r.isIterPtr(ownerOf(a)) {
						return true
					}
				}
			case ssa.CallInstruction:
				fs, _, _ := c.ownership().callees(x.Common())
				for _, g := range fs {
					if c.links(g, seen) {
						return true
					}
				}
			}
		}
	}
	for _, g := range f.AnonFuncs {
		if c.links(g, seen) {
			return true
		}
	}
	return false
}

// ownerOf is the type of what a field or element belongs to.
func ownerOf(a ssa.Value) types.Type {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return a.X.Type()
	case *ssa.IndexAddr:
		return a.X.Type()
	}
	return a.Type()
}

// lookups are the exported operations that take a key and return its value.
func (c *Ctx) lookups() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.r.apiRoots() {
		s := c.shape(f.Signature)
		n := 2
		if s.ch >= 0 {
			n++
		}
		if byteParam(f) >= 0 && s.val >= 0 && s.ok >= 0 && s.n == n && c.readsOnly(f) {
			out = append(out, f)
		}
	}
	return out
}

func recvName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return n.Obj().Name()
		}
	}
	return ""
}

// yielders are the exported operations that return a key with its value.
func (c *Ctx) yielders() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.r.apiRoots() {
		s := c.shape(f.Signature)
		if s.val >= 0 && s.key >= 0 {
			out = append(out, f)
		}
	}
	return out
}

func engErr(res *Result, e *Eng) {
	if e.err != "" && res.err == "" {
		res.err = e.err
	}
}

// accepted narrows an outcome to the case that the result flag is true.
func (e *Eng) accepted(o outcome, ok int) *State {
	st := o.st.clone()
	if ok < 0 {
		return st
	}
	if !e.assume(st, o.res[ok], true) {
		return nil
	}
	return st
}

// entryOf: the term is the given role of an entry.
func entryOf(t *Term, role string) *Term {
	if t.op == "attr" && t.aux == role && len(t.args) == 1 {
		return t.args[0]
	}
	return nil
}

// ---- C11 ----

func checkC11(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms, from the source, for every exported lookup: on each path that reports a hit, the returned value must be the value of an entry whose key was compared equal with the requested key on that path, and the returned channel that entry's channel."
	fs := c.lookups()
	for _, f := range fs {
		e := newEng(c)
		args := e.params(f)
		key := args[byteParam(f)]
		sh := c.shape(f.Signature)
		outs := e.Run(f, args, &State{})
		engErr(res, e)
		hits := 0
		for _, o := range outs {
			st := e.accepted(o, sh.ok)
			if st == nil {
				continue
			}
			hits++
			bad := ""
			v := o.res[sh.val]
			l := entryOf(v, rValue)
			switch {
			case l == nil:
				bad = fmt.Sprintf("reports a hit with the value %s, which is not the value of a stored entry", v)
			case !e.holdsFor(st, l, func(st *State, l *Term) bool {
				return e.sure(st, e.eqBytes(st, e.read(st, st.mem, l, rKey, nil, nil), key))
			}):
				bad = fmt.Sprintf("reports a hit for the entry %s without its key having been found equal to the requested key", l)
			case sh.ch >= 0 && o.res[sh.ch] != e.read(st, st.mem, l, rChan, nil, nil):
				bad = fmt.Sprintf("returns the channel %s with the value of the entry %s", o.res[sh.ch], l)
			}
			res.ob(bad == "", Finding{Rule: "hit-is-for-the-key", At: e.retPos(o), Func: fname(f), Msg: bad, Path: e.pathOf(st)})
			if bad == "" {
				res.sample(fmt.Sprintf("%s: %s", fname(f), v))
			}
		}
		res.count("paths analysed", len(outs))
		res.count("paths that report a hit", hits)
		res.count("branches followed", e.states)
		res.ob(hits > 0, Finding{Rule: "hit-exists", At: c.p.pos(f.Pos()), Func: fname(f), Msg: "no path reports a hit"})
	}
	res.count("lookup operations", len(fs))
	res.floor("lookup operations", 4)
	res.assumptions = append(res.assumptions, "node methods return what their names say for the layout (checked by C19)", "bytes.Equal and bytes.Compare have their documented meaning")
}

func (e *Eng) retPos(o outcome) string {
	if o.st.tr != nil && o.st.tr.pos.IsValid() {
		return e.c.p.pos(o.st.tr.pos)
	}
	return e.c.p.pos(o.pos)
}

func (e *Eng) sure(st *State, c *Term) bool {
	v, ok := e.decide(st, c)
	return ok && v
}

// holdsFor proves a predicate of a value that may have been chosen in a loop:
// by induction over the rounds of the loop.
func (e *Eng) holdsFor(st *State, t *Term, pred func(*State, *Term) bool) bool {
	return e.holdsRec(st, t, pred, map[*Term]bool{})
}

func (e *Eng) holdsRec(st *State, t *Term, pred func(*State, *Term) bool, seen map[*Term]bool) bool {
	if t.isNil() || seen[t] {
		return true
	}
	if pred(st, t) {
		return true
	}
	pi := e.phis[t]
	if pi == nil || pi.entry == nil {
		return false
	}
	seen[t] = true
	if !e.holdsRec(pi.run.entry, pi.entry, pred, seen) {
		return false
	}
	for _, b := range pi.backs {
		if !e.holdsRec(b.st, b.val, pred, seen) {
			return false
		}
	}
	return true
}

// ---- seeks and yields ----

// A config is a location of an iterator that a seek sets the same way on every
// path.
type config struct {
	path []string // fields from the iterator to the object
	role string
	val  *Term
	isK  bool // a copy of the argument
}

func (c config) String() string {
	v := "a copy of the argument"
	if !c.isK {
		v = c.val.String()
	}
	return strings.Join(append(c.path, c.role), "/") + " = " + v
}

// fieldPath: obj is reached from root through fields.
func fieldPath(obj, root *Term) ([]string, bool) {
	if obj == root {
		return nil, true
	}
	if obj.op == "attr" && len(obj.args) == 1 {
		if p, ok := fieldPath(obj.args[0], root); ok {
			return append(p, obj.aux), true
		}
	}
	return nil, false
}

// configAfter collects what all outcomes agree on about the fields of root.
func (e *Eng) configAfter(outs []outcome, rootOf func(outcome) *Term, arg *Term) []config {
	var list []config
	for n, o := range outs {
		root := rootOf(o)
		found := map[string]config{}
		for m := o.st.mem; m != nil; m = m.next {
			if m.obj == nil || m.idx != nil || m.anyIdx {
				continue
			}
			p, ok := fieldPath(m.obj, root)
			if !ok {
				// an iterator inside the one returned
				p, ok = e.storedPath(o.st, m.obj, root)
			}
			if !ok {
				continue
			}
			cf := config{path: p, role: m.role}
			k := strings.Join(append(p, m.role), "/")
			if _, dup := found[k]; dup {
				continue
			}
			cf.val = e.read(o.st, o.st.mem, m.obj, m.role, nil, nil)
			if arg != nil && e.norm(o.st, cf.val) == arg {
				cf.isK = true
			} else if cf.val.op != "const" && cf.val.op != "nil" {
				if _, isInt := cf.val.isInt(); !isInt {
					found[k] = config{}
					continue
				}
			}
			found[k] = cf
		}
		// fields that keep the zero value of a new object
		if n == 0 {
			for _, cf := range found {
				if cf.role != "" {
					list = append(list, cf)
				}
			}
			continue
		}
		var keep []config
		for _, a := range list {
			b, ok := found[strings.Join(append(a.path, a.role), "/")]
			if ok && b.role != "" && b.isK == a.isK && (a.isK || a.val == b.val) {
				keep = append(keep, a)
			}
		}
		list = keep
	}
	return list
}

func (e *Eng) storedPath(st *State, obj, root *Term) ([]string, bool) {
	if e.allocs[obj] == nil || e.allocs[root] == nil {
		return nil, false
	}
	for m := st.mem; m != nil; m = m.next {
		if m.obj == root && m.val == obj {
			return []string{m.role}, true
		}
	}
	return nil, false
}

// withConfig starts a state in which the fields of it have the given values.
func (e *Eng) withConfig(it *Term, key *Term, list []config) *State {
	st := &State{}
	for _, cf := range list {
		v := cf.val
		if cf.isK {
			v = key
		}
		e.seq++
		st.mem = &memEntry{obj: e.under(it, cf.path), role: cf.role, val: v, seq: e.seq, next: st.mem}
	}
	return st
}

func (e *Eng) under(it *Term, path []string) *Term {
	for _, p := range path {
		it = e.t.mk("attr", p, it)
	}
	return it
}

// boundRule: what a yielded key must satisfy after a seek.
type boundRule struct {
	seek  *ssa.Function // or constructor
	yield *ssa.Function
	make  bool // the seek returns the iterator
	kind  string
}

func (c *Ctx) seekKind(f *ssa.Function) string {
	n := f.Name()
	switch {
	case strings.Contains(n, "ReverseLowerBound"):
		return "le"
	case strings.Contains(n, "LowerBound"):
		return "ge"
	case strings.Contains(n, "Prefix"):
		return "prefix"
	case strings.Contains(n, "Path"):
		return "path"
	}
	return ""
}

func (c *Ctx) boundRules(kinds ...string) []boundRule {
	var out []boundRule
	want := map[string]bool{}
	for _, k := range kinds {
		want[k] = true
	}
	ys := map[string][]*ssa.Function{}
	for _, y := range c.yielders() {
		if y.Signature.Params().Len() == 0 && c.r.isIterPtr(y.Signature.Recv().Type()) {
			ys[recvName(y)] = append(ys[recvName(y)], y)
		}
	}
	for _, f := range c.r.apiRoots() {
		k := c.seekKind(f)
		if !want[k] || f.Signature.Recv() == nil || byteParam(f) < 0 {
			continue
		}
		if c.r.isIterPtr(f.Signature.Recv().Type()) && c.shape(f.Signature).val < 0 {
			for _, y := range ys[recvName(f)] {
				out = append(out, boundRule{seek: f, yield: y, kind: k})
			}
			continue
		}
		rs := resultTypes(f.Signature)
		if len(rs) == 1 && c.r.isIterPtr(rs[0]) {
			for _, y := range ys[namedOf(rs[0]).Obj().Name()] {
				out = append(out, boundRule{seek: f, yield: y, make: true, kind: k})
			}
		}
	}
	return out
}

// satisfies: the key is on the right side of the bound.
func (e *Eng) satisfies(st *State, kind string, key, bound *Term) bool {
	key, bound = e.norm(st, key), e.norm(st, bound)
	cmp := func(a, b *Term) *Term { return e.t.mk("cmpb", "", a, b) }
	zero := e.t.intT(0)
	switch kind {
	case "prefix":
		return e.sure(st, e.t.mk("hasp", "", key, bound))
	case "path":
		return e.sure(st, e.t.mk("hasp", "", bound, key))
	case "ge":
		return e.sure(st, e.le(zero, cmp(key, bound))) || e.sure(st, e.le(cmp(bound, key), zero)) ||
			e.sure(st, e.eqBytes(st, key, bound)) || e.sure(st, e.t.mk("hasp", "", key, bound))
	case "le":
		return e.sure(st, e.le(cmp(key, bound), zero)) || e.sure(st, e.le(zero, cmp(bound, key))) ||
			e.sure(st, e.eqBytes(st, key, bound)) || e.sure(st, e.t.mk("hasp", "", bound, key))
	}
	return false
}

var kindText = map[string]string{
	"prefix": "starts with the prefix", "path": "is a prefix of the path",
	"all": "is not excluded by a seek",
	"ge":  "is greater than or equal to the bound", "le": "is less than or equal to the bound",
}

func ruleBounds(c *Ctx, res *Result, rules []boundRule) {
	for _, br := range rules {
		e := newEng(c)
		args := e.params(br.seek)
		arg := args[byteParam(br.seek)]
		outs := e.Run(br.seek, args, &State{})
		engErr(res, e)
		root := func(o outcome) *Term {
			if br.make {
				return o.res[0]
			}
			return args[0]
		}
		cf := e.configAfter(outs, root, arg)
		res.count("paths through seeks", len(outs))
		name := fname(br.seek) + " then " + fname(br.yield)
		yargs := e.params(br.yield)
		st0 := e.withConfig(yargs[0], arg, cf)
		youts := e.Run(br.yield, yargs, st0)
		engErr(res, e)
		sh := c.shape(br.yield.Signature)
		hits := 0
		for _, o := range youts {
			// the iterator stays seeked
			for _, x := range cf {
				if !x.isK {
					continue
				}
				now := e.read(o.st, o.st.mem, e.under(yargs[0], x.path), x.role, nil, nil)
				res.ob(now == arg || e.norm(o.st, now) == arg, Finding{Rule: "bound-kept", At: e.retPos(o), Func: fname(br.yield),
					Msg: fmt.Sprintf("%s changes %s", name, x), Path: e.pathOf(o.st)})
			}
			st := e.accepted(o, sh.ok)
			if st == nil {
				continue
			}
			hits++
			k := e.norm(st, o.res[sh.key])
			ok := e.satisfies(st, br.kind, k, arg)
			if !ok {
				if l := entryOf(k, rKey); l != nil {
					ok = e.holdsFor(st, l, func(st *State, l *Term) bool {
						return e.satisfies(st, br.kind, e.read(st, st.mem, l, rKey, nil, nil), arg)
					})
				}
			}
			res.ob(ok, Finding{Rule: "yield-" + br.kind, At: e.retPos(o), Func: fname(br.yield),
				Msg:  fmt.Sprintf("%s: yields the key %s without having established that it %s", name, k, kindText[br.kind]),
				Path: e.pathOf(st)})
			if ok {
				res.sample(fmt.Sprintf("%s: %s %s", name, k, kindText[br.kind]))
			}
		}
		res.count("paths that yield a key", hits)
		res.count("branches followed", e.states)
		res.ob(hits > 0, Finding{Rule: "yield-exists", At: c.p.pos(br.yield.Pos()), Func: fname(br.yield), Msg: name + " never yields a key"})
	}
	res.count("pairs of seek and yield operations", len(rules))
}

func checkC12(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms for every pair of a prefix seek and a yielding operation of an iterator: the fields set by the seek on all paths are assumed when the yielding operation is entered, which must keep them, and on each path that yields a key, that key must have been tested to start with the prefix."
	ruleBounds(c, res, c.boundRules("prefix"))
	res.floor("pairs of seek and yield operations", 3)
	res.floor("paths that yield a key", 8)
}

func checkC13(c *Ctx, res *Result) {
	res.explanation = "As for prefixes, for every pair of a bounded seek and a yielding operation: on each path that yields a key, that key must have been compared with the bound and found on the right side."
	ruleBounds(c, res, c.boundRules("ge", "le"))
	res.floor("pairs of seek and yield operations", 2)
	res.floor("paths that yield a key", 3)
}

func checkC14(c *Ctx, res *Result) {
	res.explanation = "For every constructor of a path iterator with its yielding operation, and for every longest-prefix query: on each path that returns a key, that key must have been tested to be a prefix of the argument, by induction over the rounds of the loop where the candidate is chosen in one."
	ruleBounds(c, res, c.boundRules("path"))
	n := 0
	for _, f := range c.yielders() {
		if byteParam(f) < 0 {
			continue
		}
		n++
		e := newEng(c)
		args := e.params(f)
		arg := args[byteParam(f)]
		sh := c.shape(f.Signature)
		outs := e.Run(f, args, &State{})
		engErr(res, e)
		hits := 0
		for _, o := range outs {
			st := e.accepted(o, sh.ok)
			if st == nil {
				continue
			}
			hits++
			k := e.norm(st, o.res[sh.key])
			ok := e.satisfies(st, "path", k, arg)
			if l := entryOf(k, rKey); l != nil && !ok {
				ok = e.holdsFor(st, l, func(st *State, l *Term) bool {
					return e.satisfies(st, "path", e.read(st, st.mem, l, rKey, nil, nil), arg)
				})
			}
			res.ob(ok, Finding{Rule: "longest-prefix-is-prefix", At: e.retPos(o), Func: fname(f),
				Msg: fmt.Sprintf("returns the key %s without having established that it is a prefix of the query", k), Path: e.pathOf(st)})
		}
		res.count("paths through longest-prefix queries", len(outs))
		res.ob(hits > 0, Finding{Rule: "hit-exists", At: c.p.pos(f.Pos()), Func: fname(f), Msg: "no path returns a key"})
	}
	res.count("longest-prefix queries", n)
	res.floor("longest-prefix queries", 2)
	res.floor("pairs of seek and yield operations", 5)
}

// ---- C15 ----

func checkC15(c *Ctx, res *Result) {
	res.explanation = "Path-sensitive dataflow over value terms: wherever a key and a value leave the library together, as results or as arguments of the caller's function, both terms must be fields of the same entry, and the key the complete key of that entry."
	n := 0
	pair := func(e *Eng, st *State, k, v *Term, at, fn, what string) {
		k = e.norm(st, k)
		lk, lv := entryOf(k, rKey), entryOf(v, rValue)
		bad := ""
		switch {
		case lk == nil:
			bad = fmt.Sprintf("%s the key %s, which is not the complete key of an entry", what, k)
		case lv == nil:
			bad = fmt.Sprintf("%s the value %s, which is not the value of an entry", what, v)
		case lk != lv && e.alias(st, lk, lv) != aYes:
			bad = fmt.Sprintf("%s the key of %s with the value of %s", what, lk, lv)
		}
		res.ob(bad == "", Finding{Rule: "same-entry", At: at, Func: fn, Msg: bad, Path: e.pathOf(st)})
		if bad == "" {
			res.sample(fmt.Sprintf("%s: %s with %s", fn, k, v))
		}
	}
	for _, f := range c.yielders() {
		n++
		e := newEng(c)
		sh := c.shape(f.Signature)
		outs := e.Run(f, e.params(f), &State{})
		engErr(res, e)
		for _, o := range outs {
			st := e.accepted(o, sh.ok)
			if st == nil {
				continue
			}
			pair(e, st, o.res[sh.key], o.res[sh.val], e.retPos(o), fname(f), "returns")
			res.count("paths that return a key and a value", 1)
		}
	}
	// functions that call back with a key and a value
	calls := 0
	for _, f := range c.p.funcs {
		if !c.callsBack(f) {
			continue
		}
		e := newEng(c)
		seen := map[*event]bool{}
		outs := e.Run(f, e.params(f), &State{})
		engErr(res, e)
		check := func(st *State) {
			for v := st.ev; v != nil; v = v.prev {
				if seen[v] || v.kind != "callback" || len(v.args) != 2 {
					continue
				}
				seen[v] = true
				if v.tys == nil || !isByteSlice(v.tys[0]) || !types.Identical(v.tys[1], c.p.valT) {
					continue
				}
				calls++
				s2 := st.clone()
				s2.mem = v.mem
				pair(e, s2, v.args[0], v.args[1], c.p.pos(v.pos), fname(f), "calls back with")
			}
		}
		for _, o := range outs {
			check(o.st)
		}
		for _, l := range e.loops {
			for _, b := range l.backs {
				check(b.st)
			}
		}
	}
	res.count("yielding operations", n)
	res.count("call-backs with a key and a value", calls)
	res.floor("yielding operations", 6)
	res.floor("call-backs with a key and a value", 1)
}

// callsBack: the function itself calls a function value with a key and a value.
func (c *Ctx) callsBack(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if cc.IsInvoke() || cc.StaticCallee() != nil {
				continue
			}
			if _, isB := cc.Value.(*ssa.Builtin); isB {
				continue
			}
			if len(cc.Args) == 2 && isByteSlice(cc.Args[0].Type()) && types.Identical(cc.Args[1].Type(), c.p.valT) {
				return true
			}
		}
	}
	return false
}
