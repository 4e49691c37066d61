package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine B: abstract interpretation of function bodies over value terms, with
// states partitioned by the branches taken. Loops are entered once, with the
// variables and locations they change replaced by unknowns. In-package helpers
// are followed. Nothing is executed and no path condition is ever solved: a
// branch is dropped only if the facts collected so far contain its negation or
// imply it by adding up to three of them.

type memEntry struct {
	obj    *Term // nil: any object
	under  *Term // any object of this subtree
	role   string
	idx    *Term // element
	anyIdx bool
	val    *Term // nil: unknown
	seq    int
	pos    token.Pos
	next   *memEntry

	loop *loopInfo // written by rounds of this loop
	cp   *copyInfo // written by copy
}

// copyInfo describes what a copy wrote: elements from lo on, taken from src.
type copyInfo struct {
	lo         *Term
	src        *Term
	dlen, slen *Term
}

// searchInfo is a binary search: the result is the first index below n for which
// the predicate holds.
type searchInfo struct {
	in, val *Term // looking for a byte
	n, pred *Term
	mem     *memEntry
}

type loopLink struct {
	info *loopInfo
	prev *loopLink
}

type fact struct {
	t *Term
	v bool
}

type kindFact struct {
	t    *Term
	mask uint
	soft bool // the value may still be nil
}

// An event is something the rules look for in the past of a state.
type event struct {
	kind string // write, clone, close, callback, call, copy, mapupdate
	name string
	args []*Term
	res  []*Term
	tys  []types.Type // of the arguments of a call-back
	idx  *Term
	mem  *memEntry
	nf   int // facts known at that time
	pos  token.Pos
	fn   *ssa.Function
	seq  int
	prev *event

	class *recClass // of a recursive call
	spec  *recSpec
}

type trail struct {
	pos   token.Pos
	truth bool
	prev  *trail
	cond  *Term
}

// State is the abstract state of one partition.
type State struct {
	mem   *memEntry
	facts []fact
	les   []*linear // linear forms known to be <= 0
	kinds []kindFact
	ev    *event
	tr    *trail
	loops *loopLink // passed on the way
}

func (s *State) clone() *State {
	c := *s
	c.facts = s.facts[:len(s.facts):len(s.facts)]
	c.les = s.les[:len(s.les):len(s.les)]
	c.kinds = s.kinds[:len(s.kinds):len(s.kinds)]
	return &c
}

func (s *State) events() []*event {
	var out []*event
	for e := s.ev; e != nil; e = e.prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type allocInfo struct {
	typ     types.Type // pointed-to or slice type
	length  *Term      // of slices
	cloneOf *Term
	keepCh  *Term // the flag asking to keep the watch channel
	snap    *memEntry
	site    token.Pos
	seq     int
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	binds  []*Term
	loops  []*loopRun
	defers []*ssa.Defer
	depth  int
	up     *frame
}

func (f *frame) copy() *frame {
	c := *f
	c.env = make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		c.env[k] = v
	}
	c.loops = f.loops[:len(f.loops):len(f.loops)]
	c.defers = f.defers[:len(f.defers):len(f.defers)]
	return &c
}

// phiInfo describes the unknown that stands for a variable changed by a loop.
type phiInfo struct {
	phi   *ssa.Phi
	run   *loopInfo
	entry *Term
	backs []phiBack
}

type phiBack struct {
	val *Term
	st  *State
}

// loopInfo collects what one analysed loop did.
type loopInfo struct {
	l     *loop
	fn    *ssa.Function
	phis  []*phiInfo
	syms  []*Term
	entry *State
	head  *State // at the head, in the last round
	backs []backState
	exits []exitState
	mark  int // younger terms were made in the loop
}

type backState struct {
	st  *State
	fr  *frame
	pos token.Pos
}

type exitState struct {
	st *State
	fr *frame
	b  *ssa.BasicBlock
	s  *ssa.BasicBlock // nil: return
	rs []*Term
}

type loopRun struct {
	l     *loop
	backs []backState
	exits []exitState
}

type outcome struct {
	st  *State
	res []*Term
	pos token.Pos // of the return
	fr  *frame
}

type hookFn func(e *Eng, st *State, call ssa.CallInstruction, fn *ssa.Function, args []*Term) ([]outcome, bool)

type Eng struct {
	c       *Ctx
	t       *termTable
	allocs  map[*Term]*allocInfo
	phis    map[*Term]*phiInfo
	loops   []*loopInfo
	hook    hookFn
	steps   int
	seq     int
	nsym    int
	err     string
	kinds   []*types.Named
	leafB   uint
	allB    uint
	simple  map[*ssa.Function]*simpleFn
	nat     map[*ssa.Function]map[*ssa.BasicBlock]*loop
	pureM   map[*ssa.Function]int
	bodyK   map[*ssa.Function]string
	inline  []*ssa.Function
	states  int
	maxSt   int
	fnSeen  map[*ssa.Function]bool
	opaque  func(fn *ssa.Function) bool
	quiet   int
	openAll bool
	// look into the search for a child instead of taking it as given
	openFind bool

	searches map[*Term]*searchInfo

	partialLens []int64 // lengths of the slices made for compressed prefixes
	// roles of memory that a rule does not care about
	ignore map[string]bool
	onFind func(*findSite)
	onCond func(st *State, fr *frame, in *ssa.If, c *Term)
	fixed  map[*Term]bool // not looked into
	onIdx  func(st *State, fr *frame, in ssa.Instruction, base, idx *Term, high bool)
	// a number gets a type that may be too small for it
	onNarrow func(st *State, fr *frame, in ssa.Value, v *Term)
	onRec    func(st *State, fr *frame, in ssa.CallInstruction, f *ssa.Function, args []*Term)
}

func newEng(c *Ctx) *Eng {
	e := &Eng{c: c, t: newTermTable(), allocs: map[*Term]*allocInfo{}, phis: map[*Term]*phiInfo{}, simple: map[*ssa.Function]*simpleFn{},
		nat: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, pureM: map[*ssa.Function]int{}, bodyK: map[*ssa.Function]string{}, maxSt: 250000, fnSeen: map[*ssa.Function]bool{}, searches: map[*Term]*searchInfo{}}
	e.kinds = c.r.nodes
	for i, n := range e.kinds {
		e.allB |= 1 << i
		if n == c.r.leaf {
			e.leafB = 1 << i
		}
	}
	return e
}

func (e *Eng) sym(label string) *Term {
	e.nsym++
	return e.t.mk("sym", fmt.Sprintf("%s#%d", label, e.nsym))
}

func (e *Eng) newAlloc(ty types.Type, label string, pos token.Pos) *Term {
	e.nsym++
	a := e.t.mk("alloc", fmt.Sprintf("new%s#%d", label, e.nsym))
	e.seq++
	e.allocs[a] = &allocInfo{typ: ty, site: pos, seq: e.seq}
	return a
}

func (e *Eng) fail(format string, args ...any) {
	if e.err == "" {
		e.err = fmt.Sprintf(format, args...)
	}
}

// ---- kinds of nodes ----

func (e *Eng) kindBit(t types.Type) uint {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	for i, n := range e.kinds {
		if types.Identical(t, n) {
			return 1 << i
		}
	}
	return 0
}

func (e *Eng) mask(st *State, t *Term) uint {
	m := e.allB
	if a := e.allocs[t]; a != nil {
		if a.cloneOf != nil {
			return e.mask(st, a.cloneOf)
		}
		if b := e.kindBit(a.typ); b != 0 {
			return b
		}
	}
	if t.op == "attr" && (t.aux == rLeaf || strings.HasPrefix(t.aux, rLeaf+"@")) {
		m = e.leafB
	}
	if t.typ != nil {
		if b := e.kindBit(t.typ); b != 0 {
			m &= b
		}
	}
	for i := len(st.kinds) - 1; i >= 0; i-- {
		if st.kinds[i].t == t {
			return m & st.kinds[i].mask
		}
	}
	return m
}

func (e *Eng) restrict(st *State, t *Term, mask uint) bool {
	m := e.mask(st, t) & mask
	if m == 0 {
		return false
	}
	st.kinds = append(st.kinds, kindFact{t: t, mask: m})
	if a := e.allocs[t]; a != nil && a.cloneOf != nil {
		// a copy has the kind of the original
		return e.restrict(st, a.cloneOf, mask)
	}
	return true
}

// ---- memory ----

const (
	aNo = iota
	aYes
	aMaybe
)

func (e *Eng) alias(st *State, a, b *Term) int {
	if a == nil || b == nil {
		return aMaybe
	}
	if a == b {
		return aYes
	}
	ia, ib := e.allocs[a], e.allocs[b]
	if ia != nil && ib != nil {
		return aNo
	}
	if ia != nil || ib != nil {
		o := a
		if ia != nil {
			o = b
		}
		if versioned(o) {
			return aMaybe
		}
		return aNo
	}
	if a.op == "param" && b.op == "param" && a.typ != nil && b.typ != nil && !types.Identical(a.typ, b.typ) {
		return aNo
	}
	if e.mask(st, a)&e.mask(st, b) == 0 {
		return aNo
	}
	// the bytes of prefixes are kept apart from keys
	if keyBytes(a) && prefixBytes(b) || keyBytes(b) && prefixBytes(a) {
		return aNo
	}
	// trees have no cycles: a node is not its own descendant
	if descendant(a, b) || descendant(b, a) {
		return aNo
	}
	if v, ok := e.decide(st, e.eq(a, b)); ok {
		if v {
			return aYes
		}
		return aNo
	}
	return aMaybe
}

func keyBytes(t *Term) bool {
	for t.op == "slice" {
		t = t.args[0]
	}
	return t.op == "param" || t.op == "attr" && baseRole(t) == rKey
}

func prefixBytes(t *Term) bool {
	for t.op == "slice" {
		t = t.args[0]
	}
	return t.op == "attr" && baseRole(t) == rPartial
}

// descendant: a is reached from b through children and leaves.
func descendant(a, b *Term) bool {
	for i := 0; i < 10; i++ {
		switch {
		case a.op == "attr" && (baseRole(a) == rLeaf || baseRole(a) == rChildren), a.op == "child":
			a = a.args[0]
		default:
			return false
		}
		if a == b {
			return true
		}
	}
	return false
}

func baseRole(t *Term) string {
	if i := strings.IndexByte(t.aux, '@'); i >= 0 {
		return t.aux[:i]
	}
	return t.aux
}

func versioned(t *Term) bool {
	if (t.op == "attr" || t.op == "elem") && strings.IndexByte(t.aux, '@') >= 0 {
		return true
	}
	return t.op == "sym" && strings.HasPrefix(t.aux, "havoc")
}

func (e *Eng) write(st *State, obj *Term, role string, idx, val *Term, pos token.Pos, fr *frame) {
	e.seq++
	if role == rPartial && val != nil {
		if k, ok := e.length(st, val).isInt(); ok {
			e.partialLens = append(e.partialLens, k)
		}
	}
	st.mem = &memEntry{obj: obj, role: role, idx: idx, val: val, seq: e.seq, pos: pos, next: st.mem}
	ev := &event{kind: "write", name: role, args: []*Term{obj, val}, idx: idx, pos: pos}
	e.note(st, fr, ev)
}

func (e *Eng) note(st *State, fr *frame, ev *event) {
	e.seq++
	ev.seq = e.seq
	ev.mem = st.mem
	ev.nf = len(st.facts)
	if fr != nil {
		ev.fn = fr.fn
	}
	ev.prev = st.ev
	st.ev = ev
}

func (e *Eng) read(st *State, from *memEntry, obj *Term, role string, idx *Term, ty types.Type) *Term {
	for m := from; m != nil; m = m.next {
		if m.role != role {
			continue
		}
		al := aMaybe
		if m.under != nil {
			if !e.mayBeUnder(obj, m.under) {
				continue
			}
		} else {
			al = e.alias(st, m.obj, obj)
		}
		if al == aNo {
			continue
		}
		if m.obj == nil || m.under != nil {
			// objects allocated after the entry are not affected
			if a := e.allocs[obj]; a != nil && a.seq > m.seq {
				continue
			}
		}
		if idx != nil && !m.anyIdx {
			if m.idx != nil && m.idx != idx {
				if d, ok := diffConst(m.idx, idx); ok && d != 0 {
					continue
				}
				if v, ok := e.decide(st, e.eqInt(m.idx, idx)); ok && !v {
					continue
				} else if !ok {
					al = aMaybe
				}
			}
		}
		if m.anyIdx {
			al = aMaybe
		}
		if al == aYes && m.val != nil {
			return m.val
		}
		aux := fmt.Sprintf("%s@%d", role, m.seq)
		if idx != nil {
			return e.typed(e.t.mk("attr", aux, obj, idx), ty)
		}
		return e.typed(e.t.mk("attr", aux, obj), ty)
	}
	if a := e.allocs[obj]; a != nil {
		if a.cloneOf != nil && role != rID {
			if role == rChan {
				if a.keepCh != nil {
					if v, ok := a.keepCh.isBool(); ok && v {
						return e.read(st, a.snap, a.cloneOf, role, idx, ty)
					} else if ok {
						return e.t.mk("attr", role, obj)
					}
				}
				return e.t.mk("attr", role+"?", obj)
			}
			return e.read(st, a.snap, a.cloneOf, role, idx, ty)
		}
		if role == rChan {
			return e.t.mk("attr", role, obj)
		}
		if role == "[]" || role == "contents" {
			if idx != nil {
				return e.typed(e.t.mk("elem", "", obj, idx), ty)
			}
			return obj
		}
		return e.zero(ty)
	}
	if idx != nil {
		if role == "[]" {
			return e.typed(e.t.mk("elem", "", obj, idx), ty)
		}
		return e.typed(e.t.mk("attr", role, obj, idx), ty)
	}
	return e.typed(e.t.mk("attr", role, obj), ty)
}

func (e *Eng) typed(t *Term, ty types.Type) *Term {
	if ty != nil && t.typ == nil {
		t.typ = ty
	}
	return t
}

func (e *Eng) zero(ty types.Type) *Term {
	if ty == nil {
		return e.t.mk("zero", "")
	}
	if types.Identical(ty, e.c.p.valT) {
		return e.t.mk("zero", "")
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return e.t.intT(0)
		case u.Info()&types.IsBoolean != 0:
			return e.t.boolT(false)
		case u.Info()&types.IsString != 0:
			return e.t.mk("const", "empty")
		}
	case *types.Struct, *types.Array:
		return e.t.mk("zero", "")
	}
	return e.t.tnil
}

// role of a field; node fields by role, others qualified by their type.
func (e *Eng) fieldRole(structT types.Type, idx int) string {
	o, f, role := e.c.r.fieldOf(structT, idx)
	if role == "" {
		return o + "." + f
	}
	if o == e.c.r.tree.Obj().Name() || o == e.c.r.txn.Obj().Name() {
		return o + "." + role
	}
	return role
}

// loc resolves an address term.
func (e *Eng) loc(st *State, addr *Term) (obj *Term, role string, idx *Term) {
	switch addr.op {
	case "faddr":
		return addr.args[0], addr.aux, nil
	case "iaddr":
		base, i := addr.args[0], addr.args[1]
		for base.op == "slice" {
			i = e.t.add(i, base.args[1])
			base = base.args[0]
		}
		switch base.op {
		case "faddr", "view":
			return base.args[0], base.aux, i
		}
		return base, "[]", i
	}
	return addr, "*", nil
}

// norm strips copies and full slices off a byte slice or string: what remains
// has the same bytes.
func (e *Eng) norm(st *State, t *Term) *Term {
	for i := 0; i < 20; i++ {
		if a := e.allocs[t]; a != nil && a.cloneOf == nil {
			v := e.read(st, st.mem, t, "contents", nil, nil)
			if v != t && v != nil && !versioned(v) {
				t = v
				continue
			}
		}
		if t.op == "slice" {
			if b := e.norm(st, t.args[0]); b != t.args[0] && b.op != "slice" {
				t = e.t.mk("slice", t.aux, b, t.args[1], t.args[2])
				continue
			}
			if k, ok := t.args[1].isInt(); ok && k == 0 {
				if d, ok := diffConst(t.args[2], e.length(st, t.args[0])); ok && d == 0 {
					t = t.args[0]
					continue
				}
			}
		}
		return t
	}
	return t
}

func (e *Eng) length(st *State, t *Term) *Term {
	switch t.op {
	case "nil":
		return e.t.intT(0)
	case "const":
		if t.aux == "empty" {
			return e.t.intT(0)
		}
		return e.t.mk("len", "", t)
	case "slice":
		return e.t.sub(t.args[2], t.args[1])
	case "alloc":
		a := e.allocs[t]
		if a.length != nil {
			return a.length
		}
		if arr, ok := a.typ.Underlying().(*types.Array); ok {
			return e.t.intT(arr.Len())
		}
	case "append":
		return e.t.add(e.length(st, t.args[0]), e.t.intT(int64(len(t.args)-1)))
	case "view":
		// the arrays of a single kind have a known length
		if m := e.mask(st, t.args[0]); m != 0 && m&(m-1) == 0 {
			for i, n := range e.kinds {
				if m == 1<<i {
					if l, ok := e.arrayLen(n, t.aux); ok {
						return e.t.intT(l)
					}
				}
			}
		}
	}
	return e.t.mk("len", "", t)
}

func (e *Eng) arrayLen(n *types.Named, role string) (int64, bool) {
	s := structOf(n)
	for i := 0; i < s.NumFields(); i++ {
		if e.c.r.role[fieldKey{n.Obj().Name(), s.Field(i).Name()}] == role {
			if a, ok := s.Field(i).Type().Underlying().(*types.Array); ok {
				return a.Len(), true
			}
		}
	}
	return 0, false
}

// ---- conditions ----

func (e *Eng) eq(a, b *Term) *Term {
	if a == b {
		return e.t.boolT(true)
	}
	if a.isNil() || (!b.isNil() && a.id > b.id) {
		a, b = b, a
	}
	return e.t.mk("eq", "", a, b)
}

func (e *Eng) eqInt(a, b *Term) *Term {
	l := linAdd(a.linOf(), b.linOf(), -1)
	if len(l.atoms) == 0 {
		return e.t.boolT(l.k == 0)
	}
	if l.coef[0] < 0 {
		l = linAdd(&linear{}, l, -1)
	}
	return e.t.mk("eq0", "", e.t.fromLin(l))
}

func (e *Eng) le(a, b *Term) *Term {
	l := linAdd(a.linOf(), b.linOf(), -1)
	if len(l.atoms) == 0 {
		return e.t.boolT(l.k <= 0)
	}
	return e.t.mk("le0", "", e.t.fromLin(l))
}

func (e *Eng) not(c *Term) *Term {
	if v, ok := c.isBool(); ok {
		return e.t.boolT(!v)
	}
	if c.op == "not" {
		return c.args[0]
	}
	return e.t.mk("not", "", c)
}

func (e *Eng) eqBytes(st *State, a, b *Term) *Term {
	a, b = e.norm(st, a), e.norm(st, b)
	if a == b {
		return e.t.boolT(true)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return e.t.mk("eqb", "", a, b)
}

// nonNeg: atoms that cannot be negative.
func (e *Eng) nonNeg(a *Term) bool {
	switch a.op {
	case "len":
		return true
	}
	if a.typ != nil {
		if b, ok := a.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

// entails: l <= 0 follows from the linear facts.
func (e *Eng) entails(st *State, l *linear, depth int) bool {
	if len(l.atoms) == 0 {
		return l.k <= 0
	}
	// atoms with known bounds
	all := true
	k := l.k
	for i, a := range l.atoms {
		c := l.coef[i]
		if c < 0 && e.nonNeg(a) {
			continue
		}
		if c > 0 && a.typ != nil && basicKind(a.typ) == types.Uint8 {
			k += 255 * c
			continue
		}
		all = false
	}
	if all && k <= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, f := range st.les {
		share := false
		for i, a := range l.atoms {
			for j, b := range f.atoms {
				if a == b && (l.coef[i] > 0) == (f.coef[j] > 0) {
					share = true
				}
			}
		}
		if !share {
			continue
		}
		if e.entails(st, linAdd(l, f, -1), depth-1) {
			return true
		}
	}
	// min and max
	for i, a := range l.atoms {
		if a.op == "max" && l.coef[i] > 0 || a.op == "min" && l.coef[i] < 0 {
			all := true
			for _, x := range a.args {
				d := linAdd(a.linOf(), x.linOf(), -1)
				if !e.entails(st, linAdd(l, d, -l.coef[i]), depth) {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
		if a.op == "min" && l.coef[i] > 0 || a.op == "max" && l.coef[i] < 0 {
			for _, x := range a.args {
				d := linAdd(a.linOf(), x.linOf(), -1) // min - x <= 0
				if l.coef[i] < 0 {
					d = linAdd(x.linOf(), a.linOf(), -1) // x - max <= 0
				}
				if e.entails(st, linAdd(l, d, -1), depth-1) {
					return true
				}
			}
		}
	}
	return false
}

func neg1(l *linear) *linear { return linAdd(&linear{k: 1}, l, -1) }

func (e *Eng) decide(st *State, c *Term) (val, known bool) {
	if v, ok := c.isBool(); ok {
		return v, true
	}
	if c.op == "not" {
		v, ok := e.decide(st, c.args[0])
		return !v, ok
	}
	for i := len(st.facts) - 1; i >= 0; i-- {
		if st.facts[i].t == c {
			return st.facts[i].v, true
		}
	}
	switch c.op {
	case "le0":
		l := c.args[0].linOf()
		if e.entails(st, l, 3) {
			return true, true
		}
		if e.entails(st, neg1(l), 3) {
			return false, true
		}
	case "eq0":
		l := c.args[0].linOf()
		m := linAdd(&linear{}, l, -1)
		if e.entails(st, neg1(l), 2) || e.entails(st, neg1(m), 2) {
			return false, true
		}
		if e.entails(st, l, 2) && e.entails(st, m, 2) {
			return true, true
		}
	case "kin":
		m := e.mask(st, c.args[0])
		var w uint
		fmt.Sscanf(c.aux, "%d", &w)
		if m&w == 0 {
			return false, true
		}
		if m&^w == 0 {
			return true, true
		}
	case "eq":
		a, b := c.args[0], c.args[1]
		if b.isNil() {
			if e.nonNil(st, a) {
				return false, true
			}
			return false, false
		}
		if (e.allocs[a] != nil || e.allocs[b] != nil) && !versioned(a) && !versioned(b) {
			return false, true
		}
		if e.mask(st, a)&e.mask(st, b) == 0 {
			return false, true
		}
	case "eqb":
		if e.agrees(st, c.args[0], c.args[1], e.length(st, c.args[0])) {
			if v, ok := e.decide(st, e.eqInt(e.length(st, c.args[0]), e.length(st, c.args[1]))); ok && v {
				return true, true
			}
		}
		if v, ok := e.decide(st, e.eqInt(e.t.mk("cmpb", "", c.args[0], c.args[1]), e.t.intT(0))); ok {
			return v, ok
		}
		if v, ok := e.decide(st, e.eqInt(e.t.mk("cmpb", "", c.args[1], c.args[0]), e.t.intT(0))); ok {
			return v, ok
		}
		if v, ok := e.decide(st, e.eqInt(e.length(st, c.args[0]), e.length(st, c.args[1]))); ok && !v {
			return false, true
		}
		if e.differs(st, c.args[0], c.args[1]) {
			return false, true
		}
	case "hasp":
		// the empty prefix fits
		if e.entails(st, e.length(st, c.args[1]).linOf(), 2) {
			return true, true
		}
		if v, ok := e.decide(st, e.eqBytes(st, c.args[0], c.args[1])); ok && v {
			return true, true
		}
		if e.agrees(st, c.args[0], c.args[1], e.length(st, c.args[1])) && e.entails(st, linAdd(e.length(st, c.args[1]).linOf(), e.length(st, c.args[0]).linOf(), -1), 2) {
			return true, true
		}
		if e.headEqual(st, c.args[0], c.args[1]) {
			return true, true
		}
		if e.entails(st, neg1(linAdd(e.length(st, c.args[1]).linOf(), e.length(st, c.args[0]).linOf(), -1)), 2) {
			return false, true
		}
	}
	return false, false
}

func (e *Eng) nonNil(st *State, a *Term) bool {
	switch a.op {
	case "alloc", "view", "faddr", "iaddr", "closure", "append", "zero":
		return a.op != "zero"
	case "sym":
		return strings.HasPrefix(a.aux, "nonnil")
	case "param":
		return a.typ != nil && (e.c.r.isTxnPtr(a.typ) || e.c.r.isTreePtr(a.typ) || e.c.r.isIterPtr(a.typ))
	}
	for _, k := range st.kinds {
		if k.t == a && !k.soft {
			return true
		}
	}
	// a node whose entry or child exists
	for _, f := range st.facts {
		if f.t.op == "eq" && !f.v && f.t.args[1].isNil() && f.t.args[0].op == "attr" && len(f.t.args[0].args) > 0 && f.t.args[0].args[0] == a {
			return true
		}
	}
	return false
}

// assume adds a condition to the state; false if it contradicts it.
func (e *Eng) assume(st *State, c *Term, v bool) bool {
	if c.op == "not" {
		return e.assume(st, c.args[0], !v)
	}
	if kv, ok := e.decide(st, c); ok {
		return kv == v
	}
	st.facts = append(st.facts, fact{c, v})
	switch c.op {
	case "le0":
		l := c.args[0].linOf()
		if !v {
			l = neg1(l)
		}
		st.les = append(st.les, l)
	case "eq0":
		l := c.args[0].linOf()
		m := linAdd(&linear{}, l, -1)
		if v {
			st.les = append(st.les, l, m)
		} else {
			if e.entails(st, l, 2) {
				st.les = append(st.les, linAdd(l, &linear{k: 1}, 1))
			} else if e.entails(st, m, 2) {
				st.les = append(st.les, linAdd(m, &linear{k: 1}, 1))
			}
		}
	case "eq":
		if n := c.args[0]; !v && n.op == "child" && c.args[1].isNil() {
			// it is no entry, and has at least this child
			if !e.restrict(st, n.args[0], e.allB&^e.leafB) {
				return false
			}
			num := e.typed(e.t.mk("attr", rNum, n.args[0]), types.Typ[types.Uint16])
			if n.aux == "" {
				if e.entails(st, num.linOf(), 2) {
					return false
				}
				st.les = append(st.les, linAdd(&linear{k: 1}, num.linOf(), -1))
			}
		}
	case "kin":
		var w uint
		fmt.Sscanf(c.aux, "%d", &w)
		if !v {
			w = e.allB &^ w
		}
		return e.restrict(st, c.args[0], w)
	case "hasp":
		if v {
			// the prefix is not longer than the key
			st.les = append(st.les, linAdd(e.length(st, c.args[1]).linOf(), e.length(st, c.args[0]).linOf(), -1))
		}
	case "eqb":
		if v {
			d := linAdd(e.length(st, c.args[0]).linOf(), e.length(st, c.args[1]).linOf(), -1)
			st.les = append(st.les, d, linAdd(&linear{}, d, -1))
		} else if h1, ok := e.decide(st, e.t.mk("hasp", "", c.args[0], c.args[1])); ok && h1 {
			// a proper prefix is shorter
			st.les = append(st.les, linAdd(linAdd(e.length(st, c.args[1]).linOf(), e.length(st, c.args[0]).linOf(), -1), &linear{k: 1}, 1))
		} else if h2, ok := e.decide(st, e.t.mk("hasp", "", c.args[1], c.args[0])); ok && h2 {
			st.les = append(st.les, linAdd(linAdd(e.length(st, c.args[0]).linOf(), e.length(st, c.args[1]).linOf(), -1), &linear{k: 1}, 1))
		}
	}
	return true
}

// ---- execution ----

func (e *Eng) val(fr *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.t.konst(x)
	case *ssa.Function:
		return e.t.mk("func", x.String())
	case *ssa.Global:
		return e.t.mk("global", x.Name())
	case *ssa.FreeVar:
		for i, fv := range fr.fn.FreeVars {
			if fv == x && i < len(fr.binds) {
				return fr.binds[i]
			}
		}
	}
	if t := fr.env[v]; t != nil {
		return t
	}
	s := e.sym("undef." + v.Name())
	fr.env[v] = s
	return s
}

func (e *Eng) natural(f *ssa.Function) map[*ssa.BasicBlock]*loop {
	m := e.nat[f]
	if m == nil {
		m = map[*ssa.BasicBlock]*loop{}
		for _, l := range naturalLoops(f) {
			m[l.head] = l
		}
		e.nat[f] = m
	}
	return m
}

// Run analyses a function with the given arguments.
func (e *Eng) Run(f *ssa.Function, args []*Term, st *State) []outcome {
	var out []outcome
	e.enter(f, args, nil, st, nil, func(o outcome) { out = append(out, o) })
	return out
}

func (e *Eng) enter(f *ssa.Function, args, binds []*Term, st *State, up *frame, k func(outcome)) {
	fr := &frame{fn: f, env: map[ssa.Value]*Term{}, binds: binds, up: up}
	if up != nil {
		fr.depth = up.depth + 1
	}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	e.fnSeen[f] = true
	e.inline = append(e.inline, f)
	save := e.inline
	e.edge(fr, nil, f.Blocks[0], st, func(o outcome) {
		cur := e.inline
		e.inline = save[:len(save)-1]
		k(o)
		e.inline = cur
	})
	e.inline = save[:len(save)-1]
}

// edge moves from block b to s.
func (e *Eng) edge(fr *frame, b, s *ssa.BasicBlock, st *State, k func(outcome)) {
	if e.err != "" {
		return
	}
	if n := len(fr.loops); n > 0 {
		run := fr.loops[n-1]
		if s == run.l.head {
			// back edge: record the next values of the loop variables
			fr2 := fr.copy()
			run.backs = append(run.backs, backState{st: st, fr: e.bindPhis(fr2, b, s), pos: lastPos(b)})
			return
		}
		if !run.l.blocks[s] {
			fr2 := fr.copy()
			run.exits = append(run.exits, exitState{st: st, fr: fr2, b: b, s: s})
			return
		}
	}
	if l := e.natural(fr.fn)[s]; l != nil {
		e.loop(fr, l, b, st, k)
		return
	}
	if b != nil {
		fr = e.bindPhis(fr, b, s)
	}
	e.block(fr, s, 0, st, k)
}

func lastPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

func (e *Eng) bindPhis(fr *frame, b, s *ssa.BasicBlock) *frame {
	idx := -1
	for i, p := range s.Preds {
		if p == b {
			idx = i
		}
	}
	type upd struct {
		p *ssa.Phi
		t *Term
	}
	var us []upd
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		us = append(us, upd{ph, e.val(fr, ph.Edges[idx])})
	}
	for _, u := range us {
		fr.env[u.p] = u.t
	}
	return fr
}

func (e *Eng) loop(fr *frame, l *loop, from *ssa.BasicBlock, st *State, k func(outcome)) {
	info := &loopInfo{l: l, fn: fr.fn, entry: st, mark: e.t.next}
	e.nsym++
	inst := e.nsym
	idx := -1
	for i, p := range l.head.Preds {
		if p == from {
			idx = i
		}
	}
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	for _, ph := range phis {
		s := e.t.mk("sym", fmt.Sprintf("phi.%s.%d", ph.Comment, inst)+"."+ph.Name())
		e.typed(s, ph.Type())
		var en *Term
		if idx >= 0 {
			en = e.val(fr, ph.Edges[idx])
		}
		pi := &phiInfo{phi: ph, run: info, entry: en}
		e.phis[s] = pi
		info.phis = append(info.phis, pi)
		info.syms = append(info.syms, s)
	}
	type wkey struct {
		obj  *Term
		role string
		idx  bool
	}
	written := map[wkey]bool{}
	monotone := map[int]int{} // phi -> 1 up, -1 down, 0 undecided, 2 neither
	bounds := map[int][]*linear{}
	bounded := map[int]bool{}
	var run *loopRun
	base := st
	// the rules only see the last round, when everything is stable
	final := false
	// no round reaches the end of the body: the head is only passed once
	once := false
	e.quiet++
	for round := 0; ; round++ {
		if final {
			e.quiet--
		}
		if round > 8 {
			e.fail("loop at %s does not stabilise", e.c.p.pos(lastPos(l.head)))
			e.quiet--
			return
		}
		st1 := base.clone()
		mark := e.seq
		for w := range written {
			if once {
				break
			}
			e.seq++
			v := e.t.mk("sym", fmt.Sprintf("havoc%d.%s", inst, w.role))
			if w.obj != nil {
				v = e.t.mk("sym", fmt.Sprintf("havoc%d.%s.%d", inst, w.role, w.obj.id))
			}
			m := &memEntry{obj: w.obj, role: w.role, seq: e.seq, next: st1.mem, val: v, loop: info}
			if w.idx {
				m.anyIdx = true
				m.val = nil
			}
			st1.mem = m
		}
		fr1 := fr.copy()
		for i, ph := range phis {
			fr1.env[ph] = info.syms[i]
			en := info.phis[i].entry
			if once {
				fr1.env[ph] = en
				continue
			}
			if en == nil || basicInfo(ph.Type())&types.IsInteger == 0 {
				continue
			}
			switch monotone[i] {
			case 1:
				st1.les = append(st1.les, linAdd(en.linOf(), info.syms[i].linOf(), -1))
			case -1:
				st1.les = append(st1.les, linAdd(info.syms[i].linOf(), en.linOf(), -1))
			}
			for _, b := range bounds[i] {
				st1.les = append(st1.les, b)
			}
		}
		run = &loopRun{l: l}
		info.head = st1.clone()
		fr1.loops = append(fr1.loops, run)
		e.block(fr1, l.head, len(phis), st1, func(o outcome) {
			run.exits = append(run.exits, exitState{st: o.st, fr: o.fr, rs: o.res, b: nil, s: nil})
		})
		if e.err != "" {
			if !final {
				e.quiet--
			}
			return
		}
		if final {
			break
		}
		if len(run.backs) == 0 && idx >= 0 {
			once, final = true, true
			continue
		}
		changed := false
		for i := range phis {
			dir := 0
			for _, bs := range run.backs {
				nv := bs.fr.env[phis[i]]
				if nv == info.syms[i] {
					continue
				}
				d, ok := diffConst(nv, info.syms[i])
				switch {
				case ok && d >= 0 && dir != -1 && dir != 2:
					dir = 1
				case ok && d <= 0 && dir != 1 && dir != 2:
					dir = -1
				default:
					// a sum with something that is not negative
					l := linAdd(info.syms[i].linOf(), nv.linOf(), -1)
					if dir != -1 && dir != 2 && basicInfo(phis[i].Type())&types.IsInteger != 0 && e.entails(bs.st, l, 1) {
						dir = 1
					} else {
						dir = 2
					}
				}
			}
			if monotone[i] == 0 && (dir == 1 || dir == -1) {
				monotone[i] = dir
				changed = true
			} else if monotone[i] != 0 && monotone[i] != dir && dir != 0 {
				if monotone[i] != 2 {
					monotone[i] = 2
					changed = true
				}
			}
		}
		for _, bs := range run.backs {
			for m := bs.st.mem; m != nil && m != st1.mem; m = m.next {
				w := wkey{m.obj, m.role, m.idx != nil || m.anyIdx}
				if m.obj != nil {
					if a := e.allocs[m.obj]; a != nil && a.seq > mark {
						continue // allocated in the loop
					}
					if e.madeIn(m.obj, info, mark, inst) {
						w.obj = nil
					}
				}
				if !written[w] {
					written[w] = true
					changed = true
				}
			}
		}
		if !changed {
			for i := range phis {
				if bounded[i] || info.phis[i].entry == nil || monotone[i] != 1 && monotone[i] != -1 {
					continue
				}
				bounded[i] = true
				if bs := e.loopBounds(info, i, monotone[i], run.backs, st1, mark, inst); len(bs) > 0 {
					bounds[i] = bs
					changed = true
				}
			}
		}
		final = !changed
	}
	for i := range phis {
		for _, bs := range run.backs {
			info.phis[i].backs = append(info.phis[i].backs, phiBack{bs.fr.env[phis[i]], bs.st})
		}
	}
	info.backs = run.backs
	info.exits = run.exits
	e.agreement(info)
	if e.quiet == 0 {
		e.loops = append(e.loops, info)
	}
	for _, x := range run.exits {
		fr2 := x.fr
		x.st.loops = &loopLink{info, x.st.loops}
		if x.s == nil {
			k(outcome{st: x.st, res: x.rs, fr: fr2, pos: token.NoPos})
			continue
		}
		fr2.loops = fr.loops
		e.edge(fr2, x.b, x.s, x.st, k)
	}
}

// loopBounds: a variable that changes by one per round, and only goes on while it
// is below a limit, does not pass that limit.
func (e *Eng) loopBounds(info *loopInfo, i, dir int, backs []backState, st1 *State, mark, inst int) []*linear {
	sym, ph := info.syms[i], info.phis[i]
	if len(backs) == 0 || basicInfo(ph.phi.Type())&types.IsInteger == 0 {
		return nil
	}
	var common map[*Term]bool
	for _, bs := range backs {
		nv := bs.fr.env[ph.phi]
		d, ok := diffConst(nv, sym)
		if !ok || d != int64(dir) && d != 0 {
			return nil
		}
		here := map[*Term]bool{}
		for n := len(st1.les); n < len(bs.st.les); n++ {
			l := bs.st.les[n]
			at := -1
			clean := true
			for j, a := range l.atoms {
				if a == sym {
					at = j
				} else if e.madeIn(a, info, mark, inst) {
					clean = false
				}
			}
			if at < 0 || !clean || l.coef[at] != int64(dir) {
				continue
			}
			// the limit of the next value
			rest := linAdd(l, sym.linOf(), -int64(dir))
			lim := linAdd(&linear{k: int64(dir)}, rest, -int64(dir))
			here[e.t.fromLin(lim)] = true
		}
		if d == 0 {
			continue
		}
		if common == nil {
			common = here
		} else {
			for t := range common {
				if !here[t] {
					delete(common, t)
				}
			}
		}
	}
	var out []*linear
	for lim := range common {
		op := "max"
		if dir < 0 {
			op = "min"
		}
		m := e.t.mk(op, "", ph.entry, lim)
		d := linAdd(ph.entry.linOf(), lim.linOf(), -1) // entry - limit
		if dir < 0 {
			d = linAdd(&linear{}, d, -1)
		}
		if e.entails(info.entry, d, 2) {
			m = lim
		}
		l := linAdd(sym.linOf(), m.linOf(), -1)
		if dir < 0 {
			l = linAdd(&linear{}, l, -1)
		}
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return e.t.fromLin(out[i]).id < e.t.fromLin(out[j]).id })
	return out
}

// madeIn: the object depends on the variables of the loop.
func (e *Eng) madeIn(t *Term, info *loopInfo, mark, inst int) bool {
	for _, s := range info.syms {
		if t.mentions(s) {
			return true
		}
	}
	return e.mentionsNew(t, mark, inst)
}

func (e *Eng) mentionsNew(t *Term, mark, inst int) bool {
	if a := e.allocs[t]; a != nil && a.seq > mark {
		return true
	}
	if i := strings.IndexByte(t.aux, '@'); i >= 0 && (t.op == "attr" || t.op == "elem") {
		var n int
		fmt.Sscanf(t.aux[i+1:], "%d", &n)
		if n > mark {
			return true
		}
	}
	if t.op == "sym" && (strings.HasPrefix(t.aux, fmt.Sprintf("havoc%d.", inst))) {
		return true
	}
	for _, a := range t.args {
		if e.mentionsNew(a, mark, inst) {
			return true
		}
	}
	return false
}

func (e *Eng) block(fr *frame, b *ssa.BasicBlock, i int, st *State, k func(outcome)) {
	for ; i < len(b.Instrs); i++ {
		if e.err != "" {
			return
		}
		e.steps++
		if e.steps > 4000000 {
			e.fail("too many steps in %s", fname(fr.fn))
			return
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			e.edge(fr, b, b.Succs[0], st, k)
			return
		case *ssa.If:
			c := e.val(fr, x.Cond)
			if e.onCond != nil && e.quiet == 0 {
				e.onCond(st, fr, x, c)
			}
			if v, ok := e.decide(st, c); ok {
				s := b.Succs[1]
				if v {
					s = b.Succs[0]
				}
				e.edge(fr, b, s, st, k)
				return
			}
			e.states++
			if e.states > e.maxSt {
				e.fail("too many states in %s", fname(fr.fn))
				return
			}
			pos := x.Cond.Pos()
			st2 := st.clone()
			st2.tr = &trail{pos, true, st.tr, c}
			if e.assume(st2, c, true) {
				e.edge(fr.copy(), b, b.Succs[0], st2, k)
			}
			st3 := st.clone()
			st3.tr = &trail{pos, false, st.tr, c}
			if e.assume(st3, c, false) {
				e.edge(fr.copy(), b, b.Succs[1], st3, k)
			}
			return
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, e.val(fr, r))
			}
			k(outcome{st: st, res: rs, pos: x.Pos(), fr: fr})
			return
		case *ssa.Panic:
			return
		case *ssa.RunDefers:
			if len(fr.defers) > 0 {
				e.runDefers(fr, b, i, st, k)
				return
			}
		case *ssa.Defer:
			fr.defers = append(fr.defers, x)
		case *ssa.Call:
			done := e.call(fr, x, st, func(st2 *State, res []*Term, last bool) {
				fr2 := fr
				if !last {
					fr2 = fr.copy()
				}
				e.bindCall(fr2, x, res)
				e.block(fr2, b, i+1, st2, k)
			})
			if !done {
				continue
			}
			return
		case *ssa.TypeAssert:
			v := e.val(fr, x.X)
			bit := e.kindBit(x.AssertedType)
			if bit == 0 || !e.c.r.isNodeVal(x.AssertedType) {
				// to the interface itself or something unrelated
				if x.CommaOk {
					fr.env[x] = e.t.mk("tuple", "", v, e.not(e.eq(v, e.t.tnil)))
				} else {
					fr.env[x] = v
				}
				continue
			}
			if !x.CommaOk {
				st = st.clone()
				if !e.restrict(st, v, bit) {
					return // would panic
				}
				fr.env[x] = v
				continue
			}
			m := e.mask(st, v)
			if m&bit != 0 && !v.isNil() {
				st2 := st.clone()
				if e.restrict(st2, v, bit) {
					fr2 := fr.copy()
					fr2.env[x] = e.t.mk("tuple", "", v, e.t.boolT(true))
					e.block(fr2, b, i+1, st2, k)
				}
			}
			if m&^bit != 0 || v.isNil() || !e.nonNil(st, v) {
				st3 := st.clone()
				if m&^bit != 0 {
					// stays possible for nil as well
					e.restrictSoft(st3, v, e.allB&^bit)
				} else if !e.assume(st3, e.eq(v, e.t.tnil), true) {
					return
				}
				fr3 := fr.copy()
				fr3.env[x] = e.t.mk("tuple", "", e.t.tnil, e.t.boolT(false))
				e.block(fr3, b, i+1, st3, k)
			}
			return
		default:
			e.instr(fr, in, st)
		}
	}
}

// restrictSoft narrows the kinds without implying that the value is not nil.
func (e *Eng) restrictSoft(st *State, t *Term, mask uint) {
	if e.nonNil(st, t) {
		e.restrict(st, t, mask)
		return
	}
	st.kinds = append(st.kinds, kindFact{t: t, mask: e.mask(st, t) & mask, soft: true})
}

func (e *Eng) bindCall(fr *frame, x *ssa.Call, res []*Term) {
	n := x.Call.Signature().Results().Len()
	switch {
	case n == 1 && len(res) > 0:
		fr.env[x] = res[0]
	case n > 1:
		fr.env[x] = e.t.mk("tuple", "", res...)
	default:
		fr.env[x] = e.t.mk("zero", "")
	}
}

func (e *Eng) runDefers(fr *frame, b *ssa.BasicBlock, i int, st *State, k func(outcome)) {
	d := fr.defers[len(fr.defers)-1]
	fr2 := fr.copy()
	fr2.defers = fr2.defers[:len(fr2.defers)-1]
	done := e.callCommon(fr2, d, &d.Call, st, func(st2 *State, res []*Term, last bool) {
		e.block(fr2.copy(), b, i, st2, k)
	})
	if !done {
		e.block(fr2, b, i, st, k)
	}
}

func (e *Eng) instr(fr *frame, in ssa.Instruction, st *State) {
	switch x := in.(type) {
	case *ssa.Alloc:
		ty := x.Type().Underlying().(*types.Pointer).Elem()
		label := "var"
		if n := namedOf(ty); n != nil {
			label = n.Obj().Name()
		}
		fr.env[x] = e.newAlloc(ty, label, x.Pos())
	case *ssa.FieldAddr:
		fr.env[x] = e.t.mk("faddr", e.fieldRole(x.X.Type(), x.Field), e.val(fr, x.X))
	case *ssa.IndexAddr:
		base, idx := e.val(fr, x.X), e.val(fr, x.Index)
		if e.onIdx != nil && e.quiet == 0 {
			e.onIdx(st, fr, x, base, idx, false)
		}
		fr.env[x] = e.t.mk("iaddr", "", base, idx)
	case *ssa.Index:
		base, idx := e.val(fr, x.X), e.val(fr, x.Index)
		if e.onIdx != nil && e.quiet == 0 {
			e.onIdx(st, fr, x, base, idx, false)
		}
		fr.env[x] = e.typed(e.t.mk("elem", "", e.norm(st, base), idx), x.Type())
	case *ssa.Lookup:
		m, key := e.val(fr, x.X), e.val(fr, x.Index)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if e.onIdx != nil && e.quiet == 0 {
				e.onIdx(st, fr, x, m, key, false)
			}
			fr.env[x] = e.typed(e.t.mk("elem", "", e.norm(st, m), key), x.Type())
			return
		}
		s := e.sym("lookup")
		if x.CommaOk {
			fr.env[x] = e.t.mk("tuple", "", s, e.sym("found"))
		} else {
			fr.env[x] = s
		}
		_ = key
	case *ssa.Field:
		fr.env[x] = e.typed(e.t.mk("attr", e.fieldRole(x.X.Type(), x.Field), e.val(fr, x.X)), x.Type())
	case *ssa.Store:
		obj, role, idx := e.loc(st, e.val(fr, x.Addr))
		v := e.val(fr, x.Val)
		if v.op == "const" || true {
			e.write(st, obj, role, idx, v, x.Pos(), fr)
		}
	case *ssa.UnOp:
		v := e.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			if v.op == "global" {
				fr.env[x] = e.typed(e.t.mk("attr", "*", v), x.Type())
				return
			}
			obj, role, idx := e.loc(st, v)
			if role == "[]" {
				obj = e.norm(st, obj)
			}
			fr.env[x] = e.read(st, st.mem, obj, role, idx, x.Type())
		case token.NOT:
			fr.env[x] = e.not(v)
		case token.SUB:
			fr.env[x] = e.t.sub(e.t.intT(0), v)
		case token.ARROW:
			s := e.sym("recv")
			if x.CommaOk {
				fr.env[x] = e.t.mk("tuple", "", s, e.sym("recvok"))
			} else {
				fr.env[x] = s
			}
			e.note(st, fr, &event{kind: "recv", args: []*Term{v}, pos: x.Pos()})
		default:
			fr.env[x] = e.typed(e.t.mk("un", x.Op.String(), v), x.Type())
		}
	case *ssa.BinOp:
		fr.env[x] = e.binop(st, x, e.val(fr, x.X), e.val(fr, x.Y))
		if e.onNarrow != nil && e.quiet == 0 && (x.Op == token.ADD || x.Op == token.MUL) {
			e.onNarrow(st, fr, x, fr.env[x])
		}
		if e.onNarrow != nil && e.quiet == 0 && (x.Op == token.AND || x.Op == token.REM) {
			e.onNarrow(st, fr, x, e.val(fr, x.X))
		}
	case *ssa.Convert:
		v := e.val(fr, x.X)
		if e.onNarrow != nil && e.quiet == 0 {
			e.onNarrow(st, fr, x, v)
		}
		fr.env[x] = v
	case *ssa.ChangeType:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.MakeInterface:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.SliceToArrayPointer:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.Extract:
		t := e.val(fr, x.Tuple)
		if t.op == "tuple" && x.Index < len(t.args) {
			fr.env[x] = t.args[x.Index]
		} else {
			fr.env[x] = e.typed(e.t.mk("extract", fmt.Sprint(x.Index), t), x.Type())
		}
	case *ssa.Slice:
		fr.env[x] = e.slice(fr, st, x)
	case *ssa.MakeSlice:
		a := e.newAlloc(x.Type(), "slice", x.Pos())
		e.allocs[a].length = e.val(fr, x.Len)
		fr.env[x] = a
	case *ssa.MakeMap:
		fr.env[x] = e.newAlloc(x.Type(), "map", x.Pos())
	case *ssa.MakeChan:
		fr.env[x] = e.newAlloc(x.Type(), "chan", x.Pos())
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, b))
		}
		fn := x.Fn.(*ssa.Function)
		fr.env[x] = e.t.mk("closure", fn.String(), bs...)
	case *ssa.MapUpdate:
		e.note(st, fr, &event{kind: "mapupdate", args: []*Term{e.val(fr, x.Map), e.val(fr, x.Key), e.val(fr, x.Value)}, pos: x.Pos()})
	case *ssa.Range:
		fr.env[x] = e.t.mk("range", "", e.val(fr, x.X))
	case *ssa.Next:
		it := e.val(fr, x.Iter)
		e.nsym++
		k := e.t.mk("rangekey", fmt.Sprint(e.nsym), it)
		v := e.t.mk("rangeval", fmt.Sprint(e.nsym), it)
		fr.env[x] = e.t.mk("tuple", "", e.sym("more"), k, v)
	case *ssa.Select:
		var ts []*Term
		if len(x.States) == 1 && !x.Blocking {
			e.nsym++
			ts = append(ts, e.t.mk("call", fmt.Sprintf("ready@%d", e.nsym), e.val(fr, x.States[0].Chan)))
		} else {
			ts = append(ts, e.sym("select"))
		}
		ts = append(ts, e.sym("recvok"))
		for range x.States {
			ts = append(ts, e.sym("recv"))
		}
		fr.env[x] = e.t.mk("tuple", "", ts...)
	case *ssa.Send:
		e.note(st, fr, &event{kind: "send", args: []*Term{e.val(fr, x.Chan)}, pos: x.Pos()})
	case *ssa.Go:
	default:
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = e.sym("unknown")
		}
	}
}

func (e *Eng) slice(fr *frame, st *State, x *ssa.Slice) *Term {
	base := e.val(fr, x.X)
	if base.op == "faddr" {
		base = e.t.mk("view", base.aux, base.args[0])
	}
	ln := e.length(st, base)
	lo, hi := e.t.intT(0), ln
	if x.Low != nil {
		lo = e.val(fr, x.Low)
	}
	if x.High != nil {
		hi = e.val(fr, x.High)
	}
	if e.onIdx != nil && e.quiet == 0 {
		if x.High != nil {
			e.onIdx(st, fr, x, base, hi, true)
		} else if x.Low != nil {
			e.onIdx(st, fr, x, base, lo, true)
		}
	}
	if k, ok := lo.isInt(); ok && k == 0 {
		if d, ok := diffConst(hi, ln); ok && d == 0 {
			return base
		}
	}
	if base.op == "slice" {
		lo, hi = e.t.add(base.args[1], lo), e.t.add(base.args[1], hi)
		base = base.args[0]
	}
	return e.t.mk("slice", "", base, lo, hi)
}

func (e *Eng) binop(st *State, x *ssa.BinOp, a, b *Term) *Term {
	ty := x.X.Type()
	info := basicInfo(ty)
	switch x.Op {
	case token.ADD:
		if info&types.IsInteger != 0 {
			return e.t.add(a, b)
		}
	case token.SUB:
		return e.t.sub(a, b)
	case token.MUL:
		if k, ok := a.isInt(); ok {
			return e.t.fromLin(linAdd(&linear{}, b.linOf(), k))
		}
		if k, ok := b.isInt(); ok {
			return e.t.fromLin(linAdd(&linear{}, a.linOf(), k))
		}
	case token.EQL, token.NEQ:
		var c *Term
		switch {
		case info&types.IsInteger != 0:
			c = e.intEq(st, a, b)
		case info&types.IsBoolean != 0:
			if v, ok := a.isBool(); ok {
				a, b = b, a
				_ = v
			}
			if v, ok := b.isBool(); ok {
				c = a
				if !v {
					c = e.not(a)
				}
			} else {
				c = e.eq(a, b)
			}
		case info&types.IsString != 0:
			c = e.eqBytes(st, a, b)
		default:
			c = e.eq(a, b)
			if isByteSlice(ty) && b.isNil() && a.op == "const" {
				c = e.t.boolT(false)
			}
		}
		if x.Op == token.NEQ {
			return e.not(c)
		}
		return c
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if info&types.IsString != 0 {
			a = e.t.mk("cmpb", "", e.norm(st, a), e.norm(st, b))
			b = e.t.intT(0)
		} else if info&types.IsInteger == 0 {
			break
		}
		switch x.Op {
		case token.LSS:
			return e.le(e.t.add(a, e.t.intT(1)), b)
		case token.LEQ:
			return e.le(a, b)
		case token.GTR:
			return e.le(e.t.add(b, e.t.intT(1)), a)
		case token.GEQ:
			return e.le(b, a)
		}
	case token.AND, token.OR, token.XOR:
		if info&types.IsBoolean != 0 {
			if av, ok := e.decide(st, a); ok {
				if av == (x.Op == token.AND) {
					return b
				}
				if x.Op != token.XOR {
					return e.t.boolT(av)
				}
			}
			if bv, ok := e.decide(st, b); ok {
				if bv == (x.Op == token.AND) {
					return a
				}
				if x.Op != token.XOR {
					return e.t.boolT(bv)
				}
			}
		}
	}
	return e.typed(e.t.mk("bin", x.Op.String(), a, b), x.Type())
}

// intEq handles type constants such as the kind of a node.
func (e *Eng) intEq(st *State, a, b *Term) *Term {
	if a.op != "tconst" {
		a, b = b, a
	}
	if a.op == "tconst" {
		if k, ok := b.isInt(); ok {
			var w uint
			for i, n := range e.kinds {
				if v, ok := e.typeConst(n, a.aux); ok {
					if kv, ok := v.isInt(); ok && kv == k {
						w |= 1 << i
					}
				}
			}
			m := e.mask(st, a.args[0])
			if m&w == 0 {
				return e.t.boolT(false)
			}
			if m&^w == 0 {
				return e.t.boolT(true)
			}
			return e.t.mk("kin", fmt.Sprint(w), a.args[0])
		}
	}
	return e.eqInt(a, b)
}

func (e *Eng) typeConst(n *types.Named, method string) (*Term, bool) {
	pt := types.NewPointer(n)
	f := e.c.p.prog.LookupMethod(pt, e.c.p.tpkg, method)
	if f == nil {
		return nil, false
	}
	s := e.simpleOf(f)
	if s.kind == "const" {
		return s.c, true
	}
	return nil, false
}

// ---- simple methods ----

type simpleFn struct {
	kind string // field, view, elem, const, set, setelem, noop, other
	role string
	arg  int
	c    *Term
}

func (e *Eng) simpleOf(f *ssa.Function) *simpleFn {
	if s := e.simple[f]; s != nil {
		return s
	}
	s := e.simpleCompute(f)
	e.simple[f] = s
	return s
}

func (e *Eng) simpleCompute(f *ssa.Function) *simpleFn {
	other := &simpleFn{kind: "other"}
	if f.Signature.Recv() == nil || len(f.Blocks) != 1 || !e.c.p.inPackage(f) {
		return other
	}
	paramIdx := func(v ssa.Value) int {
		for i, p := range f.Params {
			if p == v {
				return i
			}
		}
		return -1
	}
	recv := f.Params[0]
	var st *ssa.Store
	n := 0
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.Store:
			st = x
			n++
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.Slice, *ssa.Return, *ssa.DebugRef, *ssa.Convert, *ssa.Alloc:
			if al, ok := x.(*ssa.Alloc); ok {
				if arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !ok || arr.Len() != 0 {
					return other
				}
			}
		default:
			return other
		}
	}
	ret := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if n > 1 {
		return other
	}
	if n == 1 {
		if len(ret.Results) != 0 {
			return other
		}
		vi := paramIdx(st.Val)
		if vi < 1 {
			return other
		}
		switch a := st.Addr.(type) {
		case *ssa.FieldAddr:
			if a.X == recv {
				return &simpleFn{kind: "set", role: e.fieldRole(a.X.Type(), a.Field), arg: vi}
			}
		case *ssa.IndexAddr:
			if fa, ok := a.X.(*ssa.FieldAddr); ok && fa.X == recv && paramIdx(a.Index) == 1 && vi == 2 {
				return &simpleFn{kind: "setelem", role: e.fieldRole(fa.X.Type(), fa.Field), arg: vi}
			}
		}
		return other
	}
	if len(ret.Results) == 0 {
		return &simpleFn{kind: "noop"}
	}
	if len(ret.Results) != 1 {
		return other
	}
	switch v := ret.Results[0].(type) {
	case *ssa.Const:
		return &simpleFn{kind: "const", c: e.t.konst(v)}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return other
		}
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			if a.X == recv {
				return &simpleFn{kind: "field", role: e.fieldRole(a.X.Type(), a.Field)}
			}
		case *ssa.IndexAddr:
			if fa, ok := a.X.(*ssa.FieldAddr); ok && fa.X == recv && paramIdx(a.Index) == 1 {
				return &simpleFn{kind: "elem", role: e.fieldRole(fa.X.Type(), fa.Field)}
			}
		}
	case *ssa.Slice:
		if v.Low != nil || v.High != nil || v.Max != nil {
			return other
		}
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			if a.X == recv {
				return &simpleFn{kind: "view", role: e.fieldRole(a.X.Type(), a.Field)}
			}
		case *ssa.Alloc:
			return &simpleFn{kind: "const", c: e.t.mk("const", "empty")}
		}
	}
	return other
}

func (e *Eng) applySimple(fr *frame, st *State, s *simpleFn, args []*Term, call ssa.CallInstruction, ty types.Type) []*Term {
	switch s.kind {
	case "field":
		return []*Term{e.read(st, st.mem, args[0], s.role, nil, ty)}
	case "view":
		return []*Term{e.t.mk("view", s.role, args[0])}
	case "elem":
		if e.onIdx != nil && e.quiet == 0 {
			e.onIdx(st, fr, call, e.t.mk("view", s.role, args[0]), args[1], false)
		}
		return []*Term{e.read(st, st.mem, args[0], s.role, args[1], ty)}
	case "const":
		return []*Term{s.c}
	case "set":
		e.write(st, args[0], s.role, nil, args[s.arg], call.Pos(), fr)
	case "setelem":
		if e.onIdx != nil && e.quiet == 0 {
			e.onIdx(st, fr, call, e.t.mk("view", s.role, args[0]), args[1], false)
		}
		e.write(st, args[0], s.role, args[1], args[2], call.Pos(), fr)
	}
	return nil
}

// ---- calls ----

// call returns false if the call has been handled in place (result bound).
func (e *Eng) call(fr *frame, x *ssa.Call, st *State, k func(*State, []*Term, bool)) bool {
	if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
		fr.env[x] = e.builtin(fr, st, x, bi)
		return false
	}
	return e.callCommon(fr, x, &x.Call, st, k)
}

func resultTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return ts
}

func (e *Eng) callCommon(fr *frame, in ssa.CallInstruction, c *ssa.CallCommon, st *State, k func(*State, []*Term, bool)) bool {
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		// deferred builtin
		if bi.Name() == "close" {
			e.note(st, fr, &event{kind: "close", args: []*Term{e.val(fr, c.Args[0])}, pos: in.Pos()})
		}
		k(st, nil, true)
		return true
	}
	var args []*Term
	if c.IsInvoke() {
		args = append(args, e.val(fr, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	rts := resultTypes(c.Signature())
	if c.IsInvoke() {
		e.invoke(fr, in, c, args, rts, st, k)
		return true
	}
	if f := c.StaticCallee(); f != nil {
		var binds []*Term
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, e.val(fr, b))
			}
		}
		e.static(fr, in, f, args, binds, rts, st, k)
		return true
	}
	// through a function value
	fv := e.val(fr, c.Value)
	if fv.op == "closure" || fv.op == "func" {
		for _, f := range e.c.ownership().fn {
			if f.String() == fv.aux {
				e.static(fr, in, f, args, fv.args, rts, st, k)
				return true
			}
		}
	}
	var res []*Term
	for _, t := range rts {
		res = append(res, e.typed(e.sym("callback"), t))
	}
	var tys []types.Type
	for _, a := range c.Args {
		tys = append(tys, a.Type())
	}
	e.note(st, fr, &event{kind: "callback", name: fv.String(), args: args, res: res, tys: tys, pos: in.Pos()})
	k(st, res, true)
	return true
}

func (e *Eng) invoke(fr *frame, in ssa.CallInstruction, c *ssa.CallCommon, args []*Term, rts []types.Type, st *State, k func(*State, []*Term, bool)) {
	impls := e.c.r.impls(c)
	if len(impls) == 0 {
		var res []*Term
		for _, t := range rts {
			res = append(res, e.typed(e.sym("ext"), t))
		}
		k(st, res, true)
		return
	}
	var rt types.Type
	if len(rts) == 1 {
		rt = rts[0]
	}
	recv := args[0]
	m := e.mask(st, recv)
	type cand struct {
		f   *ssa.Function
		bit uint
	}
	var cs []cand
	for _, f := range impls {
		b := e.kindBit(f.Signature.Recv().Type())
		if b&m != 0 {
			cs = append(cs, cand{f, b})
		}
	}
	if len(cs) == 0 {
		return
	}
	// a method of a nil interface cannot be called
	if !e.assume(st, e.eq(recv, e.t.tnil), false) {
		return
	}
	if e.special(fr, in, cs[0].f, args, rts, st, k) {
		return
	}
	// simple methods
	var main *simpleFn
	simple, allConst := true, true
	for _, x := range cs {
		s := e.simpleOf(x.f)
		switch s.kind {
		case "other":
			simple = false
		case "const", "noop":
		default:
			allConst = false
			if main == nil {
				main = s
			} else if *main != *s {
				simple = false
			}
		}
	}
	if simple {
		if allConst {
			first := e.simpleOf(cs[0].f)
			same := true
			for _, x := range cs {
				if e.simpleOf(x.f).c != first.c {
					same = false
				}
			}
			if same {
				k(st, e.applySimple(fr, st, first, args, in, rt), true)
				return
			}
			k(st, []*Term{e.typed(e.t.mk("tconst", c.Method.Name(), recv), rt)}, true)
			return
		}
		k(st, e.applySimple(fr, st, main, args, in, rt), true)
		return
	}
	// group equal bodies
	groups := map[string][]cand{}
	var order []string
	for _, x := range cs {
		key := e.bodyKey(x.f)
		if groups[key] == nil {
			order = append(order, key)
		}
		groups[key] = append(groups[key], x)
	}
	for _, key := range order {
		var w uint
		for _, x := range groups[key] {
			w |= x.bit
		}
		st2 := st.clone()
		if len(order) > 1 {
			if !e.restrict(st2, recv, w) {
				continue
			}
		}
		e.states++
		e.static(fr, in, groups[key][0].f, args, nil, rts, st2, func(s *State, r []*Term, last bool) { k(s, r, false) })
	}
}

// bodyKey identifies functions that do the same on different node types.
func (e *Eng) bodyKey(f *ssa.Function) string {
	if s, ok := e.bodyK[f]; ok {
		return s
	}
	var b strings.Builder
	num := map[ssa.Value]int{}
	for i, p := range f.Params {
		num[p] = i
	}
	n := len(f.Params)
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			if v, ok := in.(ssa.Value); ok {
				num[v] = n
				n++
			}
		}
	}
	ref := func(v ssa.Value) string {
		switch x := v.(type) {
		case nil:
			return "-"
		case *ssa.Const:
			if x.Value != nil {
				return "c" + x.Value.ExactString()
			}
			return "cnil"
		case *ssa.Function:
			return "f" + x.Name()
		case *ssa.Builtin:
			return "b" + x.Name()
		case *ssa.Global:
			return "g" + x.Name()
		}
		return fmt.Sprint(num[v])
	}
	for _, bl := range f.Blocks {
		fmt.Fprintf(&b, "\n%d:", bl.Index)
		for _, in := range bl.Instrs {
			fmt.Fprintf(&b, "%T", in)
			switch x := in.(type) {
			case *ssa.FieldAddr:
				b.WriteString(e.fieldRole(x.X.Type(), x.Field))
			case *ssa.BinOp:
				b.WriteString(x.Op.String())
			case *ssa.UnOp:
				b.WriteString(x.Op.String())
			case *ssa.Convert:
				b.WriteString(x.Type().String())
			case *ssa.Alloc:
				if e.kindBit(x.Type()) != 0 {
					b.WriteString("NODE")
				} else {
					b.WriteString(x.Type().String())
				}
			case ssa.CallInstruction:
				if x.Common().IsInvoke() {
					b.WriteString("i" + x.Common().Method.Name())
				}
			}
			var ops [16]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				b.WriteString("," + ref(*op))
			}
			b.WriteByte(';')
		}
		for _, s := range bl.Succs {
			fmt.Fprintf(&b, ">%d", s.Index)
		}
	}
	e.bodyK[f] = b.String()
	return e.bodyK[f]
}

// special: methods and functions with a meaning of their own.
func (e *Eng) special(fr *frame, in ssa.CallInstruction, f *ssa.Function, args []*Term, rts []types.Type, st *State, k func(*State, []*Term, bool)) bool {
	if e.onRec != nil && e.quiet == 0 {
		e.onRec(st, fr, in, f, args)
	}
	if e.hook != nil {
		if outs, ok := e.hook(e, st, in, f, args); ok {
			for _, o := range outs {
				k(o.st, o.res, false)
			}
			return true
		}
	}
	if !e.c.p.inPackage(f) {
		return false
	}
	switch e.c.nodeFn(f) {
	case fnChanGet:
		k(st, []*Term{e.typed(e.read(st, st.mem, args[0], rChan, nil, rts[0]), rts[0])}, true)
		return true
	case fnFind:
		if e.openFind {
			return false
		}
		n, b := args[len(args)-2], args[len(args)-1]
		if len(f.Params) > 1 && basicKind(f.Params[len(f.Params)-2].Type()) == types.Uint8 {
			n, b = b, n
		}
		found := e.findTerms(st, n, b, rts)
		if e.onFind != nil && e.quiet == 0 {
			e.onFind(&findSite{st: st, fn: fr.fn, n: n, b: b, res: found, pos: in.Pos()})
		}
		k(st, found, true)
		return true
	case fnChanSet:
		e.write(st, args[0], rChan, nil, args[1], in.Pos(), fr)
		k(st, nil, true)
		return true
	case fnClone:
		a := e.newAlloc(e.c.r.nodeIface, "copy", in.Pos())
		ai := e.allocs[a]
		ai.cloneOf, ai.snap = args[0], st.mem
		if len(args) > 1 {
			ai.keepCh = args[1]
			if v, ok := e.decide(st, args[1]); ok {
				ai.keepCh = e.t.boolT(v)
			}
		} else {
			ai.keepCh = e.t.boolT(false)
		}
		e.note(st, fr, &event{kind: "clone", args: []*Term{args[0], a, ai.keepCh}, pos: in.Pos()})
		k(st, []*Term{a}, true)
		return true
	}
	return false
}

func (e *Eng) static(fr *frame, in ssa.CallInstruction, f *ssa.Function, args, binds []*Term, rts []types.Type, st *State, k func(*State, []*Term, bool)) {
	if e.special(fr, in, f, args, rts, st, k) {
		return
	}
	var rt types.Type
	if len(rts) > 0 {
		rt = rts[0]
	}
	if !e.c.p.inPackage(f) {
		e.extern(fr, in, f, args, rts, st, k)
		return
	}
	if s := e.simpleOf(f); s.kind != "other" {
		k(st, e.applySimple(fr, st, s, args, in, rt), true)
		return
	}
	rec := false
	for _, g := range e.inline {
		if g == f {
			rec = true
		}
	}
	if len(f.Blocks) == 0 {
		rec = true
	}
	pure := e.pure(f)
	if pure && (rec || e.recursive(f) || len(e.natural(f)) > 0 && !e.opensLoops(f)) {
		// an unknown function of its arguments and of memory
		ep := 0
		for m := st.mem; m != nil; m = m.next {
			if m.role != "*" && m.role != "contents" {
				ep = m.seq
				break
			}
		}
		nargs := make([]*Term, len(args))
		for i, a := range args {
			nargs[i] = e.norm(st, a)
		}
		call := e.t.mk("call", fmt.Sprintf("%s@%d", fname(f), ep), nargs...)
		if len(rts) == 1 {
			k(st, []*Term{e.typed(call, rt)}, true)
			return
		}
		var res []*Term
		for i, t := range rts {
			res = append(res, e.typed(e.t.mk("extract", fmt.Sprint(i), call), t))
		}
		k(st, res, true)
		return
	}
	if rec || fr.depth > 14 || e.opaque != nil && e.opaque(f) {
		var res []*Term
		for _, t := range rts {
			res = append(res, e.typed(e.sym("call."+fname(f)), t))
		}
		e.note(st, fr, &event{kind: "call", name: fname(f), args: args, res: res, pos: in.Pos()})
		// effects of the callee are unknown
		e.seq++
		for _, role := range []string{rLeaf, rChildren, rKeys, rNum, rPLen, rPartial, rKey, rValue, rChan, "[]"} {
			st.mem = &memEntry{role: role, anyIdx: true, seq: e.seq, next: st.mem}
		}
		k(st, res, true)
		return
	}
	var outs []outcome
	e.enter(f, args, binds, st, fr, func(o outcome) { outs = append(outs, o) })
	for _, o := range e.merge(st, outs) {
		k(o.st, o.res, false)
	}
}

// opensLoops: functions with loops are followed, unless they only compute
// numbers.
func (e *Eng) opensLoops(f *ssa.Function) bool {
	if e.openAll {
		return true
	}
	for _, t := range resultTypes(f.Signature) {
		if basicInfo(t)&types.IsInteger == 0 {
			return true
		}
	}
	// comparisons of two keys
	for _, p := range f.Params {
		if !isByteSlice(p.Type()) && basicInfo(p.Type())&types.IsString == 0 {
			return false
		}
	}
	return true
}

// pure: no writes to memory that outlives the call.
func (e *Eng) pure(f *ssa.Function) bool {
	switch e.pureM[f] {
	case 1:
		return true
	case 2:
		return false
	}
	a := e.c.ownership()
	ok := a.sums[f] != nil
	if ok {
		for w := range a.sum(f).writes {
			if w.kind == wCAS {
				continue
			}
			ok = false
		}
		for _, rs := range a.sum(f).results {
			for o := range rs {
				if o.k == oFresh && o.site != nil && pointerLike(o.site.Type()) {
					ok = false
				}
			}
		}
		// calling a user's function is an effect
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, isCall := in.(ssa.CallInstruction); isCall {
					cc := c.Common()
					if _, isB := cc.Value.(*ssa.Builtin); !isB && !cc.IsInvoke() && cc.StaticCallee() == nil {
						ok = false
					}
				}
			}
		}
	}
	if ok {
		e.pureM[f] = 1
	} else {
		e.pureM[f] = 2
	}
	return ok
}

func (e *Eng) recursive(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	a := e.c.ownership()
	var visit func(g *ssa.Function, d int) bool
	visit = func(g *ssa.Function, d int) bool {
		if d > 0 && g == f {
			return true
		}
		if seen[g] || !e.c.p.inPackage(g) {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					fs, _, _ := a.callees(c.Common())
					for _, h := range fs {
						if visit(h, d+1) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return visit(f, 0)
}

func (e *Eng) extern(fr *frame, in ssa.CallInstruction, f *ssa.Function, args []*Term, rts []types.Type, st *State, k func(*State, []*Term, bool)) {
	name := f.Name()
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	one := func(t *Term) { k(st, []*Term{t}, true) }
	n := func(i int) *Term { return e.norm(st, args[i]) }
	switch pkgPath(f) + "." + name {
	case "bytes.Equal", "slices.Equal":
		one(e.eqBytes(st, args[0], args[1]))
		return
	case "bytes.Compare", "slices.Compare", "strings.Compare", "cmp.Compare":
		if len(args) == 2 && (isByteSlice(f.Params[0].Type()) || basicInfo(f.Params[0].Type())&types.IsString != 0) {
			if n(0) == n(1) {
				one(e.t.intT(0))
				return
			}
			one(e.t.mk("cmpb", "", n(0), n(1)))
			return
		}
	case "bytes.HasPrefix", "strings.HasPrefix":
		one(e.t.mk("hasp", "", n(0), n(1)))
		return
	case "bytes.Clone", "slices.Clone", "strings.Clone":
		a := e.newAlloc(rts[0], "slice", in.Pos())
		e.allocs[a].length = e.length(st, args[0])
		e.seq++
		st.mem = &memEntry{obj: a, role: "contents", val: n(0), seq: e.seq, next: st.mem}
		one(a)
		return
	case "slices.Clip":
		one(args[0])
		return
	}
	var nargs []*Term
	for _, a := range args {
		nargs = append(nargs, e.norm(st, a))
	}
	pp := pkgPath(f)
	if pp == "bytes" || pp == "sort" || pp == "strings" || pp == "slices" || pp == "cmp" || pp == "math/bits" {
		ep := 0
		if pp == "sort" || pp == "slices" || name == "IndexByte" {
			if st.mem != nil {
				ep = st.mem.seq
			}
		}
		call := e.t.mk("call", fmt.Sprintf("%s.%s@%d", pp, name, ep), nargs...)
		if pp == "sort" && name == "Search" && len(args) == 2 {
			e.searches[call] = &searchInfo{n: args[0], pred: args[1], mem: st.mem}
			st.les = append(st.les, linAdd(&linear{}, call.linOf(), -1))
			if e.entails(st, linAdd(&linear{}, args[0].linOf(), -1), 2) {
				st.les = append(st.les, linAdd(call.linOf(), args[0].linOf(), -1))
			}
		}
		if len(args) == 2 && (pp == "bytes" && name == "IndexByte" || pp == "slices" && name == "Index" && basicKind(f.Params[1].Type()) == types.Uint8) {
			n := e.length(st, args[0])
			e.searches[call] = &searchInfo{n: n, in: args[0], val: args[1], mem: st.mem}
			st.les = append(st.les, linAdd(&linear{k: -1}, call.linOf(), -1))
			st.les = append(st.les, linAdd(call.linOf(), linAdd(n.linOf(), &linear{k: -1}, 1), -1))
		}
		if len(rts) == 1 {
			one(e.typed(call, rts[0]))
			return
		}
		var res []*Term
		for i, t := range rts {
			res = append(res, e.typed(e.t.mk("extract", fmt.Sprint(i), call), t))
		}
		k(st, res, true)
		return
	}
	var res []*Term
	for _, t := range rts {
		res = append(res, e.typed(e.sym("ext."+name), t))
	}
	e.note(st, fr, &event{kind: "ext", name: pp + "." + name, args: args, res: res, pos: in.Pos()})
	k(st, res, true)
}

// isView: a part of an array of a node, which may change later.
func isView(t *Term) bool {
	for t.op == "slice" {
		t = t.args[0]
	}
	return t.op == "view" || t.op == "faddr"
}

// stripViews resolves a slice to (object, role, offset).
func (e *Eng) sliceLoc(t *Term) (obj *Term, role string, off *Term) {
	off = e.t.intT(0)
	for t.op == "slice" {
		off = e.t.add(off, t.args[1])
		t = t.args[0]
	}
	if t.op == "view" || t.op == "faddr" {
		return t.args[0], t.aux, off
	}
	return t, "[]", off
}

func (e *Eng) builtin(fr *frame, st *State, x *ssa.Call, bi *ssa.Builtin) *Term {
	var args []*Term
	for _, a := range x.Call.Args {
		args = append(args, e.val(fr, a))
	}
	switch bi.Name() {
	case "len":
		return e.typed(e.length(st, args[0]), nil)
	case "cap":
		return e.t.mk("cap", "", args[0])
	case "min", "max":
		best := args[0]
		allc := true
		for _, a := range args[1:] {
			if d, ok := diffConst(best, a); ok {
				if (d > 0) == (bi.Name() == "min") {
					best = a
				}
			} else {
				allc = false
			}
		}
		if allc {
			return best
		}
		return e.t.mk(bi.Name(), "", args...)
	case "copy":
		obj, role, off := e.sliceLoc(args[0])
		e.note(st, fr, &event{kind: "copy", args: []*Term{args[0], args[1]}, pos: x.Pos()})
		e.seq++
		cp := &copyInfo{lo: off, src: args[1], dlen: e.length(st, args[0]), slen: e.length(st, args[1])}
		if a := e.allocs[obj]; a != nil && role == "[]" && args[0] == obj && !isView(args[1]) {
			if d, ok := diffConst(e.length(st, args[0]), e.length(st, args[1])); ok && d == 0 {
				src := e.norm(st, args[1])
				st.mem = &memEntry{obj: obj, role: "contents", val: src, seq: e.seq, next: st.mem}
				return e.length(st, args[1])
			}
		}
		st.mem = &memEntry{obj: obj, role: role, anyIdx: true, seq: e.seq, pos: x.Pos(), next: st.mem, cp: cp}
		if role == "[]" {
			st.mem = &memEntry{obj: obj, role: "contents", seq: e.seq, next: st.mem}
		}
		return e.sym("copied")
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		base, more := args[0], args[1]
		if more.isNil() {
			return base
		}
		empty := false
		if n, ok := e.length(st, base).isInt(); ok && n == 0 {
			empty = true
		}
		if a := e.allocs[more]; a != nil {
			if arr, ok := a.typ.Underlying().(*types.Array); ok && arr.Len() <= 8 {
				ts := []*Term{base}
				for i := int64(0); i < arr.Len(); i++ {
					ts = append(ts, e.read(st, st.mem, more, "[]", e.t.intT(i), arr.Elem()))
				}
				return e.typed(e.t.mk("append", "", ts...), x.Type())
			}
		}
		if empty {
			a := e.newAlloc(x.Type(), "slice", x.Pos())
			e.allocs[a].length = e.length(st, more)
			e.seq++
			st.mem = &memEntry{obj: a, role: "contents", val: e.norm(st, more), seq: e.seq, next: st.mem}
			return a
		}
		return e.typed(e.t.mk("appendall", "", base, more), x.Type())
	case "close":
		e.note(st, fr, &event{kind: "close", args: args, pos: x.Pos()})
	case "delete", "clear":
		e.note(st, fr, &event{kind: bi.Name(), args: args, pos: x.Pos()})
	}
	return e.sym("builtin." + bi.Name())
}

// findTerms: the child stored for a byte, and its slot.
func (e *Eng) findTerms(st *State, n, b *Term, rts []types.Type) []*Term {
	ver := ""
	for m := st.mem; m != nil; m = m.next {
		if m.under != nil && !e.mayBeUnder(n, m.under) {
			continue
		}
		if (m.role == rChildren || m.role == rKeys || m.role == rNum) && (m.under != nil || e.alias(st, m.obj, n) != aNo) {
			ver = fmt.Sprintf("@%d", m.seq)
			break
		}
	}
	if a := e.allocs[n]; a != nil && a.cloneOf != nil && ver == "" {
		st2 := st.clone()
		st2.mem = a.snap
		return e.findTerms(st2, a.cloneOf, b, rts)
	}
	ch := e.typed(e.t.mk("child", ver, n, b), rts[0])
	res := []*Term{ch}
	for i := 1; i < len(rts); i++ {
		res = append(res, e.typed(e.t.mk("childidx", ver, n, b), rts[i]))
	}
	return res
}

// agreement: a loop that counts i up and goes on only while a[i+c] == b[i+d]
// leaves with all those bytes of a and b equal.
func (e *Eng) agreement(info *loopInfo) {
	for n, pi := range info.phis {
		i := info.syms[n]
		if pi.entry == nil || len(pi.backs) == 0 || basicInfo(pi.phi.Type())&types.IsInteger == 0 {
			continue
		}
		fixed := func(l *linear) bool {
			for _, a := range l.atoms {
				for _, s := range info.syms {
					if a.mentions(s) {
						return false
					}
				}
			}
			return true
		}
		type pair struct{ a, c, b, d *Term }
		var common map[pair]bool
		for _, bk := range pi.backs {
			if d, ok := diffConst(bk.val, i); !ok || d != 1 {
				common = nil
				break
			}
			here := map[pair]bool{}
			for _, f := range bk.st.facts {
				if !f.v || f.t.op != "eq0" {
					continue
				}
				l := f.t.args[0].linOf()
				if l.k != 0 || len(l.atoms) != 2 || l.coef[0]+l.coef[1] != 0 {
					continue
				}
				x, y := l.atoms[0], l.atoms[1]
				if x.op == "elem" && y.op == "elem" && x.aux == "" && y.aux == "" {
					c, d := linAdd(x.args[1].linOf(), i.linOf(), -1), linAdd(y.args[1].linOf(), i.linOf(), -1)
					if fixed(c) && fixed(d) {
						here[pair{x.args[0], e.t.fromLin(c), y.args[0], e.t.fromLin(d)}] = true
					}
				}
			}
			if common == nil {
				common = here
			} else {
				for p := range common {
					if !here[p] {
						delete(common, p)
					}
				}
			}
		}
		for p := range common {
			from, to := e.t.add(pi.entry, p.c), e.t.add(pi.entry, p.d)
			count := e.t.sub(i, pi.entry)
			f := e.t.mk("agreeo", "", p.a, from, p.b, to, count)
			if k, ok := from.isInt(); ok && k == 0 && from == to {
				f = e.t.mk("agree", "", p.a, p.b, count)
			}
			for _, x := range info.exits {
				x.st.facts = append(x.st.facts, fact{f, true})
			}
		}
	}
}

// agrees: the first n bytes of a and b are known to be equal.
func (e *Eng) agrees(st *State, a, b, n *Term) bool {
	for _, f := range st.facts {
		if f.t.op != "agree" {
			continue
		}
		if f.t.args[0] == a && f.t.args[1] == b || f.t.args[0] == b && f.t.args[1] == a {
			if e.entails(st, linAdd(n.linOf(), f.t.args[2].linOf(), -1), 2) {
				return true
			}
		}
	}
	return false
}

// differs: a[i] != b[i] is known for some i.
func (e *Eng) differs(st *State, a, b *Term) bool {
	for _, f := range st.facts {
		if f.v || f.t.op != "eq0" {
			continue
		}
		l := f.t.args[0].linOf()
		if l.k != 0 || len(l.atoms) != 2 || l.coef[0]+l.coef[1] != 0 {
			continue
		}
		x, y := l.atoms[0], l.atoms[1]
		if x.op == "elem" && y.op == "elem" && x.aux == "" && y.aux == "" && x.args[1] == y.args[1] {
			if x.args[0] == a && y.args[0] == b || x.args[0] == b && y.args[0] == a {
				return true
			}
		}
	}
	return false
}

// headEqual: a[:len(p)] == p is known.
func (e *Eng) headEqual(st *State, a, p *Term) bool {
	head := e.t.mk("slice", "", a, e.t.intT(0), e.length(st, p))
	x, y := head, p
	if x.id > y.id {
		x, y = y, x
	}
	for _, f := range st.facts {
		if f.v && f.t.op == "eqb" && f.t.args[0] == x && f.t.args[1] == y {
			return true
		}
		if f.v && f.t.op == "eq0" {
			if c := f.t.args[0]; c.op == "cmpb" && (c.args[0] == x && c.args[1] == y || c.args[0] == y && c.args[1] == x) {
				return true
			}
		}
	}
	return false
}

// mayBeUnder: the object may belong to the subtree.
func (e *Eng) mayBeUnder(o, sub *Term) bool {
	if o == sub || descendant(o, sub) {
		return true
	}
	if e.allocs[o] != nil || o.op == "param" || descendant(sub, o) {
		return false
	}
	// other children and entries of the same node
	if (o.op == "attr" || o.op == "child") && (sub.op == "attr" || sub.op == "child") {
		if (baseRole(o) == rLeaf) != (baseRole(sub) == rLeaf) && o.args[0] == sub.args[0] {
			return false
		}
	}
	if o.op == "attr" && len(o.args) > 0 && !versioned(o) {
		if b := baseRole(o); b != rLeaf && b != rChildren {
			return false
		}
		return e.mayBeUnder(o.args[0], sub)
	}
	return true
}
