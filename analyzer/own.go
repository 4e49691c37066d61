package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine A: ownership, effects and aliasing by function summaries.
//
// Every pointer-like value has a set of origins. A field is exclusive if the
// memory behind it belongs to the object that holds the field; whether it is,
// is inferred from all stores of the program, not assumed.

type okind byte

const (
	oFresh  okind = iota // allocated by this activation (or handed to it as such)
	oParam               // the memory of the object a parameter points to
	oFVCell              // the cell of a captured variable
	oFVVal               // the content of a captured variable
	oShared              // anything loaded from memory that others can reach
	oGlobal
)

type origin struct {
	k    okind
	i    int
	site ssa.Value
}

func (o origin) String() string {
	switch o.k {
	case oFresh:
		return "fresh"
	case oParam:
		return fmt.Sprintf("param%d", o.i)
	case oFVCell:
		return fmt.Sprintf("captured%d", o.i)
	case oFVVal:
		return fmt.Sprintf("capturedval%d", o.i)
	case oGlobal:
		return "global"
	}
	return "shared"
}

type oset map[origin]bool

func (s oset) add(o origin) bool {
	if s[o] {
		return false
	}
	s[o] = true
	return true
}
func (s oset) addAll(t oset) bool {
	ch := false
	for o := range t {
		if s.add(o) {
			ch = true
		}
	}
	return ch
}
func (s oset) has(k okind) bool {
	for o := range s {
		if o.k == k {
			return true
		}
	}
	return false
}

type wkind byte

const (
	wPlain wkind = iota
	wAtomic
	wCAS    // compare-and-swap from nil
	wCASAny // other compare-and-swap
	wAppend // into the spare capacity of a slice
)

func (k wkind) String() string {
	return [...]string{"store", "atomic store", "compare-and-swap from nil", "compare-and-swap", "append in place"}[k]
}

// A write to memory that the function did not allocate itself.
type write struct {
	target origin
	kind   wkind
	what   string    // field or description
	pos    token.Pos // of the innermost write
}

// A reference with origin val stored into memory with origin dst.
type stored struct {
	val, dst origin
	what     string
	pos      token.Pos
}

type summary struct {
	results  []oset
	clipped  []bool           // slice results that are clipped, fresh or nil
	writes   map[write]string // with the call chain below this function
	stores   map[stored]string
	held     []oset            // what fresh results hold on to
	keeps    map[stored]string // byte slices inside fresh objects that are stored
	ownTrue  map[int]bool      // parameters known owned when the (first) result is true
	ownFalse map[int]bool
	analysed bool
}

type ownA struct {
	p        *Prog
	r        *Roles
	sums     map[*ssa.Function]*summary
	fn       []*ssa.Function
	notExcl  map[fieldKey]string // field -> why it is not exclusive
	exclChk  map[fieldKey]int    // stores examined per field
	changed  bool
	states   map[*ssa.Function]*fstate
	unknown  map[string]bool // external functions without a model
	getters  map[*ssa.Function]fieldKey
	idGetter map[string]bool
	nGuards  int
	nWrites  int
	guardPos map[token.Pos]bool
}

func newOwn(p *Prog, r *Roles) *ownA {
	a := &ownA{p: p, r: r, sums: map[*ssa.Function]*summary{}, notExcl: map[fieldKey]string{}, exclChk: map[fieldKey]int{},
		states: map[*ssa.Function]*fstate{}, unknown: map[string]bool{}, getters: map[*ssa.Function]fieldKey{}, guardPos: map[token.Pos]bool{}}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		a.fn = append(a.fn, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && a.modelled(g) {
						visit(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range p.funcs {
		visit(f)
	}
	for _, f := range a.fn {
		a.findGetter(f)
	}
	return a
}

// modelled: functions whose bodies are analysed (the package itself and the
// pure slice packages of the standard library).
func (a *ownA) modelled(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	if a.p.inPackage(f) {
		return true
	}
	switch pkgPath(f) {
	case "bytes", "sort", "slices", "cmp", "strings", "maps", "unicode/utf8", "math/bits":
		// types with internal state are left to the table
		if r := f.Signature.Recv(); r != nil {
			return false
		}
		return true
	}
	return false
}

func pkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if f.Parent() != nil {
		return pkgPath(f.Parent())
	}
	return ""
}

func (a *ownA) findGetter(f *ssa.Function) {
	if f.Signature.Recv() == nil || len(f.Params) != 1 || f.Signature.Results().Len() != 1 {
		return
	}
	var key fieldKey
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			if len(f.Blocks) > 1 {
				return
			}
			continue
		}
		u, ok := ret.Results[0].(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fa.X != f.Params[0] {
			return
		}
		o, fl, _ := a.r.fieldOf(fa.X.Type(), fa.Field)
		key = fieldKey{o, fl}
	}
	if key.field != "" {
		a.getters[f] = key
	}
}

// fieldRead returns the object and role if v reads a field of an object,
// directly or through getters.
func (a *ownA) fieldRead(v ssa.Value) (obj ssa.Value, role string) {
	switch v := v.(type) {
	case *ssa.Convert:
		return a.fieldRead(v.X)
	case *ssa.ChangeType:
		return a.fieldRead(v.X)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				_, _, role := a.r.fieldOf(fa.X.Type(), fa.Field)
				return fa.X, role
			}
		}
	case *ssa.Field:
		_, _, role := a.r.fieldOf(v.X.Type(), v.Field)
		return v.X, role
	case *ssa.Call:
		if v.Call.IsInvoke() {
			role := ""
			for _, m := range a.r.impls(&v.Call) {
				k, ok := a.getters[m]
				if !ok {
					return nil, ""
				}
				rr := a.r.role[k]
				if role != "" && rr != role {
					return nil, ""
				}
				role = rr
			}
			return v.Call.Value, role
		}
		if f := v.Call.StaticCallee(); f != nil {
			if k, ok := a.getters[f]; ok && len(v.Call.Args) == 1 {
				return v.Call.Args[0], a.r.role[k]
			}
		}
	}
	return nil, ""
}

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerLike(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerLike(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// opaqueStored: values of the user's type and channels are not part of the
// tree's own memory: nothing is ever written through them.
func (a *ownA) opaque(t types.Type) bool {
	return types.Identical(t, a.p.valT)
}

type fstate struct {
	f        *ssa.Function
	val      map[ssa.Value]oset
	tup      map[ssa.Value][]oset
	content  map[contentKey]oset // content of fields of fresh objects
	clip     map[ssa.Value]bool
	owned    []map[ssa.Value]bool // per block: values known owned at entry
	reach    *cells
	freshRet map[ssa.Value]bool
	cur      *ssa.BasicBlock // the block whose instructions are looked at
}

type contentKey struct {
	site  ssa.Value
	field string
}

func (a *ownA) sum(f *ssa.Function) *summary {
	s := a.sums[f]
	if s == nil {
		n := f.Signature.Results().Len()
		s = &summary{results: make([]oset, n), clipped: make([]bool, n), writes: map[write]string{}, stores: map[stored]string{},
			held: make([]oset, n)}
		for i := range s.results {
			s.results[i] = oset{}
			s.held[i] = oset{}
			s.clipped[i] = true
		}
		a.sums[f] = s
	}
	return s
}

// run computes all summaries to a fixpoint, and the exclusive fields around it.
func (a *ownA) run() {
	for round := 0; round < 20; round++ {
		a.sums = map[*ssa.Function]*summary{}
		a.states = map[*ssa.Function]*fstate{}
		for it := 0; it < 50; it++ {
			a.changed = false
			for _, f := range a.fn {
				a.ownedFacts(a.state(f))
			}
			if !a.changed {
				break
			}
		}
		for it := 0; it < 200; it++ {
			a.changed = false
			for _, f := range a.fn {
				a.analyse(f)
			}
			if !a.changed {
				break
			}
		}
		if !a.checkExclusive() {
			return
		}
	}
}

func (a *ownA) exclusive(owner, field string) bool {
	if owner == "" {
		return false
	}
	if _, ok := a.p.types[owner]; !ok {
		return false
	}
	_, bad := a.notExcl[fieldKey{owner, field}]
	return !bad
}

// ---- intraprocedural ----

func (a *ownA) state(f *ssa.Function) *fstate {
	st := a.states[f]
	if st == nil {
		st = &fstate{f: f, val: map[ssa.Value]oset{}, tup: map[ssa.Value][]oset{}, content: map[contentKey]oset{}, clip: map[ssa.Value]bool{}, reach: newCells(f)}
		a.states[f] = st
		for i, p := range f.Params {
			if pointerLike(p.Type()) {
				st.val[p] = oset{origin{k: oParam, i: i}: true}
			}
		}
		for i, v := range f.FreeVars {
			st.val[v] = oset{origin{k: oFVCell, i: i}: true}
		}
	}
	return st
}

func (a *ownA) analyse(f *ssa.Function) {
	st := a.state(f)
	for it := 0; it < 50; it++ {
		ch := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a.transfer(st, b, in) {
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	a.ownedFacts(st)
	a.collect(st)
}

func (st *fstate) get(v ssa.Value) oset {
	switch v := v.(type) {
	case *ssa.Global:
		return oset{origin{k: oGlobal}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Phi:
		if e := phiAt(v, st.cur); e != nil {
			return st.get(e)
		}
	}
	return st.val[v]
}

// phiAt: the value a phi has in a block that is only reached when one of its edges
// was taken, because the others contradict a branch that leads to the block.
func phiAt(v *ssa.Phi, b *ssa.BasicBlock) ssa.Value {
	at := v.Block()
	if b == nil || b == at || !at.Dominates(b) {
		return nil
	}
	here := branchFacts(b, at)
	if len(here) == 0 {
		return nil
	}
	var one ssa.Value
	for i, e := range v.Edges {
		p := at.Preds[i]
		facts := branchFacts(p, nil)
		addBranch(facts, p, at)
		against := false
		for c, t := range facts {
			if h, ok := here[c]; ok && h != t && definedAbove(c, at) {
				against = true
			}
		}
		if against {
			continue
		}
		if one != nil {
			return nil
		}
		one = e
	}
	return one
}

// branchFacts: the conditions that hold in a block since it was reached from the block
// given (or from the entry).
func branchFacts(b, from *ssa.BasicBlock) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for d := b; d != nil && d != from; d = d.Idom() {
		if len(d.Preds) == 1 {
			addBranch(out, d.Preds[0], d)
		}
	}
	return out
}

func addBranch(out map[ssa.Value]bool, p, b *ssa.BasicBlock) {
	br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return
	}
	c, truth := br.Cond, p.Succs[0] == b
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, truth = u.X, !truth
	}
	if _, ok := out[c]; !ok {
		out[c] = truth
	}
}

func definedAbove(c ssa.Value, b *ssa.BasicBlock) bool {
	in, ok := c.(ssa.Instruction)
	if !ok {
		return true
	}
	return in.Block() != b && in.Block().Dominates(b)
}

func (st *fstate) merge(v ssa.Value, s oset) bool {
	if len(s) == 0 {
		return false
	}
	cur := st.val[v]
	if cur == nil {
		cur = oset{}
		st.val[v] = cur
	}
	return cur.addAll(s)
}

func (st *fstate) mergeTup(v ssa.Value, i, n int, s oset) bool {
	t := st.tup[v]
	if t == nil {
		t = make([]oset, n)
		for j := range t {
			t[j] = oset{}
		}
		st.tup[v] = t
	}
	return t[i].addAll(s)
}

func fresh(v ssa.Value) oset { return oset{origin{k: oFresh, site: v}: true} }

// loadFrom gives the origins of a reference loaded from a field (or element)
// of the objects in base.
func (a *ownA) loadFrom(st *fstate, base oset, owner, field string) oset {
	out := oset{}
	for o := range base {
		switch o.k {
		case oFresh:
			if a.exclusive(owner, field) {
				out.add(o)
				continue
			}
			if _, isAlloc := o.site.(*ssa.Alloc); isAlloc {
				out.addAll(st.content[contentKey{o.site, field}])
				out.addAll(st.content[contentKey{o.site, "*"}])
			} else if _, isMk := o.site.(*ssa.MakeSlice); isMk {
				out.addAll(st.content[contentKey{o.site, "[]"}])
				out.addAll(st.content[contentKey{o.site, "*"}])
			} else if _, isMm := o.site.(*ssa.MakeMap); isMm {
				out.addAll(st.content[contentKey{o.site, "[]"}])
				out.addAll(st.content[contentKey{o.site, "*"}])
			} else {
				out.add(origin{k: oShared})
				out.addAll(st.content[contentKey{o.site, "*held"}])
			}
		case oParam, oFVVal:
			if a.exclusive(owner, field) {
				out.add(o)
			} else {
				out.add(origin{k: oShared})
			}
		case oFVCell:
			if field == "*cell" {
				out.add(origin{k: oFVVal, i: o.i})
			} else {
				out.add(origin{k: oShared})
			}
		case oGlobal:
			out.add(origin{k: oGlobal})
		default:
			out.add(origin{k: oShared})
		}
	}
	return out
}

// addrParts splits an address into its base pointer and the field it selects
// ("[]" for elements).
func (a *ownA) addrParts(addr ssa.Value) (base ssa.Value, owner, field string) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		o, fl, _ := a.r.fieldOf(x.X.Type(), x.Field)
		return x.X, o, fl
	case *ssa.IndexAddr:
		// element of a slice or of an array inside an object
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			o, fl, _ := a.r.fieldOf(fa.X.Type(), fa.Field)
			return fa.X, o, fl
		}
		return x.X, "", "[]"
	}
	return addr, "", "*cell"
}

func (a *ownA) transfer(st *fstate, b *ssa.BasicBlock, in ssa.Instruction) bool {
	st.cur = b
	switch x := in.(type) {
	case *ssa.Alloc:
		return st.merge(x, fresh(x))
	case *ssa.MakeSlice:
		return st.merge(x, fresh(x))
	case *ssa.MakeMap:
		return st.merge(x, fresh(x))
	case *ssa.MakeChan:
		return st.merge(x, fresh(x))
	case *ssa.MakeClosure:
		ch := st.merge(x, fresh(x))
		if a.applyClosure(st, x) {
			ch = true
		}
		return ch
	case *ssa.FieldAddr:
		return st.merge(x, st.get(x.X))
	case *ssa.IndexAddr:
		return st.merge(x, st.get(x.X))
	case *ssa.Field:
		return st.merge(x, st.get(x.X))
	case *ssa.Index:
		return st.merge(x, st.get(x.X))
	case *ssa.Slice:
		return st.merge(x, st.get(x.X))
	case *ssa.Phi:
		ch := false
		for i, e := range x.Edges {
			st.cur = b.Preds[i]
			s := st.get(e)
			st.cur = b
			// A value refined by the guard on the way to this edge is owned.
			if len(s) > 0 && st.ownedAtEdge(a, b.Preds[i], b, e) {
				s = fresh(x)
			}
			if st.merge(x, s) {
				ch = true
			}
		}
		return ch
	case *ssa.ChangeInterface:
		return st.merge(x, st.get(x.X))
	case *ssa.ChangeType:
		return st.merge(x, st.get(x.X))
	case *ssa.MakeInterface:
		return st.merge(x, st.get(x.X))
	case *ssa.SliceToArrayPointer:
		return st.merge(x, st.get(x.X))
	case *ssa.Convert:
		if pointerLike(x.Type()) {
			if pointerLike(x.X.Type()) {
				return st.merge(x, st.get(x.X))
			}
			return st.merge(x, fresh(x)) // string to slice
		}
	case *ssa.TypeAssert:
		if x.CommaOk {
			return st.mergeTup(x, 0, 2, st.get(x.X))
		}
		return st.merge(x, st.get(x.X))
	case *ssa.Extract:
		if t := st.tup[x.Tuple]; t != nil {
			return st.merge(x, t[x.Index])
		}
	case *ssa.Lookup:
		if pointerLike(x.X.Type()) {
			s := a.loadFrom(st, st.get(x.X), "", "[]")
			if x.CommaOk {
				return st.mergeTup(x, 0, 2, s)
			}
			if pointerLike(x.Type()) {
				return st.merge(x, s)
			}
		}
	case *ssa.Range:
		return st.merge(x, st.get(x.X))
	case *ssa.Next:
		if !x.IsString {
			s := a.loadFrom(st, st.get(x.Iter), "", "[]")
			ch := st.mergeTup(x, 1, 3, s)
			if st.mergeTup(x, 2, 3, s) {
				ch = true
			}
			return ch
		}
	case *ssa.Select:
		n := 2
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				n++
			}
		}
		for i := 2; i < n; i++ {
			st.mergeTup(x, i, n, oset{origin{k: oShared}: true})
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if !pointerLike(x.Type()) {
				return false
			}
			if c := st.reach.loads[x]; c != nil {
				ch := false
				for _, v := range c {
					s := st.get(v)
					if st.merge(x, s) {
						ch = true
					}
				}
				return ch
			}
			base, owner, field := a.addrParts(x.X)
			return st.merge(x, a.loadFrom(st, st.get(base), owner, field))
		case token.ARROW:
			if x.CommaOk {
				return st.mergeTup(x, 0, 2, oset{origin{k: oShared}: true})
			}
			if pointerLike(x.Type()) {
				return st.merge(x, oset{origin{k: oShared}: true})
			}
		}
	case *ssa.Store:
		if pointerLike(x.Val.Type()) {
			base, _, field := a.addrParts(x.Addr)
			return a.storeContent(st, st.get(base), field, st.get(x.Val))
		}
	case *ssa.MapUpdate:
		ch := a.storeContent(st, st.get(x.Map), "[]", st.get(x.Key))
		if a.storeContent(st, st.get(x.Map), "[]", st.get(x.Value)) {
			ch = true
		}
		return ch
	case *ssa.Call:
		return a.call(st, x, &x.Call)
	}
	return false
}

func (a *ownA) storeContent(st *fstate, base oset, field string, val oset) bool {
	if len(val) == 0 {
		return false
	}
	if field == "*cell" {
		field = "*"
	}
	ch := false
	for o := range base {
		if o.k == oFresh {
			k := contentKey{o.site, field}
			if st.content[k] == nil {
				st.content[k] = oset{}
			}
			if st.content[k].addAll(val) {
				ch = true
			}
		}
	}
	return ch
}

// subst maps an origin of a callee to the caller.
func (a *ownA) subst(st *fstate, o origin, args []ssa.Value, bind []ssa.Value, call ssa.Value) oset {
	switch o.k {
	case oFresh:
		return fresh(call)
	case oParam:
		if o.i < len(args) {
			return st.get(args[o.i])
		}
		return oset{origin{k: oShared}: true}
	case oFVCell:
		if o.i < len(bind) {
			return st.get(bind[o.i])
		}
	case oFVVal:
		if o.i < len(bind) {
			return a.loadFrom(st, st.get(bind[o.i]), "", "*cell")
		}
	}
	return oset{o: true}
}

// callees resolves a call. ok is false if some callee is unknown.
func (a *ownA) callees(c *ssa.CallCommon) (fs []*ssa.Function, binds []ssa.Value, ok bool) {
	if c.IsInvoke() {
		fs = a.r.impls(c)
		return fs, nil, len(fs) > 0
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}, nil, true
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}, v.Bindings, true
	}
	return nil, nil, false
}

func (a *ownA) argsOf(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func (a *ownA) call(st *fstate, x *ssa.Call, c *ssa.CallCommon) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			s := oset{}
			s.addAll(fresh(x))
			s.addAll(st.get(c.Args[0]))
			ch := st.merge(x, s)
			// elements
			if len(c.Args) > 1 && pointerLike(elemType(c.Args[0].Type())) {
				ev := a.loadFrom(st, st.get(c.Args[1]), "", "[]")
				if a.storeContent(st, st.get(x), "[]", ev) {
					ch = true
				}
			}
			return ch
		case "copy":
			if pointerLike(elemType(c.Args[0].Type())) {
				return a.storeContent(st, st.get(c.Args[0]), "*", a.loadFrom(st, st.get(c.Args[1]), "", "[]"))
			}
		case "min", "max":
		}
		return false
	}
	args := a.argsOf(c)
	fs, bind, ok := a.callees(c)
	nres := c.Signature().Results().Len()
	put := func(i int, s oset) bool {
		if nres == 1 {
			if !pointerLike(x.Type()) {
				return false
			}
			return st.merge(x, s)
		}
		return st.mergeTup(x, i, nres, s)
	}
	if !ok {
		ch := false
		for i := 0; i < nres; i++ {
			if put(i, oset{origin{k: oShared}: true}) {
				ch = true
			}
		}
		return ch
	}
	ch := false
	for _, f := range fs {
		if !a.modelled(f) {
			m := externModel(f)
			if m == nil {
				a.unknown[f.String()] = true
			}
			for i := 0; i < nres; i++ {
				if put(i, a.externResult(st, f, m, args, x)) {
					ch = true
				}
			}
			continue
		}
		s := a.sum(f)
		for i := 0; i < nres && i < len(s.results); i++ {
			out := oset{}
			for o := range s.results[i] {
				out.addAll(a.subst(st, o, args, bind, x))
			}
			if put(i, out) {
				ch = true
			}
			held := oset{}
			for o := range s.held[i] {
				held.addAll(a.subst(st, o, args, bind, x))
			}
			delete(held, origin{k: oFresh, site: x})
			if a.storeContent(st, fresh(x), "*held", held) {
				ch = true
			}
		}
		for sd := range s.stores {
			if sd.dst.k == oParam || sd.dst.k == oFVCell || sd.dst.k == oFVVal {
				dst := a.subst(st, sd.dst, args, bind, x)
				val := a.subst(st, sd.val, args, bind, x)
				if a.storeContent(st, dst, sd.what, val) {
					ch = true
				}
			}
		}
		for sd := range s.keeps {
			if sd.dst.k == oParam {
				if a.storeContent(st, a.subst(st, sd.dst, args, bind, x), "*held", a.subst(st, sd.val, args, bind, x)) {
					ch = true
				}
			}
		}
	}
	return ch
}

func (a *ownA) applyClosure(st *fstate, x *ssa.MakeClosure) bool {
	f := x.Fn.(*ssa.Function)
	s := a.sum(f)
	ch := false
	for sd := range s.stores {
		if sd.dst.k == oFVCell || sd.dst.k == oFVVal {
			dst := a.subst(st, sd.dst, nil, x.Bindings, x)
			val := oset{origin{k: oShared}: true}
			if sd.val.k == oFVCell || sd.val.k == oFVVal {
				val = a.subst(st, sd.val, nil, x.Bindings, x)
			} else if sd.val.k == oFresh {
				val = fresh(x)
			}
			if a.storeContent(st, dst, sd.what, val) {
				ch = true
			}
		}
	}
	return ch
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return types.Typ[types.Invalid]
}

// ---- guards ----

func isWrapper(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return x.X
	case *ssa.ChangeInterface:
		return x.X
	case *ssa.ChangeType:
		return x.X
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return x.X
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return ta.X
		}
	}
	return nil
}

// canon strips conversions, and follows loads of captured local variables that
// have a single reaching store.
func (st *fstate) canon(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		if w := isWrapper(v); w != nil {
			v = w
			continue
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if c := st.reach.loads[u]; len(c) == 1 {
				v = c[0]
				continue
			}
		}
		return v
	}
	return v
}

// lin writes an integer value as base + constant.
func lin(v ssa.Value) (ssa.Value, int64) {
	var c int64
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.BinOp:
			if x.Op == token.ADD || x.Op == token.SUB {
				if k, ok := constInt(x.Y); ok {
					if x.Op == token.SUB {
						k = -k
					}
					c += k
					v = x.X
					continue
				}
				if k, ok := constInt(x.X); ok && x.Op == token.ADD {
					c += k
					v = x.Y
					continue
				}
			}
		case *ssa.Convert:
			if basicInfo(x.Type())&types.IsInteger != 0 && basicInfo(x.X.Type())&types.IsInteger != 0 {
				v = x.X
				continue
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		break
	}
	return v, c
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

// guardOf: the objects known to be owned when the condition has the given
// truth value.
func (a *ownA) guardOf(st *fstate, cond ssa.Value, truth bool, depth int) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	if depth > 8 {
		return out
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.guardOf(st, x.X, !truth, depth+1)
		}
		if x.Op == token.MUL {
			if c := st.reach.loads[x]; len(c) == 1 {
				return a.guardOf(st, c[0], truth, depth+1)
			}
		}
	case *ssa.BinOp:
		op := x.Op
		if !truth {
			switch op {
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			default:
				return out
			}
		}
		l, lc := lin(x.X)
		r, rc := lin(x.Y)
		if op == token.LSS || op == token.LEQ {
			l, r = r, l
			lc, rc = rc, lc
			if op == token.LSS {
				op = token.GTR
			} else {
				op = token.GEQ
			}
		}
		if op != token.GTR && op != token.GEQ {
			return out
		}
		// l + lc > r + rc   (or >=)
		lo, lr := a.fieldRead(l)
		_, rr := a.fieldRead(r)
		if lr == rID && rr == rMark {
			d := rc - lc // l > r + d
			if op == token.GEQ {
				d--
			}
			if d >= 0 {
				out[st.canon(lo)] = true
				a.guardPos[x.Pos()] = true
			}
		}
	case *ssa.Phi:
		// true only if it came from an edge whose value can be true
		var acc map[ssa.Value]bool
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				if constant.BoolVal(c.Value) != truth {
					continue
				}
			}
			g := a.guardOf(st, e, truth, depth+1)
			pred := x.Block().Preds[i]
			if st.owned != nil {
				for v := range st.owned[pred.Index] {
					g[v] = true
				}
			}
			if acc == nil {
				acc = g
			} else {
				for v := range acc {
					if !g[v] {
						delete(acc, v)
					}
				}
			}
		}
		if acc != nil {
			return acc
		}
	case *ssa.Call:
		fs, _, ok := a.callees(&x.Call)
		if !ok || len(fs) != 1 {
			return out
		}
		s := a.sums[fs[0]]
		if s == nil {
			return out
		}
		m := s.ownTrue
		if !truth {
			m = s.ownFalse
		}
		args := a.argsOf(&x.Call)
		for i := range m {
			if i < len(args) {
				out[st.canon(args[i])] = true
			}
		}
	}
	return out
}

// edgeOwned: values owned on the edge from p to b because of p's branch.
func (a *ownA) edgeOwned(st *fstate, p, b *ssa.BasicBlock) map[ssa.Value]bool {
	br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return nil
	}
	return a.guardOf(st, br.Cond, p.Succs[0] == b, 0)
}

func (a *ownA) ownedFacts(st *fstate) {
	f := st.f
	n := len(f.Blocks)
	owned := make([]map[ssa.Value]bool, n)
	st.owned = make([]map[ssa.Value]bool, n)
	for i := range st.owned {
		st.owned[i] = map[ssa.Value]bool{}
	}
	done := make([]bool, n)
	for it := 0; it < 30; it++ {
		ch := false
		for _, b := range f.Blocks {
			var acc map[ssa.Value]bool
			if len(b.Preds) == 0 {
				acc = map[ssa.Value]bool{}
			}
			for _, p := range b.Preds {
				if !done[p.Index] {
					continue // optimistic on back edges
				}
				g := map[ssa.Value]bool{}
				for v := range owned[p.Index] {
					g[v] = true
				}
				for v := range a.edgeOwned(st, p, b) {
					g[v] = true
				}
				if acc == nil {
					acc = g
				} else {
					for v := range acc {
						if !g[v] {
							delete(acc, v)
						}
					}
				}
			}
			if acc == nil {
				continue
			}
			if !done[b.Index] || len(acc) != len(owned[b.Index]) {
				ch = true
			}
			done[b.Index] = true
			owned[b.Index] = acc
		}
		if !ch {
			break
		}
	}
	for i := range owned {
		if owned[i] != nil {
			st.owned[i] = owned[i]
		}
	}
	// what a boolean result says about the parameters
	s := a.sum(f)
	res := f.Signature.Results()
	if res.Len() >= 1 && basicInfo(res.At(0).Type())&types.IsBoolean != 0 {
		var accT, accF map[int]bool
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, truth := range []bool{true, false} {
				if c, ok := ret.Results[0].(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) != truth {
					continue
				}
				g := a.guardOf(st, ret.Results[0], truth, 0)
				for v := range st.owned[b.Index] {
					g[v] = true
				}
				m := map[int]bool{}
				for i, p := range f.Params {
					if g[p] {
						m[i] = true
					}
				}
				acc := &accT
				if !truth {
					acc = &accF
				}
				if *acc == nil {
					*acc = m
				} else {
					for i := range *acc {
						if !m[i] {
							delete(*acc, i)
						}
					}
				}
			}
		}
		if len(accT) != len(s.ownTrue) || len(accF) != len(s.ownFalse) {
			a.changed = true
		}
		s.ownTrue, s.ownFalse = accT, accF
	}
}

func (st *fstate) isOwned(a *ownA, b *ssa.BasicBlock, v ssa.Value) bool {
	if st.owned == nil {
		return false
	}
	return st.owned[b.Index][st.canon(v)]
}

func (st *fstate) ownedAtEdge(a *ownA, p, b *ssa.BasicBlock, v ssa.Value) bool {
	if st.owned == nil {
		return false
	}
	c := st.canon(v)
	return st.owned[p.Index][c] || a.edgeOwned(st, p, b)[c]
}

// ---- collecting effects ----

func (a *ownA) addWrite(s *summary, w write, chain string) {
	w.target.site = nil
	if _, ok := s.writes[w]; !ok {
		s.writes[w] = chain
		a.changed = true
	}
}

func (a *ownA) addStore(s *summary, sd stored, chain string) {
	if _, ok := s.stores[sd]; !ok {
		s.stores[sd] = chain
		a.changed = true
	}
}

// objectOf finds the value whose ownership decides about a write through addr:
// the object, followed up through interior pointers and exclusive fields.
func (a *ownA) objectOf(st *fstate, v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.IndexAddr:
			v = x.X
			continue
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if c := st.reach.loads[x]; len(c) == 1 {
					v = c[0]
					continue
				}
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					o, fl, _ := a.r.fieldOf(fa.X.Type(), fa.Field)
					if a.exclusive(o, fl) {
						v = fa.X
						continue
					}
				}
			}
		case *ssa.Call:
			// a getter of an exclusive field or of an embedded array
			if o := a.getterObject(&x.Call); o != nil {
				v = o
				continue
			}
		}
		if w := isWrapper(v); w != nil {
			v = w
			continue
		}
		return v
	}
	return v
}

// getterObject: every callee returns only memory of its receiver.
func (a *ownA) getterObject(c *ssa.CallCommon) ssa.Value {
	fs, _, ok := a.callees(c)
	if !ok || len(fs) == 0 {
		return nil
	}
	args := a.argsOf(c)
	if len(args) == 0 {
		return nil
	}
	hit := false
	for _, f := range fs {
		s := a.sums[f]
		if s == nil || len(s.results) != 1 {
			return nil
		}
		for o := range s.results[0] {
			if o.k == oFresh {
				continue
			}
			if o.k != oParam || o.i != 0 {
				return nil
			}
			hit = true
		}
	}
	if !hit {
		return nil
	}
	// Only interior memory, not the object itself passed through.
	if _, ok := c.Signature().Results().At(0).Type().Underlying().(*types.Slice); !ok {
		return nil
	}
	return args[0]
}

func (a *ownA) noteWrite(st *fstate, b *ssa.BasicBlock, ptr ssa.Value, kind wkind, what string, pos token.Pos, chain string) {
	if st.isOwned(a, b, a.objectOf(st, ptr)) {
		return
	}
	s := a.sum(st.f)
	for o := range st.get(ptr) {
		if o.k == oFresh {
			continue
		}
		a.addWrite(s, write{target: o, kind: kind, what: what, pos: pos}, chain)
	}
}

func (a *ownA) noteStore(st *fstate, base ssa.Value, field string, val oset, pos token.Pos, chain string) {
	s := a.sum(st.f)
	for d := range st.get(base) {
		for v := range val {
			dd, vv := d, v
			if dd.k == oFresh {
				continue
			}
			vv.site = nil
			dd.site = nil
			a.addStore(s, stored{val: vv, dst: dd, what: field, pos: pos}, chain)
		}
		a.noteKeeps(st, d, val, field, pos, chain)
	}
}

// noteKeeps: what is stored holds on to byte slices the function was given.
func (a *ownA) noteKeeps(st *fstate, dst origin, val oset, field string, pos token.Pos, chain string) {
	if dst.k == oFresh {
		return
	}
	for h := range a.heldBy(st, val) {
		if h.k == oParam && h.i < len(st.f.Params) && isByteSlice(st.f.Params[h.i].Type()) {
			a.addKeep(a.sum(st.f), stored{val: h, dst: origin{k: dst.k, i: dst.i}, what: field, pos: pos}, chain)
		}
	}
}

func (a *ownA) addKeep(s *summary, sd stored, chain string) {
	if s.keeps == nil {
		s.keeps = map[stored]string{}
	}
	if _, ok := s.keeps[sd]; !ok {
		s.keeps[sd] = chain
		a.changed = true
	}
}

func (a *ownA) collect(st *fstate) {
	f := st.f
	s := a.sum(f)
	s.analysed = true
	for _, b := range f.Blocks {
		st.cur = b
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				base, owner, field := a.addrParts(x.Addr)
				what := field
				if owner != "" {
					what = owner + "." + field
				}
				a.noteWrite(st, b, x.Addr, wPlain, what, x.Pos(), "")
				if pointerLike(x.Val.Type()) {
					a.noteStore(st, base, field, st.get(x.Val), x.Pos(), "")
				}
			case *ssa.MapUpdate:
				a.noteWrite(st, b, x.Map, wPlain, "map entry", x.Pos(), "")
				a.noteStore(st, x.Map, "[]", st.get(x.Key), x.Pos(), "")
				a.noteStore(st, x.Map, "[]", st.get(x.Value), x.Pos(), "")
			case *ssa.Send:
				a.noteStore(st, x.Chan, "chan", st.get(x.X), x.Pos(), "")
			case *ssa.Go:
				a.collectCall(st, b, x, &x.Call)
			case *ssa.Defer:
				a.collectCall(st, b, x, &x.Call)
			case *ssa.Call:
				a.collectCall(st, b, x, &x.Call)
			case *ssa.MakeClosure:
				a.collectClosure(st, b, x)
			case *ssa.Return:
				for i, r := range x.Results {
					if !pointerLike(r.Type()) {
						continue
					}
					val := st.get(r)
					if len(val) > 0 && st.isOwned(a, b, a.objectOf(st, r)) && st.canon(r) == a.objectOf(st, r) {
						val = fresh(nil)
					}
					for o := range val {
						if o.k == oFresh {
							o.site = nil
						}
						if s.results[i].add(o) {
							a.changed = true
						}
					}
					for o := range a.heldBy(st, val) {
						if s.held[i].add(o) {
							a.changed = true
						}
					}
					if isSlice(r.Type()) && s.clipped[i] && !a.isClipped(st, r, map[ssa.Value]bool{}) {
						s.clipped[i] = false
						a.changed = true
					}
				}
			}
		}
	}
}

// heldBy: what the fresh objects among the origins hold on to, transitively.
func (a *ownA) heldBy(st *fstate, s oset) oset {
	out := oset{}
	seen := map[ssa.Value]bool{}
	var visit func(s oset)
	visit = func(s oset) {
		for o := range s {
			if o.k != oFresh || o.site == nil || seen[o.site] {
				continue
			}
			seen[o.site] = true
			for k, c := range st.content {
				if k.site != o.site {
					continue
				}
				for h := range c {
					if h.k != oFresh {
						out.add(h)
					}
				}
				visit(c)
			}
		}
	}
	visit(s)
	return out
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// isClipped: an append to the value cannot write to memory that others see.
func (a *ownA) isClipped(st *fstate, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		if x.Max != nil && sameLen(st, x.High, x.Max) {
			return true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.isClipped(st, e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if c := st.reach.loads[x]; len(c) > 0 && x.Op == token.MUL {
			for _, e := range c {
				if !a.isClipped(st, e, seen) {
					return false
				}
			}
			return true
		}
	case *ssa.ChangeType:
		return a.isClipped(st, x.X, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.callClipped(st, c, x.Index)
		}
	case *ssa.Call:
		return a.callClipped(st, x, 0) || onlyFresh(st.get(v))
	}
	return onlyFresh(st.get(v))
}

func onlyFresh(s oset) bool {
	for o := range s {
		if o.k != oFresh {
			return false
		}
	}
	return len(s) > 0
}

func (a *ownA) callClipped(st *fstate, c *ssa.Call, i int) bool {
	fs, _, ok := a.callees(&c.Call)
	if !ok || len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		if !a.modelled(f) {
			return false
		}
		if !a.sum(f).clipped[i] {
			return false
		}
	}
	return true
}

func sameLen(st *fstate, h, m ssa.Value) bool {
	if h == nil {
		return false
	}
	if h == m {
		return true
	}
	hc, ok1 := constInt(h)
	mc, ok2 := constInt(m)
	if ok1 && ok2 {
		return hc == mc
	}
	lenOf := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return st.canon(c.Call.Args[0])
			}
		}
		return nil
	}
	hb, hk := lin(h)
	mb, mk := lin(m)
	if hk != mk {
		return false
	}
	if hb == mb {
		return true
	}
	a, b := lenOf(hb), lenOf(mb)
	return a != nil && a == b
}

func (a *ownA) collectClosure(st *fstate, b *ssa.BasicBlock, x *ssa.MakeClosure) {
	f := x.Fn.(*ssa.Function)
	for w, ch := range a.sum(f).writes {
		switch w.target.k {
		case oFVCell, oFVVal:
			a.propagate(st, b, w, ch, a.subst(st, w.target, nil, x.Bindings, x), nil, fname(f), x.Pos())
		case oParam:
			// Depends on what the closure is called with: unknown when it is
			// handed to someone else, resolved when it is called here.
		default:
			a.propagate(st, b, w, ch, oset{w.target: true}, nil, fname(f), x.Pos())
		}
	}
	for sd := range a.sum(f).stores {
		if sd.dst.k == oFVVal || sd.dst.k == oFVCell || sd.dst.k == oShared || sd.dst.k == oGlobal {
			dst := a.subst(st, sd.dst, nil, x.Bindings, x)
			val := a.subst(st, sd.val, nil, x.Bindings, x)
			for d := range dst {
				for v := range val {
					if d.k == oFresh {
						continue
					}
					v.site, d.site = nil, nil
					a.addStore(a.sum(st.f), stored{val: v, dst: d, what: sd.what, pos: sd.pos}, fname(f))
				}
			}
		}
	}
}

func addChain(f, rest string) string {
	if rest == "" {
		return f
	}
	if strings.Count(rest, " > ") >= 3 {
		return f + " > ..."
	}
	if strings.Contains(rest, "...") {
		return f + " > ..."
	}
	return f + " > " + rest
}

// propagate lifts a callee's write into the caller.
func (a *ownA) propagate(st *fstate, b *ssa.BasicBlock, w write, chain string, targets oset, argObj ssa.Value, callee string, pos token.Pos) {
	if argObj != nil && st.isOwned(a, b, a.objectOf(st, argObj)) {
		return
	}
	s := a.sum(st.f)
	for o := range targets {
		if o.k == oFresh {
			continue
		}
		nw := w
		o.site = nil
		nw.target = o
		c := addChain(callee, chain)
		if o.k == oShared && w.target.k != oShared {
			// this call is where shared memory enters
			c = callee + " (passed at " + a.p.pos(pos) + " in " + fname(st.f) + ")"
		}
		a.addWrite(s, nw, c)
	}
}

func (a *ownA) collectCall(st *fstate, b *ssa.BasicBlock, in ssa.CallInstruction, c *ssa.CallCommon) {
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			if !a.isClipped(st, c.Args[0], map[ssa.Value]bool{}) {
				a.noteWrite(st, b, c.Args[0], wAppend, "slice elements", in.Pos(), "")
			}
			if len(c.Args) > 1 && pointerLike(elemType(c.Args[0].Type())) {
				ev := a.loadFrom(st, st.get(c.Args[1]), "", "[]")
				a.noteStore(st, c.Args[0], "[]", ev, in.Pos(), "")
			}
		case "copy":
			a.noteWrite(st, b, c.Args[0], wPlain, "slice elements (copy)", in.Pos(), "")
			if pointerLike(elemType(c.Args[0].Type())) {
				a.noteStore(st, c.Args[0], "[]", a.loadFrom(st, st.get(c.Args[1]), "", "[]"), in.Pos(), "")
			}
		case "clear", "delete":
			a.noteWrite(st, b, c.Args[0], wPlain, bi.Name(), in.Pos(), "")
		}
		return
	}
	args := a.argsOf(c)
	fs, bind, ok := a.callees(c)
	if !ok {
		// A function value: its captured effects were counted where it was made.
		return
	}
	var callV ssa.Value
	if v, ok := in.(*ssa.Call); ok {
		callV = v
	}
	for _, f := range fs {
		if !a.modelled(f) {
			a.externWrites(st, b, in, f, args)
			continue
		}
		s := a.sum(f)
		for w, ch := range s.writes {
			switch w.target.k {
			case oParam:
				if w.target.i >= len(args) {
					continue
				}
				// The write may be to memory inside the argument.
				a.propagate(st, b, w, ch, st.get(args[w.target.i]), args[w.target.i], fname(f), in.Pos())
			case oFVCell, oFVVal:
				a.propagate(st, b, w, ch, a.subst(st, w.target, args, bind, callV), nil, fname(f), in.Pos())
			default:
				a.propagate(st, b, w, ch, oset{w.target: true}, nil, fname(f), in.Pos())
			}
		}
		for sd, ch := range s.stores {
			dst := a.subst(st, sd.dst, args, bind, callV)
			val := a.subst(st, sd.val, args, bind, callV)
			for d := range dst {
				for v := range val {
					if d.k == oFresh {
						continue
					}
					v.site, d.site = nil, nil
					a.addStore(a.sum(st.f), stored{val: v, dst: d, what: sd.what, pos: sd.pos}, addChain(fname(f), ch))
				}
				a.noteKeeps(st, d, val, sd.what, sd.pos, addChain(fname(f), ch))
			}
		}
		for sd, ch := range s.keeps {
			for d := range a.subst(st, sd.dst, args, bind, callV) {
				for v := range a.subst(st, sd.val, args, bind, callV) {
					if d.k == oFresh || v.k != oParam {
						continue
					}
					a.addKeep(a.sum(st.f), stored{val: v, dst: origin{k: d.k, i: d.i}, what: sd.what, pos: sd.pos}, addChain(fname(f), ch))
				}
			}
		}
	}
}

// ---- models of functions outside the package ----

type extModel struct {
	pure   bool
	writes []int // arguments whose memory is written
	alias  bool  // results may alias arguments
}

func externModel(f *ssa.Function) *extModel {
	pp := pkgPath(f)
	name := f.Name()
	switch pp {
	case "sync/atomic":
		return &extModel{}
	case "internal/bytealg", "fmt", "strconv", "errors", "unicode", "unicode/utf8", "math", "math/bits", "runtime", "os", "log", "time", "reflect", "math/rand", "math/rand/v2", "internal/stringslite", "internal/abi", "sync", "cmp", "io":
		return &extModel{pure: true}
	case "bytes", "strings", "sort", "slices", "maps":
		_ = name
		return &extModel{pure: true, alias: true}
	}
	return nil
}

func (a *ownA) externResult(st *fstate, f *ssa.Function, m *extModel, args []ssa.Value, x ssa.Value) oset {
	out := fresh(x)
	if m == nil || m.alias {
		for _, g := range args {
			out.addAll(st.get(g))
		}
	}
	if m != nil && pkgPath(f) == "sync/atomic" && len(args) > 0 {
		// Load, Swap: what the cell holds
		out = oset{}
		for o := range st.get(args[0]) {
			switch o.k {
			case oGlobal:
				out.add(o)
			default:
				out.add(origin{k: oShared})
			}
		}
	}
	return out
}

func (a *ownA) externWrites(st *fstate, b *ssa.BasicBlock, in ssa.CallInstruction, f *ssa.Function, args []ssa.Value) {
	pp := pkgPath(f)
	base := f.Name()
	if i := strings.IndexByte(base, '['); i >= 0 {
		base = base[:i]
	}
	if pp == "sync/atomic" {
		if len(args) == 0 {
			return
		}
		kind := wAtomic
		switch {
		case strings.HasPrefix(base, "Load"):
			return
		case strings.HasPrefix(base, "CompareAndSwap"):
			kind = wCASAny
			if len(args) >= 2 {
				if c, ok := args[1].(*ssa.Const); ok && c.IsNil() {
					kind = wCAS
				}
			}
		}
		what := "atomic cell"
		if fa, ok := args[0].(*ssa.FieldAddr); ok {
			o, fl, _ := a.r.fieldOf(fa.X.Type(), fa.Field)
			what = o + "." + fl
		}
		a.noteWrite(st, b, args[0], kind, what, in.Pos(), "")
		for _, v := range args[1:] {
			if pointerLike(v.Type()) {
				a.noteStore(st, args[0], what, st.get(v), in.Pos(), "")
			}
		}
		return
	}
	if externModel(f) == nil {
		for _, v := range args {
			if pointerLike(v.Type()) && !a.opaque(v.Type()) {
				a.noteWrite(st, b, v, wPlain, "argument of "+f.String(), in.Pos(), "")
			}
		}
		return
	}
	switch pp {
	case "io", "os":
		if strings.HasPrefix(base, "Read") {
			for _, v := range args {
				if isSlice(v.Type()) {
					a.noteWrite(st, b, v, wPlain, "argument of "+f.String(), in.Pos(), "")
				}
			}
		}
	case "sort":
		// methods that are not analysed work through an interface
	}
}

// ---- exclusive fields ----

// checkExclusive looks at every store to every reference-typed field and
// removes the fields that can alias other objects. It reports whether it
// removed any.
func (a *ownA) checkExclusive() bool {
	removed := false
	a.exclChk = map[fieldKey]int{}
	drop := func(owner, field, why string) {
		k := fieldKey{owner, field}
		if _, ok := a.p.types[owner]; !ok {
			return
		}
		if _, ok := a.notExcl[k]; !ok {
			a.notExcl[k] = why
			removed = true
		}
	}
	for _, f := range a.fn {
		st := a.states[f]
		if st == nil || !a.p.inPackage(f) {
			continue
		}
		// where each fresh object ends up
		type sink struct {
			obj ssa.Value
			key fieldKey
			pos token.Pos
		}
		sinks := map[ssa.Value][]sink{}
		other := map[ssa.Value]string{}
		judge := func(objv ssa.Value, obj oset, owner, field string, val oset, valv ssa.Value, pos token.Pos) {
			k := fieldKey{owner, field}
			a.exclChk[k]++
			if !a.exclusive(owner, field) {
				for v := range val {
					if v.k == oFresh && v.site != nil {
						other[v.site] = fmt.Sprintf("also stored in %s.%s at %s", owner, field, a.p.pos(pos))
					}
				}
				return
			}
			for v := range val {
				switch v.k {
				case oFresh:
					if v.site != nil {
						sinks[v.site] = append(sinks[v.site], sink{objv, k, pos})
					}
				case oParam, oFVVal:
					if len(obj) == 1 && obj[v] {
						continue // the object's own memory
					}
					drop(owner, field, fmt.Sprintf("%s stores memory of another object at %s", fname(f), a.p.pos(pos)))
				default:
					drop(owner, field, fmt.Sprintf("%s stores memory that others can reach at %s", fname(f), a.p.pos(pos)))
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if !pointerLike(x.Val.Type()) {
						continue
					}
					base, owner, field := a.addrParts(x.Addr)
					if owner != "" {
						if a.isSetter(f) {
							continue // judged where it is called
						}
						judge(st.canon(base), st.get(base), owner, field, st.get(x.Val), x.Val, x.Pos())
						continue
					}
					// a whole struct copied
					if n := namedOf(x.Val.Type()); n != nil && structOf(n) != nil {
						if _, isPtr := x.Val.Type().Underlying().(*types.Pointer); !isPtr && a.p.types[n.Obj().Name()] != nil {
							sst := structOf(n)
							for i := 0; i < sst.NumFields(); i++ {
								ff := sst.Field(i)
								if _, isArr := ff.Type().Underlying().(*types.Array); isArr || !pointerLike(ff.Type()) {
									continue
								}
								if a.overwrittenAfter(st, x, x.Addr, ff.Name()) {
									continue
								}
								if onlyFreshSites(st.get(x.Val)) {
									continue
								}
								if u, ok := x.Val.(*ssa.UnOp); ok {
									if _, ok := u.X.(*ssa.Alloc); ok && onlyFresh(st.get(u.X)) {
										continue // composite literal
									}
								}
								if a.exclusive(n.Obj().Name(), ff.Name()) {
									drop(n.Obj().Name(), ff.Name(), fmt.Sprintf("%s copies the whole object at %s", fname(f), a.p.pos(x.Pos())))
								}
							}
						}
					}
					for v := range st.get(x.Val) {
						if v.k == oFresh && v.site != nil && field != "*cell" {
							other[v.site] = "also stored at " + a.p.pos(x.Pos())
						}
					}
				case *ssa.Call:
					fs, _, ok := a.callees(&x.Call)
					if !ok {
						continue
					}
					args := a.argsOf(&x.Call)
					for _, g := range fs {
						k, argi := a.setterField(g)
						if argi > 0 && argi < len(args) {
							judge(st.canon(args[0]), st.get(args[0]), k.typ, k.field, st.get(args[argi]), args[argi], x.Pos())
						}
					}
				case *ssa.Return:
					for _, r := range x.Results {
						for v := range st.get(r) {
							if v.k == oFresh && v.site != nil {
								if _, isCall := v.site.(*ssa.Call); !isCall {
									other[v.site] = "also returned at " + a.p.pos(x.Pos())
								} else if _, ok := r.(*ssa.Call); ok {
									other[v.site] = "also returned at " + a.p.pos(x.Pos())
								}
							}
						}
					}
				}
			}
		}
		for site, ss := range sinks {
			// The same fresh memory kept by two objects, or kept and handed out.
			objs := map[ssa.Value]bool{}
			for _, k := range ss {
				objs[k.obj] = true
			}
			// The five implementations of one setter call count once: same obj.
			if len(objs) > 1 {
				for _, k := range ss {
					drop(k.key.typ, k.key.field, fmt.Sprintf("%s keeps the same memory in two objects (%s)", fname(f), a.p.pos(k.pos)))
				}
			}
			if why, ok := other[site]; ok {
				for _, k := range ss {
					drop(k.key.typ, k.key.field, fmt.Sprintf("%s stores memory at %s that is %s", fname(f), a.p.pos(k.pos), why))
				}
			}
		}
	}
	return removed
}

func onlyFreshSites(s oset) bool { return len(s) == 0 }

// overwrittenAfter: every path from the store to a return sets the field again.
func (a *ownA) overwrittenAfter(st *fstate, at *ssa.Store, obj ssa.Value, field string) bool {
	sets := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				_, fl, _ := a.r.fieldOf(fa.X.Type(), fa.Field)
				return fl == field && fa.X == obj
			}
		case *ssa.Call:
			fs, _, ok := a.callees(&x.Call)
			if !ok {
				return false
			}
			args := a.argsOf(&x.Call)
			for _, g := range fs {
				if k, i := a.setterField(g); i > 0 && k.field == field && st.canon(args[0]) == st.canon(obj) {
					return true
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for i := from; i < len(b.Instrs); i++ {
			if sets(b.Instrs[i]) {
				return true
			}
			if _, ok := b.Instrs[i].(*ssa.Return); ok {
				return false
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	idx := 0
	for i, in := range at.Block().Instrs {
		if in == ssa.Instruction(at) {
			idx = i + 1
		}
	}
	return walk(at.Block(), idx)
}

// setterField: the function only stores one parameter into a field of its
// receiver.
func (a *ownA) setterField(f *ssa.Function) (fieldKey, int) {
	if !a.p.inPackage(f) || f.Signature.Recv() == nil || len(f.Blocks) != 1 {
		return fieldKey{}, 0
	}
	var key fieldKey
	arg := 0
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.FieldAddr, *ssa.Return, *ssa.DebugRef:
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != f.Params[0] || arg != 0 {
				return fieldKey{}, 0
			}
			for i, p := range f.Params {
				if x.Val == p {
					arg = i
				}
			}
			if arg == 0 {
				return fieldKey{}, 0
			}
			o, fl, _ := a.r.fieldOf(fa.X.Type(), fa.Field)
			key = fieldKey{o, fl}
		default:
			return fieldKey{}, 0
		}
	}
	return key, arg
}

func (a *ownA) isSetter(f *ssa.Function) bool {
	_, i := a.setterField(f)
	return i > 0
}

// ---- local cells ----

// cells resolves loads of local variables that live in memory (because a
// closure captures them) to the stores that reach them.
type cells struct {
	loads map[*ssa.UnOp][]ssa.Value
}

func newCells(f *ssa.Function) *cells {
	c := &cells{loads: map[*ssa.UnOp][]ssa.Value{}}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			simple := true
			var loads []*ssa.UnOp
			for _, ref := range *al.Referrers() {
				switch r := ref.(type) {
				case *ssa.Store:
					if r.Addr != al {
						simple = false
					}
				case *ssa.UnOp:
					loads = append(loads, r)
				case *ssa.MakeClosure:
					if closureWrites(r, al) {
						simple = false
					}
				case *ssa.DebugRef:
				default:
					simple = false
				}
			}
			if !simple {
				continue
			}
			reachingStores(f, al, loads, c)
		}
	}
	return c
}

func closureWrites(mc *ssa.MakeClosure, al *ssa.Alloc) bool {
	fn := mc.Fn.(*ssa.Function)
	for i, bnd := range mc.Bindings {
		if bnd != al {
			continue
		}
		for _, ref := range *fn.FreeVars[i].Referrers() {
			switch ref.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return true
			}
		}
	}
	return false
}

func reachingStores(f *ssa.Function, al *ssa.Alloc, loads []*ssa.UnOp, c *cells) {
	type set = map[*ssa.Store]bool
	in := make([]set, len(f.Blocks))
	out := make([]set, len(f.Blocks))
	for i := range in {
		in[i], out[i] = set{}, set{}
	}
	xfer := func(b *ssa.BasicBlock, s set, at func(u *ssa.UnOp, s set)) set {
		cur := set{}
		for k := range s {
			cur[k] = true
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if x.Addr == al {
					cur = set{x: true}
				}
			case *ssa.UnOp:
				if x.X == al && at != nil {
					at(x, cur)
				}
			}
		}
		return cur
	}
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			for _, p := range b.Preds {
				for k := range out[p.Index] {
					if !in[b.Index][k] {
						in[b.Index][k] = true
						ch = true
					}
				}
			}
			o := xfer(b, in[b.Index], nil)
			for k := range o {
				if !out[b.Index][k] {
					out[b.Index][k] = true
					ch = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		xfer(b, in[b.Index], func(u *ssa.UnOp, s set) {
			vals := []ssa.Value{}
			for k := range s {
				vals = append(vals, k.Val)
			}
			sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
			c.loads[u] = vals
		})
	}
	_ = loads
}
