package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Roles maps the concepts the rules talk about to the types and fields of the
// package. Exported names anchor the types. Fields are found by name first, and
// by type or use when they were renamed.
type Roles struct {
	p *Prog

	nodeIface *types.Named   // Node
	nodes     []*types.Named // implementations
	inner     []*types.Named
	leaf      *types.Named
	tree      *types.Named
	txn       *types.Named
	iters     []*types.Named

	isNode map[*types.TypeName]bool

	// canonical role of each field: struct type name + field name -> role
	role map[fieldKey]string
}

type fieldKey struct {
	typ   string
	field string
}

// field roles
const (
	rID       = "id"
	rPLen     = "partialLen"
	rNum      = "numChildren"
	rPartial  = "partial"
	rKeys     = "keys"
	rChildren = "children"
	rChan     = "mutateCh"
	rLeaf     = "leaf"
	rKey      = "key"
	rValue    = "value"
	rRoot     = "root"
	rSize     = "size"
	rMaxID    = "maxNodeId"
	rTree     = "tree"
	rMark     = "oldMaxNodeId"
	rTrack    = "trackMutate"
	rTracked  = "trackChnSlice"
)

func structOf(n *types.Named) *types.Struct {
	s, _ := n.Underlying().(*types.Struct)
	return s
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func findRoles(p *Prog) (*Roles, error) {
	r := &Roles{p: p, isNode: map[*types.TypeName]bool{}, role: map[fieldKey]string{}}
	get := func(name string) (*types.Named, error) {
		n := p.types[name]
		if n == nil {
			return nil, fmt.Errorf("anchor type %s not found", name)
		}
		return n, nil
	}
	var err error
	if r.tree, err = get("RadixTree"); err != nil {
		return nil, err
	}
	if r.txn, err = get("Txn"); err != nil {
		return nil, err
	}
	if r.nodeIface, err = get("Node"); err != nil {
		return nil, err
	}
	for _, n := range []string{"Iterator", "LowerBoundIterator", "ReverseIterator", "PathIterator"} {
		it, err := get(n)
		if err != nil {
			return nil, err
		}
		r.iters = append(r.iters, it)
	}
	iface := r.nodeIface.Underlying().(*types.Interface)
	for _, name := range p.tpkg.Scope().Names() {
		n := p.types[name]
		if n == nil || structOf(n) == nil {
			continue
		}
		if types.Implements(types.NewPointer(n), iface) {
			r.nodes = append(r.nodes, n)
			r.isNode[n.Obj()] = true
			st := structOf(n)
			leaf := false
			for i := 0; i < st.NumFields(); i++ {
				if types.Identical(st.Field(i).Type(), p.valT) {
					leaf = true
				}
			}
			if leaf {
				if r.leaf != nil {
					return nil, fmt.Errorf("two leaf types: %s and %s", r.leaf, n)
				}
				r.leaf = n
			} else {
				r.inner = append(r.inner, n)
			}
		}
	}
	if r.leaf == nil || len(r.inner) == 0 {
		return nil, fmt.Errorf("no leaf or inner node types found")
	}
	for _, n := range r.nodes {
		if err := r.assign(n, r.nodeRoleOf, r.nodeWanted(n)); err != nil {
			return nil, err
		}
	}
	if err := r.assign(r.tree, r.treeRoleOf, []string{rRoot, rSize, rMaxID}); err != nil {
		return nil, err
	}
	if err := r.assign(r.txn, r.txnRoleOf, []string{rTree, rSize, rMark, rTrack, rTracked}); err != nil {
		return nil, err
	}
	return r, nil
}

func (r *Roles) nodeWanted(n *types.Named) []string {
	if n == r.leaf {
		return []string{rID, rKey, rValue, rChan}
	}
	return []string{rID, rPLen, rNum, rPartial, rChildren, rChan, rLeaf}
}

// assign gives each wanted role to a field: the one of that name, or else the
// only remaining field whose type fits.
func (r *Roles) assign(n *types.Named, fits func(*types.Named, *types.Var, string) bool, wanted []string) error {
	st := structOf(n)
	taken := map[int]bool{}
	miss := []string{}
	for _, w := range append(append([]string{}, wanted...), rKeys) {
		done := false
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Name() == w && fits(n, f, w) && !taken[i] {
				taken[i] = true
				done = true
				r.role[fieldKey{n.Obj().Name(), f.Name()}] = w
			}
		}
		if !done && w != rKeys {
			miss = append(miss, w)
		}
		if !done && w == rKeys && r.isNode[n.Obj()] && n != r.leaf {
			// optional: renamed array of bytes
			for i := 0; i < st.NumFields(); i++ {
				if a, ok := st.Field(i).Type().Underlying().(*types.Array); ok && !taken[i] {
					if b, ok := a.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
						taken[i] = true
						r.role[fieldKey{n.Obj().Name(), st.Field(i).Name()}] = rKeys
						break
					}
				}
			}
		}
	}
	for _, w := range miss {
		cand := -1
		for i := 0; i < st.NumFields(); i++ {
			if !taken[i] && fits(n, st.Field(i), w) {
				if cand < 0 {
					cand = i
				}
			}
		}
		if cand < 0 {
			return fmt.Errorf("no field of %s plays the role %q", n.Obj().Name(), w)
		}
		taken[cand] = true
		r.role[fieldKey{n.Obj().Name(), st.Field(cand).Name()}] = w
	}
	return nil
}

func basicInfo(t types.Type) types.BasicInfo {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()
	}
	return 0
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

func (r *Roles) nodeRoleOf(n *types.Named, f *types.Var, w string) bool {
	t := f.Type()
	switch w {
	case rID:
		return basicKind(t) == types.Uint64
	case rPLen, rNum:
		return basicInfo(t)&types.IsInteger != 0
	case rPartial:
		if isByteSlice(t) {
			return true
		}
		a, ok := t.Underlying().(*types.Array)
		return ok && basicKind(a.Elem()) == types.Byte
	case rKey:
		return isByteSlice(t)
	case rKeys:
		a, ok := t.Underlying().(*types.Array)
		return ok && basicKind(a.Elem()) == types.Byte
	case rChildren:
		switch a := t.Underlying().(type) {
		case *types.Array:
			return types.Identical(a.Elem(), r.nodeIface)
		case *types.Slice:
			return types.Identical(a.Elem(), r.nodeIface)
		}
		return false
	case rChan:
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			return nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == "sync/atomic"
		}
		_, ch := t.Underlying().(*types.Chan)
		_, pt := t.Underlying().(*types.Pointer)
		return ch || pt
	case rLeaf:
		return types.Identical(t, types.NewPointer(r.leaf))
	case rValue:
		return types.Identical(t, r.p.valT)
	}
	return false
}

func (r *Roles) treeRoleOf(n *types.Named, f *types.Var, w string) bool {
	switch w {
	case rRoot:
		return types.Identical(f.Type(), r.nodeIface)
	case rSize, rMaxID:
		return basicInfo(f.Type())&types.IsInteger != 0
	}
	return false
}

func (r *Roles) txnRoleOf(n *types.Named, f *types.Var, w string) bool {
	switch w {
	case rTree:
		return types.Identical(f.Type(), types.NewPointer(r.tree))
	case rSize, rMark:
		return basicInfo(f.Type())&types.IsInteger != 0
	case rTrack:
		return basicInfo(f.Type())&types.IsBoolean != 0
	case rTracked:
		if s, ok := f.Type().Underlying().(*types.Slice); ok {
			_, ch := s.Elem().Underlying().(*types.Chan)
			return ch
		}
		if m, ok := f.Type().Underlying().(*types.Map); ok {
			_, ch := m.Key().Underlying().(*types.Chan)
			return ch
		}
	}
	return false
}

// fieldOf returns the struct type, the field name and the role of a field.
func (r *Roles) fieldOf(structT types.Type, idx int) (owner string, field string, role string) {
	t := structT
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", "", ""
	}
	field = st.Field(idx).Name()
	if n := namedOf(t); n != nil {
		owner = n.Obj().Name()
		role = r.role[fieldKey{owner, field}]
	}
	return
}

// impls returns the implementations of a method called through the node
// interface.
func (r *Roles) impls(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() {
		return nil
	}
	it := c.Value.Type()
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, n := range r.nodes {
		pt := types.NewPointer(n)
		if types.Implements(pt, iface) {
			if f := r.p.prog.LookupMethod(pt, c.Method.Pkg(), c.Method.Name()); f != nil {
				out = append(out, f)
			}
		}
	}
	return out
}

func (r *Roles) isTxnPtr(t types.Type) bool  { return types.Identical(t, types.NewPointer(r.txn)) }
func (r *Roles) isTreePtr(t types.Type) bool { return types.Identical(t, types.NewPointer(r.tree)) }
func (r *Roles) isLeafPtr(t types.Type) bool { return types.Identical(t, types.NewPointer(r.leaf)) }
func (r *Roles) isIterPtr(t types.Type) bool {
	for _, n := range r.iters {
		if types.Identical(t, types.NewPointer(n)) {
			return true
		}
	}
	return false
}

// isNodeVal: the node interface or a pointer to a node struct.
func (r *Roles) isNodeVal(t types.Type) bool {
	if types.Identical(t, r.nodeIface) {
		return true
	}
	for _, n := range r.nodes {
		if types.Identical(t, types.NewPointer(n)) {
			return true
		}
	}
	return false
}

// apiRoots are the exported functions and the exported methods of the exported
// types.
func (r *Roles) apiRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.p.funcs {
		obj := f.Object()
		if o := f.Origin(); obj == nil && o != nil {
			obj = o.Object()
		}
		if f.Parent() != nil || obj == nil || !obj.Exported() {
			continue
		}
		if rv := f.Signature.Recv(); rv != nil {
			if n := namedOf(rv.Type()); n == nil || !n.Obj().Exported() {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

func (p *Prog) byName(name string) *ssa.Function {
	for _, f := range p.funcs {
		if fname(f) == name {
			return f
		}
	}
	return nil
}
