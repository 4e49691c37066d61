package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// tightness: byte slices without spare capacity, as a greatest fixpoint over
// all parameters, results and fields of the package.
type tightness struct {
	c      *Ctx
	field  map[fieldKey]bool // known loose
	param  map[*ssa.Parameter]bool
	result map[*ssa.Function]map[int]bool
}

func newTightness(c *Ctx) *tightness {
	t := &tightness{c: c, field: map[fieldKey]bool{}, param: map[*ssa.Parameter]bool{}, result: map[*ssa.Function]map[int]bool{}}
	a := c.ownership()
	for _, f := range c.r.apiRoots() {
		for _, p := range f.Params {
			t.param[p] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range a.fn {
			st := a.states[f]
			if st == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						fa, ok := x.Addr.(*ssa.FieldAddr)
						if !ok || !isByteSlice(x.Val.Type()) {
							continue
						}
						o, fl, _ := c.r.fieldOf(fa.X.Type(), fa.Field)
						k := fieldKey{o, fl}
						if !t.field[k] && !t.tight(st, x.Val, map[ssa.Value]bool{}) {
							t.field[k] = true
							changed = true
						}
					case *ssa.Return:
						for i, v := range x.Results {
							if !isByteSlice(v.Type()) || t.result[f][i] {
								continue
							}
							if !t.tight(st, v, map[ssa.Value]bool{}) {
								if t.result[f] == nil {
									t.result[f] = map[int]bool{}
								}
								t.result[f][i] = true
								changed = true
							}
						}
					case ssa.CallInstruction:
						fs, _, ok := a.callees(x.Common())
						if !ok {
							continue
						}
						args := a.argsOf(x.Common())
						for _, g := range fs {
							for i, v := range args {
								if i >= len(g.Params) || !isByteSlice(v.Type()) || t.param[g.Params[i]] {
									continue
								}
								if !t.tight(st, v, map[ssa.Value]bool{}) {
									t.param[g.Params[i]] = true
									changed = true
								}
							}
						}
					}
				}
			}
		}
	}
	return t
}

func (t *tightness) tight(st *fstate, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	a := t.c.ownership()
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Parameter:
		return !t.param[x]
	case *ssa.MakeSlice:
		return sameLen(st, x.Len, x.Cap)
	case *ssa.Slice:
		if x.Max != nil {
			return sameLen(st, x.High, x.Max)
		}
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if arr, ok := p.Elem().Underlying().(*types.Array); ok {
				if x.High == nil {
					return true
				}
				n, ok := constInt(x.High)
				return ok && n == arr.Len()
			}
		}
		if !t.tight(st, x.X, seen) {
			return false
		}
		if x.High == nil {
			return true
		}
		if cl, ok := x.High.(*ssa.Call); ok {
			if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
				return st.canon(cl.Call.Args[0]) == st.canon(x.X)
			}
		}
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !t.tight(st, e, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return t.tight(st, x.X, seen)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			o, fl, _ := t.c.r.fieldOf(fa.X.Type(), fa.Field)
			return !t.field[fieldKey{o, fl}]
		}
		if c := st.reach.loads[x]; len(c) > 0 {
			for _, e := range c {
				if !t.tight(st, e, seen) {
					return false
				}
			}
			return true
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return t.call(a, c, x.Index)
		}
	case *ssa.Call:
		return t.call(a, x, 0)
	}
	return false
}

func (t *tightness) call(a *ownA, c *ssa.Call, i int) bool {
	fs, _, ok := a.callees(&c.Call)
	if !ok || len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		if !a.modelled(f) || t.result[f][i] {
			return false
		}
	}
	return true
}
