package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The roles of functions, found by signature and effects rather than by name.
const (
	fnNone = iota
	fnChanGet
	fnChanSet
	fnClone
	fnFind   // child for a byte
	fnAdd    // add a child
	fnRemove // remove a child
)

func isBidiChan(t types.Type) bool {
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// nodeFn classifies the methods and helpers that work on one node.
func (c *Ctx) nodeFn(f *ssa.Function) int {
	if c.fnRole == nil {
		c.fnRole = map[*ssa.Function]int{}
	}
	if r, ok := c.fnRole[f]; ok {
		return r
	}
	r := c.classify(f)
	c.fnRole[f] = r
	return r
}

func (c *Ctx) classify(f *ssa.Function) int {
	sig := f.Signature
	isMethod := sig.Recv() != nil && c.r.isNodeVal(sig.Recv().Type())
	if isMethod {
		switch {
		case sig.Params().Len() == 0 && sig.Results().Len() == 1 && isBidiChan(sig.Results().At(0).Type()):
			return fnChanGet
		case sig.Params().Len() == 1 && sig.Results().Len() == 0 && isBidiChan(sig.Params().At(0).Type()):
			return fnChanSet
		case sig.Results().Len() == 1 && c.r.isNodeVal(sig.Results().At(0).Type()) && sig.Params().Len() <= 1 && c.returnsCopy(f):
			if sig.Params().Len() == 0 || basicInfo(sig.Params().At(0).Type())&types.IsBoolean != 0 {
				return fnClone
			}
		}
		return fnNone
	}
	nodes, bytesN, others := 0, 0, 0
	for i, p := range f.Params {
		if i == 0 && sig.Recv() != nil {
			continue
		}
		switch {
		case c.r.isNodeVal(p.Type()):
			nodes++
		case basicKind(p.Type()) == types.Uint8:
			bytesN++
		case c.r.isTxnPtr(p.Type()) || c.r.isTreePtr(p.Type()):
		default:
			others++
		}
	}
	if others > 0 || bytesN != 1 || sig.Results().Len() == 0 || !c.r.isNodeVal(sig.Results().At(0).Type()) {
		return fnNone
	}
	a := c.ownership()
	writes, node := false, false
	for w := range a.sum(f).writes {
		if w.kind == wCAS {
			continue
		}
		writes = true
		if w.target.k == oParam && w.target.i < len(f.Params) && c.r.isNodeVal(f.Params[w.target.i].Type()) && c.countField(w.what) {
			node = true
		}
	}
	switch {
	case nodes == 1 && !writes && (sig.Results().Len() == 1 || sig.Results().Len() == 2 && basicInfo(sig.Results().At(1).Type())&(types.IsInteger|types.IsBoolean) != 0):
		return fnFind
	case nodes == 2 && node && sig.Results().Len() == 1:
		return fnAdd
	case nodes == 1 && node && sig.Results().Len() == 1:
		return fnRemove
	}
	return fnNone
}

// countField: the field holds the number of children of a node.
func (c *Ctx) countField(what string) bool {
	for _, n := range c.r.nodes {
		st := structOf(n)
		for i := 0; i < st.NumFields(); i++ {
			if o, f, role := c.r.fieldOf(n, i); role == rNum && what == o+"."+f {
				return true
			}
		}
	}
	return false
}

// returnsCopy: the method returns a node it allocates.
func (c *Ctx) returnsCopy(f *ssa.Function) bool {
	a := c.ownership()
	if a.sums[f] == nil {
		return false
	}
	for o := range a.sum(f).results[0] {
		if o.k != oFresh {
			return false
		}
	}
	return len(a.sum(f).results[0]) > 0
}
