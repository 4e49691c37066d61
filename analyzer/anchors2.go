package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// trackRoles is the memory that only matters for ownership and notification.
var trackRoles = map[string]bool{rChan: true, rID: true, "RadixTree." + rMaxID: true, "Txn." + rTracked: true}

// params makes the argument terms of a function analysed on its own.
func (e *Eng) params(f *ssa.Function) []*Term {
	var out []*Term
	for i, p := range f.Params {
		t := e.t.mk("param", fmt.Sprintf("%s:%s", fname(f), p.Name()))
		_ = i
		e.typed(t, p.Type())
		out = append(out, t)
	}
	return out
}
