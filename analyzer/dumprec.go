package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// dumpRecs prints the classes of the recursive functions, for debugging.
func dumpRecs(c *Ctx, events, track bool) {
	res := newResult()
	start := func(e *Eng, args []*Term, f *ssa.Function) *State {
		return innerStart(e, args, f)
	}
	specs, runs := c.solveRecs(res, start, trackRoles, events)
	fmt.Println("err", res.err)
	for _, rs := range specs {
		fmt.Println(fname(rs.f))
		for _, k := range rs.classes {
			fmt.Println("   class", k.key)
		}
	}
	for _, r := range runs {
		fmt.Println("==", fname(r.rs.f), len(r.outs), r.e.states)
		for i, o := range r.outs {
			fmt.Printf("--- %d at %s  %s\n", i, c.p.pos(o.pos), r.rs.classOf(r.e, o, r.args).key)
			for _, t := range o.res {
				fmt.Println("   res", t)
			}
			for _, ft := range o.st.facts {
				fmt.Println("   fact", ft.t, ft.v)
			}
			for _, v := range o.st.events() {
				fmt.Println("   ev", v.kind, v.name, v.args, v.res)
			}
		}
	}
}
