package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A property that rests on others is not established where one of those is
// broken: their findings are reported for it as well.

func lemmaAdds(c *Ctx, res *Result)    { c.slotOps(res, fnAdd) }
func lemmaRemoves(c *Ctx, res *Result) { c.slotOps(res, fnRemove) }

// supports lists what each property rests on.
var supports = map[string]func(c *Ctx, res *Result){
	"C16": func(c *Ctx, res *Result) {
		c.rests(res, "C30", checkC30, nil)
	},
	"C17": func(c *Ctx, res *Result) {
		c.rests(res, "removing a child", lemmaRemoves, nil)
		c.rests(res, "C30", checkC30, nil)
	},
	"C18": func(c *Ctx, res *Result) {
		c.rests(res, "adding a child", lemmaAdds, nil)
		c.rests(res, "C30", checkC30, nil)
	},
	"C20": func(c *Ctx, res *Result) {
		c.rests(res, "removing a child", lemmaRemoves, func(f Finding) bool { return strings.Contains(f.Msg, "the prefix of the last child") })
		c.rests(res, "C30", checkC30, nil)
	},
	"C21": func(c *Ctx, res *Result) {
		c.rests(res, "C30", checkC30, c.within(append(c.iterYields(), c.walkers()...)))
	},
	"C24": func(c *Ctx, res *Result) {
		c.rests(res, "C19", checkC19, nil)
		c.rests(res, "C20", checkC20, nil)
		c.rests(res, "C18", checkC18, nil)
		c.rests(res, "C17", checkC17, nil)
		c.rests(res, "C30", checkC30, nil)
	},
	"C25": func(c *Ctx, res *Result) {
		c.rests(res, "C21", checkC21, ruled("traversal", "entry-visited", "goes-on"))
	},
	"C27": func(c *Ctx, res *Result) {
		c.rests(res, "C20", checkC20, c.within(c.longestQueries()))
	},
	"C28": func(c *Ctx, res *Result) {
		in := c.within(c.prefixDeletes())
		c.rests(res, "C12", checkC12, in)
		c.rests(res, "C25", checkC25, in)
		c.rests(res, "C21", checkC21, both(in, ruled("traversal", "entry-visited", "goes-on")))
		c.rests(res, "C17", checkC17, nil)
	},
	"C29": func(c *Ctx, res *Result) {
		c.rests(res, "C08", checkC08, nil)
	},
}

// rests runs an analysis that the property builds on. Its findings count if the
// filter takes them. An analysis that gives no answer is only counted: it has a
// check of its own.
func (c *Ctx) rests(res *Result, name string, run checkFn, take func(Finding) bool) {
	if c.subs == nil {
		c.subs = map[string]*Result{}
	}
	sub := c.subs[name]
	if sub == nil {
		sub = newResult()
		run(c, sub)
		c.subs[name] = sub
	}
	if sub.err != "" {
		res.count("supporting analyses without an answer", 1)
	}
	n := 0
	for _, f := range sub.findings {
		if take != nil && !take(f) {
			continue
		}
		n++
		f.Rule = name + ":" + f.Rule
		res.ob(false, f)
	}
	ok := sub.obligations - len(sub.findings)
	if ok < 0 {
		ok = 0
	}
	res.obligations += ok
	res.discharged += ok
	res.count("obligations of supporting rules ("+name+")", sub.obligations)
}

// within: the finding is in a function that the given ones may call.
func (c *Ctx) within(roots []*ssa.Function) func(Finding) bool {
	names := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	a := c.ownership()
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !c.p.inPackage(f) {
			return
		}
		seen[f] = true
		names[fname(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					fs, _, _ := a.callees(call.Common())
					for _, g := range fs {
						visit(g)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return func(f Finding) bool { return names[f.Func] }
}

func ruled(rules ...string) func(Finding) bool {
	return func(f Finding) bool {
		for _, r := range rules {
			if f.Rule == r || strings.HasPrefix(f.Rule, r+":") {
				return true
			}
		}
		return false
	}
}

func both(a, b func(Finding) bool) func(Finding) bool {
	return func(f Finding) bool { return a(f) && b(f) }
}
