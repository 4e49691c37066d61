package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reachable: functions of the package reachable from the exported operations.
func (c *Ctx) reachable() []*ssa.Function {
	a := c.ownership()
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !c.p.inPackage(f) || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					fs, _, _ := a.callees(ci.Common())
					for _, g := range fs {
						visit(g)
					}
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						visit(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, f := range c.r.apiRoots() {
		visit(f)
	}
	return out
}

var blockingCalls = map[string][]string{
	"sync":                {"Lock", "RLock", "Wait", "Do", "lockSlow", "OnceFunc", "OnceValue", "OnceValues", "Get", "Put", "LoadOrStore", "Store", "Range"},
	"time":                {"Sleep", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc"},
	"runtime":             {"Gosched", "LockOSThread", "GC"},
	"internal/poll":       {""},
	"net":                 {""},
	"os/exec":             {""},
	"context":             {""},
	"os":                  {"Open", "OpenFile", "ReadFile", "WriteFile", "Pipe"},
	"golang.org/x/sync":   {""},
	"sync/errgroup":       {""},
	"internal/sync":       {"Lock"},
	"os/signal":           {""},
	"syscall":             {""},
	"golang.org/x/sys":    {""},
	"bufio":               {""},
	"runtime/debug":       {""},
	"internal/singleflig": {""},
}

func checkC09(c *Ctx, res *Result) {
	res.explanation = "Call-graph reachability from every exported operation: no go statement, no lock, wait group, condition or once, no sleep or timer, no channel send, receive or select without default, and no loop that only waits for an atomic to change. Interface calls are resolved to every node implementation."
	fs := c.reachable()
	calls, chans, loops := 0, 0, 0
	for _, f := range fs {
		clean := true
		bad := func(pos token.Pos, msg string) {
			clean = false
			res.ob(false, Finding{Rule: "NOWAIT", At: c.p.pos(pos), Func: fname(f), Msg: msg})
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					bad(x.Pos(), "starts a goroutine")
				case *ssa.Send:
					chans++
					bad(x.Pos(), "sends on a channel, which can block")
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						chans++
						bad(x.Pos(), "receives from a channel, which can block")
					}
				case *ssa.Select:
					chans++
					if x.Blocking {
						bad(x.Pos(), "select without default, which can block")
					} else {
						res.ob(true, Finding{})
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					calls++
					if g := ci.Common().StaticCallee(); g != nil && !c.p.inPackage(g) {
						if why := blocks(g); why != "" {
							bad(ci.Pos(), why)
						}
					}
					if ci.Common().IsInvoke() && len(c.r.impls(ci.Common())) == 0 {
						if n := ci.Common().Method.Name(); n == "Lock" || n == "Wait" || n == "RLock" {
							bad(ci.Pos(), "waits through "+n)
						}
					}
				}
				// range over a channel
				if x, ok := in.(*ssa.Range); ok {
					if _, ok := x.X.Type().Underlying().(*types.Chan); ok {
						bad(x.Pos(), "ranges over a channel")
					}
				}
			}
		}
		for _, l := range naturalLoops(f) {
			loops++
			if pos, bad2 := c.spins(f, l); bad2 {
				bad(pos, "loop that waits for an atomic value to be changed by another goroutine")
			}
		}
		if clean {
			res.ob(true, Finding{})
		}
	}
	res.count("reachable_functions", len(fs))
	res.count("call_sites", calls)
	res.count("channel_operations", chans)
	res.count("loops", loops)
	res.floor("reachable_functions", 60)
	res.floor("call_sites", 200)
	res.floor("loops", 5)
	res.assumptions = []string{"user callbacks passed to a walk are the caller's business", "printing functions of the debug dump are not counted as waiting"}
}

func blocks(g *ssa.Function) string {
	pp := pkgPath(g)
	base := g.Name()
	if i := strings.IndexByte(base, '['); i >= 0 {
		base = base[:i]
	}
	for p, names := range blockingCalls {
		if pp != p && !(p != "sync" && p != "os" && p != "time" && p != "runtime" && strings.HasPrefix(pp, p+"/")) {
			continue
		}
		for _, n := range names {
			if n == "" || n == base {
				return "calls " + pp + "." + base + ", which can wait"
			}
		}
	}
	return ""
}

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func naturalLoops(f *ssa.Function) []*loop {
	byHead := map[*ssa.BasicBlock]*loop{}
	var out []*loop
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

// spins: every exit of the loop depends on an atomic load (or a non-blocking
// receive), and the loop itself does nothing that could make it change.
func (c *Ctx) spins(f *ssa.Function, l *loop) (token.Pos, bool) {
	exits := 0
	waiting := 0
	var pos token.Pos
	for b := range l.blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			if _, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet {
				exits++
			}
			continue
		}
		out := false
		for _, s := range b.Succs {
			if !l.blocks[s] {
				out = true
			}
		}
		if !out {
			continue
		}
		exits++
		if dependsOnAtomicLoad(br.Cond, l, map[ssa.Value]bool{}) {
			waiting++
			pos = br.Cond.Pos()
		}
	}
	if exits == 0 {
		return l.head.Instrs[0].Pos(), len(l.blocks) == 1 && onlyJump(l.head)
	}
	if waiting == 0 || waiting < exits {
		return 0, false
	}
	// The loop makes its own progress if it can install the value itself.
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil && pkgPath(g) == "sync/atomic" && !strings.HasPrefix(g.Name(), "Load") {
					// a retry on the result of its own compare-and-swap against a
					// value it just read is lock-free; a lock loop is not
					if strings.HasPrefix(g.Name(), "CompareAndSwap") && isLockCAS(call) {
						return call.Pos(), true
					}
					return 0, false
				}
			}
		}
	}
	return pos, true
}

func isLockCAS(call *ssa.Call) bool {
	n := len(call.Call.Args)
	if n < 2 {
		return false
	}
	// old and new are both constants: taking a lock bit
	_, c1 := call.Call.Args[n-1].(*ssa.Const)
	_, c2 := call.Call.Args[n-2].(*ssa.Const)
	return c1 && c2
}

func onlyJump(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Jump, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func dependsOnAtomicLoad(v ssa.Value, l *loop, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok || !l.blocks[in.Block()] {
		return false
	}
	if call, ok := v.(*ssa.Call); ok {
		if g := call.Call.StaticCallee(); g != nil && pkgPath(g) == "sync/atomic" {
			return true
		}
		return false
	}
	if _, ok := v.(*ssa.Select); ok {
		return true
	}
	if _, ok := v.(*ssa.Phi); ok {
		return false
	}
	var ops [16]*ssa.Value
	for _, op := range in.Operands(ops[:0]) {
		if dependsOnAtomicLoad(*op, l, seen) {
			return true
		}
	}
	return false
}

var impureCalls = map[string][]string{
	"time":         {"Now", "Since", "Until"},
	"math/rand":    {""},
	"math/rand/v2": {""},
	"crypto/rand":  {""},
	"os":           {"Getenv", "LookupEnv", "Environ", "Getpid", "Hostname", "Getwd", "ReadFile", "Open", "Stat"},
	"runtime":      {"NumGoroutine", "NumCPU", "GOMAXPROCS", "Caller", "ReadMemStats", "Stack"},
	"hash/maphash": {""},
	"unique":       {""},
	"weak":         {""},
}

func checkC10(c *Ctx, res *Result) {
	res.explanation = "Call-graph reachability from every exported operation: no package-level variable is written or, if it is written anywhere, read; no call to time, random, environment or scheduler functions; no loop over a map whose body depends on the order; no select between several ready channels; no address turned into a number."
	a := c.ownership()
	fs := c.reachable()
	// package variables that change after initialisation
	written := map[*ssa.Global]bool{}
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g := globalBase(s.Addr); g != nil {
						written[g] = true
					}
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && pkgPath(g) == "sync/atomic" && len(call.Common().Args) > 0 && !strings.HasPrefix(g.Name(), "Load") {
						if gl := globalBase(call.Common().Args[0]); gl != nil {
							written[gl] = true
						}
					}
				}
			}
		}
	}
	calls, globals, maps := 0, 0, 0
	for _, f := range fs {
		clean := true
		bad := func(pos token.Pos, msg string) {
			clean = false
			res.ob(false, Finding{Rule: "PURE", At: c.p.pos(pos), Func: fname(f), Msg: msg})
		}
		for w := range a.sum(f).writes {
			if w.target.k == oGlobal && c.funcAt(w.pos) == fname(f) {
				bad(w.pos, "writes package-level memory ("+w.what+")")
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Global); ok {
						globals++
						if written[g] {
							bad(in.Pos(), "uses the package variable "+g.Name()+", which changes between calls")
						}
					}
				}
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						maps++
						if orderMatters(f, x) {
							bad(x.Pos(), "iterates over a map in unspecified order")
						}
					}
				case *ssa.Select:
					if len(x.States) > 1 {
						bad(x.Pos(), "select picks among several channels at random")
					}
				case *ssa.Convert:
					if basicKind(x.X.Type()) == types.UnsafePointer && basicInfo(x.Type())&types.IsInteger != 0 {
						bad(x.Pos(), "turns an address into a number")
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					calls++
					if g := ci.Common().StaticCallee(); g != nil && !c.p.inPackage(g) {
						pp := pkgPath(g)
						base := g.Name()
						if i := strings.IndexByte(base, '['); i >= 0 {
							base = base[:i]
						}
						for _, n := range impureCalls[pp] {
							if n == "" || n == base {
								bad(ci.Pos(), "calls "+pp+"."+base)
							}
						}
						if pp == "sync" && (base == "Get" || base == "Put") {
							bad(ci.Pos(), "reuses objects from a pool")
						}
					}
				}
			}
		}
		if clean {
			res.ob(true, Finding{})
		}
	}
	res.count("reachable_functions", len(fs))
	res.count("call_sites", calls)
	res.count("uses_of_package_variables", globals)
	res.count("map_loops", maps)
	res.floor("reachable_functions", 60)
	res.floor("call_sites", 200)
	res.assumptions = []string{"the debug dump may print addresses", "user callbacks are the caller's business"}
}

func globalBase(v ssa.Value) *ssa.Global {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// orderMatters: the loop over the map does more than close channels, fill or
// empty other maps, and count.
func orderMatters(f *ssa.Function, r *ssa.Range) bool {
	for _, l := range naturalLoops(f) {
		has := false
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if n, ok := in.(*ssa.Next); ok && n.Iter == r {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		for b := range l.blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store, *ssa.Return, *ssa.Send, *ssa.Go:
					return true
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" || bi.Name() == "copy" {
							return true
						}
						continue
					}
					if x.Call.StaticCallee() == nil || x.Call.Signature().Results().Len() == 0 {
						if x.Call.StaticCallee() == nil {
							return true
						}
					}
				}
			}
			// leaving the loop early
			if b != l.head {
				for _, s := range b.Succs {
					if !l.blocks[s] {
						return true
					}
				}
			}
		}
	}
	return false
}
