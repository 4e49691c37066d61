package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isIterOrTxn(r *Roles, t types.Type) bool { return r.isTxnPtr(t) || r.isIterPtr(t) }

// origType names the kind of memory a root-level origin stands for.
func paramType(f *ssa.Function, o origin) types.Type {
	if o.k == oParam && o.i < len(f.Params) {
		return f.Params[o.i].Type()
	}
	return nil
}

// ruleWrites: what an exported operation writes is its own transaction or
// iterator, memory it allocated, or nodes shown to be owned by the transaction.
func ruleWrites(c *Ctx, res *Result, rule string, want func(f *ssa.Function) bool, keep func(f *ssa.Function, w write) bool) {
	a := c.ownership()
	n := 0
	for _, f := range c.r.apiRoots() {
		if !want(f) {
			continue
		}
		n++
		s := a.sum(f)
		bad := 0
		for w, chain := range s.writes {
			if !keep(f, w) {
				res.obligations++
				res.discharged++
				continue
			}
			bad++
			what := "memory that others can reach"
			if t := paramType(f, w.target); t != nil {
				what = "memory of its argument of type " + shortType(t)
			} else if w.target.k == oGlobal {
				what = "package-level memory"
			}
			msg := fmt.Sprintf("%s of %s to %s, reached from %s", w.kind, w.what, what, fname(f))
			if why := c.aliasReason(w.what); why != "" {
				msg += " (" + why + ")"
			}
			res.ob(false, Finding{Rule: rule, At: c.p.pos(w.pos), Func: c.funcAt(w.pos), Msg: msg, Path: fname(f) + " > " + chain})
		}
		if bad == 0 {
			res.obligations++
			res.discharged++
			res.sample(fmt.Sprintf("%s: %d writes, all to its own, fresh or guarded memory", fname(f), len(s.writes)))
		}
	}
	res.count("api_functions_"+strings.ToLower(rule), n)
	for u := range a.unknown {
		res.ob(false, Finding{Rule: rule, At: "-", Func: u, Msg: "call to a function without a model: its effects are not known"})
	}
}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return "" })
	return strings.ReplaceAll(s, "["+valueTypeName+"]", "")
}

// aliasReason explains why the memory behind a field counts as shared.
func (c *Ctx) aliasReason(what string) string {
	a := c.ownership()
	for k, why := range a.notExcl {
		if k.field == rPartial && strings.Contains(what, "slice elements") && c.r.role[k] == rPartial {
			return k.typ + "." + k.field + " is not owned by its node: " + why
		}
		if what == k.typ+"."+k.field {
			return why
		}
	}
	return ""
}

func (c *Ctx) funcAt(pos token.Pos) string {
	best := "?"
	var bl token.Pos
	for _, f := range c.p.funcs {
		if f.Syntax() != nil && f.Syntax().Pos() <= pos && pos <= f.Syntax().End() && f.Syntax().Pos() >= bl {
			bl = f.Syntax().Pos()
			best = fname(f)
		}
	}
	return best
}

// badForTrees: writes that can change what a published tree reports.
func (c *Ctx) badForTrees(f *ssa.Function, w write) bool {
	if w.kind == wCAS && c.isChanField(w.what) {
		return false
	}
	switch w.target.k {
	case oShared:
		return true
	case oParam:
		t := paramType(f, w.target)
		return t == nil || c.r.isTreePtr(t) || c.r.isNodeVal(t)
	}
	return false
}

func (c *Ctx) isChanField(what string) bool {
	i := strings.IndexByte(what, '.')
	if i < 0 {
		return false
	}
	return c.r.role[fieldKey{what[:i], what[i+1:]}] == rChan
}

func all(*ssa.Function) bool { return true }

func checkC01(c *Ctx, res *Result) {
	res.explanation = "Ownership analysis of every exported operation: each store, copy, append and atomic write must hit memory allocated by the operation, its own transaction or iterator, or a node guarded by 'id above the watermark of the transaction'. The rules ID and PUB justify the guard: ids never exceed the highest id of the tree, and publishing a tree raises the watermark on every path. Rule instances are counted on this run."
	res.assumptions = []string{"user-supplied values are not modified by the library (they are opaque to it)", "one goroutine uses a transaction at a time, as documented"}
	ruleWrites(c, res, "WRITE", all, c.badForTrees)
	ruleIDs(c, res)
	rulePublish(c, res)
	res.floor("api_functions_write", 40)
	res.floor("id_stores", 1)
	res.floor("publishing_functions", 3)
	res.floor("ownership_guards", 1)
	res.count("ownership_guards", len(c.ownership().guardPos))
	exclCounts(c, res)
}

func exclCounts(c *Ctx, res *Result) {
	a := c.ownership()
	n := 0
	for k := range a.exclChk {
		if a.exclusive(k.typ, k.field) {
			n++
		}
	}
	res.count("reference_fields_owned_by_their_object", n)
	res.count("reference_fields_shared_between_objects", len(a.exclChk)-n)
}

func checkC02(c *Ctx, res *Result) {
	checkC01(c, res)
	res.explanation = "Isolation: the ownership discipline of C01, plus: a transaction never shares its own tree object or bookkeeping with the tree it was started from, with a committed tree or with a clone (fields of transactions are inferred to be exclusively owned from every store to them), and cloning raises the watermark of the original on every path."
	// The transaction's own memory must not be reachable from elsewhere.
	a := c.ownership()
	n := 0
	for i := 0; i < structOf(c.r.txn).NumFields(); i++ {
		fl := structOf(c.r.txn).Field(i)
		role := c.r.role[fieldKey{c.r.txn.Obj().Name(), fl.Name()}]
		if role != rTree && role != rTracked {
			continue
		}
		n++
		why := a.notExcl[fieldKey{c.r.txn.Obj().Name(), fl.Name()}]
		res.ob(why == "", Finding{Rule: "EXCL", At: "-", Func: "Txn." + fl.Name(), Msg: "the transaction's " + fl.Name() + " may be shared: " + why})
	}
	res.count("transaction_fields", n)
	res.floor("transaction_fields", 2)
}

func checkC03(c *Ctx, res *Result) {
	res.explanation = "Taint of byte-slice parameters of every exported operation: their memory is not written (including appends into spare capacity), and no reference to it is stored in a transaction, iterator, tree, node or package variable or kept in a returned object."
	a := c.ownership()
	params := 0
	for _, f := range c.r.apiRoots() {
		s := a.sum(f)
		for i, p := range f.Params {
			if !isByteSlice(p.Type()) {
				continue
			}
			params++
			bad := false
			for w, chain := range s.writes {
				if w.target.k == oParam && w.target.i == i {
					bad = true
					res.ob(false, Finding{Rule: "NOWRITE", At: c.p.pos(w.pos), Func: c.funcAt(w.pos), Msg: fmt.Sprintf("%s writes to the slice %q of the caller (%s)", fname(f), p.Name(), w.kind), Path: fname(f) + " > " + chain})
				}
			}
			for sd, chain := range s.stores {
				if sd.val.k == oParam && sd.val.i == i {
					if sd.dst.k == oParam && sd.dst.i == i {
						continue
					}
					bad = true
					res.ob(false, Finding{Rule: "NOKEEP", At: c.p.pos(sd.pos), Func: c.funcAt(sd.pos), Msg: fmt.Sprintf("%s keeps the slice %q of the caller in %s", fname(f), p.Name(), sd.what), Path: fname(f) + " > " + chain})
				}
			}
			for sd, chain := range s.keeps {
				if sd.val.k == oParam && sd.val.i == i {
					bad = true
					res.ob(false, Finding{Rule: "NOKEEP", At: c.p.pos(sd.pos), Func: c.funcAt(sd.pos), Msg: fmt.Sprintf("%s keeps the slice %q of the caller in an object stored in %s", fname(f), p.Name(), sd.what), Path: fname(f) + " > " + chain})
				}
			}
			for j := range s.held {
				if s.held[j][origin{k: oParam, i: i}] {
					bad = true
					res.ob(false, Finding{Rule: "NOKEEP", At: c.p.pos(f.Pos()), Func: fname(f), Msg: fmt.Sprintf("the object returned by %s keeps the slice %q of the caller", fname(f), p.Name())})
				}
			}
			if !bad {
				res.ob(true, Finding{})
				res.sample(fmt.Sprintf("%s: slice %q is neither written nor kept", fname(f), p.Name()))
			}
		}
	}
	res.count("byte_slice_parameters", params)
	res.floor("byte_slice_parameters", 15)
	for u := range a.unknown {
		res.ob(false, Finding{Rule: "NOWRITE", At: "-", Func: u, Msg: "call to a function without a model: its effects are not known"})
	}
	res.assumptions = []string{"functions of the standard library outside bytes, sort, slices, strings, maps are modelled by a table (fmt and strconv read their arguments only)"}
}

func checkC04(c *Ctx, res *Result) {
	res.explanation = "Every byte slice that an exported operation returns or passes to a user callback is freshly allocated, nil, the caller's own, or has no spare capacity: it is sliced with its capacity clipped, or comes from fields that only ever hold such slices, on every path (summaries follow helpers)."
	a := c.ownership()
	n, cb := 0, 0
	tg := newTightness(c)
	okSlice := func(st *fstate, v ssa.Value) bool {
		if a.isClipped(st, v, map[ssa.Value]bool{}) || tg.tight(st, v, map[ssa.Value]bool{}) {
			return true
		}
		for o := range st.get(v) {
			if o.k == oFresh {
				continue
			}
			if o.k == oParam && isByteSlice(st.f.Params[o.i].Type()) && st.f.Object() != nil && st.f.Object().Exported() {
				continue
			}
			return false
		}
		return true
	}
	for _, f := range c.r.apiRoots() {
		st := a.states[f]
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for i, v := range ret.Results {
				if !isByteSlice(v.Type()) {
					continue
				}
				n++
				res.ob(okSlice(st, v), Finding{Rule: "CLIP", At: c.p.pos(ret.Pos()), Func: fname(f), Msg: fmt.Sprintf("result %d can have spare capacity inside memory of the tree", i)})
			}
		}
	}
	// callbacks
	for _, f := range c.p.funcs {
		st := a.states[f]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				if cc.IsInvoke() || cc.StaticCallee() != nil {
					continue
				}
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				for i, v := range cc.Args {
					if isByteSlice(v.Type()) {
						cb++
						res.ob(okSlice(st, v), Finding{Rule: "CLIP", At: c.p.pos(call.Pos()), Func: fname(f), Msg: fmt.Sprintf("argument %d of the callback can have spare capacity inside memory of the tree", i)})
					}
				}
			}
		}
	}
	res.count("returned_slices", n)
	res.count("callback_slices", cb)
	res.floor("returned_slices", 5)
	res.floor("callback_slices", 1)
}

func checkC05(c *Ctx, res *Result) {
	res.explanation = "Effect analysis of every exported operation that does not belong to a transaction, and of the transaction's queries: the only writes to trees, nodes or package memory are compare-and-swaps from nil on a watch-channel slot."
	readers := func(f *ssa.Function) bool {
		if rv := f.Signature.Recv(); rv != nil && (c.r.isTxnPtr(rv.Type()) || c.r.isTreePtr(rv.Type()) && f.Name() != "Clone") {
			switch f.Name() {
			case "Insert", "Delete", "DeletePrefix", "Commit", "CommitOnly", "Notify", "TrackMutate", "Clone":
				return false
			}
		}
		return true
	}
	ruleWrites(c, res, "READ", readers, func(f *ssa.Function, w write) bool {
		if w.kind == wCAS && c.isChanField(w.what) {
			return false
		}
		switch w.target.k {
		case oShared, oGlobal:
			return true
		case oParam:
			t := paramType(f, w.target)
			return t == nil || !c.r.isIterPtr(t)
		}
		return false
	})
	// A slot that is accessed atomically is accessed atomically everywhere.
	n := 0
	for _, nt := range c.r.nodes {
		stt := structOf(nt)
		for i := 0; i < stt.NumFields(); i++ {
			if c.r.role[fieldKey{nt.Obj().Name(), stt.Field(i).Name()}] != rChan {
				continue
			}
			n++
			t := types.Unalias(stt.Field(i).Type())
			nm, ok := t.(*types.Named)
			res.ob(ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == "sync/atomic", Finding{Rule: "ATOMIC", At: c.p.pos(stt.Field(i).Pos()), Func: nt.Obj().Name(), Msg: "the watch channel slot is not an atomic"})
		}
	}
	res.count("watch_slots", n)
	res.floor("watch_slots", 2)
	res.floor("api_functions_read", 40)
	// The public operations on trees work on a fresh transaction.
	res.assumptions = []string{"an iterator is used by one goroutine at a time"}
}

func checkC06(c *Ctx, res *Result) {
	res.explanation = "Typestate of the watch-channel slots: a slot of a node that others can reach changes only from nil, by compare-and-swap; plain atomic stores hit fresh or owned nodes only; a function that installs a channel returns it only on the path where its compare-and-swap won, otherwise what it loads from the slot."
	a := c.ownership()
	ruleWrites(c, res, "SLOT", all, func(f *ssa.Function, w write) bool {
		if !c.isChanField(w.what) {
			return false
		}
		if w.kind == wCAS {
			return false
		}
		switch w.target.k {
		case oShared, oGlobal:
			return true
		case oParam:
			t := paramType(f, w.target)
			return t == nil || c.r.isNodeVal(t) || c.r.isTreePtr(t)
		}
		return false
	})
	// Functions that hand out channels.
	slots, outs := 0, 0
	for _, f := range c.p.funcs {
		st := a.states[f]
		touches := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && c.chanSlotOp(call) != "" {
					touches = true
				}
			}
		}
		if !touches {
			continue
		}
		slots++
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, v := range ret.Results {
				if _, ok := v.Type().Underlying().(*types.Chan); !ok {
					continue
				}
				outs++
				why := c.chanOK(st, v, b, map[ssa.Value]bool{})
				res.ob(why == "", Finding{Rule: "WINNER", At: c.p.pos(ret.Pos()), Func: fname(f), Msg: why})
			}
		}
	}
	// The getter of every layout goes through a slot.
	res.count("functions_on_channel_slots", slots)
	res.count("channels_handed_out", outs)
	res.floor("functions_on_channel_slots", 1)
	res.floor("channels_handed_out", 1)
	res.floor("api_functions_slot", 40)
	res.assumptions = []string{"sync/atomic.Pointer behaves as documented"}
}

// chanSlotOp: the operation on a watch-channel slot, if the call is one.
func (c *Ctx) chanSlotOp(call *ssa.Call) string {
	f := call.Call.StaticCallee()
	if f == nil || pkgPath(f) != "sync/atomic" || len(call.Call.Args) == 0 {
		return ""
	}
	name := f.Name()
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	// any atomic pointer to a channel counts, also one passed to a helper
	t := call.Call.Args[0].Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if nt, ok := types.Unalias(p.Elem()).(*types.Named); ok && nt.TypeArgs().Len() == 1 {
			if _, ok := nt.TypeArgs().At(0).Underlying().(*types.Chan); ok {
				return name
			}
		}
	}
	return ""
}

// chanOK explains why a channel value handed out at block b may be one that is
// not in the slot.
func (c *Ctx) chanOK(st *fstate, v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			if why := c.chanOK(st, e, x.Block().Preds[i], seen); why != "" {
				return why
			}
		}
		return ""
	case *ssa.ChangeType:
		return c.chanOK(st, x.X, b, seen)
	case *ssa.Const:
		if x.IsNil() && c.afterWin(st, nil, b) {
			return "returns no channel on a path where its compare-and-swap installed one"
		}
		return ""
	case *ssa.MakeChan:
		if c.afterWin(st, x, b) {
			return ""
		}
		return "returns a new channel on a path where its compare-and-swap may have lost"
	case *ssa.Call:
		// another getter: checked on its own
		return ""
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			// the local cell that holds the new channel
			for _, ref := range *al.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
					if mk, ok := s.Val.(*ssa.MakeChan); ok {
						if c.afterWin(st, al, b) || c.afterWin(st, mk, b) {
							continue
						}
						return "returns a new channel on a path where its compare-and-swap may have lost"
					}
					if why := c.chanOK(st, s.Val, b, seen); why != "" {
						return why
					}
				}
			}
			return ""
		}
		return "" // what the slot holds
	}
	return ""
}

// afterWin: block b is reached only over the true edge of a compare-and-swap
// from nil that installs the cell (or the cell holding the channel), or anything if
// no cell is given.
func (c *Ctx) afterWin(st *fstate, cell ssa.Value, b *ssa.BasicBlock) bool {
	for _, blk := range st.f.Blocks {
		br, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := br.Cond, false
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, neg = u.X, !neg
				continue
			}
			break
		}
		call, ok := cond.(*ssa.Call)
		if !ok || c.chanSlotOp(call) != "CompareAndSwap" || len(call.Call.Args) < 3 {
			continue
		}
		if k, ok := call.Call.Args[1].(*ssa.Const); !ok || !k.IsNil() {
			continue
		}
		nw := call.Call.Args[2]
		if cell != nil && nw != cell {
			al, ok := nw.(*ssa.Alloc)
			if !ok {
				continue
			}
			hit := false
			for _, ref := range *al.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Val == cell {
					hit = true
				}
			}
			if !hit {
				continue
			}
		}
		win := blk.Succs[0]
		if neg {
			win = blk.Succs[1]
		}
		if edgeDominates(blk, win, b) {
			return true
		}
	}
	return false
}

// edgeDominates: every path to b uses the edge from p to s.
func edgeDominates(p, s, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(x *ssa.BasicBlock) bool
	reach = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, n := range x.Succs {
			if x == p && n == s {
				continue
			}
			if reach(n) {
				return true
			}
		}
		return false
	}
	return !reach(p.Parent().Blocks[0])
}

// ---- rule ID ----

// accessPath names the place a value is read from, relative to parameters and
// allocations of the function.
func (c *Ctx) accessPath(st *fstate, v ssa.Value) string {
	v = st.canon(v)
	switch x := v.(type) {
	case *ssa.Parameter:
		return "p:" + x.Name()
	case *ssa.FreeVar:
		return "f:" + x.Name()
	case *ssa.Alloc:
		return "a:" + x.Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				o, fl, _ := c.r.fieldOf(fa.X.Type(), fa.Field)
				// a field set once in this function stands for what was stored
				if sv := c.onlyStore(st, fa, o, fl); sv != nil {
					return c.accessPath(st, sv)
				}
				return c.accessPath(st, fa.X) + "." + fl
			}
		}
		if x.Op == token.MUL {
			return "*" + c.accessPath(st, x.X)
		}
	case *ssa.Call:
		a := c.ownership()
		if f := x.Call.StaticCallee(); f != nil {
			if k, ok := a.getters[f]; ok {
				return c.accessPath(st, x.Call.Args[0]) + "." + k.field
			}
		}
	}
	return "v:" + v.Name()
}

// onlyStore: the value of a field of an object allocated in this function that
// is stored exactly once.
func (c *Ctx) onlyStore(st *fstate, fa *ssa.FieldAddr, owner, field string) ssa.Value {
	al, ok := st.canon(fa.X).(*ssa.Alloc)
	if !ok {
		return nil
	}
	var val ssa.Value
	n := 0
	for _, ref := range *al.Referrers() {
		f2, ok := ref.(*ssa.FieldAddr)
		if !ok || f2.Field != fa.Field {
			continue
		}
		for _, r2 := range *f2.Referrers() {
			if s, ok := r2.(*ssa.Store); ok && s.Addr == f2 {
				val = s.Val
				n++
			}
		}
	}
	if n == 1 && pointerLike(val.Type()) {
		return val
	}
	return nil
}

// maxRead: v is (tree at path).maxNodeId + off.
func (c *Ctx) maxRead(st *fstate, v ssa.Value) (path string, off int64, ok bool) {
	base, off := lin(v)
	if ph := st.canon(base); ph != base {
		b2, o2 := lin(ph)
		base, off = b2, off+o2
	}
	obj, role := c.ownership().fieldRead(base)
	if role == rMaxID {
		return c.accessPath(st, obj), off, true
	}
	return "", 0, false
}

func ruleIDs(c *Ctx, res *Result) {
	a := c.ownership()
	var idOK func(f *ssa.Function, v ssa.Value, at ssa.Instruction, depth int) string
	retOK := func(g *ssa.Function, depth int) string {
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(ret.Results) == 0 {
					return "returns nothing"
				}
				if why := idOK(g, ret.Results[0], ret, depth+1); why != "" {
					return why
				}
			}
		}
		return ""
	}
	idOK = func(f *ssa.Function, v ssa.Value, at ssa.Instruction, depth int) string {
		if depth > 6 {
			return "id is not derived from the highest id of the tree"
		}
		st := a.states[f]
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
			if k.Int64() == 0 {
				return ""
			}
			return "constant id above zero"
		}
		if _, role := a.fieldRead(v); role == rID {
			return ""
		}
		if _, role := a.fieldRead(v); role == rMark {
			return ""
		}
		if ph, ok := v.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				if why := idOK(f, e, at, depth+1); why != "" {
					return why
				}
			}
			return ""
		}
		if cl, ok := v.(*ssa.Call); ok {
			fs, _, ok := a.callees(&cl.Call)
			if ok && len(fs) > 0 {
				for _, g := range fs {
					if !c.p.inPackage(g) {
						return "id from outside the package"
					}
					if why := retOK(g, depth); why != "" {
						return why
					}
				}
				return ""
			}
		}
		path, off, ok := c.maxRead(st, v)
		if ok && off <= 0 {
			return ""
		}
		// A value that is also stored as the highest id.
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok2 := in.(*ssa.Store)
				if !ok2 {
					continue
				}
				fa, ok2 := s.Addr.(*ssa.FieldAddr)
				if !ok2 {
					continue
				}
				if _, _, role := c.r.fieldOf(fa.X.Type(), fa.Field); role != rMaxID {
					continue
				}
				same := s.Val == v
				if !same && ok {
					if p2, o2, ok3 := c.maxRead(st, s.Val); ok3 && p2 == path && o2 >= off {
						same = true
					}
				}
				if same && (dominatesInstr(s, at) || postDominates(s, at)) {
					return ""
				}
			}
		}
		return "id may exceed the highest id recorded in the tree"
	}
	n := 0
	// every store to an id field, and every call of a helper that stores a
	// parameter there
	type slot struct {
		f *ssa.Function
		i int
	}
	idParam := map[slot]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range c.p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, v := range c.idStores(in, func(g *ssa.Function, i int) bool { return idParam[slot{g, i}] }) {
						if p, ok := a.states[f].canon(v).(*ssa.Parameter); ok {
							for i, q := range f.Params {
								if q == p && !idParam[slot{f, i}] {
									idParam[slot{f, i}] = true
									changed = true
								}
							}
						}
					}
				}
			}
		}
	}
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, v := range c.idStores(in, func(g *ssa.Function, i int) bool { return idParam[slot{g, i}] }) {
					if _, ok := a.states[f].canon(v).(*ssa.Parameter); ok {
						continue // judged at the callers
					}
					n++
					why := idOK(f, v, in, 0)
					res.ob(why == "", Finding{Rule: "ID", At: c.p.pos(in.Pos()), Func: fname(f), Msg: why})
				}
			}
		}
	}
	res.count("id_stores", n)
	// the highest id never goes down
	m := 0
	for _, f := range c.p.funcs {
		st := a.states[f]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, _, role := c.r.fieldOf(fa.X.Type(), fa.Field); role != rMaxID {
					continue
				}
				if _, ok := st.canon(fa.X).(*ssa.Alloc); ok {
					continue // a new tree: rule PUB
				}
				m++
				own := c.accessPath(st, fa.X)
				ok2 := c.notBelow(st, s.Val, own, 0)
				res.ob(ok2, Finding{Rule: "ID", At: c.p.pos(s.Pos()), Func: fname(f), Msg: "the highest id of a tree can go down, so later nodes can get ids that are in use"})
			}
		}
	}
	res.count("highest_id_stores", m)
}

// notBelow: the value is at least the highest id of the tree at path own.
func (c *Ctx) notBelow(st *fstate, v ssa.Value, own string, depth int) bool {
	if depth > 5 {
		return false
	}
	if ph, ok := v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if !c.notBelow(st, e, own, depth+1) {
				return false
			}
		}
		return true
	}
	if cl, ok := v.(*ssa.Call); ok {
		if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "max" {
			for _, e := range cl.Call.Args {
				if c.notBelow(st, e, own, depth+1) {
					return true
				}
			}
			return false
		}
	}
	p, off, ok := c.maxRead(st, v)
	return ok && off >= 0 && p == own
}

// idStores: the values that an instruction stores as the id of a node.
func (c *Ctx) idStores(in ssa.Instruction, isIDParam func(*ssa.Function, int) bool) []ssa.Value {
	switch x := in.(type) {
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			if _, _, role := c.r.fieldOf(fa.X.Type(), fa.Field); role == rID {
				return []ssa.Value{x.Val}
			}
		}
	case ssa.CallInstruction:
		a := c.ownership()
		fs, _, ok := a.callees(x.Common())
		if !ok {
			return nil
		}
		args := a.argsOf(x.Common())
		var out []ssa.Value
		for _, g := range fs {
			for i := range args {
				if isIDParam(g, i) {
					out = append(out, args[i])
				}
			}
			if len(out) > 0 {
				break
			}
		}
		return out
	}
	return nil
}

func dominatesInstr(x, y ssa.Instruction) bool {
	if x.Block() == y.Block() {
		for _, in := range x.Block().Instrs {
			if in == x {
				return true
			}
			if in == y {
				return false
			}
		}
	}
	return x.Block().Dominates(y.Block())
}

// postDominates: every path from y to a return passes x.
func postDominates(x, y ssa.Instruction) bool {
	if x.Block() == y.Block() {
		after := false
		for _, in := range x.Block().Instrs {
			if in == y {
				after = true
			}
			if in == x && after {
				return true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var esc func(b *ssa.BasicBlock) bool
	esc = func(b *ssa.BasicBlock) bool {
		if b == x.Block() {
			return false
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		if len(b.Succs) == 0 {
			_, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			return isRet
		}
		for _, s := range b.Succs {
			if esc(s) {
				return true
			}
		}
		return false
	}
	if len(y.Block().Succs) == 0 {
		return false
	}
	for _, s := range y.Block().Succs {
		if esc(s) {
			return false
		}
	}
	return true
}

// ---- rule PUB ----

// fieldValues collects the stores to the fields of an allocation, by role.
func (c *Ctx) fieldValues(al *ssa.Alloc) map[string][]ssa.Value {
	out := map[string][]ssa.Value{}
	for _, ref := range *al.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		_, _, role := c.r.fieldOf(fa.X.Type(), fa.Field)
		for _, r2 := range *fa.Referrers() {
			if s, ok := r2.(*ssa.Store); ok && s.Addr == fa {
				out[role] = append(out[role], s.Val)
			}
		}
	}
	return out
}

// treeOfRoot: the access path of the tree whose root the value is, or copies.
func (c *Ctx) treeOfRoot(st *fstate, v ssa.Value, depth int) (string, bool) {
	v = st.canon(v)
	if depth > 5 {
		return "", false
	}
	if obj, role := c.ownership().fieldRead(v); role == rRoot {
		return c.accessPath(st, obj), true
	}
	if cl, ok := v.(*ssa.Call); ok {
		args := c.ownership().argsOf(&cl.Call)
		// a copy of a node
		if len(args) > 0 && c.r.isNodeVal(cl.Type()) && c.r.isNodeVal(args[0].Type()) {
			return c.treeOfRoot(st, args[0], depth+1)
		}
		if len(args) > 0 && c.r.isNodeVal(cl.Type()) && c.r.isTreePtr(args[0].Type()) {
			return c.accessPath(st, args[0]), true
		}
	}
	if ph, ok := v.(*ssa.Phi); ok {
		var p string
		for i, e := range ph.Edges {
			q, ok := c.treeOfRoot(st, e, depth+1)
			if !ok || i > 0 && q != p {
				return "", false
			}
			p = q
		}
		return p, true
	}
	return "", false
}

func rulePublish(c *Ctx, res *Result) {
	a := c.ownership()
	trees, txns, pubs := 0, 0, 0
	for _, f := range c.p.funcs {
		st := a.states[f]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				elem := al.Type().Underlying().(*types.Pointer).Elem()
				switch {
				case types.Identical(elem, c.r.tree):
					vals := c.fieldValues(al)
					if len(vals[rRoot]) == 0 {
						continue
					}
					trees++
					// root and highest id of the same tree
					bad := ""
					for _, rv := range vals[rRoot] {
						if p, ok := c.treeOfRoot(st, rv, 0); ok {
							hit := false
							for _, mv := range vals[rMaxID] {
								if mp, off, ok := c.maxRead(st, mv); ok && mp == p && off >= 0 {
									hit = true
								}
							}
							if !hit {
								bad = "the highest id of the new tree is not taken over from the tree whose root it gets"
							}
						} else if pr, ok := st.canon(rv).(*ssa.Parameter); ok {
							_ = pr // a constructor helper: needs the id as a parameter too
							hit := false
							for _, mv := range vals[rMaxID] {
								if _, ok := st.canon(mv).(*ssa.Parameter); ok {
									hit = true
								}
							}
							if !hit {
								bad = "the highest id of the new tree is not taken over with its root"
							}
						}
					}
					res.ob(bad == "", Finding{Rule: "PUB", At: c.p.pos(al.Pos()), Func: fname(f), Msg: bad})
				case types.Identical(elem, c.r.txn):
					vals := c.fieldValues(al)
					if len(vals[rTree]) == 0 {
						continue
					}
					txns++
					bad := ""
					for _, tv := range vals[rTree] {
						if len(vals[rMark]) == 0 {
							bad = "the new transaction has no watermark: it takes the nodes of the tree for its own"
						}
						for _, mv := range vals[rMark] {
							if !c.markCovers(st, mv, tv) {
								bad = "the watermark of the new transaction is not the highest id of its tree"
							}
						}
					}
					res.ob(bad == "", Finding{Rule: "PUB", At: c.p.pos(al.Pos()), Func: fname(f), Msg: bad})
				}
			}
		}
	}
	// Publishing a transaction raises its watermark on every path.
	raises := c.mustRaise()
	for _, f := range c.r.apiRoots() {
		rv := f.Signature.Recv()
		if rv == nil || !c.r.isTxnPtr(rv.Type()) {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			if !c.r.isTreePtr(t) && !c.r.isTxnPtr(t) {
				continue
			}
			if f.Name() == "GetTree" {
				continue // documented view of the tree under construction
			}
			pubs++
			own := false
			for o := range a.sum(f).results[i] {
				if o.k == oParam {
					own = true
				}
			}
			res.ob(!own, Finding{Rule: "PUB", At: c.p.pos(f.Pos()), Func: fname(f), Msg: "returns memory of the transaction itself, which later writes change"})
			res.ob(raises[f], Finding{Rule: "PUB", At: c.p.pos(f.Pos()), Func: fname(f), Msg: "a path hands out the nodes of the transaction without raising its watermark to the highest id: later writes would change them in place"})
		}
	}
	// The watermark never goes down.
	marks := 0
	for _, f := range c.p.funcs {
		st := a.states[f]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, _, role := c.r.fieldOf(fa.X.Type(), fa.Field); role != rMark {
					continue
				}
				if _, ok := st.canon(fa.X).(*ssa.Alloc); ok {
					continue
				}
				marks++
				res.ob(c.isRaise(st, s), Finding{Rule: "PUB", At: c.p.pos(s.Pos()), Func: fname(f), Msg: "the watermark of a transaction is set to something other than the highest id of its tree"})
			}
		}
	}
	res.count("trees_built", trees)
	res.count("transactions_built", txns)
	res.count("publishing_functions", pubs)
	res.count("watermark_stores", marks)
}

// markCovers: the watermark value is the highest id of the tree value.
func (c *Ctx) markCovers(st *fstate, mv, tv ssa.Value) bool {
	mp, off, ok := c.maxRead(st, mv)
	if !ok || off < 0 {
		_, p1 := st.canon(mv).(*ssa.Parameter)
		_, p2 := st.canon(tv).(*ssa.Parameter)
		return p1 && p2 // constructor helper
	}
	if mp == c.accessPath(st, tv) {
		return true
	}
	if al, ok := st.canon(tv).(*ssa.Alloc); ok {
		for _, v := range c.fieldValues(al)[rMaxID] {
			if p, o2, ok := c.maxRead(st, v); ok && p == mp && o2 <= off {
				return true
			}
		}
	}
	if cl, ok := st.canon(tv).(*ssa.Call); ok {
		// a tree derived from another one, e.g. a clone of it
		for _, g := range c.ownership().argsOf(&cl.Call) {
			if c.r.isTreePtr(g.Type()) && c.accessPath(st, g) == mp {
				return true
			}
		}
	}
	return false
}

// isRaise: the store sets the watermark of a transaction to the highest id of
// its tree, or higher.
func (c *Ctx) isRaise(st *fstate, s *ssa.Store) bool {
	fa := s.Addr.(*ssa.FieldAddr)
	txn := c.accessPath(st, fa.X)
	p, off, ok := c.maxRead(st, s.Val)
	if !ok || off < 0 {
		return false
	}
	for i := 0; i < structOf(c.r.txn).NumFields(); i++ {
		fl := structOf(c.r.txn).Field(i).Name()
		if c.r.role[fieldKey{c.r.txn.Obj().Name(), fl}] == rTree && p == txn+"."+fl {
			return true
		}
	}
	// through a tree built from the transaction's one in this function
	for _, b := range st.f.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok || "a:"+al.Name() != p {
				continue
			}
			for _, v := range c.fieldValues(al)[rMaxID] {
				if p2, o2, ok := c.maxRead(st, v); ok && o2 >= 0 && strings.HasPrefix(p2, txn+".") {
					return true
				}
			}
		}
	}
	return false
}

// mustRaise: functions that raise the watermark of their first parameter on
// every path from entry to return.
func (c *Ctx) mustRaise() map[*ssa.Function]bool {
	a := c.ownership()
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range c.p.funcs {
			if out[f] || len(f.Params) == 0 || !c.r.isTxnPtr(f.Params[0].Type()) {
				continue
			}
			st := a.states[f]
			does := func(in ssa.Instruction) bool {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if _, _, role := c.r.fieldOf(fa.X.Type(), fa.Field); role == rMark && st.canon(fa.X) == f.Params[0] {
							return c.isRaise(st, x)
						}
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && out[g] && st.canon(x.Call.Args[0]) == f.Params[0] {
						return true
					}
				case *ssa.Defer:
					if g := x.Call.StaticCallee(); g != nil && out[g] && st.canon(x.Call.Args[0]) == f.Params[0] {
						return true
					}
				}
				return false
			}
			if mustPass(f, does) {
				out[f] = true
				changed = true
			}
		}
	}
	return out
}

// mustPass: every path from entry to a return passes an instruction of the set.
func mustPass(f *ssa.Function, does func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var esc func(b *ssa.BasicBlock) bool
	esc = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if does(in) {
				return false
			}
			if _, ok := in.(*ssa.Return); ok {
				return true
			}
		}
		for _, s := range b.Succs {
			if esc(s) {
				return true
			}
		}
		return false
	}
	return !esc(f.Blocks[0])
}
