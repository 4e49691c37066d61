package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// smallMax: the largest number of a type with less than 32 bits.
func smallMax(t types.Type) (int64, bool) {
	switch basicKind(t) {
	case types.Int8:
		return 1<<7 - 1, true
	case types.Uint8:
		return 1<<8 - 1, true
	case types.Int16:
		return 1<<15 - 1, true
	case types.Uint16:
		return 1<<16 - 1, true
	}
	return 0, false
}

// cutOff: only the lower bits of a number are used.
func cutOff(x *ssa.BinOp) (int64, bool) {
	k, ok := x.Y.(*ssa.Const)
	if !ok || k.Value == nil || basicInfo(x.Type())&types.IsInteger == 0 {
		return 0, false
	}
	m, exact := constant.Int64Val(constant.ToInt(k.Value))
	if x.Op == token.REM {
		m--
	}
	if !exact || m < 1<<7-1 || m&(m+1) != 0 || m >= 1<<31-1 {
		return 0, false
	}
	if own, small := smallMax(x.Type()); small && own <= m {
		return 0, false
	}
	return m, true
}

// A narrowing is a number that gets a small type, as met on one path.
type narrowing struct {
	st  *State
	fn  *ssa.Function
	in  ssa.Value
	v   *Term
	max int64
}

// checkC30: no length, position or count is cut off.
func checkC30(c *Ctx, res *Result) {
	res.explanation = "Interval and linear-constraint analysis of every conversion of a number to a type with less than 32 bits and of every sum of such numbers, on every path of every operation and for each layout: the number must be shown to fit, from the branch facts of the path, the bounds of loops and the form of the nodes. The types of stored lengths and counts must have room for what they hold."
	seen := map[token.Pos]bool{}
	var ns []*narrowing
	c.eachRun(res, true, func(r *idxRun) {
		ns = nil
		r.d.e.onNarrow = func(st *State, fr *frame, in ssa.Value, v *Term) {
			max, ok := smallMax(in.Type())
			if x, isB := in.(*ssa.BinOp); isB && (x.Op == token.AND || x.Op == token.REM) {
				if max, ok = cutOff(x); ok {
					ns = append(ns, &narrowing{st.clone(), fr.fn, in, v, max})
				}
				return
			}
			if !ok {
				return
			}
			switch x := in.(type) {
			case *ssa.Convert:
				if basicInfo(x.X.Type())&types.IsInteger == 0 {
					return
				}
				if from, small := smallMax(x.X.Type()); small && from <= max {
					return
				}
			case *ssa.BinOp:
				// counters that are meant to start over
				if r.d.e.phis[r.d.e.val(fr, x.X)] != nil || r.d.e.phis[r.d.e.val(fr, x.Y)] != nil {
					return
				}
			}
			ns = append(ns, &narrowing{st.clone(), fr.fn, in, v, max})
		}
	}, func(r *idxRun) {
		for _, n := range ns {
			seen[n.in.Pos()] = true
			r.narrow(res, n)
		}
	})
	c.storedSizes(res)
	res.count("numbers that get a small type", len(seen))
	res.floor("numbers that get a small type", 3)
	res.floor("stored lengths and counts", 5)
	res.assumptions = append(res.assumptions, "keys are shorter than 2^31 bytes and there are fewer than 2^31 of them, so types of 32 bits and more are large enough", "nodes have the form that C19 shows to be kept")
}

func (r *idxRun) narrow(res *Result, n *narrowing) {
	d, e := r.d, r.d.e
	st := n.st
	if d.key != nil {
		st = d.bounded(st)
	}
	if e.infeasible(st) || d.impossible(st) {
		res.count("paths excluded as contradictory", 1)
		return
	}
	goal := linAdd(n.v.linOf(), &linear{k: n.max}, -1)
	les := append(r.forms(res, st, n.v), st.les...)
	for _, a := range n.v.linOf().atoms {
		if a.typ == nil {
			continue
		}
		if m, ok := smallMax(a.typ); ok {
			les = append(les, linAdd(a.linOf(), &linear{k: m}, -1))
		}
	}
	st2 := st.clone()
	st2.les = les
	ok := e.follows(les, goal, 3) || e.entails(st2, goal, 3) || r.op != nil && r.proved(st2, goal)
	if !ok && !r.limited(les, n.v) {
		res.count("numbers not understood", 1)
		return
	}
	res.ob(ok, Finding{Rule: "fits", At: d.c.p.pos(n.in.Pos()), Func: fname(n.fn), Msg: fmt.Sprintf("the number %s is not known to be at most %d, the largest one that fits", n.v, n.max), Path: e.pathOf(st)})
}

// limited: nothing in the number is unknown to the analysis. A counter needs a
// limit that is known.
func (r *idxRun) limited(les []*linear, v *Term) bool {
	e := r.d.e
	if !r.understood(les, v, false) {
		return false
	}
	for _, a := range v.linOf().atoms {
		if e.phis[a] == nil {
			continue
		}
		ok := false
		for _, l := range les {
			up, clean := false, true
			for i, x := range l.atoms {
				if x == a {
					up = l.coef[i] > 0
				} else if e.phis[x] != nil || !r.understood(les, x, false) {
					clean = false
				}
			}
			ok = ok || up && clean
		}
		if !ok {
			return false
		}
	}
	return true
}

// storedSizes: the types of fields have room for what they hold.
func (c *Ctx) storedSizes(res *Result) {
	e := newEng(c)
	for _, n := range c.r.nodes {
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			role := e.fieldRole(types.NewPointer(n), i)
			if basicInfo(f.Type())&types.IsInteger == 0 {
				continue
			}
			max, small := smallMax(f.Type())
			switch role {
			case rNum:
				slots, ok := e.arrayLen(n, rChildren)
				if !ok {
					continue
				}
				res.count("stored lengths and counts", 1)
				res.ob(!small || max >= slots, Finding{Rule: "room-for-the-count", At: c.p.pos(f.Pos()), Func: n.Obj().Name(), Msg: fmt.Sprintf("%s holds at most %d, the node has %d slots", f.Type(), max, slots)})
			case rPLen, rID:
				res.count("stored lengths and counts", 1)
				res.ob(!small, Finding{Rule: "room-for-the-count", At: c.p.pos(f.Pos()), Func: n.Obj().Name(), Msg: fmt.Sprintf("%s holds at most %d", f.Type(), max)})
			}
		}
	}
}
