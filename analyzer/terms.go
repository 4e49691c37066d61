package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value terms of engine B. Terms are hash-consed: equal terms are the same
// pointer. They name where a value comes from; they are not evaluated.
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type
	lin  *linear
}

// linear is k + sum of coef*atom.
type linear struct {
	k     int64
	atoms []*Term
	coef  []int64
}

type termTable struct {
	m    map[string]*Term
	next int
	tnil *Term
}

func newTermTable() *termTable {
	t := &termTable{m: map[string]*Term{}}
	t.tnil = t.mk("nil", "")
	return t
}

func (t *termTable) mk(op, aux string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if x := t.m[k]; x != nil {
		return x
	}
	t.next++
	x := &Term{id: t.next, op: op, aux: aux, args: args}
	t.m[k] = x
	return x
}

func (t *termTable) typed(x *Term, ty types.Type) *Term {
	if x.typ == nil {
		x.typ = ty
	}
	return x
}

func (t *termTable) boolT(v bool) *Term {
	if v {
		return t.mk("const", "bool:true")
	}
	return t.mk("const", "bool:false")
}

func (t *termTable) intT(v int64) *Term { return t.fromLin(&linear{k: v}) }

func (x *Term) isBool() (bool, bool) {
	if x.op == "const" && x.aux == "bool:true" {
		return true, true
	}
	if x.op == "const" && x.aux == "bool:false" {
		return false, true
	}
	return false, false
}

func (x *Term) isInt() (int64, bool) {
	if x.op == "lin" && len(x.lin.atoms) == 0 {
		return x.lin.k, true
	}
	return 0, false
}

func (x *Term) isNil() bool { return x.op == "nil" }

func (x *Term) linOf() *linear {
	if x.op == "lin" {
		return x.lin
	}
	return &linear{atoms: []*Term{x}, coef: []int64{1}}
}

func (t *termTable) fromLin(l *linear) *Term {
	if l.k == 0 && len(l.atoms) == 1 && l.coef[0] == 1 {
		return l.atoms[0]
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d", l.k)
	for i, a := range l.atoms {
		fmt.Fprintf(&b, ",%d*%d", l.coef[i], a.id)
	}
	x := t.mk("lin", b.String())
	x.lin = l
	return x
}

func linAdd(a, b *linear, f int64) *linear {
	m := map[*Term]int64{}
	for i, x := range a.atoms {
		m[x] += a.coef[i]
	}
	for i, x := range b.atoms {
		m[x] += f * b.coef[i]
	}
	out := &linear{k: a.k + f*b.k}
	for x, c := range m {
		if c != 0 {
			out.atoms = append(out.atoms, x)
		}
	}
	sort.Slice(out.atoms, func(i, j int) bool { return out.atoms[i].id < out.atoms[j].id })
	for _, x := range out.atoms {
		out.coef = append(out.coef, m[x])
	}
	return out
}

func (t *termTable) add(a, b *Term) *Term { return t.fromLin(linAdd(a.linOf(), b.linOf(), 1)) }
func (t *termTable) sub(a, b *Term) *Term { return t.fromLin(linAdd(a.linOf(), b.linOf(), -1)) }

// diffConst: a-b if it is constant.
func diffConst(a, b *Term) (int64, bool) {
	d := linAdd(a.linOf(), b.linOf(), -1)
	return d.k, len(d.atoms) == 0
}

func (t *termTable) konst(c *ssa.Const) *Term {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return t.mk("zero", "")
		}
		return t.tnil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return t.boolT(constant.BoolVal(c.Value))
	case constant.Int:
		if v, ok := constant.Int64Val(c.Value); ok {
			return t.intT(v)
		}
	case constant.String:
		if constant.StringVal(c.Value) == "" {
			return t.mk("const", "empty")
		}
	}
	return t.mk("const", c.Value.ExactString())
}

func (x *Term) String() string { return x.str(0) }

func (x *Term) str(d int) string {
	if d > 8 {
		return "…"
	}
	switch x.op {
	case "nil":
		return "nil"
	case "const":
		return strings.TrimPrefix(strings.TrimPrefix(x.aux, "bool:"), "int:")
	case "lin":
		var p []string
		for i, a := range x.lin.atoms {
			s := a.str(d + 1)
			switch x.lin.coef[i] {
			case 1:
			case -1:
				s = "-" + s
			default:
				s = fmt.Sprintf("%d*%s", x.lin.coef[i], s)
			}
			p = append(p, s)
		}
		if x.lin.k != 0 || len(p) == 0 {
			p = append(p, fmt.Sprint(x.lin.k))
		}
		return strings.Join(p, "+")
	case "param", "sym", "alloc":
		return x.aux
	}
	s := x.op
	if x.aux != "" {
		s = x.aux
		if x.op != "attr" && x.op != "call" {
			s = x.op + "." + x.aux
		}
	}
	var p []string
	for _, a := range x.args {
		p = append(p, a.str(d+1))
	}
	return s + "(" + strings.Join(p, ",") + ")"
}

// mentions: x occurs in t.
func (t *Term) mentions(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if a.mentions(x) {
			return true
		}
	}
	if t.op == "lin" {
		for _, a := range t.lin.atoms {
			if a.mentions(x) {
				return true
			}
		}
	}
	return false
}
