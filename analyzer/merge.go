package main

import (
	"fmt"
	"strings"
)

// ignored: the term only depends on memory the rule does not care about.
func (e *Eng) ignored(t *Term) bool {
	if len(e.ignore) == 0 {
		return false
	}
	if t.op == "attr" && e.ignore[baseRole(t)] {
		return true
	}
	if t.op == "call" && strings.HasPrefix(t.aux, "ready@") {
		return e.ignore[rChan]
	}
	if t.op == "lin" {
		for _, a := range t.lin.atoms {
			if e.ignored(a) {
				return true
			}
		}
	}
	switch t.op {
	case "eq", "eq0", "le0", "not", "bin":
		for _, a := range t.args {
			if e.ignored(a) {
				return true
			}
		}
	}
	return false
}

// merge joins the outcomes of a call that differ only in memory and facts the
// rule does not care about.
func (e *Eng) merge(before *State, outs []outcome) []outcome {
	if len(e.ignore) == 0 || len(outs) < 2 {
		return outs
	}
	byKey := map[string]int{}
	var res []outcome
	for _, o := range outs {
		var b strings.Builder
		for _, t := range o.res {
			fmt.Fprintf(&b, "%d,", t.id)
		}
		b.WriteByte('/')
		for m := o.st.mem; m != nil && m != before.mem; m = m.next {
			if e.ignore[m.role] || (m.role == "*" || m.role == "[]" && isBidiChanT(m.val)) && m.obj != nil && e.allocs[m.obj] != nil && e.allocs[m.obj].seq > e.stateSeq(before) {
				continue
			}
			id, ix, v := 0, 0, 0
			if m.obj != nil {
				id = m.obj.id
			}
			if m.idx != nil {
				ix = m.idx.id
			}
			if m.val != nil {
				v = m.val.id
			}
			fmt.Fprintf(&b, "%d.%s.%d.%v.%d;", id, m.role, ix, m.anyIdx, v)
		}
		b.WriteByte('/')
		for i := len(before.facts); i < len(o.st.facts); i++ {
			f := o.st.facts[i]
			if e.ignored(f.t) {
				continue
			}
			fmt.Fprintf(&b, "%d=%v,", f.t.id, f.v)
		}
		b.WriteByte('/')
		for i := len(before.kinds); i < len(o.st.kinds); i++ {
			f := o.st.kinds[i]
			fmt.Fprintf(&b, "%d:%d:%v,", f.t.id, f.mask, f.soft)
		}
		b.WriteByte('/')
		for v := o.st.ev; v != nil && v != before.ev; v = v.prev {
			if v.kind == "write" && e.ignore[v.name] {
				continue
			}
			if v.kind == "write" && v.name == "[]" && e.ignore["Txn."+rTracked] && isBidiChanT(v.args[1]) {
				continue
			}
			fmt.Fprintf(&b, "%s.%s.%d", v.kind, v.name, v.pos)
			for _, a := range v.args {
				fmt.Fprintf(&b, ".%d", a.id)
			}
			for _, a := range v.res {
				fmt.Fprintf(&b, ".%d", a.id)
			}
			b.WriteByte(';')
		}
		k := b.String()
		i, ok := byKey[k]
		if !ok {
			byKey[k] = len(res)
			res = append(res, o)
			continue
		}
		// keep what both know
		st := res[i].st.clone()
		var fs []fact
		for j, f := range st.facts {
			if j < len(before.facts) || hasFact(o.st, f) {
				fs = append(fs, f)
			}
		}
		st.facts = fs
		var ls []*linear
		for j, l := range st.les {
			if j < len(before.les) || e.hasLe(o.st, l) {
				ls = append(ls, l)
			}
		}
		st.les = ls
		for r := range e.ignore {
			touched := false
			for _, s := range []*State{st, o.st} {
				for m := s.mem; m != nil && m != before.mem; m = m.next {
					if m.role == r {
						touched = true
					}
				}
			}
			if touched {
				e.seq++
				st.mem = &memEntry{role: r, anyIdx: true, seq: e.seq, next: st.mem}
			}
		}
		res[i].st = st
	}
	return res
}

func (e *Eng) stateSeq(s *State) int {
	n := 0
	if s.mem != nil {
		n = s.mem.seq
	}
	if s.ev != nil && s.ev.seq > n {
		n = s.ev.seq
	}
	return n
}

func hasFact(s *State, f fact) bool {
	for _, g := range s.facts {
		if g == f {
			return true
		}
	}
	return false
}

func (e *Eng) hasLe(s *State, l *linear) bool {
	t := e.t.fromLin(l)
	for _, m := range s.les {
		if e.t.fromLin(m) == t {
			return true
		}
	}
	return false
}

// ---- descriptions ----

func (e *Eng) pathOf(s *State) string {
	var parts []string
	for t := s.tr; t != nil; t = t.prev {
		if !t.pos.IsValid() {
			continue
		}
		p := fmt.Sprintf("%s=%v", e.c.p.pos(t.pos), t.truth)
		parts = append(parts, p)
	}
	n := len(parts)
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	if n > 14 {
		parts = append([]string{"…"}, parts[n-14:]...)
	}
	return strings.Join(parts, " ")
}

// dump prints the outcomes of a function, for debugging.
func dump(c *Ctx, name string) {
	f := c.p.byName(name)
	if f == nil {
		fmt.Println("no such function")
		for _, g := range c.p.funcs {
			fmt.Println("  ", fname(g))
		}
		return
	}
	e := newEng(c)
	e.ignore = trackRoles
	outs := e.Run(f, e.params(f), &State{})
	for i, o := range outs {
		fmt.Printf("--- %d at %s\n", i, c.p.pos(o.pos))
		for _, r := range o.res {
			fmt.Println("   res", r)
		}
		for _, ft := range o.st.facts {
			fmt.Println("   fact", ft.t, ft.v)
		}
		for _, k := range o.st.kinds {
			fmt.Println("   kind", k.t, k.mask, k.soft)
		}
		for _, v := range o.st.events() {
			fmt.Println("   ev", v.kind, v.name, v.args, v.res)
		}
	}
	fmt.Println("states", e.states, "steps", e.steps, "err", e.err, "outcomes", len(outs))
}

func isBidiChanT(t *Term) bool { return t != nil && t.typ != nil && isBidiChan(t.typ) }
