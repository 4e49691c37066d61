package main

import "go/types"

// Emptiness of a set of linear constraints over the integers, by eliminating one
// variable after the other. Incomplete for the integers, and it gives up when the
// constraints become many: then the set counts as not empty.

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// tighten divides by the common factor of the coefficients.
func tighten(l *linear) *linear {
	var g int64
	for _, c := range l.coef {
		g = gcd(g, c)
	}
	if g <= 1 {
		return l
	}
	out := &linear{atoms: l.atoms, coef: make([]int64, len(l.coef))}
	for i, c := range l.coef {
		out.coef[i] = c / g
	}
	// sum + k <= 0  ->  sum/g <= floor(-k/g)
	q := -l.k / g
	if -l.k%g != 0 && -l.k < 0 {
		q--
	}
	out.k = -q
	return out
}

// linImpossible: no integers satisfy all constraints l <= 0.
func (e *Eng) linImpossible(les []*linear, goal ...*linear) bool {
	// those connected with the goal
	want := map[*Term]bool{}
	var cs []*linear
	for _, l := range goal {
		if len(l.atoms) == 0 {
			if l.k > 0 {
				return true
			}
			continue
		}
		cs = append(cs, l)
		for _, a := range l.atoms {
			want[a] = true
		}
	}
	used := make([]bool, len(les))
	for grown := true; grown; {
		grown = false
		for i, l := range les {
			if used[i] {
				continue
			}
			hit := len(goal) == 0 || len(l.atoms) == 0
			for _, a := range l.atoms {
				if want[a] {
					hit = true
				}
			}
			if !hit {
				continue
			}
			used[i], grown = true, true
			cs = append(cs, l)
			for _, a := range l.atoms {
				want[a] = true
			}
		}
		for a := range want {
			if a.op == "min" || a.op == "max" {
				for _, x := range a.args {
					for _, b := range x.linOf().atoms {
						if !want[b] {
							want[b], grown = true, true
						}
					}
				}
			}
		}
	}
	for a := range want {
		if e.nonNeg(a) {
			cs = append(cs, linAdd(&linear{}, a.linOf(), -1))
		}
		if a.typ != nil && basicKind(a.typ) == types.Uint8 {
			cs = append(cs, linAdd(a.linOf(), &linear{k: -255}, 1))
		}
		switch a.op {
		case "min":
			for _, x := range a.args {
				cs = append(cs, linAdd(a.linOf(), x.linOf(), -1))
			}
		case "max":
			for _, x := range a.args {
				cs = append(cs, linAdd(x.linOf(), a.linOf(), -1))
			}
		}
	}
	seen := map[*Term]bool{}
	var set []*linear
	add := func(l *linear) bool {
		l = tighten(l)
		if len(l.atoms) == 0 {
			return l.k > 0
		}
		if t := e.t.fromLin(l); !seen[t] {
			seen[t] = true
			set = append(set, l)
		}
		return false
	}
	for _, l := range cs {
		if add(l) {
			return true
		}
	}
	for len(set) > 0 {
		// the variable that makes the fewest new constraints
		up, down := map[*Term]int{}, map[*Term]int{}
		for _, l := range set {
			for i, a := range l.atoms {
				if l.coef[i] > 0 {
					up[a]++
				} else {
					down[a]++
				}
			}
		}
		var best *Term
		cost := 0
		for _, l := range set {
			for _, a := range l.atoms {
				c := up[a]*down[a] - up[a] - down[a]
				if best == nil || c < cost || c == cost && a.id < best.id {
					best, cost = a, c
				}
			}
		}
		if len(set)+cost > 800 {
			return false
		}
		var pos, neg, rest []*linear
		for _, l := range set {
			k := int64(0)
			for i, a := range l.atoms {
				if a == best {
					k = l.coef[i]
				}
			}
			switch {
			case k > 0:
				pos = append(pos, l)
			case k < 0:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		set = rest
		for _, p := range pos {
			for _, n := range neg {
				var cp, cn int64
				for i, a := range p.atoms {
					if a == best {
						cp = p.coef[i]
					}
				}
				for i, a := range n.atoms {
					if a == best {
						cn = -n.coef[i]
					}
				}
				g := gcd(cp, cn)
				l := linAdd(&linear{}, p, cn/g)
				l = linAdd(l, n, cp/g)
				if l.k > 1<<40 || l.k < -(1<<40) {
					return false
				}
				if add(l) {
					return true
				}
			}
		}
	}
	return false
}

func linNeg(l *linear) *linear { return linAdd(&linear{}, l, -1) }

// linDecide decides a comparison by the linear facts of a state.
func (e *Eng) linDecide(st *State, c *Term) (val, known bool) {
	switch c.op {
	case "not":
		v, ok := e.linDecide(st, c.args[0])
		return !v, ok
	case "le0":
		l := c.args[0].linOf()
		if e.linImpossible(st.les, neg1(l)) {
			return true, true
		}
		if e.linImpossible(st.les, l) {
			return false, true
		}
	case "eq0":
		l := c.args[0].linOf()
		if e.linImpossible(st.les, l, linNeg(l)) {
			return false, true
		}
		if e.linImpossible(st.les, neg1(l)) && e.linImpossible(st.les, neg1(linNeg(l))) {
			return true, true
		}
	}
	return false, false
}
