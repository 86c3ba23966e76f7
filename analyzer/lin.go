package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Linear inequalities over integer terms (the polyhedra domain): sum(c*t) + k >= 0.
// Integers are treated as unbounded; wrap-around is not modelled.
type Lin struct {
	c map[*Term]int64
	k int64
}

func linConst(k int64) Lin { return Lin{map[*Term]int64{}, k} }
func linTerm(t *Term) Lin  { return Lin{map[*Term]int64{t: 1}, 0} }
func (a Lin) add(b Lin, m int64) Lin {
	r := Lin{make(map[*Term]int64, len(a.c)+len(b.c)), a.k + m*b.k}
	for t, c := range a.c {
		r.c[t] = c
	}
	for t, c := range b.c {
		r.c[t] += m * c
		if r.c[t] == 0 {
			delete(r.c, t)
		}
	}
	return r
}
func (a Lin) scale(m int64) Lin { return linConst(0).add(a, m) }
func (a Lin) addk(k int64) Lin  { r := a.add(linConst(0), 1); r.k += k; return r }

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// norm divides by the gcd of the coefficients, rounding the constant down
// (sound, and exact over the integers).
func (a Lin) norm() Lin {
	var g int64
	for _, c := range a.c {
		g = gcd(g, c)
	}
	if g <= 1 {
		return a
	}
	r := Lin{make(map[*Term]int64, len(a.c)), floorDiv(a.k, g)}
	for t, c := range a.c {
		r.c[t] = c / g
	}
	return r
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (a Lin) key(name func(*Term) string) string {
	var p []string
	for t, c := range a.c {
		p = append(p, fmt.Sprintf("%d*%s", c, name(t)))
	}
	sort.Strings(p)
	return strings.Join(p, "+") + fmt.Sprintf("+%d>=0", a.k)
}

func linKey(a Lin) string { return a.key(func(t *Term) string { return fmt.Sprint(t.id) }) }

const fmLimit = 400

// unsat reports whether the inequalities have no solution
// (Fourier-Motzkin with integer tightening). false means "not shown".
func unsat(cs []Lin) bool {
	// of inequalities over the same form the tightest says all
	seen := map[string]int{}
	var cur []Lin
	push := func(c Lin) bool { // returns true on contradiction
		c = c.norm()
		if len(c.c) == 0 {
			return c.k < 0
		}
		k := coefKey(c, 1)
		if i, ok := seen[k]; ok {
			if c.k < cur[i].k {
				cur[i] = c
			}
			return false
		}
		seen[k] = len(cur)
		cur = append(cur, c)
		return false
	}
	for _, c := range cs {
		if push(c) {
			return true
		}
	}
	// equalities (an inequality and its opposite) are solved for a variable
	for again := true; again; {
		again = false
		for _, c := range cur {
			i, ok := seen[coefKey(c, -1)]
			if !ok {
				continue
			}
			if d := cur[i].k + c.k; d < 0 {
				return true
			} else if d > 0 {
				continue
			}
			var v *Term
			for t, n := range c.c {
				if (n == 1 || n == -1) && (v == nil || t.id < v.id) {
					v = t
				}
			}
			if v == nil {
				continue
			}
			eq := c
			if c.c[v] < 0 {
				eq = c.scale(-1)
			}
			old := cur
			cur = nil
			seen = map[string]int{}
			for _, o := range old {
				if n := o.c[v]; n != 0 {
					o = o.add(eq, -n)
				}
				if push(o) {
					return true
				}
			}
			again = true
			break
		}
	}
	for {
		// pick the variable with the fewest combinations
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, c := range cur {
			for t, v := range c.c {
				if v > 0 {
					pos[t]++
				} else {
					neg[t]++
				}
			}
		}
		var best *Term
		bc := 0
		vars := map[*Term]bool{}
		for t := range pos {
			vars[t] = true
		}
		for t := range neg {
			vars[t] = true
		}
		for t := range vars {
			cost := pos[t]*neg[t] - pos[t] - neg[t]
			if best == nil || cost < bc || (cost == bc && t.id < best.id) {
				best, bc = t, cost
			}
		}
		if best == nil {
			return false
		}
		old := cur
		cur = nil
		seen = map[string]int{}
		var ps, ns []Lin
		for _, c := range old {
			switch v := c.c[best]; {
			case v > 0:
				ps = append(ps, c)
			case v < 0:
				ns = append(ns, c)
			default:
				push(c)
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.c[best], -n.c[best]
				g := gcd(a, b)
				if push(p.scale(b/g).add(n, a/g)) {
					return true
				}
			}
		}
		if len(cur) > fmLimit {
			return false
		}
	}
}

// coefKey names the form of an inequality, times m, without its constant.
func coefKey(a Lin, m int64) string {
	ts := make([]*Term, 0, len(a.c))
	for t := range a.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	b := make([]byte, 0, 12*len(ts))
	for _, t := range ts {
		b = strconv.AppendInt(b, int64(t.id), 10)
		b = append(b, ':')
		b = strconv.AppendInt(b, m*a.c[t], 10)
		b = append(b, ' ')
	}
	return string(b)
}

// tightest leaves, of inequalities over the same form, the strongest.
func tightest(cs []Lin) []Lin {
	seen := map[string]int{}
	var out []Lin
	for _, c := range cs {
		k := coefKey(c, 1)
		if i, ok := seen[k]; ok {
			if c.k < out[i].k {
				out[i] = c
			}
			continue
		}
		seen[k] = len(out)
		out = append(out, c)
	}
	return out
}

// eliminate projects the terms for which dead holds out of the inequalities.
func eliminate(cs []Lin, dead func(*Term) bool) []Lin {
	for {
		var v *Term
		for _, c := range cs {
			for t := range c.c {
				if dead(t) && (v == nil || t.id < v.id) {
					v = t
				}
			}
		}
		if v == nil {
			return cs
		}
		var ps, ns, out []Lin
		seen := map[string]bool{}
		push := func(c Lin) {
			c = c.norm()
			if len(c.c) == 0 {
				return
			}
			if k := linKey(c); !seen[k] {
				seen[k] = true
				out = append(out, c)
			}
		}
		for _, c := range cs {
			switch x := c.c[v]; {
			case x > 0:
				ps = append(ps, c)
			case x < 0:
				ns = append(ns, c)
			default:
				push(c)
			}
		}
		if len(ps)*len(ns) > 200 {
			ps, ns = tightest(ps), tightest(ns)
		}
		// (all combinations, where they are few: widening keeps some of them)
		if ep, en, ok := equation(ps, ns); ok && len(ps)*len(ns) > 200 {
			for _, q := range ps {
				a, b := q.c[v], -en.c[v]
				g := gcd(a, b)
				push(q.scale(b/g).add(en, a/g))
			}
			for _, q := range ns {
				a, b := ep.c[v], -q.c[v]
				g := gcd(a, b)
				push(ep.scale(b/g).add(q, a/g))
			}
		} else if len(ps)*len(ns) <= 200 {
			for _, p := range ps {
				for _, n := range ns {
					a, b := p.c[v], -n.c[v]
					g := gcd(a, b)
					push(p.scale(b/g).add(n, a/g))
				}
			}
		}
		cs = out
	}
}

// equation finds two inequalities that say that a form is zero
func equation(ps, ns []Lin) (p, n Lin, ok bool) {
	keys := map[string]int{}
	for i, a := range ps {
		keys[linKey(a)] = i
	}
	for _, b := range ns {
		if i, ok := keys[linKey(b.scale(-1))]; ok {
			return ps[i], b, true
		}
	}
	return
}
