package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// A small bit domain: a byte is eight bits, each 0, 1, or a bit of a memory
// cell (or its complement). Shift distances and masks are evaluated for every
// value of the quantities in 0..7 they depend on.

type bit struct {
	k   int8 // 0, 1: constant; 2: symbol; 3: complement of a symbol; -1 unknown
	src string
	cel *Term // the cell value the bit belongs to
	n   int   // bit number within the cell
}

func (b bit) String() string {
	switch b.k {
	case 0, 1:
		return fmt.Sprint(b.k)
	case 2:
		return b.src
	case 3:
		return "~" + b.src
	case 4:
		return "(" + strings.ReplaceAll(b.src, " ", "_") + ")"
	case 5:
		return "~(" + strings.ReplaceAll(b.src, " ", "_") + ")"
	}
	return "?"
}

type bitEnv struct {
	st  *State
	val map[*Term]int64
	// cell gives the bits of a value read from memory
	cell func(t *Term) ([]bit, bool)
}

func symBits(t *Term, w int) []bit {
	bs := make([]bit, w)
	for i := range bs {
		bs[i] = bit{k: 2, src: fmt.Sprintf("%d.%d", t.id, i), cel: t, n: i}
	}
	return bs
}

func widthOf(t types.Type) int {
	if t == nil {
		return 64
	}
	n := sizeOf(t) * 8
	if n <= 0 {
		return 64
	}
	return n
}

func constBits(v int64, w int) []bit {
	bs := make([]bit, w)
	for i := range bs {
		bs[i] = bit{k: int8(v >> uint(i) & 1)}
	}
	return bs
}

// num evaluates an integer under the environment
func (e *bitEnv) num(t *Term) (int64, bool) {
	l := e.st.linOf(t)
	v := l.k
	for a, c := range l.c {
		x, ok := e.val[a]
		if !ok {
			return 0, false
		}
		v += c * x
	}
	return v, true
}

func (e *bitEnv) bits(t *Term, w int) ([]bit, bool) {
	t = e.st.resolve(t)
	if v, ok := e.num(t); ok {
		return constBits(v, w), true
	}
	fit := func(bs []bit) []bit {
		for len(bs) < w {
			bs = append(bs, bit{})
		}
		return bs[:w]
	}
	if e.cell != nil {
		if bs, ok := e.cell(t); ok {
			return fit(bs), true
		}
	}
	if t.k != TOp {
		return nil, false
	}
	op := t.op
	if len(op) > 4 && op[:4] == "wrap" {
		op = op[4:]
	}
	ow := widthOf(t.typ)
	shift := func(by int64) ([]bit, bool) {
		a, ok := e.bits(t.args[0], ow)
		if !ok {
			return nil, false
		}
		r := make([]bit, ow)
		for i := range r {
			if j := int64(i) - by; j >= 0 && j < int64(ow) {
				r[i] = a[j]
			}
		}
		return fit(r), true
	}
	if len(op) > 5 && op[:5] == "conv:" {
		a, ok := e.bits(t.args[0], widthOf(t.args[0].typ))
		if !ok {
			return nil, false
		}
		for len(a) < ow {
			a = append(a, bit{})
		}
		return fit(a[:ow]), true
	}
	switch op {
	case "<<", ">>":
		n, ok := e.num(t.args[1])
		if !ok || n < 0 {
			return nil, false
		}
		if op == ">>" {
			n = -n
		}
		return shift(n)
	case "*", "/", "%":
		c, ok := e.num(t.args[1])
		if !ok {
			return nil, false
		}
		n := int64(0)
		for 1<<uint(n) < c {
			n++
		}
		if c <= 0 || 1<<uint(n) != c {
			return nil, false
		}
		switch op {
		case "*":
			return shift(n)
		case "/":
			return shift(-n)
		}
		a, ok := e.bits(t.args[0], ow)
		if !ok {
			return nil, false
		}
		for i := int(n); i < len(a); i++ {
			a[i] = bit{}
		}
		return fit(a), true
	case "u^":
		a, ok := e.bits(t.args[0], ow)
		if !ok {
			return nil, false
		}
		r := make([]bit, len(a))
		for i := range a {
			r[i] = notBit(a[i])
		}
		return fit(r), true
	case "&", "|", "^", "&^", "+":
		a, ok := e.bits(t.args[0], ow)
		b, ok2 := e.bits(t.args[1], ow)
		if !ok || !ok2 {
			return nil, false
		}
		r := make([]bit, ow)
		for i := range r {
			x, y := a[i], b[i]
			switch op {
			case "&^":
				r[i] = andBit(x, notBit(y))
			case "&":
				r[i] = andBit(x, y)
			case "|":
				r[i] = notBit(andBit(notBit(x), notBit(y)))
			case "+":
				if x.k != 0 && y.k != 0 {
					return nil, false
				}
				r[i] = notBit(andBit(notBit(x), notBit(y)))
			case "^":
				r[i] = xorBit(x, y)
			}
		}
		return fit(r), true
	}
	return nil, false
}

func notBit(b bit) bit {
	switch b.k {
	case 0, 1:
		b.k = 1 - b.k
	case 2, 3:
		b.k = 5 - b.k
	case 4, 5:
		b.k = 9 - b.k
	}
	return b
}

func andBit(a, b bit) bit {
	switch {
	case a.k == 0 || b.k == 0:
		return bit{}
	case a.k == 1:
		return b
	case b.k == 1:
		return a
	case a.k < 0 || b.k < 0:
		return bit{k: -1}
	case a.String() == b.String():
		return a
	}
	// a combination of several bits, rendered canonically
	var ps []string
	for _, x := range []bit{a, b} {
		if x.k == 4 && strings.HasPrefix(x.src, "and ") {
			ps = append(ps, strings.Split(x.src[4:], " ")...)
		} else {
			ps = append(ps, x.String())
		}
	}
	sort.Strings(ps)
	out := ps[:1]
	for _, q := range ps[1:] {
		if q != out[len(out)-1] {
			out = append(out, q)
		}
	}
	return bit{k: 4, src: "and " + strings.Join(out, " ")}
}

func xorBit(x, y bit) bit {
	switch {
	case x.k < 0 || y.k < 0:
		return bit{k: -1}
	case x.k == 0:
		return y
	case y.k == 0:
		return x
	case x.k == 1:
		return notBit(y)
	case y.k == 1:
		return notBit(x)
	}
	a, b := x.String(), y.String()
	if a == b {
		return bit{}
	}
	if a > b {
		a, b = b, a
	}
	return bit{k: 4, src: "xor " + a + " " + b}
}

// cond evaluates a condition to one bit
func (e *bitEnv) cond(t *Term) (bit, bool) {
	if t.isBool(true) {
		return bit{k: 1}, true
	}
	if t.isBool(false) {
		return bit{}, true
	}
	if t.k != TOp {
		return bit{}, false
	}
	switch t.op {
	case "not":
		b, ok := e.cond(t.args[0])
		return notBit(b), ok
	case "eq", "lt", "le":
		if !isInt(t.args[0].typ) && !isInt(t.args[1].typ) {
			if t.op != "eq" {
				return bit{}, false
			}
			a, ok1 := e.cond(t.args[0])
			b, ok2 := e.cond(t.args[1])
			if ok1 && b.k == 1 {
				return a, true
			}
			if ok2 && a.k == 1 {
				return b, true
			}
			return bit{}, false
		}
		w := widthOf(t.args[0].typ)
		if t.args[0].k == TConst {
			w = widthOf(t.args[1].typ)
		}
		a, ok1 := e.bits(t.args[0], w)
		b, ok2 := e.bits(t.args[1], w)
		if !ok1 || !ok2 {
			return bit{}, false
		}
		allConst := func(x []bit) (int64, bool) {
			v := int64(0)
			for i, c := range x {
				if c.k != 0 && c.k != 1 {
					return 0, false
				}
				v |= int64(c.k) << uint(i)
			}
			return v, true
		}
		if t.op == "eq" {
			r := bit{k: 1}
			for i := range a {
				var d bit
				switch {
				case a[i].k == 1:
					d = b[i]
				case b[i].k == 1:
					d = a[i]
				case a[i].k == 0:
					d = notBit(b[i])
				case b[i].k == 0:
					d = notBit(a[i])
				case a[i].k > 0 && a[i].k == b[i].k && a[i].src == b[i].src:
					d = bit{k: 1}
				default:
					d = bit{k: -1}
				}
				r = andBit(r, d)
			}
			return r, r.k >= 0
		}
		// 0 < x, 1 <= x, with one symbolic bit
		if v, ok := allConst(a); ok && (t.op == "lt" && v == 0 || t.op == "le" && v == 1) {
			r := bit{k: 1}
			for _, c := range b {
				r = andBit(r, notBit(c))
			}
			r = notBit(r)
			return r, r.k >= 0
		}
	}
	return bit{}, false
}

// octal collects the quantities known to lie in 0..7 that t depends on
func octal(st *State, t *Term, out map[*Term]bool) {
	if t == nil || len(out) > 3 {
		return
	}
	if isInt(t.typ) && (t.k == TOp && (t.op == "%" || t.op == "&") || t.k == TSym) {
		if st.prove(linTerm(t)) && st.prove(linTerm(t).scale(-1).addk(7)) {
			out[t] = true
			return
		}
	}
	for _, a := range t.args {
		octal(st, a, out)
	}
}

// forEachOctal runs f for every combination of values of the small quantities
// of the given terms, in a state that knows the combination.
func forEachOctal(st *State, ts []*Term, f func(s *State, env map[*Term]int64)) {
	m := map[*Term]bool{}
	for _, t := range ts {
		octal(st, t, m)
	}
	var as []*Term
	for t := range m {
		as = append(as, t)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) > 2 {
		as = as[:2]
	}
	var rec func(s *State, i int, env map[*Term]int64)
	rec = func(s *State, i int, env map[*Term]int64) {
		if i == len(as) {
			f(s, env)
			return
		}
		for v := int64(0); v < 8; v++ {
			l := linTerm(as[i]).addk(-v)
			if s.prove(l.addk(-1)) || s.prove(l.scale(-1).addk(-1)) {
				continue // impossible
			}
			n := s.clone()
			n.addLin(l)
			n.addLin(l.scale(-1))
			e := map[*Term]int64{}
			for k, v := range env {
				e[k] = v
			}
			e[as[i]] = v
			rec(n, i+1, e)
		}
	}
	rec(st, 0, map[*Term]int64{})
}
