package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Intervals of exact integers and of floating-point numbers, with upper bounds
// relative to one parameter N ≥ 1 of the entry point. Evaluated on demand over
// the SSA of the program, with the branches that dominate a use and with calls
// analysed for the arguments at hand.

// sb is the bound v ≤ c·N + d
type sb struct{ c, d *big.Int }

type rng struct {
	lo, hi *big.Int
	up     []sb
	flo    float64
	fhi    float64
	float  bool
	// the bounds need not be close: the operation is not one that is modelled
	vague bool
	why   string
	empty bool
}

type rframe struct {
	fn   *ssa.Function
	args []*rng
	in   map[ssa.Value]*rng
	busy map[ssa.Value]bool
	up   *rframe
	deep int
}

type ranges struct {
	p     *Program
	calls int
	fns   map[string]bool
	ops   int
}

func bi(n int64) *big.Int { return big.NewInt(n) }

func typeBounds(p *Program, t types.Type) (lo, hi *big.Int, ok bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	w := uint(sizeOf(t) * 8)
	if b.Info()&types.IsUnsigned != 0 {
		return bi(0), new(big.Int).Sub(new(big.Int).Lsh(bi(1), w), bi(1)), true
	}
	h := new(big.Int).Lsh(bi(1), w-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, bi(1)), true
}

func single(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (g *ranges) top(t types.Type, vague bool, why string) *rng {
	if isFloat(t) {
		return &rng{float: true, flo: math.Inf(-1), fhi: math.Inf(1), vague: vague, why: why}
	}
	lo, hi, ok := typeBounds(g.p, t)
	if !ok {
		return &rng{lo: bi(0), hi: bi(0), vague: true, why: "a value that is no number"}
	}
	return &rng{lo: lo, hi: hi, vague: vague, why: why}
}

func constRng(lo, hi *big.Int) *rng { return &rng{lo: lo, hi: hi} }

// fit: what a value becomes in a type
func (g *ranges) fit(r *rng, t types.Type) *rng {
	lo, hi, ok := typeBounds(g.p, t)
	if !ok {
		return g.top(t, true, "a value that is no integer")
	}
	// a bound relative to N holds for the exact value only
	if r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0 {
		return r
	}
	return &rng{lo: lo, hi: hi, vague: r.vague, why: r.why}
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// implied: a ≤ b for every N ≥ 1
func (a sb) implies(b sb) bool {
	// a.c·N + a.d ≤ b.c·N + b.d  for N ≥ 1
	dc := new(big.Int).Sub(b.c, a.c)
	dd := new(big.Int).Sub(b.d, a.d)
	return dc.Sign() >= 0 && new(big.Int).Add(dc, dd).Sign() >= 0
}

func (r *rng) under(b sb) bool {
	for _, a := range r.up {
		if a.implies(b) {
			return true
		}
	}
	// r.hi is a bound without N
	return sb{bi(0), r.hi}.implies(b)
}

func join(a, b *rng) *rng {
	if a == nil || a.empty {
		return b
	}
	if b == nil || b.empty {
		return a
	}
	r := &rng{vague: a.vague || b.vague, why: a.why}
	if r.why == "" {
		r.why = b.why
	}
	if a.float || b.float {
		r.float = true
		r.flo, r.fhi = math.Min(a.flo, b.flo), math.Max(a.fhi, b.fhi)
		return r
	}
	r.lo, r.hi = minB(a.lo, b.lo), maxB(a.hi, b.hi)
	for _, s := range a.up {
		if b.under(s) {
			r.up = append(r.up, s)
		}
	}
	for _, s := range b.up {
		if a.under(s) {
			r.up = append(r.up, s)
		}
	}
	return r
}

func (f *rframe) param(v *ssa.Parameter) *rng {
	for i, p := range f.fn.Params {
		if p == v && i < len(f.args) {
			return f.args[i]
		}
	}
	return nil
}

// at is the range of v as used in block b.
func (g *ranges) at(f *rframe, v ssa.Value, b *ssa.BasicBlock) *rng {
	r := g.val(f, v)
	if c, ok := v.(*ssa.Const); ok && c != nil {
		return r
	}
	// branches that dominate b
	for d := b; d != nil && !r.empty; d = d.Idom() {
		if len(d.Preds) == 1 {
			r = g.edge(f, v, r, d.Preds[0], d)
		}
	}
	return r
}

// edge narrows r, the range of v, by the branch from p to q.
func (g *ranges) edge(f *rframe, v ssa.Value, r *rng, p, q *ssa.BasicBlock) *rng {
	in, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] || r.empty {
		return r
	}
	pos := p.Succs[0] == q
	cond := in.Cond
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, pos = u.X, !pos
	}
	c, ok := cond.(*ssa.BinOp)
	if !ok {
		return r
	}
	var w ssa.Value
	op := c.Op
	switch v {
	case c.X:
		w = c.Y
	case c.Y:
		w = c.X
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	default:
		return r
	}
	if w == v {
		return r
	}
	if !pos {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		default:
			return r
		}
	}
	if r.float {
		o := g.val(f, w)
		if !o.float || o.empty {
			return r
		}
		up := func(x float64) float64 { return math.Nextafter(x, math.Inf(1)) }
		down := func(x float64) float64 { return math.Nextafter(x, math.Inf(-1)) }
		if single(v.Type()) {
			up = func(x float64) float64 { return float64(math.Nextafter32(float32(x), float32(math.Inf(1)))) }
			down = func(x float64) float64 { return float64(math.Nextafter32(float32(x), float32(math.Inf(-1)))) }
		}
		n := *r
		switch op {
		case token.LSS:
			n.fhi = math.Min(n.fhi, down(o.fhi))
		case token.LEQ:
			n.fhi = math.Min(n.fhi, o.fhi)
		case token.GTR:
			n.flo = math.Max(n.flo, up(o.flo))
		case token.GEQ:
			n.flo = math.Max(n.flo, o.flo)
		case token.NEQ:
			if o.flo == o.fhi && o.flo == n.fhi {
				n.fhi = down(n.fhi)
			}
			if o.flo == o.fhi && o.flo == n.flo {
				n.flo = up(n.flo)
			}
		}
		if n.flo > n.fhi {
			return &rng{empty: true}
		}
		return &n
	}
	if isFloat(w.Type()) {
		return r
	}
	if _, _, ok := typeBounds(g.p, w.Type()); !ok {
		return r
	}
	o := g.val(f, w)
	if o == nil || o.empty || o.float {
		return r
	}
	n := &rng{lo: r.lo, hi: r.hi, up: append([]sb{}, r.up...), vague: r.vague, why: r.why}
	// a comparison with a bound that is not known closely says little
	shift := int64(0)
	switch op {
	case token.LSS, token.LEQ:
		if op == token.LSS {
			shift = -1
		}
		n.hi = minB(n.hi, new(big.Int).Add(o.hi, bi(shift)))
		for _, s := range o.up {
			n.up = append(n.up, sb{s.c, new(big.Int).Add(s.d, bi(shift))})
		}
	case token.GTR, token.GEQ:
		if op == token.GTR {
			shift = 1
		}
		n.lo = maxB(n.lo, new(big.Int).Add(o.lo, bi(shift)))
	case token.EQL:
		n.lo, n.hi = maxB(n.lo, o.lo), minB(n.hi, o.hi)
		n.up = append(n.up, o.up...)
	case token.NEQ:
		if o.lo.Cmp(o.hi) == 0 {
			if o.lo.Cmp(n.lo) == 0 {
				n.lo = new(big.Int).Add(n.lo, bi(1))
			}
			if o.lo.Cmp(n.hi) == 0 {
				n.hi = new(big.Int).Sub(n.hi, bi(1))
			}
		}
	}
	if n.lo.Cmp(n.hi) > 0 {
		return &rng{empty: true}
	}
	return n
}

// live: the branches that lead to b can be taken
func (g *ranges) live(f *rframe, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		in, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := in.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, v := range []ssa.Value{c.X, c.Y} {
			if _, ok := v.(*ssa.Const); ok || isFloat(v.Type()) {
				continue
			}
			if _, _, ok := typeBounds(g.p, v.Type()); ok && g.at(f, v, d).empty {
				return false
			}
		}
	}
	return true
}

func (g *ranges) val(f *rframe, v ssa.Value) *rng {
	if r := f.in[v]; r != nil {
		return r
	}
	if f.busy[v] {
		// around a loop: anything
		return g.top(v.Type(), true, "a variable of a loop")
	}
	f.busy[v] = true
	r := g.compute(f, v)
	delete(f.busy, v)
	if !isLoopy(f) {
		f.in[v] = r
	}
	return r
}

// results that were computed while a loop variable was open are not kept
func isLoopy(f *rframe) bool {
	for v := range f.busy {
		if _, ok := v.(*ssa.Phi); ok {
			return true
		}
	}
	return false
}

func (g *ranges) compute(f *rframe, v ssa.Value) *rng {
	t := v.Type()
	g.ops++
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return g.top(t, true, "no number")
		}
		if isFloat(t) {
			c, _ := constant.Float64Val(constant.ToFloat(v.Value))
			if single(t) {
				c = float64(float32(c))
			}
			return &rng{float: true, flo: c, fhi: c}
		}
		if c := constant.ToInt(v.Value); c.Kind() == constant.Int {
			n, ok := new(big.Int).SetString(c.ExactString(), 10)
			if ok {
				return constRng(n, n)
			}
		}
		return g.top(t, true, "a constant that is no number")
	case *ssa.Parameter:
		if r := f.param(v); r != nil {
			return r
		}
		return g.top(t, true, "an argument")
	case *ssa.Phi:
		var r *rng
		for i, e := range v.Edges {
			if e == v {
				continue
			}
			p := v.Block().Preds[i]
			if !g.live(f, p) {
				continue
			}
			x := g.at(f, e, p)
			if !x.empty {
				x = g.edge(f, e, x, p, v.Block())
			}
			r = join(r, x)
		}
		if r == nil {
			return &rng{empty: true}
		}
		return r
	case *ssa.ChangeType:
		return g.at(f, v.X, v.Block())
	case *ssa.Convert:
		x := g.at(f, v.X, v.Block())
		if x.empty {
			return x
		}
		switch {
		case isFloat(t) && !x.float:
			if x.lo == nil {
				return g.top(t, true, "a conversion")
			}
			a, _ := new(big.Float).SetInt(x.lo).Float64()
			b, _ := new(big.Float).SetInt(x.hi).Float64()
			if single(t) {
				a4, _ := new(big.Float).SetInt(x.lo).Float32()
				b4, _ := new(big.Float).SetInt(x.hi).Float32()
				a, b = float64(a4), float64(b4)
			}
			return &rng{float: true, flo: a, fhi: b, vague: x.vague, why: x.why}
		case isFloat(t) && x.float:
			if single(t) {
				return &rng{float: true, flo: float64(float32(x.flo)), fhi: float64(float32(x.fhi)), vague: x.vague, why: x.why}
			}
			return x
		case x.float:
			lo, hi, ok := typeBounds(g.p, t)
			if !ok || math.IsInf(x.flo, 0) || math.IsInf(x.fhi, 0) {
				return g.top(t, true, "a conversion of a floating-point number")
			}
			a, _ := big.NewFloat(math.Trunc(x.flo)).Int(nil)
			b, _ := big.NewFloat(math.Trunc(x.fhi)).Int(nil)
			if a.Cmp(lo) < 0 || b.Cmp(hi) > 0 {
				return g.top(t, true, "a conversion of a floating-point number")
			}
			return &rng{lo: a, hi: b, vague: true, why: "a conversion of a floating-point number"}
		}
		if _, _, ok := typeBounds(g.p, t); !ok {
			return g.top(t, true, "a conversion")
		}
		return g.fit(x, t)
	case *ssa.UnOp:
		switch v.Op {
		case token.SUB:
			x := g.at(f, v.X, v.Block())
			if x.empty {
				return x
			}
			if x.float {
				return &rng{float: true, flo: -x.fhi, fhi: -x.flo, vague: x.vague, why: x.why}
			}
			return g.fit(&rng{lo: new(big.Int).Neg(x.hi), hi: new(big.Int).Neg(x.lo), vague: x.vague, why: x.why}, t)
		case token.MUL:
			return g.top(t, true, "memory")
		case token.XOR:
			x := g.at(f, v.X, v.Block())
			if x.empty {
				return x
			}
			lo, hi, ok := typeBounds(g.p, t)
			if ok && lo.Sign() == 0 {
				return &rng{lo: new(big.Int).Sub(hi, x.hi), hi: new(big.Int).Sub(hi, x.lo), vague: x.vague, why: x.why}
			}
			return g.top(t, true, "an operation that is not modelled")
		}
		return g.top(t, true, "an operation that is not modelled")
	case *ssa.BinOp:
		return g.binop(f, v)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return g.call(f, c, v.Index)
		}
		return g.top(t, true, "an operation that is not modelled")
	case *ssa.Call:
		return g.call(f, v, 0)
	}
	return g.top(t, true, "an operation that is not modelled")
}

func (g *ranges) binop(f *rframe, v *ssa.BinOp) *rng {
	t := v.Type()
	if !isFloat(t) {
		if _, _, ok := typeBounds(g.p, t); !ok {
			return g.top(t, true, "no number")
		}
	}
	a, b := g.at(f, v.X, v.Block()), g.at(f, v.Y, v.Block())
	if a.empty || b.empty {
		return &rng{empty: true}
	}
	vague := a.vague || b.vague
	why := a.why
	if why == "" {
		why = b.why
	}
	if isFloat(t) {
		round := func(x float64) float64 {
			if single(t) {
				return float64(float32(x))
			}
			return x
		}
		var c []float64
		switch v.Op {
		case token.ADD:
			c = []float64{a.flo + b.flo, a.fhi + b.fhi}
		case token.SUB:
			c = []float64{a.flo - b.fhi, a.fhi - b.flo}
		case token.MUL:
			c = []float64{a.flo * b.flo, a.flo * b.fhi, a.fhi * b.flo, a.fhi * b.fhi}
		case token.QUO:
			if b.flo <= 0 && b.fhi >= 0 {
				return g.top(t, true, "a division that may be by zero")
			}
			c = []float64{a.flo / b.flo, a.flo / b.fhi, a.fhi / b.flo, a.fhi / b.fhi}
		default:
			return g.top(t, true, "an operation that is not modelled")
		}
		r := &rng{float: true, flo: math.Inf(1), fhi: math.Inf(-1), vague: vague, why: why}
		for _, x := range c {
			if math.IsNaN(x) {
				return g.top(t, true, "an operation that is not modelled")
			}
			r.flo, r.fhi = math.Min(r.flo, round(x)), math.Max(r.fhi, round(x))
		}
		return r
	}
	r := &rng{vague: vague, why: why}
	nneg := a.lo.Sign() >= 0 && b.lo.Sign() >= 0
	op := func(fn func(z, x, y *big.Int) *big.Int, x, y *big.Int) *big.Int { return fn(new(big.Int), x, y) }
	add, sub, mul := (*big.Int).Add, (*big.Int).Sub, (*big.Int).Mul
	unknown := func() *rng {
		n := g.top(t, true, "an operation that is not modelled")
		return n
	}
	switch v.Op {
	case token.ADD:
		r.lo, r.hi = op(add, a.lo, b.lo), op(add, a.hi, b.hi)
		for _, s := range a.up {
			r.up = append(r.up, sb{s.c, op(add, s.d, b.hi)})
		}
		for _, s := range b.up {
			r.up = append(r.up, sb{s.c, op(add, s.d, a.hi)})
		}
	case token.SUB:
		r.lo, r.hi = op(sub, a.lo, b.hi), op(sub, a.hi, b.lo)
		for _, s := range a.up {
			r.up = append(r.up, sb{s.c, op(sub, s.d, b.lo)})
		}
	case token.MUL:
		c := []*big.Int{op(mul, a.lo, b.lo), op(mul, a.lo, b.hi), op(mul, a.hi, b.lo), op(mul, a.hi, b.hi)}
		r.lo, r.hi = c[0], c[0]
		for _, x := range c[1:] {
			r.lo, r.hi = minB(r.lo, x), maxB(r.hi, x)
		}
		if nneg {
			for _, s := range a.up {
				if s.c.Sign() >= 0 && op(add, s.c, s.d).Sign() >= 0 {
					r.up = append(r.up, sb{op(mul, s.c, b.hi), op(mul, s.d, b.hi)})
				}
			}
			for _, s := range b.up {
				if s.c.Sign() >= 0 && op(add, s.c, s.d).Sign() >= 0 {
					r.up = append(r.up, sb{op(mul, s.c, a.hi), op(mul, s.d, a.hi)})
				}
			}
		}
	case token.QUO, token.REM:
		if b.lo.Sign() <= 0 && b.hi.Sign() >= 0 {
			// zero panics
			if b.lo.Sign() < 0 || b.hi.Sign() == 0 {
				return unknown()
			}
			b = &rng{lo: bi(1), hi: b.hi, up: b.up, vague: b.vague, why: b.why}
		}
		if b.lo.Sign() < 0 || v.Op == token.QUO && a.lo.Sign() < 0 {
			return unknown()
		}
		if v.Op == token.QUO {
			r.lo, r.hi = op((*big.Int).Quo, a.lo, b.hi), op((*big.Int).Quo, a.hi, b.lo)
			r.up = scaled(a.up, b.lo)
			break
		}
		m := op(sub, b.hi, bi(1))
		r.lo, r.hi = bi(0), minB(m, maxB(a.hi, bi(0)))
		if a.lo.Sign() < 0 {
			r.lo = maxB(new(big.Int).Neg(m), a.lo)
		}
		for _, s := range b.up {
			r.up = append(r.up, sb{s.c, op(sub, s.d, bi(1))})
		}
		if a.lo.Sign() >= 0 {
			r.up = append(r.up, a.up...)
		}
	case token.AND, token.AND_NOT:
		if v.Op == token.AND_NOT {
			if a.lo.Sign() < 0 {
				return unknown()
			}
			r.lo, r.hi, r.up = bi(0), a.hi, a.up
			r.vague, r.why = true, "an operation that is not modelled"
			break
		}
		switch {
		case nneg:
			r.lo, r.hi = bi(0), minB(a.hi, b.hi)
			r.up = append(append([]sb{}, a.up...), b.up...)
		case a.lo.Sign() >= 0:
			r.lo, r.hi, r.up = bi(0), a.hi, a.up
		case b.lo.Sign() >= 0:
			r.lo, r.hi, r.up = bi(0), b.hi, b.up
		default:
			return g.top(t, vague, why)
		}
	case token.OR, token.XOR:
		if !nneg {
			return unknown()
		}
		n := maxB(a.hi, b.hi).BitLen()
		r.lo, r.hi = bi(0), op(sub, new(big.Int).Lsh(bi(1), uint(n)), bi(1))
		_, hi, _ := typeBounds(g.p, t)
		if r.hi.Cmp(hi) < 0 {
			r.vague, r.why = true, "an operation that is not modelled"
		}
	case token.SHL, token.SHR:
		if b.lo.Sign() < 0 || b.hi.Cmp(bi(200)) > 0 {
			return unknown()
		}
		lo, hi := uint(b.lo.Int64()), uint(b.hi.Int64())
		if v.Op == token.SHL {
			if a.lo.Sign() < 0 {
				return unknown()
			}
			r.lo, r.hi = new(big.Int).Lsh(a.lo, lo), new(big.Int).Lsh(a.hi, hi)
			for _, s := range a.up {
				k := new(big.Int).Lsh(bi(1), hi)
				if s.c.Sign() >= 0 && op(add, s.c, s.d).Sign() >= 0 {
					r.up = append(r.up, sb{op(mul, s.c, k), op(mul, s.d, k)})
				}
			}
			_, th, _ := typeBounds(g.p, t)
			if r.hi.Cmp(th) > 0 && lo == hi {
				// the bits that stay
				tl, _, _ := typeBounds(g.p, t)
				if tl.Sign() == 0 {
					step := new(big.Int).Lsh(bi(1), lo)
					return &rng{lo: bi(0), hi: op(sub, op(add, th, bi(1)), step), vague: vague, why: why}
				}
			}
			break
		}
		if a.lo.Sign() < 0 {
			r.lo = new(big.Int).Rsh(a.lo, lo)
		} else {
			r.lo = new(big.Int).Rsh(a.lo, hi)
		}
		if a.hi.Sign() < 0 {
			r.hi = new(big.Int).Rsh(a.hi, hi)
		} else {
			r.hi = new(big.Int).Rsh(a.hi, lo)
		}
		if a.lo.Sign() >= 0 {
			r.up = scaled(a.up, new(big.Int).Lsh(bi(1), lo))
		}
	default:
		return unknown()
	}
	return g.fit(r, t)
}

// scaled: bounds of the quotient by k (rounded down) of a value that is not negative
func scaled(up []sb, k *big.Int) []sb {
	var out []sb
	for _, s := range up {
		if s.c.Sign() < 0 {
			continue
		}
		q, m := new(big.Int).QuoRem(s.c, k, new(big.Int))
		fl := new(big.Int)
		fl.Div(s.d, k) // rounded down as k > 0
		if m.Sign() == 0 {
			// (q·k·N + d)/k = q·N + ⌊d/k⌋
			out = append(out, sb{q, fl})
			continue
		}
		// c·N/k < (q+1)·N; at N ≥ 1 the difference is positive
		q = new(big.Int).Add(q, bi(1))
		d := new(big.Int)
		if s.d.Sign() <= 0 {
			d = bi(-1)
		} else {
			d.Add(fl, bi(1))
		}
		out = append(out, sb{q, d})
	}
	return out
}

func (g *ranges) call(f *rframe, c *ssa.Call, res int) *rng {
	g.calls++
	sig := c.Call.Signature()
	if sig.Results().Len() <= res {
		return g.top(c.Type(), true, "a call")
	}
	t := sig.Results().At(res).Type()
	_, _, integer := typeBounds(g.p, t)
	callee := c.Call.StaticCallee()
	if callee == nil {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok {
			return g.builtin(f, c, b, t)
		}
		if l, ok := c.Call.Value.(*ssa.UnOp); ok {
			if gl, ok := l.X.(*ssa.Global); ok {
				// a variable of the package that is set once
				callee = onceFunc(gl)
			}
		}
	}
	if callee == nil {
		return g.top(t, true, "a call of a function that is not known")
	}
	if callee.Blocks == nil || !inRepo(callee) {
		full := callee.String()
		switch full {
		case "math/bits.Mul64", "math/bits.Mul32", "math/bits.Mul":
			if res == 0 {
				x, y := g.at(f, c.Call.Args[0], c.Block()), g.at(f, c.Call.Args[1], c.Block())
				if x.empty || y.empty {
					return &rng{empty: true}
				}
				m := &rng{lo: new(big.Int).Mul(x.lo, y.lo), hi: new(big.Int).Mul(x.hi, y.hi), vague: x.vague || y.vague, why: x.why}
				for _, p := range [][2]*rng{{x, y}, {y, x}} {
					for _, s := range p[0].up {
						if s.c.Sign() >= 0 && new(big.Int).Add(s.c, s.d).Sign() >= 0 {
							m.up = append(m.up, sb{new(big.Int).Mul(s.c, p[1].hi), new(big.Int).Mul(s.d, p[1].hi)})
						}
					}
				}
				k := new(big.Int).Lsh(bi(1), uint(sizeOf(t)*8))
				return &rng{lo: new(big.Int).Quo(m.lo, k), hi: new(big.Int).Quo(m.hi, k), up: scaled(m.up, k), vague: m.vague, why: m.why}
			}
			return g.top(t, false, "")
		}
		if callee.Blocks == nil || callee.Pkg != nil && callee.Pkg.Pkg.Path() == "runtime" || isRandomSource(full) {
			if integer {
				return g.top(t, false, "")
			}
		}
		return g.top(t, true, "a call of "+full)
	}
	if f.deep > 12 {
		return g.top(t, true, "a deep chain of calls")
	}
	for u := f; u != nil; u = u.up {
		if u.fn == callee {
			return g.top(t, true, "a recursive call")
		}
	}
	n := &rframe{fn: callee, in: map[ssa.Value]*rng{}, busy: map[ssa.Value]bool{}, up: f, deep: f.deep + 1}
	for _, a := range c.Call.Args {
		if _, _, ok := typeBounds(g.p, a.Type()); ok || isFloat(a.Type()) {
			x := g.at(f, a, c.Block())
			if x.empty {
				return x
			}
			n.args = append(n.args, x)
			continue
		}
		n.args = append(n.args, nil)
	}
	return g.result(n, res)
}

func isRandomSource(name string) bool {
	switch name {
	case "math/rand.Uint32", "math/rand.Uint64", "math/rand/v2.Uint32", "math/rand/v2.Uint64":
		return true
	}
	return false
}

// result: what a function gives back
func (g *ranges) result(n *rframe, res int) *rng {
	g.fns[n.fn.RelString(nil)] = true
	var r *rng
	for _, b := range n.fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) <= res || !g.live(n, b) {
			continue
		}
		r = join(r, g.at(n, ret.Results[res], b))
	}
	if r == nil {
		return &rng{empty: true}
	}
	return r
}

func (g *ranges) builtin(f *rframe, c *ssa.Call, b *ssa.Builtin, t types.Type) *rng {
	switch b.Name() {
	case "min", "max":
		var r *rng
		for _, a := range c.Call.Args {
			x := g.at(f, a, c.Block())
			if x.empty || x.float {
				return g.top(t, true, "a call of "+b.Name())
			}
			if r == nil {
				r = x
				continue
			}
			if b.Name() == "min" {
				r = &rng{lo: minB(r.lo, x.lo), hi: minB(r.hi, x.hi), up: append(append([]sb{}, r.up...), x.up...), vague: r.vague || x.vague, why: r.why + x.why}
			} else {
				n := join(r, x)
				r = &rng{lo: maxB(r.lo, x.lo), hi: n.hi, up: n.up, vague: n.vague, why: n.why}
			}
		}
		return r
	}
	return g.top(t, true, "a call of "+b.Name())
}

// onceFunc: the function a variable of a package holds, when only its
// initialiser sets it.
func onceFunc(gl *ssa.Global) *ssa.Function {
	var out *ssa.Function
	n := 0
	for _, m := range gl.Pkg.Members {
		fn, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		visit := func(fn *ssa.Function) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == gl {
						n++
						out, _ = s.Val.(*ssa.Function)
					}
				}
			}
		}
		visit(fn)
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	if n != 1 {
		return nil
	}
	return out
}

func (r *rng) String() string {
	if r == nil {
		return "nothing"
	}
	if r.empty {
		return "no value"
	}
	if r.float {
		return fmt.Sprintf("[%v, %v]", r.flo, r.fhi)
	}
	s := fmt.Sprintf("[%v, %v]", r.lo, r.hi)
	for _, u := range r.up {
		s += fmt.Sprintf(" ≤ %v·n%+d", u.c, u.d)
	}
	return s
}
