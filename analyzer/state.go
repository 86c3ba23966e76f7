package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	LT uint8 = 1
	EQ uint8 = 2
	GT uint8 = 4
	UN uint8 = 8 // unordered (NaN)
)

type retMode uint8

const (
	mRoot retMode = iota
	mCall
	mDefer
	mUnwind
	mCallback
)

type retInfo struct {
	mode  retMode
	instr ssa.Instruction
	cont  func(st *State, res []*Term)
}

type deferred struct {
	instr *ssa.Defer
	fnT   *Term
	args  []*Term
}

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]*Term
	blk       *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	ret       retInfo
	defers    []deferred
	panicVal  *Term
	recovered bool
	unwinding bool
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	return &g
}

type Trace struct {
	up   *Trace
	pos  token.Pos
	what string
	n    int
}

type State struct {
	inTruth bool
	x       *Exec
	frames  []*Frame
	heap    map[*Term]*Term
	rel     map[[2]*Term]uint8
	cond    map[*Term]bool
	lin     []Lin
	mon     map[string]*Term
	esc     map[*Term]bool
	taint   map[*Term]string
	sub     map[*Term]*Term
	trace   *Trace
	dead    bool
	visits  map[*ssa.BasicBlock]int
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{x: st.x, trace: st.trace}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	n.heap = make(map[*Term]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.rel = make(map[[2]*Term]uint8, len(st.rel))
	for k, v := range st.rel {
		n.rel[k] = v
	}
	n.cond = make(map[*Term]bool, len(st.cond))
	for k, v := range st.cond {
		n.cond[k] = v
	}
	n.lin = append([]Lin(nil), st.lin...)
	n.mon = make(map[string]*Term, len(st.mon))
	for k, v := range st.mon {
		n.mon[k] = v
	}
	n.esc = make(map[*Term]bool, len(st.esc))
	for k, v := range st.esc {
		n.esc[k] = v
	}
	n.taint = make(map[*Term]string, len(st.taint))
	for k, v := range st.taint {
		n.taint[k] = v
	}
	n.sub = make(map[*Term]*Term, len(st.sub))
	for k, v := range st.sub {
		n.sub[k] = v
	}
	return n
}

// ---- monitors: per-path state of the checks

func (st *State) getS(k string) string {
	s, _ := st.mon[k].strVal()
	return s
}
func (st *State) setS(k, v string) {
	if v == "" {
		delete(st.mon, k)
		return
	}
	st.mon[k] = st.x.T.Str(v)
}
func (st *State) setT(k string, t *Term) {
	if t == nil {
		delete(st.mon, k)
		return
	}
	st.mon[k] = t
}
func (st *State) getT(k string) *Term { return st.mon[k] }
func (st *State) monKeys(prefix string) []string {
	var out []string
	for k := range st.mon {
		if strings.HasPrefix(k, prefix) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}
func (st *State) clearMon(prefix string) {
	for k := range st.mon {
		if strings.HasPrefix(k, prefix) {
			delete(st.mon, k)
		}
	}
}

// cases splits on a condition and continues with both values that are possible.
func (st *State) cases(t *Term, f func(st *State, v bool)) {
	if v, known := st.truth(t); known {
		f(st, v)
		return
	}
	for _, v := range []bool{false, true} {
		o := st.clone()
		if o.assume(o.resolve(t), v) {
			f(o, v)
		}
	}
}

func (st *State) isNilT(t *Term) bool { return st.resolve(t).isNil() }
func (st *State) notNil(t *Term) bool { return st.distinct(st.resolve(t), st.x.T.Nil()) }
func (st *State) knownEq(a, b *Term) bool {
	v, known := st.truth(st.mkEq(st.resolve(a), st.resolve(b)))
	return known && v
}

func (st *State) note(pos token.Pos, format string, a ...any) {
	n := 1
	if st.trace != nil {
		n = st.trace.n + 1
	}
	st.trace = &Trace{st.trace, pos, fmt.Sprintf(format, a...), n}
}

// ---- taints: labels that flow through values

func joinTaint(a, b string) string {
	if a == b || b == "" {
		return a
	}
	if a == "" {
		return b
	}
	m := map[string]bool{}
	for _, s := range strings.Split(a, ",") {
		m[s] = true
	}
	for _, s := range strings.Split(b, ",") {
		m[s] = true
	}
	var l []string
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (st *State) taintOf(t *Term) string {
	if t == nil || t.k == TConst {
		return ""
	}
	s := st.taint[t]
	for _, a := range t.args {
		if a != nil {
			s = joinTaint(s, st.taintOf(a))
		}
	}
	return s
}
func (st *State) addTaint(t *Term, l string) {
	if t == nil || t.k == TConst || l == "" {
		return
	}
	st.taint[t] = joinTaint(st.taint[t], l)
}
func hasTaint(s, l string) bool {
	for _, x := range strings.Split(s, ",") {
		if x == l {
			return true
		}
	}
	return false
}

// resolve applies the equalities learned since t was recorded.
func (st *State) resolve(t *Term) *Term {
	if t == nil || len(st.sub) == 0 {
		return t
	}
	for i := 0; i < 50; i++ {
		n := t
		if r, ok := st.sub[n]; ok {
			n = r
		} else if len(n.args) > 0 {
			args := make([]*Term, len(n.args))
			ch := false
			for i, a := range n.args {
				if a == nil {
					continue
				}
				args[i] = st.resolve(a)
				ch = ch || args[i] != a
			}
			if ch {
				n = st.x.T.rebuild(n, args)
			}
		}
		if n == t {
			return t
		}
		t = n
	}
	return t
}

// ---- linear facts

func (st *State) linOf(t *Term) Lin {
	T := st.x.T
	if v, ok := t.intVal(); ok {
		return linConst(v)
	}
	if t.k == TOp {
		switch t.op {
		case "+":
			if isInt(t.typ) {
				return st.linOf(t.args[0]).add(st.linOf(t.args[1]), 1)
			}
		case "-":
			return st.linOf(t.args[0]).add(st.linOf(t.args[1]), -1)
		case "neg":
			return st.linOf(t.args[0]).scale(-1)
		case "*":
			a, b := st.linOf(t.args[0]), st.linOf(t.args[1])
			if len(a.c) == 0 {
				return b.scale(a.k)
			}
			if len(b.c) == 0 {
				return a.scale(b.k)
			}
		case "len":
			a := t.args[0]
			if a.k == TOp && a.op == "slice" {
				lo, hi := a.args[1], a.args[2]
				var h Lin
				if hi.isNil() {
					h = st.linOf(T.op("len", types.Typ[types.Int], a.args[0]))
				} else {
					h = st.linOf(hi)
				}
				return h.add(st.linOf(lo), -1)
			}
			if s, ok := a.strVal(); ok {
				return linConst(int64(len(s)))
			}
			if a.isNil() || (a.k == TConst && a.op == "zero") {
				return linConst(0)
			}
			if n, ok := arrayLen(a.typ); ok {
				return linConst(n)
			}
		}
	}
	return linTerm(t)
}

func arrayLen(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

func (st *State) addLin(l Lin) {
	l = l.norm()
	if len(l.c) == 0 {
		if l.k < 0 {
			st.dead = true
		}
		return
	}
	k := linKey(l)
	for _, o := range st.lin {
		if linKey(o) == k {
			return
		}
	}
	st.lin = append(st.lin, l)
	st.implicit(l)
}

// implicit adds what the type or the operator of an atom says about its range.
func (st *State) implicit(l Lin) {
	for t := range l.c {
		st.atomFacts(t)
	}
}

func (st *State) atomFacts(t *Term) {
	var fs []Lin
	if t.k == TOp && (t.op == "len" || t.op == "cap") {
		fs = append(fs, linTerm(t))
	} else if isUnsigned(t.typ) {
		fs = append(fs, linTerm(t))
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			fs = append(fs, linTerm(t).scale(-1).addk(255))
		}
	}
	for _, f := range fs {
		k := linKey(f)
		dup := false
		for _, o := range st.lin {
			if linKey(o) == k {
				dup = true
				break
			}
		}
		if !dup {
			st.lin = append(st.lin, f)
		}
	}
}

// relevant picks the inequalities connected to goal by shared atoms.
func (st *State) relevant(goal Lin) []Lin {
	for t := range goal.c {
		st.atomFacts(t)
	}
	in := map[*Term]bool{}
	for t := range goal.c {
		in[t] = true
	}
	used := make([]bool, len(st.lin))
	var out []Lin
	for ch := true; ch; {
		ch = false
		for i, l := range st.lin {
			if used[i] {
				continue
			}
			hit := false
			for t := range l.c {
				if in[t] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, l)
				for t := range l.c {
					in[t] = true
				}
			}
		}
	}
	return out
}

// prove shows l >= 0 from the facts of the state.
func (st *State) prove(l Lin) bool {
	l = l.norm()
	if len(l.c) == 0 {
		return l.k >= 0
	}
	cs := st.relevant(l)
	return unsat(append(append([]Lin(nil), cs...), l.scale(-1).addk(-1)))
}

func (st *State) proveLE(a, b *Term) bool { return st.prove(st.linOf(b).add(st.linOf(a), -1)) }
func (st *State) proveLT(a, b *Term) bool {
	return st.prove(st.linOf(b).add(st.linOf(a), -1).addk(-1))
}

// ---- relations

func relKey(a, b *Term) ([2]*Term, bool) {
	if a.id <= b.id {
		return [2]*Term{a, b}, false
	}
	return [2]*Term{b, a}, true
}

func flip(m uint8) uint8 {
	r := m & (EQ | UN)
	if m&LT != 0 {
		r |= GT
	}
	if m&GT != 0 {
		r |= LT
	}
	return r
}

// relation returns the possible relations of a to b.
func (st *State) relation(a, b *Term) uint8 {
	all := LT | EQ | GT
	if mayUnordered(a.typ) && mayUnordered(b.typ) {
		all |= UN
	}
	if a == b {
		return all & (EQ | UN)
	}
	if a.k == TConst && b.k == TConst && a.cv != nil && b.cv != nil && a.cv.Kind() == b.cv.Kind() {
		switch a.cv.Kind() {
		case constant.Int, constant.Float, constant.String:
			switch {
			case constant.Compare(a.cv, token.LSS, b.cv):
				return LT
			case constant.Compare(a.cv, token.EQL, b.cv):
				return EQ
			}
			return GT
		}
	}
	k, sw := relKey(a, b)
	if m, ok := st.rel[k]; ok {
		if sw {
			m = flip(m)
		}
		return m & all
	}
	return all
}

func compose(p, q uint8) uint8 {
	var r uint8
	if (p|q)&UN != 0 {
		return LT | EQ | GT | UN
	}
	for _, a := range []uint8{LT, EQ, GT} {
		if p&a == 0 {
			continue
		}
		for _, b := range []uint8{LT, EQ, GT} {
			if q&b == 0 {
				continue
			}
			switch {
			case a == EQ:
				r |= b
			case b == EQ:
				r |= a
			case a == b:
				r |= a
			default:
				r |= LT | EQ | GT
			}
		}
	}
	return r
}

func (st *State) setRel(a, b *Term, m uint8) bool {
	type job struct {
		a, b *Term
		m    uint8
	}
	q := []job{{a, b, m}}
	for len(q) > 0 {
		j := q[0]
		q = q[1:]
		old := st.relation(j.a, j.b)
		n := old & j.m
		if n == 0 {
			st.dead = true
			return false
		}
		if n == old {
			continue
		}
		k, sw := relKey(j.a, j.b)
		v := n
		if sw {
			v = flip(v)
		}
		st.rel[k] = v
		if n&(LT|GT) == (LT | GT) {
			continue // a plain disequality implies nothing further
		}
		for k2 := range st.rel {
			for s := 0; s < 2; s++ {
				c, d := k2[s], k2[1-s]
				if c == j.b && d != j.a {
					q = append(q, job{j.a, d, compose(n, st.relation(c, d))})
				}
				if c == j.a && d != j.b {
					q = append(q, job{j.b, d, compose(flip(n), st.relation(c, d))})
				}
			}
		}
	}
	return true
}

// ---- pointers

func pointee(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func sameType(a, b types.Type) bool {
	if a == nil || b == nil {
		return true
	}
	a, b = types.Unalias(a), types.Unalias(b)
	_, ta := a.(*types.TypeParam)
	_, tb := b.(*types.TypeParam)
	if ta || tb {
		return ta == tb
	}
	na, oka := a.(*types.Named)
	nb, okb := b.(*types.Named)
	if oka && okb {
		return na.Origin().Obj() == nb.Origin().Obj()
	}
	pa, oka2 := a.(*types.Pointer)
	pb, okb2 := b.(*types.Pointer)
	if oka2 && okb2 {
		return sameType(pa.Elem(), pb.Elem())
	}
	if isUnsafe(a) || isUnsafe(b) {
		return true
	}
	ua, ub := a.Underlying(), b.Underlying()
	if fmt.Sprintf("%T", ua) != fmt.Sprintf("%T", ub) {
		return false
	}
	switch x := ua.(type) {
	case *types.Basic:
		return x.Kind() == ub.(*types.Basic).Kind()
	case *types.Slice:
		return sameType(x.Elem(), ub.(*types.Slice).Elem())
	case *types.Map:
		return sameType(x.Key(), ub.(*types.Map).Key()) && sameType(x.Elem(), ub.(*types.Map).Elem())
	case *types.Struct:
		return x.NumFields() == ub.(*types.Struct).NumFields()
	}
	return true
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// distinct: the two values are certainly different
func (st *State) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.k == TConst && b.k == TConst {
		if a.cv != nil && b.cv != nil && a.cv.Kind() == b.cv.Kind() {
			return !constant.Compare(a.cv, token.EQL, b.cv)
		}
		return false
	}
	if a.isNil() || b.isNil() {
		o := a
		if a.isNil() {
			o = b
		}
		if o.nonnil || o.alloc {
			return true
		}
		if o.k == TOp && o.op == "iface" {
			_, tp := types.Unalias(o.args[0].typ).(*types.TypeParam)
			return !tp
		}
	}
	k, sw := relKey(a, b)
	if m, ok := st.rel[k]; ok {
		if sw {
			m = flip(m)
		}
		if m&EQ == 0 {
			return true
		}
	}
	if isInt(a.typ) && isInt(b.typ) {
		return st.proveLT(a, b) || st.proveLT(b, a)
	}
	if a.k == TOp && a.op == "iface" && b.k == TOp && b.op == "iface" {
		return st.distinct(a.args[0], b.args[0])
	}
	if ta, tb := a.typ, b.typ; ta != nil && tb != nil && pointee(ta) != nil && pointee(tb) != nil && !sameType(pointee(ta), pointee(tb)) {
		return true
	}
	if a.alloc && b.alloc {
		return true
	}
	for i := 0; i < 2; i++ {
		x, y := a, b
		if i == 1 {
			x, y = b, a
		}
		if x.alloc {
			switch y.k {
			case TSym:
				if y.id < x.id || !st.esc[x] {
					return true
				}
			case TFA, TIA:
				if y.base() != x {
					r := y.base()
					if r.alloc || r.k == TGlobal || r.id < x.id || !st.esc[x] {
						return true
					}
				}
				return y.k == TFA
			case TGlobal, TFunc, TClosure:
				return true
			}
		}
	}
	if a.k == TFA && b.k == TFA {
		if a.fld != b.fld {
			return true
		}
		return st.distinct(a.args[0], b.args[0])
	}
	for i := 0; i < 2; i++ {
		x, y := a, b
		if i == 1 {
			x, y = b, a
		}
		if x.k == TFA && y.k == TSym {
			r := x.base()
			if r.alloc && (y.id < r.id || !st.esc[r]) {
				return true
			}
		}
	}
	return false
}

// mayAliasAddr: a store to a may change what is read at b
func (st *State) mayAliasAddr(a, b *Term) bool {
	if a == b {
		return true
	}
	ka, kb := a.k, b.k
	if ka == TME || kb == TME {
		if ka != kb {
			return false
		}
		m1, k1, m2, k2 := a.args[0], a.args[1], b.args[0], b.args[1]
		if st.distinct(m1, m2) || !sameType(m1.typ, m2.typ) {
			return false
		}
		return !st.distinct(k1, k2)
	}
	if ka == TFA && kb == TFA {
		if a.fld != b.fld {
			return false
		}
		return !st.distinct(a.args[0], b.args[0])
	}
	if ka == TIA && kb == TIA {
		if !sameType(a.typ, b.typ) {
			return false
		}
		b1, b2 := a.args[0], b.args[0]
		if b1 == b2 {
			return !st.distinct(a.args[1], b.args[1])
		}
		r1, r2 := b1.base(), b2.base()
		if r1 != r2 {
			if st.distinct(r1, r2) {
				return false
			}
		}
		if b1.k == TFA && b2.k == TFA && b1.fld != b2.fld {
			return false
		}
		if b1.k == TFA && b2.k == TFA && st.distinct(b1.args[0], b2.args[0]) {
			return false
		}
		return true
	}
	if ka == TGlobal && kb == TGlobal {
		return false
	}
	ta, tb := a.typ, b.typ
	if (ka == TFA && kb == TIA || ka == TIA && kb == TFA) && sameType(ta, tb) {
		return false // a variable is a field or an element, not both
	}
	// a plain pointer against a field or element
	if pa := pointee(ta); pa != nil {
		if pb := pointee(tb); pb != nil && !sameType(pa, pb) {
			return false
		}
	}
	return !st.distinct(a, b)
}

func (st *State) escape(t *Term) {
	if t == nil {
		return
	}
	switch t.k {
	case TSym:
		if t.alloc && !st.esc[t] {
			st.esc[t] = true
			for a, v := range st.heap {
				if a.base() == t {
					st.escape(v)
				}
			}
		}
	case TFA, TIA, TClosure, TStruct, TTuple, TOp, TField:
		for _, a := range t.args {
			st.escape(a)
		}
	}
}

// store writes to one cell, forgetting what it may overwrite under another name.
func (st *State) store(addr, val *Term) {
	if val.k == TStruct || (val.typ != nil && expandable(val.typ) && coreStruct(val.typ) != nil) {
		T := st.x.T
		s := coreStruct(val.typ)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i).Origin()
			st.store(T.fa(addr, f, types.NewPointer(s.Field(i).Type())), T.field(val, i, s.Field(i).Type()))
		}
		return
	}
	for b, v := range st.heap {
		if b != addr && v != val && st.mayAliasAddr(addr, b) {
			delete(st.heap, b)
		}
	}
	st.heap[addr] = val
	if addr.k != TSym || st.esc[addr.base()] || !addr.alloc {
		// the value is now reachable from memory
		if b := addr.base(); !(b.alloc && !st.esc[b] && addr.k == TSym) {
			st.escape2(val)
		}
	}
	if l := st.taintOf(val); l != "" && (addr.k == TIA) {
		st.addTaint(addr.base(), l)
	}
}

// escape2 marks allocations that have been stored in memory.
func (st *State) escape2(v *Term) {
	switch v.k {
	case TSym:
		if v.alloc {
			st.escape(v)
		}
	case TConst, TGlobal, TFunc:
	default:
		st.escape(v)
	}
}

func (st *State) load(addr *Term, typ types.Type, label string, instr ssa.Instruction) *Term {
	T := st.x.T
	if expandable(typ) {
		s := coreStruct(typ)
		args := make([]*Term, s.NumFields())
		for i := range args {
			f := s.Field(i)
			args[i] = st.load(T.fa(addr, f.Origin(), types.NewPointer(f.Type())), f.Type(), f.Name(), instr)
		}
		return T.strukt(args, typ)
	}
	if v, ok := st.heap[addr]; ok {
		return v
	}
	// an element of a zeroed array that no store can have reached
	s := T.sym(label, typ)
	s.instr = instr
	s.prov = []*Term{addr}
	if l := st.taintOf(addr); l != "" {
		st.addTaint(s, l)
	}
	st.heap[addr] = s
	if st.x.cfg.OnFresh != nil {
		st.x.cfg.OnFresh(st, addr, s)
		if v, ok := st.heap[addr]; ok {
			return v
		}
	}
	return s
}

// dropShared forgets everything other goroutines or unknown code may change.
func (st *State) dropShared(keep func(st *State, addr *Term) bool) {
	for a := range st.heap {
		b := a.base()
		if b.alloc && !st.esc[b] {
			continue
		}
		if b.k == TGlobal && a == b && st.x.globalConst(b.gl) {
			continue
		}
		if keep != nil && keep(st, a) {
			continue
		}
		delete(st.heap, a)
	}
}

// ---- conditions

func (st *State) mkNot(t *Term) *Term {
	T := st.x.T
	if t.isBool(true) {
		return T.Bool(false)
	}
	if t.isBool(false) {
		return T.Bool(true)
	}
	if t.k == TOp && t.op == "not" {
		return t.args[0]
	}
	return T.op("not", types.Typ[types.Bool], t)
}

func (st *State) mkEq(a, b *Term) *Term {
	T := st.x.T
	if a.k == TOp && b.k == TOp && a.op == "iface" && b.op == "iface" && a.args[0].typ != nil && b.args[0].typ != nil &&
		types.Identical(a.args[0].typ, b.args[0].typ) {
		return st.mkEq(a.args[0], b.args[0])
	}
	if a == b && (a.isNil() || !mayUnordered(a.typ)) {
		return T.Bool(true)
	}
	if a != b && st.distinct(a, b) {
		return T.Bool(false)
	}
	// comparing with a boolean constant
	for i := 0; i < 2; i++ {
		x, y := a, b
		if i == 1 {
			x, y = b, a
		}
		if y.isBool(true) {
			return x
		}
		if y.isBool(false) {
			return st.mkNot(x)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.op("eq", types.Typ[types.Bool], a, b)
}

func (st *State) mkLt(a, b *Term) *Term { return st.x.T.op("lt", types.Typ[types.Bool], a, b) }
func (st *State) mkLe(a, b *Term) *Term { return st.x.T.op("le", types.Typ[types.Bool], a, b) }

// truth decides a condition from the facts, if they do.
func (st *State) truth(t *Term) (val, known bool) {
	if v, kn := st.truth1(t); kn {
		return v, true
	}
	if t.typ == nil || !isBoolT(t.typ) || st.inTruth {
		return false, false
	}
	// an equation with something known
	st.inTruth = true
	defer func() { st.inTruth = false }()
	for q, v := range st.cond {
		if q.k != TOp || q.op != "eq" || q.args[0] != t && q.args[1] != t {
			continue
		}
		o := q.args[0]
		if o == t {
			o = q.args[1]
		}
		if w, kn := st.truth1(o); kn {
			return w == v, true
		}
	}
	return false, false
}

func (st *State) truth1(t *Term) (val, known bool) {
	if t.isBool(true) {
		return true, true
	}
	if t.isBool(false) {
		return false, true
	}
	if v, ok := st.cond[t]; ok {
		return v, true
	}
	if t.k != TOp {
		return false, false
	}
	switch t.op {
	case "not":
		v, k := st.truth(t.args[0])
		return !v, k
	case "eq":
		a, b := t.args[0], t.args[1]
		if isBoolT(a.typ) && isBoolT(b.typ) {
			if v, kn := st.truth(a); kn {
				if w, kn := st.truth(b); kn {
					return v == w, true
				}
			}
		}
		if a == b && (a.isNil() || !mayUnordered(a.typ)) {
			return true, true
		}
		if st.distinct(a, b) {
			return false, true
		}
		if isInt(a.typ) && isInt(b.typ) {
			if st.proveLE(a, b) && st.proveLE(b, a) {
				return true, true
			}
		} else if m := st.relation(a, b); m == EQ {
			return true, true
		} else if m&EQ == 0 {
			return false, true
		}
	case "lt", "le":
		a, b := t.args[0], t.args[1]
		if isInt(a.typ) && isInt(b.typ) {
			if t.op == "lt" {
				if st.proveLT(a, b) {
					return true, true
				}
				if st.proveLE(b, a) {
					return false, true
				}
			} else {
				if st.proveLE(a, b) {
					return true, true
				}
				if st.proveLT(b, a) {
					return false, true
				}
			}
			return false, false
		}
		m := st.relation(a, b)
		want := LT
		if t.op == "le" {
			want = LT | EQ
		}
		if m&^want == 0 {
			return true, true
		}
		if m&want == 0 {
			return false, true
		}
	}
	return false, false
}

// assume adds a condition to the facts; false means it contradicts them.
func (st *State) assume(t *Term, val bool) bool {
	if st.dead {
		return false
	}
	if v, known := st.truth(t); known {
		if v != val {
			st.dead = true
			return false
		}
		return true
	}
	T := st.x.T
	if t.k == TOp {
		switch t.op {
		case "not":
			return st.assume(t.args[0], !val)
		case "eq":
			if isBoolT(t.args[0].typ) && isBoolT(t.args[1].typ) {
				a, b := t.args[0], t.args[1]
				if v, kn := st.truth(a); kn {
					return st.assume(b, v == val)
				} else if v, kn := st.truth(b); kn {
					return st.assume(a, v == val)
				}
				if !val || (a.k != TSym || a.named) && (b.k != TSym || b.named) {
					st.cond[t] = val
					return true
				}
			}
			if val {
				return st.unify(t.args[0], t.args[1])
			}
			return st.differ(t.args[0], t.args[1])
		case "lt", "le":
			a, b := t.args[0], t.args[1]
			if isInt(a.typ) && isInt(b.typ) {
				l := st.linOf(b).add(st.linOf(a), -1) // b-a
				switch {
				case t.op == "lt" && val:
					st.addLin(l.addk(-1))
				case t.op == "lt":
					st.addLin(l.scale(-1))
				case val:
					st.addLin(l)
				default:
					st.addLin(l.scale(-1).addk(-1))
				}
				st.tighten()
				return !st.dead
			}
			m := LT
			if t.op == "le" {
				m = LT | EQ
			}
			if !val {
				m = (LT | EQ | GT | UN) &^ m
			}
			if !st.setRel(a, b, m) {
				return false
			}
			if st.relation(a, b) == EQ {
				return st.unify(a, b)
			}
			return true
		}
	}
	if t.k == TSym && !t.named {
		st.substitute(t, T.Bool(val))
		return !st.dead
	}
	st.cond[t] = val
	return true
}

// tighten turns known disequalities at a bound into strict inequalities.
func (st *State) tighten() {
	if st.dead {
		return
	}
	for k, m := range st.rel {
		if m&EQ == 0 && isInt(k[0].typ) && isInt(k[1].typ) {
			a, b := k[0], k[1]
			switch {
			case st.proveLE(a, b) && !st.proveLT(a, b):
				st.addLin(st.linOf(b).add(st.linOf(a), -1).addk(-1))
			case st.proveLE(b, a) && !st.proveLT(b, a):
				st.addLin(st.linOf(a).add(st.linOf(b), -1).addk(-1))
			}
		}
	}
	if len(st.lin) > 0 && unsat(st.lin) {
		st.dead = true
	}
}

func (st *State) differ(a, b *Term) bool {
	if !st.setRel(a, b, LT|GT|UN) {
		return false
	}
	if isInt(a.typ) && isInt(b.typ) {
		st.tighten()
	}
	return !st.dead
}

func (st *State) unify(a, b *Term) bool {
	if a == b {
		return true
	}
	if st.distinct(a, b) {
		st.dead = true
		return false
	}
	if isInt(a.typ) && isInt(b.typ) {
		l := st.linOf(a).add(st.linOf(b), -1)
		st.addLin(l)
		st.addLin(l.scale(-1))
		if st.dead {
			return false
		}
	}
	rank := func(t *Term) int { // who gets replaced: higher goes
		switch {
		case t.k == TConst:
			return 0
		case t.alloc:
			return 1
		case t.k == TSym && t.named:
			return 3
		case t.k == TSym:
			return 4
		}
		return 2
	}
	if rank(a) < rank(b) || (rank(a) == rank(b) && a.id < b.id) {
		a, b = b, a
	}
	// a is replaced by b
	if mayUnordered(a.typ) && mayUnordered(b.typ) && !a.isNil() && !b.isNil() {
		// equal, hence not NaN; the names are kept apart because x == x may be false
		if !st.setRel(a, b, EQ) {
			return false
		}
	} else if rank(a) >= 3 && !b.contains(a) {
		st.substitute(a, b)
	} else if a.k == TFA && b.k == TFA && a.fld == b.fld {
		return st.unify(a.args[0], b.args[0])
	} else {
		if !st.setRel(a, b, EQ) {
			return false
		}
	}
	st.tighten()
	return !st.dead
}

// substitute replaces a symbol by a term everywhere.
func (st *State) substitute(from, to *Term) {
	T := st.x.T
	memo := map[*Term]*Term{}
	sb := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return T.subst(t, from, to, memo)
	}
	for k, v := range st.sub {
		st.sub[k] = sb(v)
	}
	st.sub[from] = to
	for _, f := range st.frames {
		for k, v := range f.env {
			f.env[k] = sb(v)
		}
		for i := range f.defers {
			f.defers[i].fnT = sb(f.defers[i].fnT)
			args := make([]*Term, len(f.defers[i].args))
			for j, a := range f.defers[i].args {
				args[j] = sb(a)
			}
			f.defers[i].args = args
		}
		f.panicVal = sb(f.panicVal)
	}
	for k, v := range st.mon {
		st.mon[k] = sb(v)
	}
	type kv struct{ a, v *Term }
	var moved []kv
	for a, v := range st.heap {
		na, nv := sb(a), sb(v)
		if na != a {
			delete(st.heap, a)
			moved = append(moved, kv{na, nv})
		} else if nv != v {
			st.heap[a] = nv
		}
	}
	sort.Slice(moved, func(i, j int) bool { return moved[i].a.id < moved[j].a.id })
	var eqs []kv
	for _, m := range moved {
		if old, ok := st.heap[m.a]; ok && old != m.v {
			eqs = append(eqs, kv{old, m.v})
			continue
		}
		st.heap[m.a] = m.v
	}
	if st.esc[from] {
		delete(st.esc, from)
		st.escape(to)
	}
	for t, l := range st.taint {
		if n := sb(t); n != t {
			delete(st.taint, t)
			st.addTaint(n, l)
		}
	}
	for t, v := range st.cond {
		if n := sb(t); n != t {
			delete(st.cond, t)
			if tv, known := st.truth(n); known {
				if tv != v {
					st.dead = true
					return
				}
			} else if !st.assume(n, v) {
				return
			}
		}
	}
	old := st.rel
	st.rel = make(map[[2]*Term]uint8, len(old))
	type rk struct {
		a, b *Term
		m    uint8
	}
	var redo []rk
	for k, m := range old {
		a, b := sb(k[0]), sb(k[1])
		if a == k[0] && b == k[1] {
			st.rel[k] = m
		} else {
			redo = append(redo, rk{a, b, m})
		}
	}
	for _, r := range redo {
		if r.a == r.b {
			if r.m&(EQ|UN) == 0 {
				st.dead = true
				return
			}
			continue
		}
		if !st.setRel(r.a, r.b, r.m) {
			return
		}
	}
	ol := st.lin
	st.lin = nil
	for _, l := range ol {
		ch := false
		for t := range l.c {
			if sb(t) != t {
				ch = true
			}
		}
		if ch {
			n := linConst(l.k)
			for t, c := range l.c {
				n = n.add(st.linOf(sb(t)), c)
			}
			st.addLin(n)
		} else {
			st.addLin(l)
		}
		if st.dead {
			return
		}
	}
	for _, e := range eqs {
		a, b := st.resolve(e.a), st.resolve(e.v)
		if a == b {
			continue
		}
		if !st.unify(a, b) {
			return
		}
	}
}
