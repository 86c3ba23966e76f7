package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a value was read from, which comparison decided a branch, and which
// positions of a sequence have been dealt with.

// recCell notes that v, and the fields of a struct v, were read at base[idx].
func recCell(st *State, v, base, idx *Term, max int) {
	T := st.x.T
	put := func(v *Term, fld int64) {
		if v == nil || v.k != TSym {
			return
		}
		n := -1
		for i := 0; i < max; i++ {
			c := st.getT(fmt.Sprintf("cell%d", i))
			if c == nil {
				if n < 0 {
					n = i
				}
				continue
			}
			if c.args[0] == v && c.args[1] == base && same(st, c.args[2], idx) && c.args[3] == T.Int(fld) {
				return
			}
		}
		if n >= 0 {
			st.setT(fmt.Sprintf("cell%d", n), T.tuple(v, base, idx, T.Int(fld)))
		}
	}
	base = st.resolve(base)
	if v.k == TStruct {
		for i, a := range v.args {
			put(a, int64(i))
		}
		return
	}
	put(v, -1)
}

type cellRef struct {
	base, idx *Term
	fld       int64
}

func cellsOf(st *State, v *Term) []cellRef {
	var out []cellRef
	if v == nil {
		return nil
	}
	v = st.resolve(v)
	if v.k == TField {
		for _, c := range cellsOf(st, v.args[0]) {
			if j, err := strconv.Atoi(v.op); err == nil && c.fld < 0 {
				out = append(out, cellRef{c.base, c.idx, int64(j)})
			}
		}
	}
	if v.k == TStruct && len(v.args) > 0 {
		// a struct that consists of the fields of one element
		for _, c := range cellsOf(st, v.args[0]) {
			ok := c.fld == 0
			for i, a := range v.args {
				hit := false
				for _, d := range cellsOf(st, a) {
					if d.base == c.base && same(st, d.idx, c.idx) && d.fld == int64(i) {
						hit = true
					}
				}
				ok = ok && hit
			}
			if ok {
				out = append(out, cellRef{c.base, c.idx, -1})
			}
		}
	}
	for _, q := range st.monKeys("cell") {
		if c := st.getT(q); c.args[0] == v {
			f, _ := c.args[3].intVal()
			out = append(out, cellRef{c.args[1], c.args[2], f})
		}
	}
	return out
}

// dropCells forgets what was read in this round of a loop, except for what
// a variable of the loop holds now.
func dropCells(st *State, ev *Ev) {
	T := st.x.T
	now := map[*Term]bool{}
	for _, in := range ev.Instr.Block().Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v := st.top().env[p]; v != nil && v.k == TSym && !isInt(p.Type()) {
			now[v] = true
		}
	}
	for _, q := range st.monKeys("cell") {
		c := st.getT(q)
		if !variant(c.args[2]) && !variant(c.args[1]) {
			continue
		}
		if !now[c.args[0]] || variant(c.args[1]) {
			st.setT(q, nil)
			continue
		}
		s := T.sym("cell", types.Typ[types.Int])
		st.restate(st.linOf(c.args[2]), s)
		l := linTerm(s).add(st.linOf(c.args[2]), -1)
		st.addLinForce(l)
		st.addLinForce(l.scale(-1))
		st.setT(q, T.tuple(c.args[0], c.args[1], s, c.args[3]))
	}
}

// test: a comparison. a op b is val
type test struct {
	op     string // eq lt le call
	a, b   *Term
	ca, cb []cellRef
	fn     *Term
	args   []*Term
	at     *Term
}

// takeTest looks at a condition before it is decided and notes what it compares.
func takeTest(st *State, name string, c *Term) {
	T := st.x.T
	st.clearMon(name)
	pos := true
	for c.k == TOp && c.op == "not" {
		c, pos = c.args[0], !pos
	}
	op := ""
	var a, b *Term
	if c.k == TOp && (c.op == "eq" || c.op == "lt" || c.op == "le") {
		op, a, b = c.op, c.args[0], c.args[1]
	} else {
		for _, q := range st.monKeys("cb.") {
			if t := st.getT(q); t.args[0] == c {
				op = "call"
				if len(t.args) > 2 {
					a = t.args[2]
				}
				if len(t.args) > 3 {
					b = t.args[3]
				}
			}
		}
	}
	if op == "" {
		return
	}
	ref := func(t *Term) *Term {
		l := []*Term{orNil(T, t)}
		if t != nil {
			for _, r := range cellsOf(st, t) {
				l = append(l, r.base, r.idx, T.Int(r.fld))
			}
		}
		return T.tuple(l...)
	}
	st.setT(name, T.tuple(T.Str(op), T.Bool(pos), ref(a), ref(b)))
}

// heldTest is the comparison noted before, and its outcome given that of the condition.
func heldTest(st *State, name string, v bool) (*test, bool) {
	t := st.getT(name)
	if t == nil {
		return nil, false
	}
	r := &test{}
	r.op, _ = t.args[0].strVal()
	if t.args[1].isBool(false) {
		v = !v
	}
	get := func(t *Term) (*Term, []cellRef) {
		var l []cellRef
		for i := 1; i+2 < len(t.args); i += 3 {
			f, _ := t.args[i+2].intVal()
			l = append(l, cellRef{st.resolve(t.args[i]), t.args[i+1], f})
		}
		return st.resolve(t.args[0]), l
	}
	r.a, r.ca = get(t.args[2])
	r.b, r.cb = get(t.args[3])
	return r, v
}

// takeCall notes the result of a function of the caller.
func takeCall(st *State, ev *Ev, max int) {
	if len(ev.Res) != 1 || ev.Panics {
		return
	}
	T := st.x.T
	n := 0
	for ; n < max; n++ {
		if st.getT(fmt.Sprintf("cb.%d", n)) == nil {
			break
		}
	}
	if n == max {
		for i := 1; i < max; i++ {
			st.setT(fmt.Sprintf("cb.%d", i-1), st.getT(fmt.Sprintf("cb.%d", i)))
		}
		n = max - 1
	}
	st.setT(fmt.Sprintf("cb.%d", n), T.tuple(append([]*Term{ev.Res[0], orNil(T, ev.Addr)}, ev.Args...)...))
}

// callOf is the call that a value is the result of: function, arguments
func callOf(st *State, v *Term) []*Term {
	v = st.resolve(v)
	for _, q := range st.monKeys("cb.") {
		if t := st.getT(q); t.args[0] == v {
			return t.args[1:]
		}
	}
	return nil
}

// A cover counts the positions 0..n-1 dealt with from the front and from the back.
func coverInit(st *State, name string, n Lin) {
	T := st.x.T
	st.setT("#"+name+".f", T.Int(0))
	s := T.sym("n", types.Typ[types.Int])
	l := linTerm(s).add(n, -1)
	st.addLin(l)
	st.addLin(l.scale(-1))
	st.setT("#"+name+".b", s)
}

func cover(st *State, name string, idx Lin) bool {
	f, b := st.getT("#"+name+".f"), st.getT("#"+name+".b")
	ok := false
	if f != nil && eqLin(st, idx, st.linOf(f)) {
		inc(st, "#"+name+".f")
		ok = true
	}
	if b != nil && eqLin(st, idx, st.linOf(b).addk(-1)) {
		dec(st, "#"+name+".b")
		ok = true
	}
	return ok
}

func covered(st *State, name string, n Lin) bool {
	f, b := st.getT("#"+name+".f"), st.getT("#"+name+".b")
	return st.prove(n.scale(-1)) || f != nil && st.prove(st.linOf(f).add(n, -1)) || b != nil && st.prove(st.linOf(b).scale(-1))
}

// rootOf follows slicing and appending to the memory a slice lies in.
func rootOf(st *State, t *Term) *Term {
	for i := 0; i < 30 && t != nil; i++ {
		t = st.resolve(t)
		switch {
		case t.k == TOp && t.op == "slice":
			t = t.args[0]
		case t.k == TSym && t.label == "append" && len(t.prov) > 0:
			p := st.resolve(t.prov[0])
			if p.isNil() || noRoom(p) {
				return t
			}
			b := rootOf(st, p)
			if b.alloc || freshSlice(b) {
				return t
			}
			t = b
		default:
			return t
		}
	}
	return t
}

// freshSlice: new memory
func freshSlice(t *Term) bool {
	if t.alloc || t.isNil() {
		return true
	}
	if t.k == TSym && t.label == "append" && len(t.prov) > 0 {
		p := t.prov[0]
		for p.k == TOp && p.op == "slice" && !noRoom(p) {
			p = p.args[0]
		}
		return noRoom(p) || freshSlice(p)
	}
	return false
}

func lenOf(st *State, t *Term) Lin {
	t = st.resolve(t)
	if t.isNil() {
		return linConst(0)
	}
	l := st.x.T.op("len", types.Typ[types.Int], t)
	st.atomFacts(l)
	return st.linOf(l)
}

// varargs: the values of an append of single values
func varargs(st *State, t *Term) ([]*Term, bool) {
	t = st.resolve(t)
	if t.k != TOp || t.op != "slice" || !t.args[0].alloc {
		return nil, false
	}
	b := t.args[0]
	n, ok := arrayLen(b.typ)
	if !ok {
		return nil, false
	}
	et := derefT(b.typ).Underlying().(*types.Array).Elem()
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, st.load(st.x.T.ia(b, st.x.T.Int(i), types.NewPointer(et)), et, "elem", nil))
	}
	return out, true
}

func labelled(t *Term, p string) bool { return t.k == TSym && strings.HasPrefix(t.label, p) }
