package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The binary heap: the order holds everywhere but at one place, the hole,
// and every exchange moves the hole to a place where what was compared shows
// that the order is restored behind it.

const heapPkg = "gogenerics/gcontainers/gheap"

type heapCheck struct {
	c          *Ctx
	name       string
	ps         []*Term
	data, less *types.Var
	n0         *Term
	lessT      *Term
	outer      ssa.Instruction
}

func (k *heapCheck) bad(st *State, ev *Ev, rule, msg string) {
	k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
}
func (k *heapCheck) ob(ev *Ev, rule string) {
	k.c.Ob(rule, where(ev)+" in "+k.name)
	k.c.N(rule)
}

func (k *heapCheck) fields() bool {
	n := k.c.P.named(heapPkg, "Heap")
	if n == nil {
		k.c.Bad(nil, "anchor", heapPkg+".Heap", 0, "type not found")
		return false
	}
	s, _ := n.Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i).Origin()
		switch f.Type().Underlying().(type) {
		case *types.Slice:
			k.data = f
		case *types.Signature:
			k.less = f
		}
	}
	return k.data != nil && k.less != nil
}

// size: the number of elements that the order is about
func (k *heapCheck) size(st *State) Lin {
	n := st.linOf(st.resolve(k.n0))
	switch k.name {
	case "Push":
		if st.getT("in") != nil {
			return n.addk(1)
		}
	case "Pop":
		return n.addk(-1)
	}
	return n
}

// mine: the base of a cell is the memory of the heap, from its first element
func (k *heapCheck) mine(st *State, b *Term) bool {
	b = st.resolve(b)
	for i := 0; i < 20; i++ {
		if d := st.getT("mem"); d != nil && st.resolve(d) == b {
			return true
		}
		if b.k == TOp && b.op == "slice" {
			if lo, ok := b.args[1].intVal(); b.args[1].isNil() || ok && lo == 0 {
				b = st.resolve(b.args[0])
				continue
			}
		}
		return false
	}
	return false
}

func (k *heapCheck) cell(st *State, v *Term, refs []cellRef) (Lin, *Term, bool) {
	if l := st.getT("lift"); l != nil && v != nil && st.resolve(l) == st.resolve(v) {
		// the element that is to go where the hole is
		return st.linOf(st.getT("#h")), st.getT("#h"), true
	}
	for _, r := range refs {
		if r.fld < 0 && k.mine(st, r.base) {
			return st.linOf(r.idx), r.idx, true
		}
	}
	return Lin{}, nil, false
}

// le: comparisons have shown that the element at i may stand before the one at j
func (k *heapCheck) le(st *State, i, j Lin) bool {
	for _, q := range st.monKeys("le.") {
		t := st.getT(q)
		if eqLin(st, st.linOf(t.args[0]), i) && eqLin(st, st.linOf(t.args[1]), j) {
			return true
		}
	}
	return false
}

func (k *heapCheck) noteLE(st *State, i, j *Term) {
	for n := 0; n < 6; n++ {
		q := "le." + string(rune('0'+n))
		if st.getT(q) == nil {
			st.setT(q, st.x.T.tuple(i, j))
			return
		}
	}
}

// childOf: is c a child of h, and which is its sibling
func (k *heapCheck) childOf(st *State, c, h Lin) (sib Lin, ok bool) {
	d := c.add(h, -2)
	if eqLin(st, d, linConst(1)) {
		return c.addk(1), true
	}
	if eqLin(st, d, linConst(2)) {
		return c.addk(-1), true
	}
	return Lin{}, false
}

func (k *heapCheck) beyond(st *State, i Lin) bool { return st.prove(i.add(k.size(st), -1)) }

// settled: nothing below h comes before it
func (k *heapCheck) settled(st *State, h Lin) bool {
	l, r := h.scale(2).addk(1), h.scale(2).addk(2)
	if k.beyond(st, l) {
		return true
	}
	lOK := k.le(st, h, l) || k.le(st, h, r) && k.le(st, r, l)
	rOK := k.beyond(st, r) || k.le(st, h, r) || k.le(st, h, l) && k.le(st, l, r)
	return lOK && rOK
}

// above: what stands above h may stand before it
func (k *heapCheck) above(st *State, h Lin) bool {
	if st.prove(h.scale(-1)) {
		return true
	}
	for _, q := range st.monKeys("le.") {
		t := st.getT(q)
		p, c := st.linOf(t.args[0]), st.linOf(t.args[1])
		if !eqLin(st, c, h) {
			continue
		}
		if k.parent(st, p, h) {
			return true
		}
	}
	return false
}

// parent: p is (h-1)/2
func (k *heapCheck) parent(st *State, p, h Lin) bool {
	d := h.add(p, -2) // 1 or 2
	return st.prove(d.addk(-1)) && st.prove(d.scale(-1).addk(2))
}

func (k *heapCheck) hole(st *State) (Lin, bool) {
	if st.getT("hole") == nil {
		return Lin{}, false
	}
	return st.linOf(st.getT("#h")), true
}

func (k *heapCheck) openHole(st *State, at Lin, dir string) {
	T := st.x.T
	s := T.sym("hole", types.Typ[types.Int])
	st.restate(at, s)
	l := linTerm(s).add(at, -1)
	st.addLinForce(l)
	st.addLinForce(l.scale(-1))
	st.setT("#h", s)
	st.setT("hole", T.Str(dir))
}

// close: if what was compared settles the hole, the order holds again
func (k *heapCheck) close(st *State) bool {
	h, open := k.hole(st)
	if open {
		up := st.getT("hole") == st.x.T.Str("up")
		if up && k.above(st, h) || !up && k.settled(st, h) {
			st.setT("hole", nil)
			st.setT("#h", st.x.T.Int(0))
			open = false
		}
	}
	return !open
}

// settleNext: the subtree before the ones in order is in order as well
func (k *heapCheck) settleNext(st *State) {
	s := st.getT("#s")
	if s == nil {
		return
	}
	if nx := st.linOf(s).addk(-1); st.prove(nx) && k.settled(st, nx) {
		dec(st, "#s")
		st.clearMon("le.")
	}
}

// building: about to reach the head of a loop of NewWithData
func (k *heapCheck) building(st *State, ev *Ev) {
	if st.getT("building") == nil {
		// the loop that goes over the subtrees, from the last to the first
		st.setT("building", st.x.T.Bool(true))
		if k.outer == nil {
			k.outer = ev.Instr
		}
		n := st.linOf(st.resolve(k.n0))
		for _, a := range ev.Args {
			if !isInt(a.typ) {
				continue
			}
			for d := int64(0); d <= 1; d++ {
				c := st.linOf(a).addk(d)
				if st.prove(c.scale(2).addk(1).add(n, -1)) && st.prove(c) {
					st.setT("#s", st.x.arith(st, "+", a, st.x.T.Int(d), types.Typ[types.Int]))
					return
				}
			}
		}
		return
	}
	if ev.Instr != k.outer {
		return
	}
	if k.close(st) && st.getT("opened") == nil {
		k.settleNext(st)
	}
	st.setT("opened", nil)
}

func (k *heapCheck) event(st *State, ev *Ev) {
	T := st.x.T
	switch ev.Kind {
	case "load":
		if ev.Addr.k != TIA {
			return
		}
		if p := st.getT("half"); p != nil && same(st, p.args[0], ev.Addr.args[1]) {
			return
		}
		recCell(st, ev.Val, ev.Addr.args[0], ev.Addr.args[1], 6)
		if k.name == "Pop" && st.getT("top") == nil && st.getT("hole") == nil && st.getT("half") == nil && k.mine(st, ev.Addr.args[0]) &&
			eqLin(st, st.linOf(ev.Addr.args[1]), linConst(0)) {
			st.setT("top", ev.Val)
		}
		if st.getT("kept") != nil && k.mine(st, ev.Addr.args[0]) && eqLin(st, st.linOf(ev.Addr.args[1]), st.linOf(st.resolve(k.n0)).addk(-1)) {
			st.setT("top", ev.Val) // the first element was put there
		}
	case "callback":
		if len(ev.Args) == 2 {
			if st.resolve(orNil(T, ev.Addr)) != st.resolve(k.lessT) {
				k.c.Undecided(k.name, "calls a function that is not the heap's comparison")
			}
			takeCall(st, ev, 3)
		}
	case "cond":
		takeTest(st, "q", ev.Val)
	case "branch":
		st.setT("moved", nil)
		if t, v := heldTest(st, "q", ev.Detail == "true"); t != nil && t.op == "call" {
			_, i, ok := k.cell(st, t.a, t.ca)
			_, j, ok2 := k.cell(st, t.b, t.cb)
			if ok && ok2 {
				k.ob(ev, "order")
				if v {
					k.noteLE(st, i, j)
				} else {
					k.noteLE(st, j, i)
				}
			}
		}
		st.clearMon("q")
	case "index":
		if st.getT("mem") == nil || !k.mine(st, ev.Addr) {
			return
		}
		k.ob(ev, "bounds")
		i, n := st.linOf(ev.Val), st.linOf(ev.Args[0])
		if !st.prove(i) || !st.prove(n.add(i, -1).addk(-1)) {
			k.bad(st, ev, "bounds", "the index may be out of range")
		}
	case "append":
		if k.name == "Push" && k.mine(st, ev.Addr) {
			k.ob(ev, "order")
			vs, ok := varargs(st, ev.Args[1])
			if !ok || len(vs) != 1 || st.resolve(vs[0]) != k.ps[1] || st.getT("in") != nil {
				k.bad(st, ev, "order", "what is appended is not just the element given")
			}
			st.setT("in", T.Bool(true))
			st.setT("mem", ev.Val)
			st.setT("#h", T.Int(0))
			k.openHole(st, st.linOf(st.resolve(k.n0)), "up")
		}
	case "store":
		if ev.Addr.k == TIA {
			k.stored(st, ev)
		}
	case "edge":
		// right after an exchange there is nothing new to go by
		if st.getT("moved") == nil {
			k.close(st)
		}
		if k.name == "NewWithData" {
			k.building(st, ev)
		}
		st.setT("moved", nil)
		k.lift(st, ev)
	case "backedge":
		dropCells(st, ev)
		st.clearMon("cb.")
		k.dropLE(st)
	case "exit":
		k.exit(st, ev)
	}
}

func (k *heapCheck) dropLE(st *State) { st.clearMon("le.") }

func (k *heapCheck) stored(st *State, ev *Ev) {
	T := st.x.T
	ia := ev.Addr
	if st.getT("mem") == nil || !k.mine(st, ia.args[0]) {
		return
	}
	k.ob(ev, "order")
	to := ia.args[1]
	p := st.getT("half")
	var from *Term
	for _, r := range cellsOf(st, ev.Val) {
		if r.fld >= 0 || !k.mine(st, r.base) {
			continue
		}
		if p != nil && !(same(st, p.args[0], r.idx) && same(st, p.args[1], to)) {
			continue
		}
		from = r.idx
	}
	n := st.linOf(st.resolve(k.n0))
	last := k.name == "Pop" && eqLin(st, st.linOf(to), n.addk(-1))
	if last && st.getT("out") != nil && (isZero(st, st.resolve(ev.Val)) || st.getT("top") != nil && st.resolve(st.getT("top")) == st.resolve(ev.Val)) {
		// behind the end: the first element, or nothing
		st.setT("kept", nil)
		if !isZero(st, st.resolve(ev.Val)) {
			st.setT("kept", T.Bool(true))
		}
		return
	}
	if l := st.getT("lift"); l != nil && st.resolve(l) == st.resolve(ev.Val) {
		if h, open := k.hole(st); open && !eqLin(st, st.linOf(to), h) {
			k.bad(st, ev, "order", "an element is put back elsewhere than where a place was made for it")
		}
		st.setT("lift", nil)
		return
	}
	if from == nil {
		k.bad(st, ev, "order", "what is written is not an element of the heap, or not part of an exchange")
		st.setT("half", nil)
		return
	}
	if k.name == "Pop" && p == nil && st.getT("hole") == nil && st.getT("out") == nil &&
		eqLin(st, st.linOf(to), linConst(0)) && eqLin(st, st.linOf(from), n.addk(-1)) {
		// the last element takes the place of the first
		dropSwapped(st, ia.args[0])
		st.clearMon("cell")
		k.dropLE(st)
		st.setT("out", T.Bool(true))
		k.openHole(st, linConst(0), "down")
		return
	}
	if same(st, from, to) {
		return
	}
	if k.name == "Pop" && st.getT("out") == nil {
		k.c.Undecided(k.name, "does not put the last element into the place of the first")
		st.dead = true
		return
	}
	if st.getT("lift") != nil {
		k.move(st, ev, to, from)
		return
	}
	if p == nil {
		st.setT("half", T.tuple(to, from))
		for _, q := range st.monKeys("cell") {
			if t := st.getT(q); k.mine(st, t.args[1]) && same(st, t.args[2], to) {
				st.setT("held", t.args[0])
			}
		}
		return
	}
	st.setT("half", nil)
	st.setT("held", nil)
	k.move(st, ev, to, from)
}

func (k *heapCheck) move(st *State, ev *Ev, to, from *Term) {
	st.setT("moved", st.x.T.Bool(true))
	k.exchanged(st, ev, st.linOf(to), st.linOf(from))
	st.clearMon("cell")
	k.dropLE(st)
}

// lift: an element was overwritten that a variable still holds; its place is
// now where the one written came from
func (k *heapCheck) lift(st *State, ev *Ev) {
	p := st.getT("half")
	if p == nil {
		return
	}
	v := st.getT("held")
	st.setT("half", nil)
	st.setT("held", nil)
	if v == nil {
		k.bad(st, ev, "order", "an element is overwritten without going anywhere itself")
		return
	}
	k.move(st, ev, p.args[0], p.args[1])
	st.setT("lift", v)
}

// exchanged: the elements at a and b have changed places
func (k *heapCheck) exchanged(st *State, ev *Ev, a, b Lin) {
	h, open := k.hole(st)
	if !open {
		s := st.getT("#s")
		if s == nil {
			k.bad(st, ev, "order", "exchanges elements although the order already holds")
			return
		}
		// the next subtree is put in order
		h = st.linOf(s).addk(-1)
		if !eqLin(st, a, h) && !eqLin(st, b, h) {
			k.settleNext(st)
			h = st.linOf(st.getT("#s")).addk(-1)
		}
		dec(st, "#s")
		st.setT("opened", st.x.T.Bool(true))
		k.openHole(st, h, "down")
	}
	o := a
	if eqLin(st, a, h) {
		o = b
	} else if !eqLin(st, b, h) {
		k.bad(st, ev, "order", "exchanges elements that are already in order")
		return
	}
	if !st.prove(k.size(st).addk(-1).add(o, -1)) {
		k.bad(st, ev, "order", "an exchange with an element that is not part of the heap")
	}
	if st.getT("hole") == st.x.T.Str("up") {
		if !k.parent(st, o, h) {
			k.bad(st, ev, "order", "the element moves to a place that is not right above its own")
		} else if !k.le(st, h, o) {
			k.bad(st, ev, "order", "an element moves up although it was not found to come before the one above")
		}
	} else {
		sib, ok := k.childOf(st, o, h)
		if !ok {
			k.bad(st, ev, "order", "the element moves to a place that is not right below its own")
		} else {
			if !k.le(st, o, h) {
				k.bad(st, ev, "order", "an element moves down although it was not found to come after the one below")
			}
			if !k.le(st, o, sib) && !k.beyond(st, sib) {
				k.bad(st, ev, "order", "the element that moves up was not found to come before the other one below")
			}
		}
	}
	dir := "down"
	if st.getT("hole") == st.x.T.Str("up") {
		dir = "up"
	}
	k.openHole(st, o, dir)
}

func (k *heapCheck) exit(st *State, ev *Ev) {
	if ev.Panics {
		return
	}
	T := st.x.T
	h := k.ps[0]
	if k.name == "New" || k.name == "NewWithData" {
		h = st.resolve(ev.Res[0])
	}
	k.ob(ev, "content")
	d := st.resolve(st.load(fAddr(st, h, k.data), k.data.Type(), "data", nil))
	l := st.heap[fAddr(st, h, k.less)]
	if k.lessT != nil && (l == nil || st.resolve(l) != st.resolve(k.lessT)) {
		k.bad(st, ev, "content", "the heap does not keep the comparison it was given")
	}
	n := st.linOf(st.resolve(k.n0))
	want := n
	switch k.name {
	case "New":
		want = linConst(0)
	case "Push":
		want = n.addk(1)
	case "Pop":
		want = n.addk(-1)
	}
	if !eqLin(st, lenOf(st, d), want) {
		k.bad(st, ev, "content", "the number of elements afterwards is wrong")
	} else if k.name != "New" && !k.mine(st, d) && !st.prove(want.scale(-1)) {
		k.bad(st, ev, "content", "the elements of the heap are not those that were put in order")
	}
	if st.getT("half") != nil || st.getT("lift") != nil {
		k.bad(st, ev, "order", "an element is overwritten without going anywhere itself")
	}
	k.ob(ev, "order")
	switch k.name {
	case "Push":
		if st.getT("in") == nil {
			k.bad(st, ev, "content", "the element is not put into the heap")
		}
	case "Pop":
		r := st.resolve(ev.Res[0])
		if t := st.getT("top"); t == nil || st.resolve(t) != r {
			k.bad(st, ev, "content", "the result is not the first element")
		}
		if st.getT("out") == nil && !st.prove(want.scale(-1)) {
			k.bad(st, ev, "order", "the first element is not replaced by the last")
		}
	}
	k.close(st)
	if hl, open := k.hole(st); open && !st.prove(want.scale(-1)) && !(k.name == "Push" && st.prove(hl.scale(-1))) {
		k.bad(st, ev, "order", "returns before the order was found to hold where an element was moved to")
	}
	if s := st.getT("#s"); s != nil && k.name == "NewWithData" {
		k.settleNext(st)
		if !st.prove(st.linOf(st.getT("#s")).scale(-1)) && !st.prove(n.scale(-1).addk(1)) {
			k.bad(st, ev, "order", "returns before all elements were put in order")
		}
	}
	_ = T
}

func (k *heapCheck) run(name string) {
	fn := k.c.Fn(heapPkg, name)
	if fn == nil {
		return
	}
	k.name, k.outer = name, nil
	k.c.Run(fn, &Config{Bounds: true, Event: k.event, NoInline: func(g *ssa.Function) bool { return false },
		Keep: func(st *State, a *Term) bool { return true }},
		func(st *State, ps []*Term) {
			k.ps = ps
			T := st.x.T
			k.n0 = T.Int(0)
			k.lessT = nil
			var d *Term
			switch name {
			case "New":
				k.lessT = ps[0]
			case "NewWithData":
				d, k.lessT = ps[0], ps[1]
			default:
				d = T.root("heap's elements", k.data.Type())
				k.lessT = T.root("heap's comparison", k.less.Type())
				k.lessT.nonnil = true
				st.heap[fAddr(st, ps[0], k.data)] = d
				st.heap[fAddr(st, ps[0], k.less)] = k.lessT
			}
			if d != nil {
				k.n0 = T.op("len", types.Typ[types.Int], d)
				st.atomFacts(k.n0)
				st.setT("mem", d)
			}
			st.setT("#h", T.Int(0))
			switch name {
			case "Pop":
				st.addLin(st.linOf(k.n0).addk(-1))
			case "NewWithData":
				// where the subtrees that are still to be put in order end
				st.setT("#s", k.n0)
			}
		})
}

func init() {
	register(&Property{ID: "C28", Run: func(c *Ctx) {
		c.rules["order"] = "an exchange moves an element right below or right above its place, and only with the comparisons that keep the heap order; at the end the order holds everywhere"
		c.rules["content"] = "Push adds the element, Pop returns the first and removes it; all other elements stay"
		c.rules["bounds"] = "every index is within the heap"
		k := &heapCheck{c: c}
		if !k.fields() {
			if len(c.viol) == 0 {
				c.Undecided("gheap.Heap", "is not built on a slice")
			}
			return
		}
		for _, n := range []string{"New", "NewWithData", "Push", "Pop"} {
			k.run(n)
		}
		c.Min("order", 8)
		c.Min("content", 4)
	}})
}
