package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The ring. A node that is met on the way is known by how many steps from the
// first one it is.

type ringCheck struct {
	links
	r    *Term
	size string
}

func (k *ringCheck) event(st *State, ev *Ev) {
	T := st.x.T
	switch ev.Kind {
	case "deref", "store":
		k.deref(st, ev)
	case "alloc":
		k.alloc(st, ev)
	case "load":
		k.step(st, ev)
	case "cond":
		k.cond(st, ev.Val)
	case "branch":
		k.branch(st, ev)
	case "phi":
		if k.isNode(ev.Val.typ) {
			for _, q := range st.monKeys("p.") {
				t := st.getT(q)
				if st.resolve(t.args[0]) == ev.Addr {
					st.setT(q, T.tuple(ev.Val, t.args[1]))
				}
			}
		}
	case "loopentry", "backedge":
		if st.getT("#tested") != nil {
			l := st.linOf(st.getT("#tested")).add(st.linOf(st.getT("#pos")), 1)
			for d := int64(-1); d < 2; d++ {
				if m := l.addk(d); st.prove(m) && st.prove(m.scale(-1)) {
					st.addLinForce(m)
					st.addLinForce(m.scale(-1))
				}
			}
		}
	case "edge":
		if k.name == "New" {
			k.chain(st, ev)
			return
		}
		k.rebase(st, ev)
	case "callback":
		if k.name == "Ring.Do" {
			k.visit(st, ev)
		}
	case "exit":
		if ev.Panics {
			k.bad(st, ev, "panic", "panics")
			return
		}
		k.exit(st, ev)
	}
}

// place: how many steps a node is from the first one
func (k *ringCheck) places(st *State, x *Term) []Lin {
	x = st.resolve(x)
	var out []Lin
	for _, q := range st.monKeys("p.") {
		t := st.getT(q)
		if st.resolve(t.args[0]) == x {
			d, _ := t.args[1].intVal()
			out = append(out, st.linOf(st.getT("#pos")).addk(d))
		}
	}
	return out
}

func (k *ringCheck) setPlace(st *State, x *Term, d int64) {
	T := st.x.T
	x = st.resolve(x)
	n := 0
	for _, q := range st.monKeys("p.") {
		t := st.getT(q)
		if e, _ := t.args[1].intVal(); st.resolve(t.args[0]) == x && e == d {
			return
		}
		n++
	}
	if n > 7 {
		return
	}
	for i := 0; i < 9; i++ {
		q := fmt.Sprintf("p.%d", i)
		if st.getT(q) == nil {
			st.setT(q, T.tuple(x, T.Int(d)))
			return
		}
	}
}

func (k *ringCheck) step(st *State, ev *Ev) {
	a := ev.Addr
	if a.k != TFA || a.fld != k.next && a.fld != k.prev || st.getT("#pos") == nil {
		return
	}
	x := st.resolve(a.args[0])
	for _, q := range st.monKeys("p.") {
		t := st.getT(q)
		if st.resolve(t.args[0]) != x {
			continue
		}
		d, _ := t.args[1].intVal()
		if a.fld == k.next {
			d++
		} else {
			d--
		}
		if v := st.resolve(ev.Val); !v.isNil() && d > -3 && d < 4 {
			k.setPlace(st, v, d)
		}
	}
}

// rebase counts on from the node that the loop has moved to.
func (k *ringCheck) rebase(st *State, ev *Ev) {
	T := st.x.T
	best, far := (*Term)(nil), int64(0)
	for _, v := range ev.Args {
		v = st.resolve(v)
		if !k.isNode(v.typ) {
			continue
		}
		for _, q := range st.monKeys("p.") {
			t := st.getT(q)
			d, _ := t.args[1].intVal()
			if st.resolve(t.args[0]) == v && (best == nil || d*d > far*far) {
				best, far = v, d
			}
		}
	}
	if best != nil {
		st.clearMon("p.")
		st.setT("#pos", st.x.arith(st, "+", st.getT("#pos"), T.Int(far), types.Typ[types.Int]))
		st.setT("p.0", T.tuple(best, T.Int(0)))
	}
	// what has only been read need not be remembered
	for a, v := range st.heap {
		if a.k != TFA || !k.nodeField(a.fld) {
			continue
		}
		if w, ok := st.heap[fAddr(st, a.args[0], k.was[a.fld])]; ok && st.resolve(w) == st.resolve(v) {
			delete(st.heap, a)
		}
	}
	dirty := map[*Term]bool{}
	for _, x := range k.bases(st, nil) {
		dirty[x] = true
	}
	for a := range st.heap {
		if a.k != TFA || dirty[a.args[0]] || k.size == "one" && k.r != nil && st.resolve(a.args[0]) == st.resolve(k.r) {
			continue
		}
		x := st.resolve(a.args[0])
		for _, f := range k.all {
			if a.fld == k.was[f] {
				delete(st.heap, a)
			}
		}
		if a.fld == k.zero && x != best && (k.r == nil || x != st.resolve(k.r)) {
			delete(st.heap, a)
		}
	}
}

// cond, branch: has the walk come back to where it began
func (k *ringCheck) cond(st *State, c *Term) {
	st.setT("q", nil)
	if k.name != "Ring.Len" && k.name != "Ring.Do" {
		return
	}
	pos := true
	for c.k == TOp && c.op == "not" {
		c, pos = c.args[0], !pos
	}
	if c.k != TOp || c.op != "eq" {
		return
	}
	r := st.resolve(k.r)
	for i := 0; i < 2; i++ {
		a, b := st.resolve(c.args[i]), st.resolve(c.args[1-i])
		if a != r || !k.isNode(b.typ) {
			continue
		}
		for _, q := range st.monKeys("p.") {
			if t := st.getT(q); st.resolve(t.args[0]) == b {
				st.setT("q", st.x.T.tuple(st.x.T.Bool(pos), t.args[1]))
			}
		}
	}
}

func (k *ringCheck) branch(st *State, ev *Ev) {
	t := st.getT("q")
	if t == nil {
		return
	}
	st.setT("q", nil)
	eq := (ev.Detail == "true") == t.args[0].isBool(true)
	d, _ := t.args[1].intVal()
	at := st.linOf(st.getT("#pos")).addk(d)
	dir := "forward"
	if st.prove(at.scale(-1).addk(-1)) {
		dir, at = "backward", at.scale(-1) // the other way round
	}
	if !eqLin(st, at, st.linOf(st.getT("#tested")).addk(1)) {
		return
	}
	if s := st.getS("dir"); s != "" && s != dir {
		return
	}
	st.setS("dir", dir)
	if !eq {
		inc(st, "#tested")
		return
	}
	T := st.x.T
	st.setT("#size", st.x.termOf(at, types.Typ[types.Int]))
	st.setT("closed", T.Bool(true))
	st.clearMon("p.")
	st.setT("p.0", T.tuple(st.resolve(k.r), T.Int(0)))
	st.setT("#pos", T.Int(0))
}

func (k *ringCheck) visit(st *State, ev *Ev) {
	k.ob(ev, "visit")
	at := st.linOf(st.getT("#called"))
	more := func() bool {
		if st.prove(at.scale(-1)) {
			return true
		}
		if st.getT("closed") != nil {
			return st.prove(st.linOf(st.getT("#size")).add(at, -1).addk(-1))
		}
		return st.getS("dir") != "backward" && eqLin(st, st.linOf(st.getT("#tested")), at)
	}
	var arg *Term
	if len(ev.Args) > 0 {
		arg = st.resolve(unbox(ev.Args[0]))
	}
	for _, q := range st.monKeys("p.") {
		t := st.getT(q)
		x := st.resolve(t.args[0])
		d, _ := t.args[1].intVal()
		if eqLin(st, st.linOf(st.getT("#pos")).addk(d), at) && k.before(st, k.val, x) == arg {
			// at a place other than the first, the ring has to go on
			if more() {
				inc(st, "#called")
				return
			}
		}
	}
	k.bad(st, ev, "visit", "what is visited is not the next element of the ring")
	st.dead = true
}

func (k *ringCheck) eff(st *State, f *types.Var, x *Term, cont func(s *State, v *Term)) {
	k.want(st, f, x, cont)
}

func (k *ringCheck) answer(st *State, ev *Ev, got, want *Term, msg string) {
	k.ob(ev, "answer")
	got, want = st.resolve(got), st.resolve(want)
	if got == want || st.knownEq(got, want) {
		return
	}
	o := st.clone()
	if o.assume(o.mkEq(got, want), false) {
		k.bad(o, ev, "answer", msg)
	}
}

// single: the ring has one element
func (k *ringCheck) single(st *State, cont func(s *State, v bool)) {
	cont(st, k.size == "unused" || k.size == "one")
}

func (k *ringCheck) exit(st *State, ev *Ev) {
	T := st.x.T
	var res *Term
	if len(ev.Res) > 0 {
		res = ev.Res[0]
	}
	same := func(s *State) { k.compare(s, ev, "links", nil) }
	link := func(st *State, r, s *Term) {
		k.want(st, k.next, r, func(o *State, n *Term) {
			k.answer(o.clone(), ev, res, n, "does not return what followed the element")
			k.want(o, k.prev, s, func(o *State, p *Term) {
				k.put(o, k.next, r, s, func(o *State) {
					k.put(o, k.prev, s, r, func(o *State) {
						k.put(o, k.prev, n, p, func(o *State) { k.put(o, k.next, p, n, same) })
					})
				})
			})
		})
	}
	switch k.name {
	case "Ring.Next", "Ring.Prev":
		f := k.next
		if k.name == "Ring.Prev" {
			f = k.prev
		}
		k.want(st.clone(), f, k.r, func(s *State, v *Term) { k.answer(s, ev, res, v, "is not the neighbour of the element") })
		same(st)
	case "Ring.Link":
		s := st.resolve(k.ps[1])
		if s.isNil() {
			k.want(st.clone(), k.next, k.r, func(s *State, v *Term) { k.answer(s, ev, res, v, "is not the neighbour of the element") })
			same(st)
			return
		}
		link(st, k.r, s)
	case "Ring.Move":
		n := st.linOf(k.ps[1])
		k.single(st, func(s *State, one bool) {
			if one || s.prove(n) && s.prove(n.scale(-1)) {
				k.answer(s.clone(), ev, res, k.r, "moves away from the only element")
				same(s)
				return
			}
			k.at(s, ev, res, n)
			same(s)
		})
	case "Ring.Unlink":
		n := st.linOf(k.ps[1])
		split(st, n.addk(-1), func(s *State, pos bool) {
			if !pos {
				k.answer(s.clone(), ev, res, T.Nil(), "returns a ring although nothing is removed")
				same(s)
				return
			}
			k.single(s, func(s *State, one bool) {
				if one {
					k.answer(s.clone(), ev, res, k.r, "the only element is not kept")
					same(s)
					return
				}
				// the node after the ones to be removed
				for _, q := range s.monKeys("p.") {
					t := s.getT(q)
					d, _ := t.args[1].intVal()
					if eqLin(s, s.linOf(s.getT("#pos")).addk(d), n.addk(1)) {
						link(s, k.r, s.resolve(t.args[0]))
						return
					}
				}
				k.ob(ev, "answer")
				if k.modulo(k.c.P.fn(ringPkg, k.name), map[*ssa.Function]bool{}) {
					k.c.Undecided(k.name, "takes the number of elements modulo something")
					return
				}
				k.bad(s, ev, "answer", "the ring is not opened after the given number of elements")
			})
		})
	case "Ring.Len":
		k.closed(st, ev, func(s *State, size Lin) {
			k.ob(ev, "answer")
			if !eqLin(s, s.linOf(res), size) {
				k.bad(s, ev, "answer", "is not the number of elements")
			}
			same(s)
		})
	case "Ring.Do":
		k.closed(st, ev, func(s *State, size Lin) {
			k.ob(ev, "visit")
			if !eqLin(s, s.linOf(s.getT("#called")), size) {
				k.bad(s, ev, "visit", "not every element is visited once")
			}
			same(s)
		})
	case "New":
		n := st.linOf(k.ps[0])
		split(st, n.addk(-1), func(s *State, pos bool) {
			if !pos {
				k.answer(s, ev, res, T.Nil(), "a ring of no elements is not nil")
				return
			}
			k.link(s, ev)
			if s.dead {
				return
			}
			f, l := s.getT("first"), s.getT("last")
			if f == nil {
				k.ob(ev, "links")
				k.bad(s, ev, "links", "no ring is made")
				return
			}
			f, l = s.resolve(f), s.resolve(l)
			k.ob(ev, "links")
			a, b := s.heap[fAddr(s, l, k.next)], s.heap[fAddr(s, f, k.prev)]
			closed := a != nil && b != nil && s.resolve(a) == f && s.resolve(b) == l
			if f == l && a != nil && b != nil && s.resolve(a).isNil() && s.resolve(b).isNil() {
				closed = true // a single element may be left as it is
			}
			if !closed {
				k.bad(s, ev, "links", "the last element and the first one are not joined")
			}
			k.ob(ev, "length")
			if !eqLin(s, s.linOf(s.getT("#count")), n) {
				k.bad(s, ev, "length", "the ring does not have as many elements as asked for")
			}
			k.ob(ev, "answer")
			if r := s.resolve(res); r.isNil() || !r.alloc && r != f && r != l {
				k.bad(s, ev, "answer", "is not an element of the new ring")
			}
		})
	}
}

// at: the result is so many steps away
func (k *ringCheck) at(st *State, ev *Ev, x *Term, n Lin) {
	k.ob(ev, "answer")
	for _, p := range k.places(st, x) {
		if eqLin(st, p, n) {
			return
		}
	}
	if k.modulo(k.c.P.fn(ringPkg, k.name), map[*ssa.Function]bool{}) {
		k.c.Undecided(k.name, "takes the number of steps modulo something")
		return
	}
	k.bad(st, ev, "answer", "is not the element that many steps away")
}

// modulo: is a remainder taken anywhere
func (k *ringCheck) modulo(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] || !inRepo(f) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				if in.Op == token.REM {
					return true
				}
			case ssa.CallInstruction:
				if g := in.Common().StaticCallee(); g != nil {
					if o := g.Origin(); o != nil {
						g = o
					}
					if k.modulo(g, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// closed continues with the number of elements, which the walk has found.
func (k *ringCheck) closed(st *State, ev *Ev, cont func(s *State, size Lin)) {
	r := st.resolve(k.r)
	if r.isNil() {
		cont(st, linConst(0))
		return
	}
	k.single(st, func(s *State, one bool) {
		switch {
		case one:
			cont(s, linConst(1))
		case s.getT("closed") != nil:
			cont(s, s.linOf(s.getT("#size")))
		default:
			k.ob(ev, "visit")
			k.bad(s, ev, "visit", "the walk ends before it has come round the ring")
		}
	})
}

// link takes the nodes made since the last round into the chain.
func (k *ringCheck) link(st *State, ev *Ev) {
	T := st.x.T
	joined := func(a, b *Term) int {
		n := 0
		if v := st.heap[fAddr(st, a, k.next)]; v != nil && st.resolve(v) == b {
			n++
		}
		if v := st.heap[fAddr(st, b, k.prev)]; v != nil && st.resolve(v) == a {
			n++
		}
		return n
	}
	for _, x := range k.made(st) {
		if st.getT("first") == nil {
			st.setT("first", x)
			st.setT("last", x)
			inc(st, "#count")
			continue
		}
		f, l := st.resolve(st.getT("first")), st.resolve(st.getT("last"))
		after, front := joined(l, x), joined(x, f)
		k.ob(ev, "links")
		switch {
		case after == 2:
			st.setT("last", x)
		case front == 2:
			st.setT("first", x)
		case after+front > 0:
			k.bad(st, ev, "links", "a new element is joined to its neighbour in one direction only")
			st.dead = true
			return
		default:
			k.c.Undecided(k.name, "makes the ring in a way that is not followed")
			st.dead = true
			return
		}
		inc(st, "#count")
	}
	st.clearMon("new.")
	_ = T
}

func (k *ringCheck) chain(st *State, ev *Ev) {
	k.link(st, ev)
	if st.dead {
		return
	}
	f, l := st.getT("first"), st.getT("last")
	k.wipe(st, func(fld *types.Var, x *Term) bool {
		return f != nil && (fld == k.prev && x == st.resolve(f) || fld == k.next && x == st.resolve(l))
	})
}

// run analyses a function for a ring that was not used before, for one of a
// single element, and for all others.
func (k *ringCheck) run(name, size string) {
	fn := k.c.Fn(ringPkg, name)
	if fn == nil {
		return
	}
	k.name, k.size = name, size
	k.many = size == "many"
	cfg := k.cfg(k.event)
	cfg.Bounds = true
	k.c.Run(fn, cfg, func(st *State, ps []*Term) {
		T := st.x.T
		k.ps = ps
		k.r = nil
		if name == "Ring.Len" || name == "Ring.Do" {
			st.setT("#tested", T.Int(0))
			if size == "many" {
				st.setT("#tested", T.Int(1)) // the next one is another one
			}
			st.setT("#size", T.Int(0))
			st.setT("#called", T.Int(0))
		}
		if name == "New" {
			st.setT("#count", T.Int(0))
		}
		if len(ps) > 0 && k.isNode(ps[0].typ) {
			k.r = ps[0]
			st.setT("p.0", T.tuple(ps[0], T.Int(0)))
			st.setT("#pos", T.Int(0))
			if size == "nil" {
				st.unify(ps[0], T.Nil())
				return
			}
			ps[0].nonnil = true
			if size != "" {
				st.heap[fAddr(st, ps[0], k.zero)] = T.Bool(size == "unused")
			}
			if size == "one" {
				st.heap[fAddr(st, ps[0], k.was[k.next])] = ps[0]
				st.heap[fAddr(st, ps[0], k.was[k.prev])] = ps[0]
			}
		}
	})
}

func runRing(c *Ctx) {
	k := &ringCheck{links: links{c: c}}
	if !k.fields(ringPkg, "Ring", "") {
		if len(c.viol) == 0 {
			c.Undecided("gring.Ring", "is not a doubly linked ring")
		}
		return
	}
	for _, name := range []string{"New", "Ring.Next", "Ring.Prev", "Ring.Link"} {
		k.run(name, "")
	}
	for _, name := range []string{"Ring.Move", "Ring.Unlink", "Ring.Len", "Ring.Do"} {
		for _, size := range []string{"unused", "one", "many"} {
			k.run(name, size)
		}
	}
	k.run("Ring.Len", "nil")
	k.run("Ring.Do", "nil")
	c.Min("links", 6)
	c.Min("answer", 6)
	c.Min("visit", 3)
}

func init() {
	register(&Property{ID: "C32", Run: func(c *Ctx) {
		c.rules["links"] = "after the operation the neighbours of every element are what the operation on the ring says, and its value is kept"
		c.rules["length"] = "a new ring has as many elements as asked for"
		c.rules["answer"] = "the result is the element that many steps away, what followed, or the number of elements"
		c.rules["visit"] = "every element is visited once, in order, from the given one on"
		c.rules["panic"] = "no nil pointer is used"
		runRing(c)
	}})
}
