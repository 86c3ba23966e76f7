package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The doubly linked list and the ring.

type listCheck struct {
	links
	l     *Term // the list the function is about
	other *Term // the list that is copied or walked
	walk  string
}

const ringPkg = "gogenerics/gcontainers/gring"

// ---- one operation

func (k *listCheck) event(st *State, ev *Ev) {
	switch ev.Kind {
	case "deref", "store":
		k.deref(st, ev)
	case "alloc":
		k.alloc(st, ev)
	case "edge":
		if k.walk == "" {
			k.c.Undecided(k.name, "has a loop that is not followed")
			st.dead = true
			return
		}
		k.round(st, ev)
	case "loopentry", "backedge":
		if k.walk != "" {
			l := st.linOf(st.getT("#done")).add(st.linOf(st.getT("total")), -1)
			for _, l := range []Lin{l, l.scale(-1), l.scale(-1).addk(-1)} {
				if st.prove(l) {
					st.addLinForce(l)
				}
			}
		}
	case "callback":
		k.visit(st, ev)
	case "exit":
		if ev.Panics {
			k.bad(st, ev, "panic", "panics")
			return
		}
		k.exit(st, ev)
	}
}

// in: is x an element of the list it is asked about
func (k *listCheck) in(st *State, x *Term) bool { return k.owner(st, x) == st.resolve(k.l) }

// lengths: the number of elements is by d more than it was, that of other lists is kept
func (k *listCheck) lengths(st *State, ev *Ev, d int64) {
	for a, v := range st.heap {
		if a.k != TFA || a.fld != k.count {
			continue
		}
		l := st.resolve(a.args[0])
		want := st.linOf(k.len0(st, l))
		if l == st.resolve(k.l) {
			want = want.addk(d)
		}
		k.ob(ev, "length")
		if !eqLin(st, st.linOf(v), want) {
			k.bad(st, ev, "length", "the length is not the number of elements")
			return
		}
	}
	if _, ok := st.heap[fAddr(st, st.resolve(k.l), k.count)]; !ok && d != 0 {
		k.ob(ev, "length")
		k.bad(st, ev, "length", "the length is not changed")
	}
}

func (k *listCheck) answer(st *State, ev *Ev, got, want *Term, msg string) {
	k.ob(ev, "answer")
	got, want = st.resolve(got), st.resolve(want)
	if got == want || st.knownEq(got, want) {
		return
	}
	o := st.clone()
	if o.assume(o.mkEq(got, want), false) {
		k.bad(o, ev, "answer", msg)
	}
}

func (k *listCheck) exit(st *State, ev *Ev) {
	T := st.x.T
	if k.walk != "" {
		k.round(st, ev)
		return
	}
	var res *Term
	if len(ev.Res) > 0 {
		res = ev.Res[0]
	}
	root := func(s *State) *Term { return k.rootNode(s, k.l) }
	same := func(s *State) {
		k.compare(s, ev, "links", nil)
		k.lengths(s, ev, 0)
	}
	var e, m *Term
	if len(k.ps) > 1 {
		e = k.ps[1]
	}
	if len(k.ps) > 2 {
		m = k.ps[2]
	}
	// end continues at the front or the back of the list
	end := func(st *State, f *types.Var, cont func(s *State, x *Term)) {
		k.want(st, f, root(st), func(s *State, x *Term) {
			if x == root(s) {
				x = T.Nil()
			}
			cont(s, x)
		})
	}
	insert := func(s *State, at *Term, v *Term) {
		r := s.resolve(res)
		if !r.alloc || k.garbage(s, r) && len(k.made(s)) == 0 {
			k.ob(ev, "answer")
			k.bad(s, ev, "answer", "does not return the new element")
			return
		}
		k.put(s, k.val, r, v, func(s *State) {
			k.put(s, k.list, r, k.l, func(s *State) {
				k.enter(s, r, at, func(s *State) {
					k.compare(s, ev, "links", nil)
					k.lengths(s, ev, 1)
				})
			})
		})
	}
	move := func(s *State, x *Term, at func(s *State, cont func(s *State, at *Term))) {
		k.unlink(s, x, func(s *State) {
			at(s, func(s *State, a *Term) { k.enter(s, x, a, same) })
		})
	}
	switch k.name {
	case "Element.Next", "Element.Prev":
		f := k.next
		if k.name == "Element.Prev" {
			f = k.prev
		}
		x := k.ps[0]
		if o := k.owner(st, x); o == nil {
			k.answer(st, ev, res, T.Nil(), "an element that is in no list has a neighbour")
		} else {
			k.want(st, f, x, func(s *State, n *Term) {
				s.cases(s.mkEq(n, k.rootNode(s, o)), func(s *State, end bool) {
					if end {
						n = T.Nil()
					}
					k.answer(s, ev, res, n, "is not the neighbour of the element in its list")
				})
			})
		}
		same(st.clone())
	case "List.Len":
		k.ob(ev, "answer")
		if !eqLin(st, st.linOf(res), st.linOf(k.len0(st, k.l))) {
			k.bad(st, ev, "answer", "is not the number of elements")
		}
		same(st)
	case "List.Front", "List.Back":
		f := k.next
		if k.name == "List.Back" {
			f = k.prev
		}
		end(st.clone(), f, func(s *State, x *Term) { k.answer(s, ev, res, x, "is not the element at the end of the list") })
		same(st)
	case "New", "List.Init":
		l := k.l
		if k.name == "New" {
			l = st.resolve(res)
			k.ob(ev, "answer")
			if !l.alloc {
				k.bad(st, ev, "answer", "is not a new list")
				return
			}
		} else {
			k.answer(st, ev, res, l, "does not return the list")
		}
		r := k.rootNode(st, l)
		for _, f := range []*types.Var{k.next, k.prev} {
			k.ob(ev, "links")
			if v := k.now(st, f, r); v != st.resolve(r) {
				k.bad(st, ev, "links", "the list is not empty")
			}
		}
		k.ob(ev, "length")
		if v, ok := st.heap[fAddr(st, l, k.count)]; !ok || !st.prove(st.linOf(v).scale(-1)) || !st.prove(st.linOf(v)) {
			k.bad(st, ev, "length", "the length of the empty list is not 0")
		}
	case "List.Remove":
		k.answer(st.clone(), ev, unbox(res), k.before(st, k.val, e), "is not the value of the element")
		if !k.in(st, e) {
			same(st)
			return
		}
		k.unlink(st, e, func(s *State) {
			k.put(s, k.list, e, T.Nil(), func(s *State) {
				k.compare(s, ev, "links", nil)
				k.lengths(s, ev, -1)
			})
		})
	case "List.PushFront":
		insert(st, root(st), e)
	case "List.PushBack":
		k.want(st, k.prev, root(st), func(s *State, p *Term) { insert(s, p, e) })
	case "List.InsertBefore", "List.InsertAfter":
		if !k.in(st, m) {
			k.answer(st.clone(), ev, res, T.Nil(), "returns an element although the mark is not in the list")
			same(st)
			return
		}
		if k.name == "List.InsertAfter" {
			insert(st, m, e)
		} else {
			k.want(st, k.prev, m, func(s *State, p *Term) { insert(s, p, e) })
		}
	case "List.MoveToFront", "List.MoveToBack":
		if !k.in(st, e) {
			same(st)
			return
		}
		move(st, e, func(s *State, cont func(s *State, at *Term)) {
			if k.name == "List.MoveToFront" {
				cont(s, root(s))
			} else {
				k.want(s, k.prev, root(s), cont)
			}
		})
	case "List.MoveBefore", "List.MoveAfter":
		if !k.in(st, e) || !k.in(st, m) {
			same(st)
			return
		}
		st.cases(st.mkEq(st.resolve(e), st.resolve(m)), func(s *State, eq bool) {
			if eq {
				same(s)
				return
			}
			move(s, e, func(s *State, cont func(s *State, at *Term)) {
				if k.name == "List.MoveAfter" {
					cont(s, m)
				} else {
					k.want(s, k.prev, m, cont)
				}
			})
		})
	}
}

// ---- walks: the other list is copied, or visited, element by element

func (k *listCheck) dir() *types.Var {
	if k.walk == "front" {
		return k.prev
	}
	return k.next
}

// pending: the elements dealt with since the last round
func (k *listCheck) pending(st *State) int {
	if k.walk == "range" {
		if st.getT("visited") != nil {
			return 1
		}
		return 0
	}
	return len(k.made(st))
}

// cursor is the element that comes next, nil when it is not known yet
func (k *listCheck) cursor(st *State) *Term {
	if t := st.getT("cur"); t != nil {
		return st.resolve(t)
	}
	if st.getT("over") != nil {
		return st.x.T.Nil()
	}
	r := k.rootNode(st, k.other)
	if k.open(st, k.dir(), r) != nil {
		return nil
	}
	x := k.effective(st, k.dir(), r, k.before(st, k.dir(), r))
	if k.isRoot(x) {
		return st.x.T.Nil()
	}
	return x
}

func (k *listCheck) fork(st *State, addr *Term) *Term {
	if addr != nil {
		return k.links.fork(st, addr)
	}
	return k.ask(st)
}

// ask: what has to be known before the round can be closed
func (k *listCheck) ask(st *State) *Term {
	if k.walk == "" {
		return nil
	}
	x := k.cursor(st)
	if x == nil {
		return k.open(st, k.dir(), k.rootNode(st, k.other))
	}
	if k.pending(st) > 0 && !x.isNil() {
		return k.more(st)
	}
	return nil
}

// more: is there an element after the current one
func (k *listCheck) more(st *State) *Term {
	T := st.x.T
	c := T.op("lt", types.Typ[types.Bool], st.x.arith(st, "+", st.getT("#done"), T.Int(1), types.Typ[types.Int]), st.getT("total"))
	if _, known := st.truth(c); known {
		return nil
	}
	return c
}

// visit: the caller's function is given an element
func (k *listCheck) visit(st *State, ev *Ev) {
	if k.walk != "range" {
		return
	}
	k.ob(ev, "visit")
	if k.pending(st) > 0 {
		k.c.Undecided(k.name, "visits several elements in a round")
		st.dead = true
		return
	}
	s := st
	for i := 0; i < 5; i++ {
		c := k.ask(s)
		if c == nil {
			break
		}
		// an empty list is decided by its length
		o := s.clone()
		if o.assume(c, true) && k.cursor(o) != nil && k.cursor(o).isNil() {
			k.bad(o, ev, "visit", "an element of an empty list is visited")
			st.dead = true
			return
		}
		if !s.assume(c, false) {
			return
		}
	}
	x := k.cursor(s)
	if x == nil || x.isNil() || len(ev.Args) != 1 || !s.knownEq(ev.Args[0], x) {
		k.bad(s, ev, "visit", "what is visited is not the next element of the list")
		st.dead = true
		return
	}
	st.setT("visited", st.x.T.Bool(true))
}

// round closes a round of a walk: what was added is compared with the
// elements that were to be added.
func (k *listCheck) round(st *State, ev *Ev) {
	T := st.x.T
	exit := ev.Kind == "exit"
	for {
		c := k.ask(st)
		if c == nil {
			break
		}
		if !exit {
			k.c.Undecided(k.name, "a round is not followed")
			st.dead = true
			return
		}
		st.cases(c, func(s *State, v bool) { k.round(s, ev) })
		return
	}
	news := k.made(st)
	if len(news) > 1 {
		k.c.Undecided(k.name, "adds several elements in a round")
		st.dead = true
		return
	}
	n := k.pending(st)
	x := k.cursor(st)
	var nextCur *Term
	if n == 1 {
		k.ob(ev, "visit")
		if x.isNil() {
			k.bad(st, ev, "visit", "more elements are dealt with than there are")
			st.dead = true
			return
		}
		// the one after it
		if c := k.open(st, k.dir(), x); c != nil {
			if !st.assume(c, false) {
				return
			}
		}
		nx := k.before(st, k.dir(), x)
		more := st.prove(st.linOf(st.getT("total")).add(st.linOf(st.getT("#done")), -1).addk(-2))
		if more {
			st.differ(st.resolve(nx), k.rootNode(st, k.other))
			nextCur = st.resolve(nx)
		} else if k.walk == "range" || st.resolve(k.other) != st.resolve(k.l) {
			st.unify(st.resolve(nx), k.rootNode(st, k.other))
		}
		// the last element is the one that nothing comes after
		if e := st.getT("end"); e != nil {
			if more {
				st.differ(st.resolve(x), st.resolve(e))
			} else {
				st.unify(st.resolve(x), st.resolve(e))
			}
		}
		if st.dead {
			return
		}
		inc(st, "#done")
	} else {
		nextCur = x
		if x != nil && x.isNil() {
			nextCur = nil
		}
	}
	// the effect of this round
	s := st.clone()
	d := int64(0)
	if k.walk == "range" || n == 0 {
		k.compare(s, ev, "links", nil)
	} else {
		d = 1
		v := k.before(st, k.val, x)
		s = st.clone()
		r := news[0]
		fill := func(s *State, at *Term) {
			k.put(s, k.val, r, v, func(s *State) {
				k.put(s, k.list, r, k.l, func(s *State) {
					k.enter(s, r, at, func(s *State) { k.compare(s, ev, "links", nil) })
				})
			})
		}
		if k.walk == "front" {
			fill(s, k.rootNode(s, k.l))
		} else {
			k.want(s, k.prev, k.rootNode(s, k.l), fill)
		}
	}
	k.lengths(st.clone(), ev, d)
	if exit {
		k.ob(ev, "visit")
		if nextCur != nil {
			k.bad(st, ev, "visit", "not every element of the list is dealt with")
		}
		return
	}
	k.reset(st, nextCur, d)
	_ = T
}

// reset: the next round starts from any list that is well formed.
func (k *listCheck) reset(st *State, cur *Term, d int64) {
	T := st.x.T
	st.clearMon("new.")
	st.setT("visited", nil)
	l, o := st.resolve(k.l), st.resolve(k.other)
	used := map[*Term]bool{}
	for _, x := range []*Term{l, o} {
		v, ok := st.heap[fAddr(st, k.rootNode(st, x), k.next)]
		used[x] = !k.unused(st, k.rootNode(st, x)).isBool(true) || ok && !st.resolve(v).isNil()
	}
	n := st.linOf(k.len0(st, l)).addk(d)
	no := k.len0(st, o)
	inv := k.next
	if k.dir() == k.next {
		inv = k.prev
	}
	if st.getT("end") == nil {
		if v, ok := st.heap[fAddr(st, k.rootNode(st, o), k.was[inv])]; ok && !st.resolve(v).isNil() && !k.isRoot(st.resolve(v)) {
			st.setT("end", v)
		}
	}
	// the ends of the list that grows stay known
	ends := map[*types.Var]*Term{}
	for _, f := range []*types.Var{k.next, k.prev} {
		for _, g := range []*types.Var{k.was[f], f} {
			if v, ok := st.heap[fAddr(st, k.rootNode(st, l), g)]; ok && used[l] && !st.resolve(v).isNil() {
				ends[f] = st.resolve(v)
			}
		}
	}
	if k.walk == "range" {
		ends = nil
	}
	k.wipe(st, func(f *types.Var, x *Term) bool { return f == k.zero && !used[st.resolve(x)] })
	if o != l {
		st.heap[fAddr(st, o, k.was[k.count])] = no
		s := T.sym("length", types.Typ[types.Int])
		e := linTerm(s).add(n, -1)
		st.addLin(e)
		st.addLin(e.scale(-1))
		st.heap[fAddr(st, l, k.was[k.count])] = s
	} else {
		st.heap[fAddr(st, l, k.was[k.count])] = st.x.termOf(st.linOf(st.getT("total")).add(st.linOf(st.getT("#done")), 1), types.Typ[types.Int])
	}
	if k.walk == "range" {
		st.heap[fAddr(st, l, k.was[k.count])] = st.getT("total")
	}
	for _, f := range []*types.Var{k.next, k.prev} {
		if v := ends[f]; v != nil {
			r := k.rootNode(st, l)
			g := k.next
			if f == k.next {
				g = k.prev
			}
			st.heap[fAddr(st, r, k.was[f])] = v
			st.heap[fAddr(st, v, k.was[g])] = r
			k.setOwner(st, v, l)
		}
	}
	if e := st.getT("end"); e != nil {
		k.setOwner(st, e, o)
	}
	if cur != nil {
		st.setT("cur", cur)
		k.setOwner(st, cur, o)
		st.differ(cur, k.rootNode(st, o))
		st.setT("over", nil)
	} else {
		st.setT("cur", nil)
		st.setT("over", T.Bool(true))
	}
}

func (k *listCheck) run(name string, setup func(st *State, ps []*Term)) {
	fn := k.c.Fn(listPkg, name)
	if fn == nil {
		return
	}
	k.name = name
	cfg := k.cfg(k.event)
	cfg.Fork = k.fork
	if k.walk != "" {
		// the length counts down while elements are copied
		cfg.Bounds = true
	}
	cfg.MaxSteps = maxSteps
	k.c.Run(fn, cfg, func(st *State, ps []*Term) {
		k.ps = ps
		k.l, k.other = nil, nil
		for _, p := range ps {
			if k.isNode(p.typ) || pointee(p.typ) != nil {
				p.nonnil = true
			}
		}
		if len(ps) > 0 && !k.isNode(ps[0].typ) {
			k.l = ps[0]
		}
		if k.l == nil {
			k.l = st.x.T.root("some list", types.NewPointer(types.Typ[types.Int]))
		}
		st.setT("#done", st.x.T.Int(0))
		if setup != nil {
			setup(st, ps)
		}
	})
}

func (k *listCheck) place(st *State, e *Term, how string) {
	T := st.x.T
	e = st.resolve(e)
	switch how {
	case "in":
		k.setOwner(st, e, k.l)
		st.addLin(st.linOf(k.len0(st, k.l)).addk(-1))
	case "out":
		st.heap[fAddr(st, e, k.own)] = T.Nil()
	case "elsewhere":
		o := T.root("another list", k.l.typ)
		o.nonnil = true
		st.differ(k.l, o)
		k.setOwner(st, e, o)
		st.addLin(st.linOf(k.len0(st, o)).addk(-1))
	}
	if l := k.owner(st, e); l != nil {
		st.differ(e, k.rootNode(st, l))
	}
}

func (k *listCheck) unusedList(st *State, l *Term) {
	st.heap[fAddr(st, l, k.zero)] = st.x.T.Bool(true)
	st.heap[fAddr(st, l, k.was[k.count])] = st.x.T.Int(0)
}

func runList(c *Ctx) {
	k := &listCheck{links: links{c: c}}
	if !k.fields(listPkg, "Element", "List") {
		if len(c.viol) == 0 {
			c.Undecided("glist.List", "is not a doubly linked list with a sentinel")
		}
		return
	}
	spots := []string{"in", "out", "elsewhere"}
	k.run("New", nil)
	for _, n := range []string{"List.Init", "List.Len", "List.Front", "List.Back", "List.PushFront", "List.PushBack"} {
		k.run(n, func(st *State, ps []*Term) { k.unusedList(st, ps[0]) })
		k.run(n, nil)
	}
	for _, p := range spots {
		for _, n := range []string{"Element.Next", "Element.Prev"} {
			k.run(n, func(st *State, ps []*Term) { k.place(st, ps[0], p) })
		}
		for _, n := range []string{"List.Remove", "List.MoveToFront", "List.MoveToBack"} {
			k.run(n, func(st *State, ps []*Term) { k.place(st, ps[1], p) })
		}
		for _, n := range []string{"List.InsertBefore", "List.InsertAfter"} {
			k.run(n, func(st *State, ps []*Term) { k.place(st, ps[2], p) })
		}
		for _, q := range spots {
			for _, n := range []string{"List.MoveBefore", "List.MoveAfter"} {
				k.run(n, func(st *State, ps []*Term) {
					k.place(st, ps[1], p)
					k.place(st, ps[2], q)
				})
			}
		}
	}
	for _, z := range []bool{false, true} {
		k.walk = "range"
		k.run("List.Range", func(st *State, ps []*Term) {
			k.other = ps[0]
			if z {
				k.unusedList(st, ps[0])
			}
			st.setT("total", k.len0(st, k.other))
		})
		for _, n := range []string{"List.PushBackList", "List.PushFrontList"} {
			k.walk = "back"
			if n == "List.PushFrontList" {
				k.walk = "front"
			}
			for _, how := range []string{"same", "two", "unused"} {
				k.run(n, func(st *State, ps []*Term) {
					k.other = ps[1]
					switch how {
					case "same":
						st.unify(ps[1], ps[0])
					case "unused":
						k.unusedList(st, ps[1])
						fallthrough
					case "two":
						st.differ(ps[0], ps[1])
					}
					if z {
						k.unusedList(st, st.resolve(ps[0]))
					}
					st.setT("total", k.len0(st, k.other))
				})
			}
		}
	}
	k.walk = ""
	c.Min("links", 40)
	c.Min("length", 20)
	c.Min("answer", 15)
	c.Min("visit", 6)
}

func init() {
	register(&Property{ID: "C31", Run: func(c *Ctx) {
		c.rules["links"] = "after the operation every node's neighbours, list and value are what the operation on the sequence says"
		c.rules["length"] = "the length is changed by the number of elements that enter or leave, and only for that list"
		c.rules["answer"] = "the result is the element or value that the place in the sequence says"
		c.rules["visit"] = "each element that was in the list is dealt with once, in order"
		c.rules["panic"] = "no nil pointer is used"
		runList(c)
	}})
}

var _ ssa.Instruction
