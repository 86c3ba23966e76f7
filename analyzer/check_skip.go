package main

import (
	"sort"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Skip list: what a search knows of the keys it has compared, and whether that
// settles the answer. Links go from smaller to greater keys; the elements
// reached over the first level are all there are.

const skipPkg = "gogenerics/gds/gskiplist"

type skipCheck struct {
	c                        *Ctx
	name                     string
	ps                       []*Term
	key, val, next, prev     *types.Var
	start, last, count       *types.Var
	nodeT                    types.Type
	keyP, valP               int
	lookup, changes, deletes bool
}

func (k *skipCheck) bad(st *State, ev *Ev, rule, msg string) {
	k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
	st.dead = true
}

func (k *skipCheck) undecided(st *State, why string) {
	k.c.Undecided(k.name, why)
	st.dead = true
}

// readField: the one field of the receiver that f reads
func readField(f *ssa.Function) *types.Var {
	var v *types.Var
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			s, _ := pointee(fa.X.Type()).Underlying().(*types.Struct)
			if s == nil || v != nil {
				return nil
			}
			v = s.Field(fa.Field).Origin()
		}
	}
	return v
}

func (k *skipCheck) fields() bool {
	n := k.c.P.named(skipPkg, "SkipListElement")
	if n == nil {
		k.c.Bad(nil, "anchor", skipPkg+".SkipListElement", 0, "type not found")
		return false
	}
	k.nodeT = n
	tp := n.TypeParams()
	s, _ := n.Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i).Origin()
		switch t := f.Type().(type) {
		case *types.TypeParam:
			if tp.Len() > 0 && t == tp.At(0) {
				k.key = f
			} else {
				k.val = f
			}
		case *types.Array:
			k.next = f
		case *types.Slice:
			k.next = f
		case *types.Pointer:
			k.prev = f
		}
	}
	k.start = readField(k.c.Fn(skipPkg, "SkipList.GetSmallestNode"))
	k.last = readField(k.c.Fn(skipPkg, "SkipList.GetLargestNode"))
	k.count = readField(k.c.Fn(skipPkg, "SkipList.GetNodeCount"))
	return k.key != nil && k.val != nil && k.next != nil && k.start != nil && k.last != nil && k.start != k.last && k.count != nil
}

func (k *skipCheck) isNode(t types.Type) bool {
	p := pointee(t)
	return p != nil && types.Identical(originType(p), originType(k.nodeT))
}

func (k *skipCheck) target(st *State) *Term { return st.resolve(k.ps[k.keyP]) }

const (
	under = 1
	equal = 2
	over  = 4
)

// order: what the key of the node may be to the one asked for
func (k *skipCheck) order(st *State, n *Term) int {
	n = st.resolve(n)
	m := under | equal | over
	for _, c := range []struct {
		mon string
		m   int
	}{{"lt", under}, {"le", under | equal}, {"gt", over}, {"ge", over | equal}, {"eq", equal}, {"ne", under | over}} {
		if v := st.getT(c.mon); v != nil && st.resolve(v) == n {
			m &= c.m
		}
	}
	if !n.alloc {
		if st.getT("absent") != nil {
			m &^= equal
		}
		if st.getT("behind") != nil {
			m &= under
		}
		if st.getT("infront") != nil {
			m &= over
		}
	}
	a, ok := st.heap[fAddr(st, n, k.key)]
	if !ok {
		return m
	}
	a = st.resolve(a)
	b := k.target(st)
	if a == b {
		return m & equal
	}
	// keys are taken to be ordered (not NaN)
	r := st.relation(a, b)
	if r&LT == 0 {
		m &^= under
	}
	if r&EQ == 0 {
		m &^= equal
	}
	if r&GT == 0 {
		m &^= over
	}
	return m
}

type skipLink struct {
	from *Term // nil: the start of the list
	low  bool  // on the first level
	idx  *Term
	addr *Term
	to   *Term
}

// links: the links that were read or written
func (k *skipCheck) links(st *State) []skipLink {
	var out []skipLink
	for a, v := range st.heap {
		if a.k != TIA || a.args[0].k != TFA {
			continue
		}
		fa := a.args[0]
		l := skipLink{addr: a, idx: st.resolve(a.args[1]), to: st.resolve(v)}
		switch fa.fld {
		case k.next:
			l.from = st.resolve(fa.args[0])
		case k.start:
			if st.resolve(fa.args[0]) != st.resolve(k.ps[0]) {
				continue
			}
		default:
			continue
		}
		st.addLin(st.linOf(l.idx)) // or it would have panicked
		l.low = eqLin(st, st.linOf(l.idx), linConst(0))
		out = append(out, l)
	}
	return out
}

func (k *skipCheck) isNil(st *State, v *Term) bool {
	is, known := st.truth(st.mkEq(v, st.x.T.zero(v.typ)))
	return known && is
}

func (k *skipCheck) notNil(st *State, v *Term) bool {
	is, known := st.truth(st.mkEq(v, st.x.T.zero(v.typ)))
	return known && !is
}

// beyond: there is nothing at v, or its key is greater
func (k *skipCheck) beyond(st *State, v *Term) bool {
	return k.isNil(st, v) || k.order(st, v) == over
}

// before: all elements up to p have smaller keys
func (k *skipCheck) before(st *State, p *Term, ls []skipLink) bool {
	if p == nil {
		return true
	}
	return k.order(st, p) == under
}

// none: the list says that it has no elements, or no levels
func (k *skipCheck) none(st *State) bool {
	for a, v := range st.heap {
		if a.k != TFA || !isInt(a.fld.Type()) || st.resolve(a.args[0]) != st.resolve(k.ps[0]) {
			continue
		}
		l := st.linOf(st.resolve(v)).scale(-1)
		if a.fld == k.count && st.prove(l) || st.prove(l.addk(-1)) {
			return true
		}
	}
	return false
}

// settled: it is known between which elements of the first level the key is
func (k *skipCheck) settled(st *State) bool {
	c := st.getT("cert")
	return c != nil && eqLin(st, st.linOf(st.resolve(c)), linConst(0))
}

// absent: no element has the key
func (k *skipCheck) absent(st *State) bool {
	if st.getT("absent") != nil {
		return true
	}
	if k.none(st) || k.settled(st) && k.beyond(st, st.resolve(st.getT("succ"))) {
		st.setT("absent", st.x.T.Bool(true))
		return true
	}
	ls := k.links(st)
	sort.Slice(ls, func(i, j int) bool { return ls[i].addr.id < ls[j].addr.id })
	first := func(p *Term) bool {
		if v := st.getT("first"); v != nil && st.resolve(v) == p {
			return true
		}
		for _, l := range ls {
			if l.from == nil && l.low && l.to == p {
				return true
			}
		}
		return false
	}
	for _, l := range ls {
		ok := k.before(st, l.from, ls)
		if ok && k.lookup && (k.isNil(st, l.to) || k.order(st, l.to)&under == 0) {
			// settled for this level; which one that is may turn out later
			st.setT("cert", l.idx)
			st.setT("succ", l.to)
		}
		if !l.low {
			continue
		}
		if !ok && l.from != nil {
			ok = k.order(st, l.from)&equal == 0 && first(l.from)
		}
		if ok && k.beyond(st, l.to) {
			st.setT("absent", st.x.T.Bool(true))
			return true
		}
		// the first element already has a greater key
		if l.from == nil && k.order(st, l.to) == over {
			st.setT("absent", st.x.T.Bool(true))
			return true
		}
	}
	return false
}

// atLeast: r is the first element whose key is not smaller
func (k *skipCheck) atLeast(st *State, r *Term) bool {
	o := k.order(st, r)
	if o == equal {
		return true
	}
	if k.settled(st) && st.resolve(st.getT("succ")) == r {
		return true
	}
	for _, l := range k.links(st) {
		if l.low && l.to == r && k.before(st, l.from, nil) && o&under == 0 {
			return true
		}
	}
	return false
}

// found: an element with the key
func (k *skipCheck) found(st *State) *Term {
	if v := st.getT("eq"); v != nil {
		return st.resolve(v)
	}
	for a := range st.heap {
		if a.k == TFA && a.fld == k.key {
			n := st.resolve(a.args[0])
			if !n.alloc && k.order(st, n) == equal {
				st.setT("eq", n)
				return n
			}
		}
	}
	return nil
}

// possible: what is known of the keys does not contradict itself
func (k *skipCheck) possible(st *State) bool {
	// the same place read twice
	ls := k.links(st)
	for i, l := range ls {
		for _, m := range ls[:i] {
			if l.from != m.from || l.to == m.to || !eqLin(st, st.linOf(l.idx), st.linOf(m.idx)) {
				continue
			}
			o := k.order(st, l.to) & k.order(st, m.to)
			if !st.assume(st.mkEq(st.resolve(l.to), st.resolve(m.to)), true) || st.dead {
				st.dead = true
				return false
			}
			if kk, ok := st.heap[fAddr(st, st.resolve(l.to), k.key)]; ok && !k.isNil(st, l.to) {
				rel := uint8(0)
				if o&under != 0 {
					rel |= LT
				}
				if o&equal != 0 {
					rel |= EQ
				}
				if o&over != 0 {
					rel |= GT
				}
				if st.resolve(kk) != k.target(st) && !st.setRel(st.resolve(kk), k.target(st), rel) {
					st.dead = true
					return false
				}
			}
		}
	}
	for a := range st.heap {
		if a.k != TFA || a.fld != k.key && a.fld != k.next {
			continue
		}
		n := st.resolve(a.args[0])
		if k.isNil(st, n) || a.fld == k.key && k.order(st, n) == 0 {
			st.dead = true
			return false
		}
	}
	for _, l := range ls {
		// there is no element behind the end of the list
		if l.from != nil && k.isNil(st, l.from) {
			st.dead = true
			return false
		}
	}
	// nothing comes before the first element or behind the last
	for a, v := range st.heap {
		if a.k != TIA || a.args[0].k != TFA || !eqLin(st, st.linOf(st.resolve(a.args[1])), linConst(0)) {
			continue
		}
		fa := a.args[0]
		if fa.fld != k.start && fa.fld != k.last || st.resolve(fa.args[0]) != st.resolve(k.ps[0]) {
			continue
		}
		v = st.resolve(v)
		o := k.order(st, v)
		if v.alloc || fa.fld == k.start && o != over || fa.fld == k.last && o != under {
			continue
		}
		if fa.fld == k.last {
			st.setT("behind", st.x.T.Bool(true))
		} else {
			st.setT("infront", st.x.T.Bool(true))
		}
		for b := range st.heap {
			if b.k == TFA && b.fld == k.key {
				if n := st.resolve(b.args[0]); !n.alloc && k.order(st, n)&o == 0 {
					st.dead = true
					return false
				}
			}
		}
	}
	if st.getT("cutting") == nil {
		if f, a := k.found(st), k.absent(st); f != nil && a {
			st.dead = true
			return false
		}
	}
	return true
}

// remember: what is known of a node the search goes on with
func (k *skipCheck) remember(st *State, n *Term) {
	n = st.resolve(n)
	if n == nil || n.alloc || k.isNil(st, n) {
		return
	}
	switch o := k.order(st, n); o {
	case under:
		st.setT("lt", n)
	case under | equal:
		st.setT("le", n)
	case under | over:
		st.setT("ne", n)
	}
	for _, l := range k.links(st) {
		if l.from == nil && l.low && l.to == n {
			st.setT("first", n)
		}
	}
}

// low: the link that was cut is one of the first level
func (k *skipCheck) low(st *State) {
	if c := st.getT("cut"); c != nil && eqLin(st, st.linOf(st.resolve(c)), linConst(0)) {
		st.setT("unlinked", st.x.T.Bool(true))
		st.setT("cut", nil)
	}
}

func (k *skipCheck) event(st *State, ev *Ev) {
	if st.dead {
		return
	}
	switch ev.Kind {
	case "branch", "leave":
		if ev.Kind == "branch" && ev.Val.k == TOp {
			// kept when paths meet
			for a, v := range st.heap {
				if a.k != TFA || a.fld != k.key || len(ev.Val.args) != 2 {
					continue
				}
				v, n := st.resolve(v), st.resolve(a.args[0])
				if n.alloc || v != st.resolve(ev.Val.args[0]) && v != st.resolve(ev.Val.args[1]) {
					continue
				}
				switch k.order(st, n) {
				case over:
					st.setT("gt", n)
				case under:
					st.setT("lt", n)
				case over | equal:
					st.setT("ge", n)
				case under | equal:
					st.setT("le", n)
				}
			}
		}
		if st.getT("cutting") == nil {
			k.possible(st)
		}
		k.low(st)
	case "edge":
		if !k.possible(st) {
			return
		}
		for _, a := range ev.Args {
			if a != nil && k.isNode(a.typ) {
				k.remember(st, a)
			}
		}
		k.low(st)
		if ev.Fn == st.frames[0].fn || st.getT("cut") == nil {
			st.setT("cut", nil)
		}
		if k.name == "Delete" && (st.getT("counted") == nil) != (st.getT("unlinked") == nil) {
			k.bad(st, ev, "count", "the count does not go with whether an element was removed")
		}
	case "loopentry":
		if k.name == "Delete" {
			for _, l := range k.links(st) {
				if k.order(st, l.to) == equal {
					delete(st.heap, l.addr)
				}
			}
		}
	case "backedge":
		if k.name == "Delete" && !readsOnly(ev.Fn) {
			for _, l := range k.links(st) {
				if (l.from == nil || k.order(st, l.from) != equal) && k.order(st, l.to) == equal && k.notNil(st, l.to) {
					k.bad(st, ev, "unlink", "the element with the key stays linked on some level")
					return
				}
			}
		}
	case "store":
		k.store(st, ev)
	case "exit":
		if ev.Panics || !k.possible(st) {
			return
		}
		k.low(st)
		k.exit(st, ev)
	}
}

// store: every change keeps the order of the links and goes with the key
func (k *skipCheck) store(st *State, ev *Ev) {
	T := st.x.T
	a, v := ev.Addr, st.resolve(ev.Val)
	site := where(ev) + " in " + k.name
	bad := func(rule, msg string) { k.bad(st, ev, rule, msg) }
	if a.k == TFA {
		b := st.resolve(a.args[0])
		switch {
		case a.fld == k.key && !b.alloc:
			k.undecided(st, "changes the key of an element")
		case a.fld == k.val && !b.alloc:
			if !k.possible(st) {
				return
			}
			k.c.Ob("value", site)
			switch {
			case k.valP < 0:
				bad("value", "changes the value of an element")
			case k.order(st, b) != equal:
				bad("value", "changes the value of an element whose key is not known to be the one asked for")
			case v != st.resolve(k.ps[k.valP]):
				bad("value", "puts another value into the element than the one given")
			default:
				k.found(st)
				st.setT("put", T.Bool(true))
			}
		case a.fld == k.count && b == st.resolve(k.ps[0]):
			if !k.possible(st) {
				return
			}
			k.c.Ob("count", site)
			d := int64(0)
			old, ok := st.heap[a]
			switch {
			case k.name == "Insert" && k.absent(st):
				d = 1
			case k.name == "Delete" && k.found(st) != nil:
				d = -1
			}
			switch {
			case d == 0 || st.getT("counted") != nil:
				bad("count", "the count changes although no element comes or goes")
			case ok && !eqLin(st, st.linOf(v), st.linOf(st.resolve(old)).addk(d)):
				bad("count", "the count does not change by one")
			default:
				st.setT("counted", T.Bool(true))
			}
		}
		return
	}
	if a.k != TIA || a.args[0].k != TFA {
		return
	}
	fa := a.args[0]
	b := st.resolve(fa.args[0])
	if fa.fld == k.start || fa.fld == k.last {
		if b != st.resolve(k.ps[0]) {
			return
		}
	} else if fa.fld != k.next {
		return
	}
	if !k.possible(st) {
		return
	}
	k.c.Ob("link", site)
	k.c.N("link")
	var old *Term
	if o, ok := st.heap[a]; ok {
		old = st.resolve(o)
	}
	idx := st.resolve(a.args[1])
	behind := func(n *Term) *Term {
		for _, l := range k.links(st) {
			if l.from == n && eqLin(st, st.linOf(l.idx), st.linOf(idx)) {
				return l.to
			}
		}
		return nil
	}
	// small: all elements up to p have smaller keys
	small := func(p *Term) bool {
		if k.order(st, p) == under {
			return true
		}
		end, from := false, false
		for c, w := range st.heap {
			if c.k == TIA && c.args[0].k == TFA && c.args[0].fld == k.last && st.resolve(c.args[0].args[0]) == st.resolve(k.ps[0]) {
				w = st.resolve(w)
				from = from || w == p
				end = end || eqLin(st, st.linOf(st.resolve(c.args[1])), linConst(0)) && k.order(st, w) == under
			}
		}
		return from && (end || st.getT("behind") != nil)
	}
	switch {
	case v.alloc && k.isNode(v.typ):
		kk, vv := st.heap[fAddr(st, v, k.key)], st.heap[fAddr(st, v, k.val)]
		switch {
		case k.valP < 0:
			bad("link", "a new element gets into the list")
			return
		case !k.absent(st):
			bad("link", "an element is added although one with the key may be in the list")
			return
		case kk != nil && st.resolve(kk) != k.target(st):
			bad("link", "the new element does not have the key given")
			return
		case vv != nil && st.resolve(vv) != st.resolve(k.ps[k.valP]):
			bad("link", "the new element does not have the value given")
			return
		}
		w := behind(v)
		switch fa.fld {
		case k.next:
			switch {
			case b.alloc:
				bad("link", "a new element is linked to itself")
			case !small(b):
				bad("link", "the new element is put behind one whose key is not known to be smaller")
			case old != nil && !k.isNil(st, old) && (w == nil || w != old):
				bad("link", "the new element does not lead to what came behind the one before it")
			default:
				st.setT("attached", T.Bool(true))
			}
		case k.start:
			switch {
			case old == nil || !k.beyond(st, old):
				bad("link", "the new element becomes the first although one with a smaller key may be there")
			case !k.isNil(st, old) && (w == nil || w != old):
				bad("link", "the new element does not lead to what was the first")
			default:
				st.setT("attached", T.Bool(true))
			}
		case k.last:
			if w != nil && k.notNil(st, w) {
				bad("link", "the new element becomes the last although one is behind it")
			}
		}
	case b.alloc:
		if !k.beyond(st, v) {
			bad("link", "the new element leads to one whose key is not known to be greater")
		}
	case k.name != "Delete":
		bad("link", "a link is changed although no element comes or goes there")
	case fa.fld == k.last:
		if !k.isNil(st, v) && !small(v) {
			bad("link", "the last element gets replaced by one whose key is not known to be smaller")
		}
	case fa.fld == k.next && k.order(st, b) == equal:
		// of the element that goes
	default:
		n := old
		switch {
		case n == nil || k.order(st, n) != equal || k.isNil(st, n):
			bad("link", "a link changes that does not lead to an element with the key")
		case behind(n) == nil || behind(n) != v:
			bad("link", "what comes behind the removed element is not linked to the one before it")
		default:
			k.found(st)
			st.setT("cutting", T.Bool(true))
			st.setT("cut", idx)
			k.low(st)
		}
	}
}

func (k *skipCheck) zero(st *State, t *Term) bool {
	T := st.x.T
	t = st.resolve(t)
	return t == T.zero(t.typ) || t.k == TOp && len(t.op) >= 4 && t.op[:4] == "zero"
}

func (k *skipCheck) exit(st *State, ev *Ev) {
	T := st.x.T
	if k.isNil(st, st.resolve(k.ps[0])) {
		return
	}
	k.c.Ob("result", where(ev)+" in "+k.name)
	k.c.N("result")
	bad := func(msg string) { k.bad(st, ev, "result", msg) }
	if n := len(ev.Res); n > 0 && isBoolT(ev.Res[n-1].typ) {
		r := st.resolve(ev.Res[n-1])
		if _, known := st.truth(r); !known {
			st.cases(r, func(o *State, v bool) {
				e := *ev
				e.Res = append(append([]*Term{}, ev.Res[:n-1]...), T.Bool(v))
				if k.possible(o) {
					k.exit(o, &e)
				}
			})
			return
		}
	}
	is := func(i int) bool { v, _ := st.truth(st.resolve(ev.Res[i])); return v }
	switch k.name {
	case "Find":
		if is(1) {
			v := st.resolve(ev.Res[0])
			for a, w := range st.heap {
				if a.k == TFA && a.fld == k.val && st.resolve(w) == v && k.order(st, a.args[0]) == equal {
					return
				}
			}
			bad("answers with something else than the value of an element with the key")
		} else if !k.absent(st) {
			bad("says that the key is not there before that is known")
		} else if !k.zero(st, ev.Res[0]) {
			bad("returns a value for a key that is not there")
		}
	case "ChangeValue":
		switch put := st.getT("put") != nil; {
		case is(0) != put:
			bad("does not tell whether a value was changed")
		case !put && !k.absent(st):
			bad("says that the key is not there before that is known")
		}
	case "Insert":
		switch {
		case st.getT("put") != nil:
			if st.getT("counted") != nil || st.getT("attached") != nil {
				bad("an element is added although the key was there")
			}
		case !k.absent(st):
			bad("neither replaces a value nor adds an element")
		case st.getT("counted") == nil:
			bad("a new element is not counted")
		}
	case "Delete":
		switch out := st.getT("unlinked") != nil; {
		case out != (st.getT("counted") != nil):
			bad("the count does not go with whether an element was removed")
		case !out && !k.absent(st):
			at := false // the links of the last round are known
			for _, l := range k.links(st) {
				at = at || l.idx.k != TConst
			}
			if !at {
				k.undecided(st, "the way the search goes down is not followed to the first level")
				return
			}
			bad("the element with the key may stay in the list")
		}
	case "FindGreaterOrEqual":
		if is(1) {
			if r := st.resolve(ev.Res[0]); k.isNil(st, r) || !k.atLeast(st, r) {
				bad("the element returned is not the first one whose key is not smaller")
			}
			return
		}
		if k.none(st) || k.settled(st) && k.isNil(st, st.resolve(st.getT("succ"))) {
			return
		}
		for _, l := range k.links(st) {
			if l.low && k.before(st, l.from, nil) && k.isNil(st, l.to) {
				return
			}
		}
		bad("says that there is no greater key before that is known")
	}
}

func init() {
	register(&Property{ID: "C43", Run: func(c *Ctx) {
		c.rules["result"] = "the keys compared settle the answer"
		for _, e := range []struct {
			name                     string
			nps, keyP, valP          int
			lookup, changes, deletes bool
		}{
			{"Find", 2, 1, -1, true, false, false},
			{"FindGreaterOrEqual", 2, 1, -1, true, false, false},
			{"ChangeValue", 3, 1, 2, true, false, false},
			{"Insert", 3, 1, 2, false, false, false},
			{"Delete", 2, 1, -1, false, false, false},
		} {
			k := &skipCheck{c: c, name: e.name, keyP: e.keyP, valP: e.valP, lookup: e.lookup, changes: e.changes, deletes: e.deletes}
			f := c.Fn(skipPkg, "SkipList."+e.name)
			if f == nil {
				continue
			}
			if !k.fields() || len(f.Params) != e.nps {
				c.Undecided(e.name, "the list is built in another way")
				continue
			}
			c.Run(f, &Config{Event: k.event, NoTemplates: true, MaxSteps: 600000}, func(st *State, ps []*Term) {
				k.ps = ps
			})
		}
		c.Min("result", 2)
	}})
}
