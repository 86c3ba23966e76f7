package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Doubly linked memory. Every node that is met is told apart from the others
// before it is read or written, so that the cells on the heap are exactly what
// the function has changed; what it reads first is an unknown node of which
// the invariant of the structure holds (next and prev are inverse, the
// neighbours belong to the same list). The effect a function is to have is
// worked out on a second set of cells and the two are compared.

type links struct {
	c                     *Ctx
	name                  string
	ps                    []*Term
	next, prev, val, list *types.Var // of a node
	root, count           *types.Var // of a list
	was, exp              map[*types.Var]*types.Var
	own, zero             *types.Var
	nodeT                 *types.Named
	all                   []*types.Var
	forks                 int
	many                  bool // rings have more than one element
}

func (k *links) bad(st *State, ev *Ev, rule, msg string) {
	k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
}
func (k *links) ob(ev *Ev, rule string) {
	k.c.Ob(rule, where(ev)+" in "+k.name)
	k.c.N(rule)
}

// fields finds the parts of a node and of a list.
func (k *links) fields(pkg, node, lst string) bool {
	n := k.c.P.named(pkg, node)
	if n == nil {
		k.c.Bad(nil, "anchor", pkg+"."+node, 0, "type not found")
		return false
	}
	k.nodeT = n
	s, _ := n.Underlying().(*types.Struct)
	var ptrs []*types.Var
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i).Origin()
		p := pointee(f.Type())
		switch {
		case f.Name() == "Value":
			k.val = f
		case p != nil && originType(p) == originType(n):
			ptrs = append(ptrs, f)
		case p != nil && lst != "" && namedIs(p, modPath+"/"+pkg, lst):
			k.list = f
		}
	}
	if len(ptrs) != 2 || k.val == nil || lst != "" && k.list == nil {
		return false
	}
	k.next, k.prev = ptrs[0], ptrs[1]
	if ptrs[0].Name() == "prev" || ptrs[1].Name() == "next" {
		k.next, k.prev = ptrs[1], ptrs[0]
	}
	k.all = []*types.Var{k.next, k.prev, k.val}
	if lst != "" {
		k.all = append(k.all, k.list)
		l := k.c.P.named(pkg, lst)
		if l == nil {
			return false
		}
		s, _ := l.Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			f := s.Field(i).Origin()
			if isInt(f.Type()) {
				k.count = f
			} else if originType(f.Type()) == originType(n) {
				k.root = f
			}
		}
		if k.count == nil || k.root == nil {
			return false
		}
	}
	k.was, k.exp = map[*types.Var]*types.Var{}, map[*types.Var]*types.Var{}
	for _, f := range append(append([]*types.Var{}, k.all...), k.count) {
		if f != nil {
			k.was[f] = types.NewField(0, nil, f.Name()+" before", f.Type(), false)
			k.exp[f] = types.NewField(0, nil, f.Name()+" expected", f.Type(), false)
		}
	}
	k.own = types.NewField(0, nil, "owner", types.NewPointer(types.Typ[types.Int]), false)
	k.zero = types.NewField(0, nil, "unused", types.Typ[types.Bool], false)
	return true
}

func (k *links) isNode(t types.Type) bool {
	p := pointee(t)
	return p != nil && types.Identical(originType(p), originType(k.nodeT))
}

func (k *links) nodeField(f *types.Var) bool {
	for _, g := range k.all {
		if g == f {
			return true
		}
	}
	return false
}

func (k *links) rootNode(st *State, l *Term) *Term {
	l = st.resolve(l)
	return st.x.T.fa(l, k.root, types.NewPointer(k.root.Type()))
}
func (k *links) isRoot(x *Term) bool { return k.root != nil && x.k == TFA && x.fld == k.root }

// owner: the list a node was in, nil if it was in none
func (k *links) owner(st *State, x *Term) *Term {
	x = st.resolve(x)
	if k.isRoot(x) {
		return st.resolve(x.args[0])
	}
	if t, ok := st.heap[fAddr(st, x, k.own)]; ok && !t.isNil() {
		return st.resolve(t)
	}
	return nil
}

func (k *links) setOwner(st *State, x, l *Term) {
	x = st.resolve(x)
	if !k.isRoot(x) && l != nil {
		st.heap[fAddr(st, x, k.own)] = st.resolve(l)
	}
}

// bases of the cells of the given kind
func (k *links) bases(st *State, m map[*types.Var]*types.Var) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for a := range st.heap {
		if a.k != TFA {
			continue
		}
		for _, f := range k.all {
			g := f
			if m != nil {
				g = m[f]
			}
			if a.fld == g && !seen[a.args[0]] {
				seen[a.args[0]] = true
				out = append(out, a.args[0])
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// apart: are x and y one node? nil if that is known, or follows from the
// lists they are in
func (k *links) apart(st *State, x, y *Term) *Term {
	x, y = st.resolve(x), st.resolve(y)
	if x == y || x.isNil() || y.isNil() {
		return nil
	}
	c := st.mkEq(x, y)
	if _, known := st.truth(c); known {
		return nil
	}
	a, b := k.owner(st, x), k.owner(st, y)
	if k.list != nil && !(a == nil && b == nil) && k.placed(st, x) && k.placed(st, y) {
		if a == nil || b == nil || a != b && st.distinct(a, b) {
			st.differ(x, y)
			return nil
		}
	}
	return c
}

// placed: it is known which list the node was in, if any
func (k *links) placed(st *State, x *Term) bool {
	x = st.resolve(x)
	if k.isRoot(x) {
		return true
	}
	_, ok := st.heap[fAddr(st, x, k.own)]
	return ok
}

func (k *links) len0(st *State, l *Term) *Term {
	a := fAddr(st, st.resolve(l), k.was[k.count])
	if v, ok := st.heap[a]; ok {
		return v
	}
	n := st.x.T.sym("length", types.Typ[types.Int])
	st.addLin(linTerm(n))
	st.heap[a] = n
	return n
}

// unused: the zero value of a list or of a ring element
func (k *links) unused(st *State, x *Term) *Term {
	x = st.resolve(x)
	if k.root != nil {
		if k.isRoot(x) {
			if _, ok := st.heap[fAddr(st, st.resolve(x.args[0]), k.zero)]; ok {
				return st.x.T.Bool(true)
			}
		}
		return st.x.T.Bool(false)
	}
	a := fAddr(st, x, k.zero)
	if v, ok := st.heap[a]; ok {
		return v
	}
	v := st.x.T.sym("unused", types.Typ[types.Bool])
	st.heap[a] = v
	return v
}

// open: what has to be known before field f of x can be read as it was
func (k *links) open(st *State, f *types.Var, x *Term) *Term {
	x = st.resolve(x)
	if x.isNil() {
		return nil
	}
	if k.root != nil && f != k.val {
		if l := k.owner(st, x); l != nil && !k.isRoot(x) {
			if c := st.mkEq(x, k.rootNode(st, l)); f == k.list || f == k.next || f == k.prev {
				if _, known := st.truth(c); !known {
					return c
				}
			}
		}
		if k.isRoot(x) && (f == k.next || f == k.prev) && !k.unused(st, x).isBool(true) {
			c := st.x.T.op("le", types.Typ[types.Bool], k.len0(st, x.args[0]), st.x.T.Int(0))
			if _, known := st.truth(c); !known {
				return c
			}
		}
		return nil
	}
	if k.root == nil && (f == k.next || f == k.prev) {
		c := k.unused(st, x)
		if _, known := st.truth(c); !known {
			return c
		}
	}
	return nil
}

// before is what field f of x was; open has nothing left to ask
func (k *links) before(st *State, f *types.Var, x *Term) *Term {
	T := st.x.T
	x = st.resolve(x)
	a := fAddr(st, x, k.was[f])
	if v, ok := st.heap[a]; ok {
		return v
	}
	set := func(v *Term) *Term {
		st.heap[a] = v
		return v
	}
	if f == k.val {
		return set(T.sym("Value", f.Type()))
	}
	own := k.owner(st, x)
	if f == k.list {
		if k.isRoot(x) || own == nil {
			return set(T.Nil())
		}
		return set(own)
	}
	inv := k.next
	if f == k.next {
		inv = k.prev
	}
	ptr := types.NewPointer(k.nodeType(x))
	if k.root != nil && own == nil {
		return set(T.sym(f.Name(), ptr)) // in no list: anything
	}
	if v, known := st.truth(k.unused(st, x)); known && v {
		return set(T.Nil())
	}
	if k.isRoot(x) {
		if st.prove(st.linOf(k.len0(st, own)).scale(-1)) {
			return set(x)
		}
	}
	s := T.sym(f.Name(), ptr)
	s.nonnil = true
	st.heap[a] = s
	st.heap[fAddr(st, s, k.was[inv])] = x
	for _, q := range st.monKeys("new.") {
		st.differ(s, st.resolve(st.getT(q)))
	}
	if k.root != nil {
		st.differ(s, x)
		st.heap[fAddr(st, s, k.own)] = own
	} else {
		st.heap[fAddr(st, s, k.zero)] = T.Bool(false)
		if k.many {
			st.differ(s, x)
		}
	}
	return s
}

func (k *links) nodeType(x *Term) types.Type {
	if p := pointee(x.typ); p != nil && k.isNode(x.typ) {
		return p
	}
	return k.nodeT
}

// now is what field f of x is
func (k *links) now(st *State, f *types.Var, x *Term) *Term {
	x = st.resolve(x)
	v, ok := st.heap[fAddr(st, x, f)]
	if !ok {
		v = k.before(st, f, x)
	}
	return k.effective(st, f, x, v)
}

// effective: a list or ring that is not used yet is its own neighbour
func (k *links) effective(st *State, f *types.Var, x, v *Term) *Term {
	v = st.resolve(v)
	if v.isNil() && (f == k.next || f == k.prev) && (k.root == nil || k.isRoot(x)) {
		return x
	}
	return v
}

// decide continues when x is known to be, or not to be, any of ys.
func (k *links) decide(st *State, x *Term, ys []*Term, cont func(st *State)) {
	k.forks++
	if k.forks > 60000 {
		return
	}
	for i, y := range ys {
		if c := k.apart(st, x, y); c != nil {
			st.cases(c, func(s *State, v bool) { k.decide(s, x, ys[i+1:], cont) })
			return
		}
		if st.dead {
			return
		}
	}
	cont(st)
}

// want continues with what field f of x is to be.
func (k *links) want(st *State, f *types.Var, x *Term, cont func(st *State, v *Term)) {
	if st.resolve(x).isNil() {
		k.c.Undecided(k.name, "the effect to be expected is not followed")
		return
	}
	k.decide(st, x, k.bases(st, k.exp), func(s *State) {
		x := s.resolve(x)
		if v, ok := s.heap[fAddr(s, x, k.exp[f])]; ok {
			cont(s, s.resolve(v))
			return
		}
		if c := k.open(s, f, x); c != nil {
			s.cases(c, func(s *State, v bool) { k.want(s, f, x, cont) })
			return
		}
		cont(s, k.effective(s, f, x, k.before(s, f, x)))
	})
}

// put continues after field f of x is expected to become v.
func (k *links) put(st *State, f *types.Var, x, v *Term, cont func(st *State)) {
	k.decide(st, x, k.bases(st, k.exp), func(s *State) {
		s.heap[fAddr(s, s.resolve(x), k.exp[f])] = s.resolve(v)
		cont(s)
	})
}

// unlink: x is expected to leave the place it has.
func (k *links) unlink(st *State, x *Term, cont func(st *State)) {
	k.want(st, k.prev, x, func(s *State, p *Term) {
		k.want(s, k.next, x, func(s *State, n *Term) {
			k.put(s, k.next, p, n, func(s *State) { k.put(s, k.prev, n, p, cont) })
		})
	})
}

// enter: x is expected to come after at.
func (k *links) enter(st *State, x, at *Term, cont func(st *State)) {
	k.want(st, k.next, at, func(s *State, n *Term) {
		k.put(s, k.next, at, x, func(s *State) {
			k.put(s, k.prev, x, at, func(s *State) {
				k.put(s, k.next, x, n, func(s *State) { k.put(s, k.prev, n, x, cont) })
			})
		})
	})
}

// compare: memory is what it is expected to be.
func (k *links) compare(st *State, ev *Ev, rule string, cont func(st *State)) {
	xs := append(k.bases(st, nil), k.bases(st, k.exp)...)
	k.pairs(st, xs, 0, func(s *State) {
		seen := map[*Term]bool{}
		for _, x := range xs {
			x = s.resolve(x)
			if seen[x] || x.isNil() || k.garbage(s, x) {
				continue
			}
			seen[x] = true
			k.sameNode(s, ev, rule, x, append([]*types.Var{}, k.all...))
			if s.dead {
				return
			}
		}
		if cont != nil {
			cont(s)
		}
	})
}

// garbage: a new node that is not to be used
func (k *links) garbage(st *State, x *Term) bool {
	for _, q := range st.monKeys("new.") {
		if st.resolve(st.getT(q)) != x {
			continue
		}
		for _, g := range k.exp {
			if _, ok := st.heap[fAddr(st, x, g)]; ok {
				return false
			}
		}
		return true
	}
	return false
}

// fresh nodes of this round, oldest first
func (k *links) made(st *State) []*Term {
	var out []*Term
	for _, q := range st.monKeys("new.") {
		out = append(out, st.resolve(st.getT(q)))
	}
	return out
}

func (k *links) alloc(st *State, ev *Ev) {
	if !k.isNode(ev.Val.typ) {
		return
	}
	n := len(st.monKeys("new."))
	if n > 8 {
		k.c.Undecided(k.name, "makes many nodes at once")
		st.dead = true
		return
	}
	st.setT(fmt.Sprintf("new.%d", n), ev.Val)
}

func (k *links) pairs(st *State, xs []*Term, i int, cont func(st *State)) {
	if i >= len(xs) {
		cont(st)
		return
	}
	k.decide(st, xs[i], xs[i+1:], func(s *State) { k.pairs(s, xs, i+1, cont) })
}

func (k *links) sameNode(st *State, ev *Ev, rule string, x *Term, fs []*types.Var) {
	if len(fs) == 0 {
		return
	}
	f := fs[0]
	x = st.resolve(x)
	_, changed := st.heap[fAddr(st, x, f)]
	_, wanted := st.heap[fAddr(st, x, k.exp[f])]
	if !changed && !wanted {
		k.sameNode(st, ev, rule, x, fs[1:])
		return
	}
	k.want(st, f, x, func(s *State, e *Term) {
		x := s.resolve(x)
		if (f == k.next || f == k.prev) && k.list != nil && !k.isRoot(x) {
			// where a node that is in no list points to does not matter
			l, ok := s.heap[fAddr(s, x, k.exp[k.list])]
			if !ok {
				l = orNil(s.x.T, k.owner(s, x))
			}
			if l.isNil() {
				k.sameNode(s, ev, rule, x, fs[1:])
				return
			}
		}
		k.ob(ev, rule)
		n := s.resolve(k.now(s, f, x))
		if n != s.resolve(e) && !s.knownEq(n, e) && !s.dead {
			o := s.clone()
			if o.assume(o.mkEq(n, o.resolve(e)), false) {
				k.bad(o, ev, rule, fmt.Sprintf("%s of a node is not what the operation has to leave there", f.Name()))
				return
			}
		}
		k.sameNode(s, ev, rule, x, fs[1:])
	})
}

// wipe forgets the cells of nodes.
func (k *links) wipe(st *State, keep func(f *types.Var, x *Term) bool) {
	for a := range st.heap {
		if a.k != TFA {
			continue
		}
		mine := a.fld == k.own || a.fld == k.zero
		for _, f := range k.all {
			mine = mine || a.fld == f || a.fld == k.was[f] || a.fld == k.exp[f]
		}
		if k.count != nil && (a.fld == k.count || a.fld == k.was[k.count]) {
			mine = true
		}
		if mine && (keep == nil || !keep(a.fld, a.args[0])) {
			delete(st.heap, a)
		}
	}
}

// fork: what the engine has to decide before it touches memory
func (k *links) fork(st *State, addr *Term) *Term {
	var x *Term
	var f *types.Var
	if addr == nil {
		return nil
	}
	if addr.k == TFA && k.nodeField(addr.fld) {
		x, f = st.resolve(addr.args[0]), addr.fld
	} else if k.isNode(addr.typ) {
		x = addr
	} else {
		return nil
	}
	if x.isNil() {
		return nil
	}
	for _, y := range k.bases(st, nil) {
		if c := k.apart(st, x, y); c != nil {
			return c
		}
		if st.dead {
			return nil
		}
	}
	if f != nil {
		if _, ok := st.heap[fAddr(st, x, f)]; !ok {
			return k.open(st, f, x)
		}
	} else {
		for _, f := range k.all {
			if c := k.open(st, f, x); c != nil {
				return c
			}
		}
	}
	return nil
}

func (k *links) fresh(st *State, a, s *Term) {
	if a.k != TFA {
		return
	}
	if k.nodeField(a.fld) {
		x := st.resolve(a.args[0])
		if x.isNil() {
			return
		}
		st.heap[a] = k.before(st, a.fld, x)
	} else if k.count != nil && a.fld == k.count {
		st.heap[a] = k.len0(st, a.args[0])
	}
}

// deref: memory is only used through pointers that are not nil
func (k *links) deref(st *State, ev *Ev) {
	if ev.Addr == nil || ev.Addr.k != TFA {
		return
	}
	b := st.resolve(ev.Addr.args[0])
	if k.isNode(b.typ) || b.isNil() {
		k.ob(ev, "panic")
		if b.isNil() || k.mayNil(st, b) {
			k.bad(st, ev, "panic", "uses a nil pointer")
			st.dead = true
		}
	}
}

func (k *links) mayNil(st *State, b *Term) bool {
	return !st.notNil(b) && b.named
}

func (k *links) cfg(event func(st *State, ev *Ev)) *Config {
	return &Config{Event: event, Fork: k.fork, OnFresh: k.fresh, KeepInLoops: true,
		Keep:     func(st *State, a *Term) bool { return k.cell(a) },
		NoInline: func(g *ssa.Function) bool { return false }}
}

func (k *links) cell(a *Term) bool {
	if a.k != TFA {
		return false
	}
	if a.fld == k.own || a.fld == k.zero || a.fld == k.root && k.root != nil || a.fld == k.count && k.count != nil {
		return true
	}
	for f, g := range k.was {
		if a.fld == f || a.fld == g || a.fld == k.exp[f] {
			return true
		}
	}
	return false
}

var _ = token.NoPos
