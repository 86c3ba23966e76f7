package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The red-black tree, as far as it is a search tree: looking for a key goes
// down where the key must be, and what goes over the tree visits every node
// once and in order.
//
// "at" is a node (or the end of the tree) below which the key must be, if it
// is in the tree at all; "spot" and "side" say whose child it is.

const rbtPkg = "gogenerics/gds/grbt"

type rbtCheck struct {
	c                        *Ctx
	name                     string
	ps                       []*Term
	left, right, key, val    *types.Var
	root, sentinel, len, cmp *types.Var
	nodeT                    *types.Named
	keyP, valP               int // parameters
}

func (k *rbtCheck) bad(st *State, ev *Ev, rule, msg string) {
	k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
	st.dead = true
}

func (k *rbtCheck) undecided(st *State, why string) {
	k.c.Undecided(k.name, why)
	st.dead = true
}

func (k *rbtCheck) fields() bool {
	n := k.c.P.named(rbtPkg, "RbTree")
	if n == nil {
		k.c.Bad(nil, "anchor", rbtPkg+".RbTree", 0, "type not found")
		return false
	}
	s, _ := n.Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i).Origin()
		p := pointee(f.Type())
		switch {
		case isInt(f.Type()):
			k.len = f
		case p != nil && f.Name() == "root":
			k.root = f
			k.nodeT, _ = p.(*types.Named)
		case p != nil:
			k.sentinel = f
		default:
			if _, ok := f.Type().Underlying().(*types.Signature); ok {
				k.cmp = f
			}
		}
	}
	if k.nodeT == nil || k.root == nil || k.sentinel == nil || k.len == nil || k.cmp == nil {
		return false
	}
	s, _ = k.nodeT.Origin().Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i).Origin()
		switch f.Name() {
		case "left":
			k.left = f
		case "right":
			k.right = f
		case "key":
			k.key = f
		case "value":
			k.val = f
		}
	}
	if k.left == nil || k.right == nil || k.key == nil || k.val == nil {
		return false
	}
	return true
}

func (k *rbtCheck) isNode(t types.Type) bool {
	p := pointee(t)
	return p != nil && types.Identical(originType(p), originType(k.nodeT))
}

func (k *rbtCheck) cell(st *State, b *Term, f *types.Var) *Term {
	if v, ok := st.heap[fAddr(st, st.resolve(b), f)]; ok {
		return st.resolve(v)
	}
	return nil
}

func (k *rbtCheck) keyOf(st *State, n *Term) *Term { return k.cell(st, n, k.key) }

func (k *rbtCheck) end(st *State, n *Term) (bool, bool) {
	s := k.cell(st, k.ps[0], k.sentinel)
	if s == nil || n == nil {
		return false, false
	}
	return st.truth(st.mkEq(st.resolve(n), s))
}

// order of two keys: -1, 0, 1; 2 if it is not known
func (k *rbtCheck) order(st *State, a, b *Term) int {
	if a == nil || b == nil {
		return 2
	}
	a, b = st.resolve(a), st.resolve(b)
	if a == b {
		return 0
	}
	T := st.x.T
	eq, eqK := st.truth(st.mkEq(a, b))
	if eqK && eq {
		return 0
	}
	lt, ltK := st.truth1(T.op("less", types.Typ[types.Bool], a, b))
	gt, gtK := st.truth1(T.op("less", types.Typ[types.Bool], b, a))
	switch {
	case ltK && lt:
		return -1
	case gtK && gt:
		return 1
	case ltK && gtK:
		return 0
	case ltK && eqK:
		return 1
	case gtK && eqK:
		return -1
	}
	// the place where the key belongs
	if sp := st.getT("spot"); sp != nil {
		key := st.resolve(k.target(st))
		sk := k.keyOf(st, sp)
		left := st.getT("side").isBool(true)
		if sk != nil && a == key && b == sk || sk != nil && a == sk && b == key {
			if (a == key) == left {
				return -1
			}
			return 1
		}
	}
	return 2
}

func (k *rbtCheck) target(st *State) *Term { return k.ps[k.keyP] }

func (k *rbtCheck) less(st *State, c *Call) ([]Out, bool) {
	T := st.x.T
	a, b := st.resolve(c.Args[0]), st.resolve(c.Args[1])
	switch k.order(st, a, b) {
	case -1:
		return []Out{{Res: []*Term{T.Bool(true)}}}, true
	case 0, 1:
		return []Out{{Res: []*Term{T.Bool(false)}}}, true
	}
	return []Out{{Res: []*Term{T.op("less", types.Typ[types.Bool], a, b)}}}, true
}

// isLess: the call compares two keys of the tree
func (k *rbtCheck) isLess(st *State, c *Call) bool {
	if c.Callee != "dyn" || len(c.Args) != 2 {
		return false
	}
	l := k.cell(st, k.ps[0], k.cmp)
	return l != nil && st.resolve(c.FnT) == l
}

func (k *rbtCheck) fresh(st *State, a, s *Term) {
	if a.k != TFA {
		return
	}
	b := st.resolve(a.args[0])
	switch a.fld {
	case k.root, k.sentinel:
		s.nonnil = true
		if a.fld == k.root && b == st.resolve(k.ps[0]) && st.getT("at") == nil {
			st.setT("at", s)
		}
	case k.left, k.right:
		s.nonnil = true
	}
}

// below: the child of n in which the key must be, if it is known and was read
func (k *rbtCheck) below(st *State, n *Term) (*Term, bool) {
	switch k.order(st, k.target(st), k.keyOf(st, n)) {
	case -1:
		return k.cell(st, n, k.left), true
	case 1:
		return k.cell(st, n, k.right), false
	}
	return nil, false
}

// advance: the search has gone on to v
func (k *rbtCheck) advance(st *State, v *Term) {
	at := st.getT("at")
	if at == nil || v == nil {
		return
	}
	at, v = st.resolve(at), st.resolve(v)
	if e, known := k.end(st, at); known && e {
		if r := k.cell(st, k.ps[0], k.root); r == v && at != v {
			// looks again
			st.setT("missed", st.x.T.Bool(true))
			st.setT("at", v)
			st.setT("spot", nil)
			st.setT("side", nil)
		}
		return
	}
	if b, left := k.below(st, at); b != nil && b == v {
		st.setT("spot", at)
		st.setT("side", st.x.T.Bool(left))
		st.setT("at", v)
	}
}

// missing: the key is not in the tree
func (k *rbtCheck) missing(st *State) bool {
	if st.prove(st.linOf(k.len0(st)).scale(-1)) {
		return true
	}
	at := st.getT("at")
	if at == nil {
		return false
	}
	if e, known := k.end(st, at); known && e {
		return true
	}
	if b, _ := k.below(st, st.resolve(at)); b != nil {
		e, known := k.end(st, b)
		if known && e {
			k.advance(st, b)
			return true
		}
	}
	return false
}

// found: the node with the key
func (k *rbtCheck) found(st *State) *Term {
	if f := st.getT("found"); f != nil {
		return st.resolve(f)
	}
	at := st.getT("at")
	if at == nil {
		return nil
	}
	try := func(n *Term) bool {
		if n == nil {
			return false
		}
		if e, known := k.end(st, n); !known || e {
			return false
		}
		return k.order(st, k.target(st), k.keyOf(st, n)) == 0 && k.keyOf(st, n) != nil
	}
	at = st.resolve(at)
	ns := []*Term{at}
	for _, f := range []*types.Var{k.left, k.right} {
		ns = append(ns, k.cell(st, at, f))
	}
	for _, n := range ns {
		if try(n) {
			if st.getT("missed") != nil || st.prove(st.linOf(k.len0(st)).scale(-1)) {
				st.dead = true
				return nil
			}
			st.setT("found", n)
			st.addLin(st.linOf(k.len0(st)).addk(-1))
			st.setT("old", k.cell(st, n, k.val))
			return n
		}
	}
	return nil
}

func (k *rbtCheck) model(st *State, c *Call) ([]Out, bool) {
	T := st.x.T
	if k.isLess(st, c) {
		k.c.Ob("compare", c.Callee)
		return k.less(st, c)
	}
	if c.Callee == "math.Max" {
		for i := 0; i < 2; i++ {
			z, o := st.resolve(c.Args[i]), st.resolve(c.Args[1-i])
			if z.k != TConst || len(o.prov) != 1 {
				continue
			}
			if k.found(st); st.dead {
				return nil, true
			}
			n := constant.ToInt(z.cv)
			if n.Kind() != constant.Int {
				continue
			}
			m, _ := constant.Int64Val(n)
			over := T.op("le", types.Typ[types.Bool], T.Int(m), st.resolve(o.prov[0]))
			return []Out{{Res: []*Term{o}, Assume: []cval{{over, true}}}, {Res: []*Term{z}, Assume: []cval{{over, false}}}}, true
		}
		return nil, false
	}
	if c.Static == nil {
		return nil, false
	}
	if (st.getT("attached") != nil || st.getT("changed") != nil) && len(c.ResTypes()) == 0 && k.rebalances(origin(c.Static), nil) {
		k.c.Ob("rebalance", c.Static.Name())
		return []Out{{}}, true
	}
	// a function that only reads and calls itself
	for _, f := range st.frames {
		g := origin(c.Static)
		if f.fn != g {
			continue
		}
		if !readsOnly(g) {
			if st.getT("changed") == nil {
				k.undecided(st, "looks for the key by recursion")
				return nil, true
			}
			return nil, false
		}
		if st.getT("changed") == nil && k.found(st) == nil && st.getT("attached") == nil {
			k.undecided(st, "looks for the key by recursion")
			return nil, true
		}
		var rs []*Term
		for _, t := range c.ResTypes() {
			r := T.sym("res", t)
			if k.isNode(t) {
				r.nonnil = true
			}
			rs = append(rs, r)
		}
		return []Out{{Res: rs}}, true
	}
	return nil, false
}

func origin(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

// rebalances: f changes only the links and colours of nodes
func (k *rbtCheck) rebalances(f *ssa.Function, in []*ssa.Function) bool {
	for _, g := range in {
		if g == f {
			return true
		}
	}
	if len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				a, ok := i.Addr.(*ssa.FieldAddr)
				if !ok {
					if _, local := i.Addr.(*ssa.Alloc); local {
						continue
					}
					return false
				}
				p := pointee(a.X.Type())
				if p == nil {
					return false
				}
				s, ok := p.Underlying().(*types.Struct)
				if !ok {
					return false
				}
				fld := s.Field(a.Field).Origin()
				link := k.isNode(a.X.Type()) && (k.isNode(fld.Type()) || isBoolT(fld.Type()))
				if !link && fld != k.root {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.MakeClosure:
				return false
			case *ssa.Call:
				g := i.Call.StaticCallee()
				if g == nil || !k.rebalances(origin(g), append(in, f)) {
					return false
				}
			}
		}
	}
	return true
}

// readsOnly: f changes nothing and calls only itself
func readsOnly(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic:
				return false
			case *ssa.Call:
				g := in.Call.StaticCallee()
				if g == nil {
					return false
				}
				if origin(g) != f {
					return false
				}
			}
		}
	}
	return true
}

func (k *rbtCheck) len0(st *State) *Term { return st.resolve(st.getT("len0")) }

// event: Search, Get, Update, Insert and Delete
func (k *rbtCheck) event(st *State, ev *Ev) {
	T := st.x.T
	switch ev.Kind {
	case "edge":
		if st.getT("attached") != nil || st.getT("changed") != nil {
			return
		}
		for _, a := range ev.Args {
			if a != nil && k.isNode(a.typ) {
				k.advance(st, a)
			}
		}
	case "store":
		a := ev.Addr
		if a.k != TFA {
			return
		}
		b := st.resolve(a.args[0])
		v := st.resolve(ev.Val)
		switch a.fld {
		case k.val:
			if b.alloc {
				return
			}
			k.c.Ob("value", where(ev)+" in "+k.name)
			if k.name == "Delete" {
				k.undecided(st, "moves values between nodes")
				return
			}
			n := k.found(st)
			switch {
			case st.dead:
			case n == nil || n != b:
				k.bad(st, ev, "value", "changes the value of a node whose key is not known to be the one asked for")
			case k.valP < 0 || v != st.resolve(k.ps[k.valP]):
				k.bad(st, ev, "value", "puts another value into the node than the one given")
			default:
				st.setT("put", T.Bool(true))
			}
		case k.key:
			if !b.alloc {
				k.undecided(st, "changes the key of a node")
			}
		case k.root:
			if b != st.resolve(k.ps[0]) {
				return
			}
			if st.getT("attached") == nil && v.alloc && k.isNode(v.typ) {
				k.attach(st, ev, nil, false, v)
			} else {
				st.setT("changed", T.Bool(true))
			}
		case k.left, k.right:
			if b.alloc && st.getT("attached") == nil {
				return
			}
			if st.getT("attached") == nil && v.alloc && k.isNode(v.typ) {
				k.attach(st, ev, b, a.fld == k.left, v)
				return
			}
			if st.getT("attached") == nil && st.getT("changed") == nil {
				k.c.Ob("found", where(ev)+" in "+k.name)
				if n := k.found(st); st.dead {
					return
				} else if n == nil || k.name != "Delete" {
					k.bad(st, ev, "found", "changes the tree although no node with the key was found")
					return
				}
			}
			st.setT("changed", T.Bool(true))
		}
	case "exit":
		if !ev.Panics {
			k.exit(st, ev)
		}
	}
}

// attach: the new node v becomes a child of b, or the root
func (k *rbtCheck) attach(st *State, ev *Ev, b *Term, left bool, v *Term) {
	k.c.Ob("attach", where(ev)+" in "+k.name)
	k.c.N("attach")
	if kk := k.cell(st, v, k.key); kk == nil || kk != st.resolve(k.target(st)) {
		k.bad(st, ev, "attach", "the new node does not have the key given")
		return
	}
	if w := k.cell(st, v, k.val); w == nil || k.valP >= 0 && w != st.resolve(k.ps[k.valP]) {
		k.bad(st, ev, "attach", "the new node does not have the value given")
		return
	}
	if !k.missing(st) {
		k.bad(st, ev, "attach", "a node is added although one with the key may be in the tree")
		return
	}
	sp := st.getT("spot")
	switch {
	case sp == nil && b != nil:
		k.bad(st, ev, "attach", "the first node does not become the root")
	case sp != nil && b == nil:
		k.bad(st, ev, "attach", "the new node takes the place of the root of a tree that is not empty")
	case sp != nil && (st.resolve(sp) != b || st.getT("side").isBool(true) != left):
		k.bad(st, ev, "attach", "the new node gets to a place where its key is not looked for")
	default:
		st.setT("attached", st.x.T.Bool(true))
	}
}

func (k *rbtCheck) exit(st *State, ev *Ev) {
	T := st.x.T
	k.c.Ob("result", where(ev)+" in "+k.name)
	k.c.N("result")
	n := k.found(st)
	if st.dead {
		return
	}
	missing := n == nil && (st.getT("attached") != nil || k.missing(st))
	if len(ev.Res) > 0 && !missing && n == nil {
		// the answer may be what tells the two apart
		r := st.resolve(ev.Res[len(ev.Res)-1])
		if isBoolT(r.typ) {
			if _, known := st.truth(r); !known {
				st.cases(r, func(o *State, v bool) {
					e := *ev
					e.Res = append(append([]*Term{}, ev.Res[:len(ev.Res)-1]...), T.Bool(v))
					k.exit(o, &e)
				})
				return
			}
		}
	}
	if n == nil && !missing {
		k.bad(st, ev, "result", "answers before it is known whether the key is in the tree")
		return
	}
	zero := func(t *Term) bool {
		t = st.resolve(t)
		return t == T.zero(t.typ) || t.k == TOp && strings.HasPrefix(t.op, "zero")
	}
	is := func(t *Term, v bool) bool {
		b, known := st.truth(st.resolve(t))
		return known && b == v
	}
	old := st.getT("old")
	if n != nil && old == nil {
		old = k.cell(st, n, k.val)
	}
	delta := int64(0)
	put := st.getT("put") != nil
	switch k.name {
	case "Search":
		if !is(ev.Res[0], n != nil) {
			k.bad(st, ev, "result", "tells whether the key is in the tree the wrong way")
			return
		}
	case "Get":
		if n != nil && (old == nil || st.resolve(ev.Res[0]) != st.resolve(old)) {
			k.bad(st, ev, "result", "does not return the value of the node with the key")
			return
		}
		if n == nil && !zero(ev.Res[0]) {
			k.bad(st, ev, "result", "returns a value for a key that is not in the tree")
			return
		}
	case "Update":
		if !is(ev.Res[1], n != nil) {
			k.bad(st, ev, "result", "tells whether the key is in the tree the wrong way")
			return
		}
		if n != nil && (!put || old == nil || st.resolve(ev.Res[0]) != st.resolve(old)) {
			k.bad(st, ev, "result", "does not replace the value, or does not return the one before")
			return
		}
	case "Insert":
		if n == nil {
			delta = 1
			if st.getT("attached") == nil {
				k.bad(st, ev, "result", "a new key does not get into the tree")
				return
			}
			break
		}
		if !put || old == nil || st.resolve(ev.Res[0]) != st.resolve(old) {
			k.bad(st, ev, "result", "does not replace the value, or does not return the one before")
			return
		}
	case "Delete":
		if n == nil {
			if !zero(ev.Res[0]) {
				k.bad(st, ev, "result", "returns a value for a key that is not in the tree")
				return
			}
			break
		}
		delta = -1
		if st.getT("changed") == nil {
			k.bad(st, ev, "result", "the node with the key stays in the tree")
			return
		}
		if old == nil || st.resolve(ev.Res[0]) != st.resolve(old) {
			k.bad(st, ev, "result", "does not return the value of the deleted node")
			return
		}
	}
	l := k.cell(st, k.ps[0], k.len)
	if l == nil {
		k.undecided(st, "the number of nodes is not known")
		return
	}
	for l.k == TSym && len(l.prov) == 1 && !st.prove(st.linOf(l).add(st.linOf(k.len0(st)), -1)) {
		l = st.resolve(l.prov[0])
	}
	if !eqLin(st, st.linOf(l), st.linOf(k.len0(st)).addk(delta)) {
		k.bad(st, ev, "result", "the number of nodes does not agree with the tree")
	}
}

// simple: New, Len, Empty and Clear
func (k *rbtCheck) simple(st *State, ev *Ev) {
	if ev.Kind != "exit" || ev.Panics {
		return
	}
	k.c.Ob("result", where(ev)+" in "+k.name)
	switch k.name {
	case "Len":
		if !eqLin(st, st.linOf(st.resolve(ev.Res[0])), st.linOf(k.len0(st))) {
			k.bad(st, ev, "result", "does not return the number of nodes")
		}
	case "Empty":
		st.cases(ev.Res[0], func(o *State, v bool) {
			l := o.linOf(k.len0(o))
			if v && !o.prove(l.scale(-1)) || !v && !o.prove(l.addk(-1)) {
				k.bad(o, ev, "result", "tells whether there is a node the wrong way")
			}
		})
	case "New", "Clear":
		t := k.ps[0]
		if k.name == "New" {
			t = st.resolve(ev.Res[0])
		}
		if !t.alloc && k.name == "New" {
			k.undecided(st, "the tree is made elsewhere")
			return
		}
		r, s, l := k.cell(st, t, k.root), k.cell(st, t, k.sentinel), k.cell(st, t, k.len)
		if r == nil || r != s {
			k.bad(st, ev, "result", "the root of the empty tree is not its end")
			return
		}
		if l == nil && k.name == "New" {
			l = st.x.T.Int(0)
		}
		if l == nil || !eqLin(st, st.linOf(l), linConst(0)) {
			k.bad(st, ev, "result", "the empty tree does not have length 0")
			return
		}
		if k.name == "New" {
			if f := k.cell(st, t, k.cmp); f != st.resolve(k.ps[0]) {
				k.bad(st, ev, "result", "keys are not compared by the function given")
			}
		}
	}
}

func init() {
	register(&Property{ID: "C40", Run: func(c *Ctx) {
		c.rules["compare"] = "keys are compared by the function of the tree"
		c.rules["value"] = "only the value of the node with the key changes"
		c.rules["found"] = "nodes are removed only for a key that was found"
		c.rules["attach"] = "a new node gets to the place where its key is looked for"
		c.rules["rebalance"] = "what runs after the node is attached or removed changes only links and colours"
		c.rules["result"] = "the answer is that of the node with the key; without one the key is nowhere in the tree"
		for _, e := range []struct {
			name      string
			nps, k, v int
		}{{"Search", 2, 1, -1}, {"Get", 2, 1, -1}, {"Update", 3, 1, 2}, {"Insert", 3, 1, 2}, {"Delete", 2, 1, -1}} {
			k := &rbtCheck{c: c, name: e.name, keyP: e.k, valP: e.v}
			f := c.Fn(rbtPkg, "RbTree."+e.name)
			if f == nil {
				continue
			}
			if !k.fields() || len(f.Params) != e.nps {
				c.Undecided(e.name, "the tree is built in another way")
				continue
			}
			c.Run(f, &Config{Event: k.event, Model: k.model, OnFresh: k.fresh, NoTemplates: true, SplitBools: true}, func(st *State, ps []*Term) {
				k.ps = ps
				l := st.load(fAddr(st, ps[0], k.len), types.Typ[types.Int], "len", nil)
				st.addLin(st.linOf(l))
				st.setT("len0", l)
				st.setT("end", st.load(fAddr(st, ps[0], k.sentinel), k.sentinel.Type(), "sentinel", nil))
				st.setT("less", st.load(fAddr(st, ps[0], k.cmp), k.cmp.Type(), "less", nil))
			})
		}
		for _, name := range []string{"New", "Len", "Empty", "Clear"} {
			k := &rbtCheck{c: c, name: name}
			n := "RbTree." + name
			if name == "New" {
				n = name
			}
			f := c.Fn(rbtPkg, n)
			if f == nil {
				continue
			}
			if !k.fields() || len(f.Params) != 1 {
				c.Undecided(name, "the tree is built in another way")
				continue
			}
			c.Run(f, &Config{Event: k.simple, NoTemplates: true}, func(st *State, ps []*Term) {
				k.ps = ps
				if name != "New" {
					l := st.load(fAddr(st, ps[0], k.len), types.Typ[types.Int], "len", nil)
					st.addLin(st.linOf(l))
					st.setT("len0", l)
				}
			})
		}
		c.Min("result", 5)
		c.Min("attach", 1)
	}})
}
