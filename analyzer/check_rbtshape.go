package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The red-black tree while it changes: a round of a loop (or a whole call)
// may relink nodes, but read from left to right the nodes are the same ones as
// before, save for the one that was inserted or deleted, and the links to the
// parents agree with those to the children.
//
// Nodes are looked at as far as the code looks at them: a child that is read
// is the end of the tree or a node of its own; a parent is the end, and the
// node the root, or it has the node on its left or on its right. What the
// links were before is kept in cells of their own.

type shapeCheck struct {
	rbtCheck
	parent           *types.Var
	was              map[*types.Var]*types.Var // link -> what it was before
	onLeft, to, toLT *types.Var
	color            *types.Var
	endColor         *Term // of the end of the tree, as New makes it
}

func (k *shapeCheck) setup() bool {
	if !k.fields() {
		return false
	}
	s, _ := k.nodeT.Origin().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i).Origin(); f != k.left && f != k.right && k.isNode(f.Type()) {
			if k.parent != nil {
				return false
			}
			k.parent = f
		} else if isBoolT(f.Type()) {
			k.color = f
		}
	}
	if k.parent == nil {
		return false
	}
	k.was = map[*types.Var]*types.Var{}
	for _, f := range []*types.Var{k.left, k.right, k.parent, k.root} {
		k.was[f] = types.NewField(0, nil, f.Name()+" before", f.Type(), false)
	}
	k.onLeft = types.NewField(0, nil, "on the left", types.Typ[types.Bool], false)
	k.to = types.NewField(0, nil, "leads to", k.left.Type(), false)
	k.toLT = types.NewField(0, nil, "to the left", types.Typ[types.Bool], false)
	return true
}

func (k *shapeCheck) sent(st *State) *Term { return k.cell(st, k.ps[0], k.sentinel) }

func (k *shapeCheck) set(st *State, n *Term, f *types.Var, v *Term) {
	st.heap[fAddr(st, n, f)] = v
	if w := k.was[f]; w != nil {
		st.heap[fAddr(st, n, w)] = v
	}
}

// isNodeKnown: n is a node, and not the end of the tree
func (k *shapeCheck) real(st *State, n *Term) bool {
	e, known := k.end(st, n)
	return n != nil && known && !e
}

// nodes that links are known of
func (k *shapeCheck) nodes(st *State) []*Term {
	seen := map[*Term]bool{}
	for a, v := range st.heap {
		if a.k != TFA {
			continue
		}
		switch a.fld {
		case k.was[k.left], k.was[k.right], k.was[k.parent]:
			seen[st.resolve(a.args[0])] = true
			seen[st.resolve(v)] = true
		}
	}
	delete(seen, k.sent(st))
	if g := st.getT("gone"); g != nil {
		delete(seen, st.resolve(g))
	}
	var out []*Term
	for t := range seen {
		if k.isNode(t.typ) {
			out = append(out, t)
		}
	}
	sortTerms(out)
	return out
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

// isNew: the node is not part of the tree yet
func (k *shapeCheck) isNew(st *State, n *Term) bool {
	a := st.getT("added")
	return n.alloc && (a == nil || st.resolve(a) != n)
}

// node: a node that is none of those known so far
func (k *shapeCheck) node(st *State) *Term {
	n := st.x.T.sym("node", k.left.Type())
	n.nonnil = true
	return n
}

func (k *shapeCheck) apart(st *State, n *Term, but ...*Term) {
	for _, o := range k.nodes(st) {
		skip := o == n
		for _, b := range but {
			skip = skip || b == o
		}
		if !skip && !st.distinct(o, n) {
			st.differ(o, n)
		}
	}
	k.apartFromGone(st, n)
}

func (k *shapeCheck) apartFromGone(st *State, n *Term) {
	if g := st.getT("gone"); g != nil && st.resolve(g) != n && !st.distinct(st.resolve(g), n) {
		st.differ(st.resolve(g), n)
	}
}

// fork: what has to be known of a node before its link at addr is used
func (k *shapeCheck) fork(st *State, addr *Term) *Term {
	T := st.x.T
	if addr == nil || addr.k != TFA || k.sent(st) == nil {
		return nil
	}
	ask := func(n *Term) *Term {
		c := st.mkEq(st.resolve(n), k.sent(st))
		if _, known := st.truth(c); known {
			return nil
		}
		return c
	}
	b := st.resolve(addr.args[0])
	f := addr.fld
	switch {
	case f == k.root && b == st.resolve(k.ps[0]):
		r := k.cell(st, b, k.root)
		if r == nil {
			r = k.node(st)
			k.apartFromGone(st, r)
			k.set(st, b, k.root, r)
		}
		if c := ask(r); c != nil {
			return c
		}
		if k.real(st, r) && k.cell(st, r, k.was[k.parent]) == nil && !k.isNew(st, r) && k.cell(st, b, k.was[k.root]) == r {
			k.set(st, r, k.parent, k.sent(st))
		}
		return nil
	case f != k.left && f != k.right && f != k.parent || k.isNew(st, b):
		return nil
	}
	if g := st.getT("gone"); g != nil && st.resolve(g) == b {
		return nil
	}
	if c := ask(b); c != nil {
		return c
	}
	if !k.real(st, b) {
		if f != k.parent {
			st.dead = true // the end of the tree has no children
			return nil
		}
		v := k.cell(st, b, f)
		if v == nil {
			v = k.node(st)
			k.apartFromGone(st, v)
			st.heap[fAddr(st, b, f)] = v
		}
		return ask(v)
	}
	w := k.was[f]
	v := k.cell(st, b, w)
	if v == nil {
		if c := k.cell(st, b, f); c != nil {
			// of the new node
			return nil
		}
		v = k.node(st)
		if f != k.parent {
			k.apart(st, v)
		}
		k.set(st, b, f, v)
	}
	if c := ask(v); c != nil {
		return c
	}
	if f != k.parent {
		if k.real(st, v) && k.cell(st, v, k.was[k.parent]) == nil {
			k.set(st, v, k.parent, b)
			k.apart(st, v)
		}
		if c := k.cell(st, b, f); c != nil {
			return ask(c)
		}
		return nil
	}
	if !k.real(st, v) {
		// b is the root
		t := st.resolve(k.ps[0])
		if r := k.cell(st, t, k.was[k.root]); r == nil {
			k.set(st, t, k.root, b)
		} else if r != b {
			st.unify(r, b)
		}
		return nil
	}
	if l, r := k.cell(st, v, k.was[k.left]), k.cell(st, v, k.was[k.right]); l == b || r == b {
		if c := k.cell(st, b, f); c != nil {
			return ask(c)
		}
		return nil
	}
	side := k.cell(st, b, k.onLeft)
	if side == nil {
		side = T.sym("side", types.Typ[types.Bool])
		st.heap[fAddr(st, b, k.onLeft)] = side
		k.apart(st, v)
		if r := k.cell(st, k.ps[0], k.was[k.root]); r != nil && !st.distinct(r, b) {
			st.differ(r, b)
		}
	}
	l, known := st.truth(side)
	if !known {
		return side
	}
	if l {
		k.set(st, v, k.left, b)
	} else {
		k.set(st, v, k.right, b)
	}
	return nil
}

// line: the nodes below n from left to right
func (k *shapeCheck) line(st *State, n *Term, before bool, up *Term, out *[]*Term, links *string, seen map[*Term]bool) {
	T := st.x.T
	n = st.resolve(n)
	e, known := k.end(st, n)
	if known && e {
		return
	}
	if !k.isNode(n.typ) {
		*links = "a link of a node leads nowhere"
		return
	}
	if seen[n] {
		*links = "a node can be reached twice"
		return
	}
	seen[n] = true
	get := func(f *types.Var) *Term {
		if before {
			return k.cell(st, n, k.was[f])
		}
		return k.cell(st, n, f)
	}
	if !before && up != nil && known {
		if p := k.cell(st, n, k.parent); p != nil && p != up {
			*links = "the parent of a node is not the node it is a child of"
		}
	}
	if q := k.cell(st, n, k.to); q != nil {
		rest := T.op("rest", k.left.Type(), n)
		if k.cell(st, n, k.toLT).isBool(true) {
			k.line(st, q, before, nil, out, links, seen)
			*out = append(*out, rest)
		} else {
			*out = append(*out, rest)
			k.line(st, q, before, nil, out, links, seen)
		}
		return
	}
	l, r := get(k.left), get(k.right)
	if !known && l == nil && r == nil {
		*out = append(*out, n)
		return
	}
	if l != nil {
		k.line(st, l, before, n, out, links, seen)
	} else {
		*out = append(*out, T.op("left of", k.left.Type(), n))
	}
	*out = append(*out, n)
	if r != nil {
		k.line(st, r, before, n, out, links, seen)
	} else {
		*out = append(*out, T.op("right of", k.left.Type(), n))
	}
}

// verify: the nodes are the same from left to right
func (k *shapeCheck) verify(st *State, ev *Ev) {
	t := st.resolve(k.ps[0])
	s := k.sent(st)
	k.c.Ob("order", where(ev)+" in "+k.name)
	k.c.N("order")
	bad := func(msg string) {
		if st.getT("twice") != nil {
			k.undecided(st, "goes down the tree a second time before a node is added")
			return
		}
		k.bad(st, ev, "order", msg)
	}
	type piece struct{ from, to *Term }
	var ps []piece
	r0, r1 := k.cell(st, t, k.was[k.root]), k.cell(st, t, k.root)
	if r0 != nil && r1 != nil {
		ps = append(ps, piece{r0, r1})
	}
	inner := map[*Term]bool{}
	for _, n := range k.nodes(st) {
		if q := k.cell(st, n, k.to); q != nil {
			inner[q] = true
		}
	}
	for _, n := range k.nodes(st) {
		if !k.isNew(st, n) && k.real(st, n) && k.cell(st, n, k.was[k.parent]) == nil && n != r0 && !inner[n] {
			ps = append(ps, piece{n, n})
		}
	}
	for _, p := range ps {
		var a, b []*Term
		links := ""
		k.line(st, p.from, true, nil, &a, &links, map[*Term]bool{})
		links = ""
		var up *Term
		if p.from == r0 {
			up = s
		}
		k.line(st, p.to, false, up, &b, &links, map[*Term]bool{})
		if links != "" {
			bad(links)
			return
		}
		i, j := 0, 0
		for i < len(a) || j < len(b) {
			switch {
			case i < len(a) && j < len(b) && a[i] == b[j]:
				i++
				j++
			case j < len(b) && b[j].alloc && k.name == "Insert" && st.getT("added") == nil:
				st.setT("added", b[j])
				j++
			case i < len(a) && a[i].k == TSym && k.name == "Delete" && st.getT("gone") == nil && k.real(st, a[i]):
				if k.order(st, k.target(st), k.keyOf(st, a[i])) != 0 || k.keyOf(st, a[i]) == nil {
					bad("a node is lost, or changes its place, that is not known to have the key")
					return
				}
				st.setT("gone", a[i])
				i++
			default:
				bad("the nodes are not in the same order as before")
				return
			}
		}
	}
}

// rebase: the tree as it is now is the one to compare with
func (k *shapeCheck) rebase(st *State) {
	for a := range st.heap {
		if a.k != TFA {
			continue
		}
		switch a.fld {
		case k.left, k.right, k.parent, k.root, k.was[k.left], k.was[k.right], k.was[k.parent], k.was[k.root], k.onLeft, k.to, k.toLT:
			delete(st.heap, a)
		default:
			if b := st.resolve(a.args[0]); b != k.sent(st) && k.isNode(b.typ) && isBoolT(a.fld.Type()) {
				delete(st.heap, a)
			}
		}
	}
	st.setT("changed", nil)
	k.forget(st)
	st.setT("m:loop", nil)
}

// looksOnly: the loop at head changes nothing
func looksOnly(head *ssa.BasicBlock) bool {
	reach := func(next func(b *ssa.BasicBlock) []*ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{head}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			for _, n := range next(b) {
				if !seen[n] {
					seen[n] = true
					work = append(work, n)
				}
			}
		}
		return seen
	}
	from := reach(func(b *ssa.BasicBlock) []*ssa.BasicBlock { return b.Succs })
	to := reach(func(b *ssa.BasicBlock) []*ssa.BasicBlock { return b.Preds })
	for b := range from {
		if !to[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				return false
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil && !readsOnly(origin(g)) {
					return false
				}
			}
		}
	}
	return true
}

func (k *shapeCheck) forget(st *State) {
	for _, m := range []string{"m:base", "m:at", "m:s", "m:q", "m:left"} {
		st.setT(m, nil)
	}
}

func (k *shapeCheck) event(st *State, ev *Ev) {
	switch ev.Kind {
	case "edge":
		if st.getT("changed") != nil || st.getT("restructured") != nil {
			if st.getT("changed") != nil {
				if looksOnly(ev.Instr.Block()) {
					k.undecided(st, "looks at the tree in a loop while nodes are being relinked")
					return
				}
				k.verify(st, ev)
			}
			if !st.dead {
				k.rebase(st)
				st.setT("restructured", st.x.T.Bool(true))

			}
			return
		}
		loop := st.x.T.Str(fmt.Sprintf("%p", ev.Instr))
		if l := st.getT("m:loop"); l != loop {
			if l != nil && k.name == "Insert" {
				st.setT("twice", st.x.T.Bool(true))
			}
			k.forget(st)
			st.setT("m:loop", loop)
		}
		var vs []*Term
		for _, a := range ev.Args {
			if a != nil && k.isNode(a.typ) && k.real(st, st.resolve(a)) {
				vs = append(vs, st.resolve(a))
			}
		}
		child := func(n, v *Term) bool {
			return v == k.cell(st, n, k.was[k.left]) || v == k.cell(st, n, k.was[k.right])
		}
		at := st.getT("m:at")
		for pass := 0; pass < 4; pass++ {
			for i, v := range vs {
				ok := pass == 3
				switch pass {
				case 0:
					ok = at != nil && child(st.resolve(at), v)
				case 1:
					ok = at != nil && st.resolve(at) == v
				case 2:
					for j, w := range vs {
						ok = ok || i != j && child(v, w)
					}
				}
				if ok {
					k.walk(st, v)
					return
				}
			}
		}
	case "backedge", "loopentry":
		// links to nodes that are not known any more
		for a, v := range st.heap {
			if a.k == TFA && a.fld == k.was[k.parent] {
				n, p := st.resolve(a.args[0]), st.resolve(v)
				if k.real(st, p) && k.cell(st, p, k.was[k.left]) != n && k.cell(st, p, k.was[k.right]) != n {
					delete(st.heap, a)
					delete(st.heap, fAddr(st, n, k.parent))
					delete(st.heap, fAddr(st, n, k.onLeft))
				}
			}
		}
	case "store":
		a := ev.Addr
		if a.k != TFA {
			return
		}
		b := st.resolve(a.args[0])
		switch a.fld {
		case k.key:
			if !k.isNew(st, b) {
				k.undecided(st, "changes the key of a node")
			}
			return
		case k.root:
			if b != st.resolve(k.ps[0]) {
				return
			}
		case k.left, k.right:
			if k.isNew(st, b) && st.getT("changed") == nil {
				return
			}
		default:
			return
		}
		if g := st.getT("gone"); g != nil && st.resolve(g) == b {
			return
		}
		st.setT("changed", st.x.T.Bool(true))
	case "exit":
		if ev.Panics {
			return
		}
		k.c.N("exit")
		if st.getT("changed") != nil {
			k.verify(st, ev)
			st.setT("restructured", st.x.T.Bool(true))
		}
		if !st.dead && k.name == "Delete" && st.getT("restructured") != nil && st.getT("gone") == nil {
			k.bad(st, ev, "order", "no node is removed")
		}
	}
}

// walk: a loop goes down from one node to a child, always on the same side
func (k *shapeCheck) walk(st *State, v *Term) {
	T := st.x.T
	at, base := st.getT("m:at"), st.getT("m:base")
	restart := func() {
		k.forget(st)
		if k.real(st, v) {
			st.setT("m:base", v)
			st.setT("m:at", v)
		}
	}
	if at == nil || base == nil {
		restart()
		return
	}
	at, base = st.resolve(at), st.resolve(base)
	if v == at {
		return
	}
	left := false
	switch v {
	case k.cell(st, at, k.was[k.left]):
		left = true
	case k.cell(st, at, k.was[k.right]):
	default:
		restart()
		return
	}
	s, q := st.getT("m:s"), st.getT("m:q")
	if !k.real(st, v) {
		return
	}
	if s == nil {
		st.setT("m:s", v)
		st.setT("m:at", v)
		st.setT("m:left", T.Bool(left))
		return
	}
	s = st.resolve(s)
	if st.getT("m:left").isBool(true) != left {
		restart()
		return
	}
	if at != s {
		if q != nil && st.resolve(q) != s {
			for _, f := range []*types.Var{k.left, k.right, k.parent} {
				delete(st.heap, fAddr(st, st.resolve(q), f))
				delete(st.heap, fAddr(st, st.resolve(q), k.was[f]))
			}
		}
		// s is known only by leading to at
		for _, f := range []*types.Var{k.left, k.right} {
			delete(st.heap, fAddr(st, s, f))
			delete(st.heap, fAddr(st, s, k.was[f]))
		}
		delete(st.heap, fAddr(st, at, k.parent))
		delete(st.heap, fAddr(st, at, k.was[k.parent]))
		st.heap[fAddr(st, s, k.to)] = at
		st.heap[fAddr(st, s, k.toLT)] = T.Bool(left)
		st.setT("m:q", at)
	}
	st.setT("m:at", v)
}

func (k *shapeCheck) model(st *State, c *Call) ([]Out, bool) {
	T := st.x.T
	if k.isLess(st, c) {
		return k.less(st, c)
	}
	if c.Static == nil {
		return nil, false
	}
	for _, f := range st.frames {
		g := origin(c.Static)
		if f.fn != g {
			continue
		}
		rt := c.ResTypes()
		var param, arg *Term
		for i, a := range c.Args {
			if k.isNode(a.typ) && i < len(g.Params) {
				param, arg = st.resolve(f.env[g.Params[i]]), st.resolve(a)
			}
		}
		if !readsOnly(g) || len(rt) != 1 || !k.isNode(rt[0]) || arg == nil || !k.real(st, arg) {
			k.undecided(st, "recursion")
			return nil, true
		}
		var side *types.Var
		switch arg {
		case k.cell(st, param, k.was[k.left]):
			side = k.left
		case k.cell(st, param, k.was[k.right]):
			side = k.right
		default:
			k.undecided(st, "recursion")
			return nil, true
		}
		m, q := k.node(st), k.node(st)
		end := k.sent(st)
		far := func(st *State, n, up *Term) {
			k.set(st, n, side, end)
			if up != nil {
				k.set(st, n, k.parent, up)
				k.set(st, up, side, n)
			}
			st.differ(n, end)
			k.apart(st, n)
		}
		return []Out{
			{Res: []*Term{arg}, Assume: []cval{{T.op("farthest", types.Typ[types.Bool], arg), true}}, Do: func(st *State) { far(st, arg, nil) }},
			{Res: []*Term{m}, Do: func(st *State) { far(st, m, arg) }},
			{Res: []*Term{m}, Do: func(st *State) {
				st.differ(q, end)
				k.apart(st, q)
				st.heap[fAddr(st, arg, k.to)] = q
				st.heap[fAddr(st, arg, k.toLT)] = T.Bool(side == k.left)
				far(st, m, q)
			}},
		}, true
	}
	return nil, false
}

func init() {
	register(&Property{ID: "C41", Run: func(c *Ctx) {
		c.rules["order"] = "the nodes from left to right stay the same, save for the one inserted or deleted; parents agree with children"
		for _, e := range []struct {
			name string
			nps  int
		}{{"Insert", 3}, {"Delete", 2}} {
			k := &shapeCheck{rbtCheck: rbtCheck{c: c, name: e.name, keyP: 1, valP: -1}}
			f := c.Fn(rbtPkg, "RbTree."+e.name)
			if f == nil {
				continue
			}
			if !k.setup() || len(f.Params) != e.nps {
				c.Undecided(e.name, "the tree is built in another way")
				continue
			}
			if n := c.Fn(rbtPkg, "New"); n != nil && k.color != nil {
				c.Run(n, &Config{Event: func(st *State, ev *Ev) {
					if ev.Kind == "exit" && !ev.Panics {
						if s := k.cell(st, ev.Res[0], k.sentinel); s != nil {
							k.endColor = k.cell(st, s, k.color)
						}
					}
				}, NoTemplates: true}, nil)
			}
			c.Run(f, &Config{Event: k.event, Model: k.model, Fork: k.fork, NoTemplates: true, SplitBools: true, MaxSteps: 1500000}, func(st *State, ps []*Term) {
				k.ps = ps
				s := st.load(fAddr(st, ps[0], k.sentinel), k.sentinel.Type(), "sentinel", nil)
				s.nonnil = true
				st.setT("end", s)
				if k.endColor != nil && k.endColor.k == TConst {
					st.heap[fAddr(st, s, k.color)] = st.x.T.Bool(k.endColor.isBool(true))
				}
				st.setT("less", st.load(fAddr(st, ps[0], k.cmp), k.cmp.Type(), "less", nil))
			})
		}
		c.Min("order", 4)
		c.Min("exit", 4)
	}})
}
