package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// What goes over a whole red-black tree: the function that calls itself is
// followed for one node, the root of some tree; its calls for the children
// stand for what they are to do there. Left subtree, node, right subtree, in
// this order, each once, and nothing left out that belongs to the result.

type walkCheck struct {
	rbtCheck
	want       []*types.Var // of the node: what is listed
	pred       int          // parameter that selects, or -1
	lo, hi     int          // parameters that bound the keys, or -1
	loIn, hiIn int
	insert     *ssa.Function
	tree       bool
	entries    map[*ssa.Function]bool
}

func (k *walkCheck) rootT(st *State) *Term { return k.cell(st, k.ps[0], k.root) }

// accs: the variables a recursive function adds to
func (k *walkCheck) accs(st *State, g *ssa.Function, fr *Frame) []*Term {
	var out []*Term
	add := func(t *Term) {
		if t == nil {
			return
		}
		t = st.resolve(t)
		for _, o := range out {
			if o == t {
				return
			}
		}
		out = append(out, t)
	}
	free := map[*ssa.FreeVar]bool{}
	var scan func(f *ssa.Function, top bool)
	seen := map[*ssa.Function]bool{}
	scan = func(f *ssa.Function, top bool) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FreeVar:
						free[a] = true
						if v, ok := fr.env[a]; ok && top {
							add(v)
						}
					case *ssa.Parameter:
						if top {
							add(fr.env[a])
						}
					}
				}
			}
		}
	}
	scan(g, true)
	e := st.frames[0]
	for _, f := range e.fn.AnonFuncs {
		scan(f, false)
	}
	for _, b := range e.fn.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			f, _ := mc.Fn.(*ssa.Function)
			for i, v := range mc.Bindings {
				if f != nil && i < len(f.FreeVars) && free[f.FreeVars[i]] {
					if t, ok := e.env[v]; ok {
						add(t)
					}
				}
			}
		}
	}
	return out
}

func (k *walkCheck) fresh(st *State, a, s *Term) {
	if a.k == TFA && k.isNode(s.typ) {
		s.nonnil = true
	}
	// kept: what is known of the key has to last as long as the visit
	if n := k.rootT(st); n != nil && a == fAddr(st, n, k.key) && st.getT("key") == nil {
		st.setT("key", s)
	}
}

func (k *walkCheck) keyOf(st *State, n *Term) *Term {
	if v := st.getT("key"); v != nil && n != nil && n == k.rootT(st) {
		return st.resolve(v)
	}
	return k.cell(st, n, k.key)
}

func (k *walkCheck) done(st *State, side *types.Var) bool {
	return st.getT("done:"+side.Name()) != nil
}

// nothing: nothing below that child belongs to the result
func (k *walkCheck) nothing(st *State, side *types.Var) bool {
	n := k.rootT(st)
	v := k.cell(st, n, side)
	if v != nil {
		if e, known := k.end(st, v); known && e {
			return true
		}
	}
	if k.lo < 0 && k.hi < 0 {
		return false
	}
	return k.ranges(st, side, func(in bool) bool { return !in })
}

// ranges: ok holds for whether the key of the node (or, given a side, any key
// below that child) is in the range, whatever the order of the keys may be
// that are not known
func (k *walkCheck) ranges(st *State, side *types.Var, ok func(in bool) bool) bool {
	T := st.x.T
	key := k.keyOf(st, k.rootT(st))
	if key == nil {
		return side == nil && false
	}
	keys := []*Term{key}
	lo, hi := -1, -1
	if k.lo >= 0 {
		lo = len(keys)
		keys = append(keys, st.resolve(k.ps[k.lo]))
	}
	if k.hi >= 0 {
		hi = len(keys)
		keys = append(keys, st.resolve(k.ps[k.hi]))
	}
	n := len(keys)
	at := 0
	if side != nil {
		at = n
		n++
	}
	flag := func(i int) []bool {
		if i < 0 {
			return []bool{false}
		}
		if v, known := st.truth(st.resolve(k.ps[i])); known {
			return []bool{v}
		}
		return []bool{false, true}
	}
	ranks := make([]int, n)
	var try func(i int) bool
	try = func(i int) bool {
		if i < n {
			for r := 0; r < n; r++ {
				ranks[i] = r
				if !try(i + 1) {
					return false
				}
			}
			return true
		}
		for i, a := range keys {
			for j, b := range keys {
				if i == j {
					continue
				}
				if a == b && ranks[i] != ranks[j] {
					return true
				}
				if v, known := st.truth1(T.op("less", types.Typ[types.Bool], a, b)); known && v != (ranks[i] < ranks[j]) {
					return true
				}
				if v, known := st.truth(st.mkEq(a, b)); known && v != (ranks[i] == ranks[j]) {
					return true
				}
			}
		}
		if side == k.left && ranks[at] >= ranks[0] || side == k.right && ranks[at] <= ranks[0] {
			return true
		}
		for _, li := range flag(k.loIn) {
			for _, hi1 := range flag(k.hiIn) {
				in := true
				if lo >= 0 {
					in = in && (ranks[lo] < ranks[at] || ranks[lo] == ranks[at] && li)
				}
				if hi >= 0 {
					in = in && (ranks[at] < ranks[hi] || ranks[at] == ranks[hi] && hi1)
				}
				if lo >= 0 && hi >= 0 && (ranks[lo] > ranks[hi] || ranks[lo] == ranks[hi] && ranks[at] == ranks[lo] && li != hi1) {
					continue // nothing is said of these
				}
				if !ok(in) {
					return false
				}
			}
		}
		return true
	}
	return try(0)
}

// emit: the node gets into the result
func (k *walkCheck) emit(st *State, ev *Ev, vs []*Term) bool {
	n := k.rootT(st)
	k.c.Ob("visit", where(ev)+" in "+k.name)
	k.c.N("visit")
	if n == nil {
		k.undecided(st, "the root of the tree is not known")
		return false
	}
	if e, known := k.end(st, n); !known || e {
		k.bad(st, ev, "visit", "the end of the tree gets into the result")
		return false
	}
	if len(vs) != len(k.want) {
		k.undecided(st, "what is listed is not known")
		return false
	}
	for i, f := range k.want {
		w := k.cell(st, n, f)
		if f == k.key {
			w = k.keyOf(st, n)
		}
		if w == nil || st.resolve(vs[i]) != w {
			k.bad(st, ev, "visit", "something else than the "+f.Name()+" of the node gets into the result")
			return false
		}
	}
	switch {
	case st.getT("emitted") != nil:
		k.bad(st, ev, "visit", "a node gets into the result twice")
	case !k.done(st, k.left) && !k.nothing(st, k.left):
		k.bad(st, ev, "visit", "a node gets into the result before its left subtree")
	case k.done(st, k.right):
		k.bad(st, ev, "visit", "a node gets into the result after its right subtree")
	default:
		st.setT("emitted", st.x.T.Bool(true))
		return true
	}
	return false
}

func (k *walkCheck) model(st *State, c *Call) ([]Out, bool) {
	T := st.x.T
	if k.isLess(st, c) {
		return k.less(st, c)
	}
	if c.Callee == "dyn" && k.pred >= 0 && st.resolve(c.FnT) == st.resolve(k.ps[k.pred]) && len(c.Args) == 1 {
		return []Out{{Res: []*Term{T.op("selects", types.Typ[types.Bool], st.resolve(c.Args[0]))}}}, true
	}
	if c.Static == nil {
		return nil, false
	}
	g := origin(c.Static)
	if k.tree && g == k.insert {
		ev := &Ev{Kind: "insert", Fn: c.Fn, Instr: c.Instr, Pos: c.Instr.Pos()}
		t := st.resolve(c.Args[0])
		if s := st.getT("sub"); s != nil && st.resolve(s) != t || !t.alloc {
			k.undecided(st, "inserts into another tree")
			return nil, true
		}
		if f := k.cell(st, t, k.cmp); f == nil || f != k.cell(st, k.ps[0], k.cmp) {
			k.bad(st, ev, "visit", "the new tree does not compare keys as this one does")
			return nil, true
		}
		st.setT("sub", t)
		if !k.emit(st, ev, c.Args[1:]) {
			return nil, true
		}
		var rs []*Term
		for _, r := range c.ResTypes() {
			rs = append(rs, T.sym("old", r))
		}
		return []Out{{Res: rs}}, true
	}
	if k.entries[g] {
		k.undecided(st, "builds on another listing")
		return nil, true
	}
	for _, f := range st.frames {
		if f.fn != g {
			continue
		}
		ev := &Ev{Kind: "call", Fn: c.Fn, Instr: c.Instr, Pos: c.Instr.Pos()}
		var v *Term
		for i, a := range c.Args {
			if i >= len(g.Params) {
				break
			}
			p := st.resolve(f.env[g.Params[i]])
			switch {
			case k.isNode(a.typ):
				if v != nil || p != k.rootT(st) {
					k.undecided(st, "recursion")
					return nil, true
				}
				v = st.resolve(a)
			case st.resolve(a) != p:
				k.undecided(st, "recursion with other arguments")
				return nil, true
			}
		}
		var side *types.Var
		n := k.rootT(st)
		switch {
		case v == nil || n == nil || len(c.ResTypes()) > 0:
		case v == k.cell(st, n, k.left):
			side = k.left
		case v == k.cell(st, n, k.right):
			side = k.right
		}
		if v == n && n != nil {
			k.bad(st, ev, "visit", "a node is visited again")
			return nil, true
		}
		if side == nil {
			// a child that is the end of the tree, whichever it is
			if v != nil {
				if e, known := k.end(st, v); known && e {
					return []Out{{}}, true
				}
			}
			k.undecided(st, "recursion")
			return nil, true
		}
		if e, known := k.end(st, n); !known || e {
			k.undecided(st, "recursion")
			return nil, true
		}
		k.c.Ob("visit", where(ev)+" in "+k.name)
		if e, known := k.end(st, v); known && e {
			// both children may be the end
			return []Out{{}}, true
		}
		if k.done(st, side) {
			k.bad(st, ev, "visit", "a subtree is visited twice")
			return nil, true
		}
		if side == k.left && k.done(st, k.right) {
			k.bad(st, ev, "visit", "the right subtree is visited before the left one")
			return nil, true
		}
		if side == k.left && st.getT("emitted") != nil {
			k.bad(st, ev, "visit", "the left subtree is visited after the node")
			return nil, true
		}
		accs := k.accs(st, g, f)
		if len(accs) == 0 && !k.tree {
			k.undecided(st, "where the result is collected is not known")
			return nil, true
		}
		more := T.sym("visited", types.Typ[types.Int])
		st.addLin(linTerm(more))
		o := st.linOf(st.getT("#o"))
		now := T.sym("out", types.Typ[types.Int])
		eq := func(a, b Lin) {
			d := a.add(b, -1)
			st.addLin(d)
			st.addLin(d.scale(-1))
		}
		eq(linTerm(now), o.add(linTerm(more), 1))
		for _, a := range accs {
			x, ok := st.heap[a]
			if !ok {
				k.undecided(st, "where the result is collected is not known")
				return nil, true
			}
			x = st.resolve(x)
			switch p := pointee(a.typ); {
			case p != nil && isInt(p):
				if !eqLin(st, st.linOf(x), o) {
					k.bad(st, ev, "visit", "the index is not in step with what was put into the result")
					return nil, true
				}
				st.heap[a] = now
			case p != nil && isSliceT(p):
				if !k.collected(st, ev, x) {
					return nil, true
				}
				y := T.sym("collected", p)
				eq(lenOf(st, y), lenOf(st, x).add(linTerm(more), 1))
				st.setT("acc", y)
				st.heap[a] = y
			default:
				if fn, _ := p.Underlying().(*types.Signature); p == nil || fn == nil {
					k.undecided(st, "where the result is collected is not known")
					return nil, true
				}
			}
		}
		st.setT("#o", now)
		st.setT("done:"+side.Name(), T.Bool(true))
		return []Out{{}}, true
	}
	return nil, false
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// collected: x is all that was appended so far
func (k *walkCheck) collected(st *State, ev *Ev, x *Term) bool {
	a := st.getT("acc")
	if a == nil {
		if !eqLin(st, lenOf(st, x), linConst(0)) {
			k.bad(st, ev, "visit", "the result does not begin with the first node")
			return false
		}
		return true
	}
	if st.resolve(a) != x {
		k.bad(st, ev, "visit", "what was appended is not kept")
		return false
	}
	return true
}

func (k *walkCheck) parts(st *State, v *Term) []*Term {
	v = st.resolve(v)
	if len(k.want) == 1 {
		return []*Term{v}
	}
	s, _ := v.typ.Underlying().(*types.Struct)
	if s == nil {
		return nil
	}
	var out []*Term
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, st.x.T.field(v, i, s.Field(i).Type()))
	}
	return out
}

func (k *walkCheck) event(st *State, ev *Ev) {
	T := st.x.T
	switch ev.Kind {
	case "edge":
		k.undecided(st, "loops")
	case "append":
		vs, ok := varargs(st, ev.Args[1])
		if !ok || len(vs) != 1 || k.tree {
			k.undecided(st, "appends more than one element")
			return
		}
		if !k.collected(st, ev, st.resolve(ev.Addr)) || !k.emit(st, ev, k.parts(st, vs[0])) {
			return
		}
		st.setT("acc", ev.Val)
	case "store":
		a := ev.Addr
		if a.k == TFA {
			b := st.resolve(a.args[0])
			if !b.alloc && (k.isNode(b.typ) || b == st.resolve(k.ps[0])) {
				k.bad(st, ev, "visit", "the tree is changed")
			}
			return
		}
		if a.k != TIA || !isSliceT(a.args[0].typ) || k.tree {
			return
		}
		d := st.resolve(a.args[0])
		if o := st.getT("data"); o != nil && st.resolve(o) != d {
			k.undecided(st, "writes to two slices")
			return
		}
		st.setT("data", d)
		if !eqLin(st, st.linOf(st.resolve(a.args[1])), st.linOf(st.getT("#o"))) {
			k.bad(st, ev, "visit", "a node does not get to the place behind the one before it")
			return
		}
		if !k.emit(st, ev, k.parts(st, ev.Val)) {
			return
		}
		n := T.sym("out", types.Typ[types.Int])
		l := linTerm(n).add(st.linOf(st.getT("#o")), -1).addk(-1)
		st.addLin(l)
		st.addLin(l.scale(-1))
		st.setT("#o", n)
	case "exit":
		k.exit(st, ev)
	}
}

func (k *walkCheck) exit(st *State, ev *Ev) {
	T := st.x.T
	if k.lo >= 0 && k.hi >= 0 {
		lo, hi := st.resolve(k.ps[k.lo]), st.resolve(k.ps[k.hi])
		crossed := lo != hi && k.order(st, hi, lo) == -1
		known := lo == hi || k.order(st, hi, lo) != 2
		if v, ok := st.truth1(T.op("less", types.Typ[types.Bool], hi, lo)); ok && !v {
			known, crossed = true, false
		}
		if ev.Panics != (known && crossed) {
			k.bad(st, ev, "result", "does not panic exactly if the bounds are the wrong way round")
			return
		}
	}
	if ev.Panics {
		return
	}
	k.c.Ob("result", where(ev)+" in "+k.name)
	k.c.N("result")
	bad := func(msg string) { k.bad(st, ev, "result", msg) }
	n := k.rootT(st)
	e, known := false, false
	if n != nil {
		e, known = k.end(st, n)
	}
	if !known {
		if l := k.cell(st, k.ps[0], k.len); l != nil && st.prove(st.linOf(l).scale(-1)) {
			e, known = true, true
		}
	}
	switch {
	case !known:
		bad("the nodes of the tree are not visited")
		return
	case !e:
		if l := k.cell(st, k.ps[0], k.len); l != nil && k.pred < 0 && !k.tree {
			// as many as there are: what is left out is empty
			if st.prove(st.linOf(st.getT("#o")).add(st.linOf(l), -1)) {
				break
			}
		}
		for _, side := range []*types.Var{k.left, k.right} {
			if !k.done(st, side) && !k.nothing(st, side) {
				bad("the " + side.Name() + " subtree is not visited")
				return
			}
		}
		em := st.getT("emitted") != nil
		switch {
		case k.pred >= 0:
			key := k.keyOf(st, n)
			ok := false
			if key != nil {
				v, kn := st.truth1(T.op("selects", types.Typ[types.Bool], key))
				ok = kn && v == em
			}
			if !ok {
				bad("the result does not have exactly the nodes whose keys are selected")
				return
			}
		case k.lo >= 0 || k.hi >= 0:
			if !k.ranges(st, nil, func(in bool) bool { return in == em }) {
				bad("the result does not have exactly the nodes whose keys are in the range")
				return
			}
		case !em:
			bad("a node does not get into the result")
			return
		}
	}
	r := st.resolve(ev.Res[0])
	if k.tree {
		if s := st.getT("sub"); s != nil && st.resolve(s) != r {
			bad("another tree is returned than the one with the nodes")
			return
		}
		if !r.alloc {
			bad("the tree returned is not a new one")
		}
		return
	}
	if d := st.getT("data"); d != nil && st.resolve(d) != r {
		bad("another slice is returned than the one with the nodes")
		return
	}
	if a := st.getT("acc"); a != nil {
		if st.resolve(a) != r {
			bad("another slice is returned than the one with the nodes")
		}
		return
	}
	ln := linConst(0)
	if l := k.cell(st, k.ps[0], k.len); l != nil {
		if e && eqLin(st, lenOf(st, r), ln) {
			return
		}
		ln = st.linOf(l)
	}
	if (k.pred < 0 || e) && !eqLin(st, lenOf(st, r), ln) {
		bad("the result does not have one element for every node")
	}
}

func init() {
	register(&Property{ID: "C42", Run: func(c *Ctx) {
		c.rules["visit"] = "left subtree, node, right subtree, each once, in this order"
		c.rules["result"] = "the result has all nodes, or exactly those selected"
		for _, e := range []struct {
			name           string
			nps            int
			want           string
			pred           int
			lo, li, hi, hj int
		}{
			{"Keys", 1, "k", -1, -1, -1, -1, -1},
			{"Values", 1, "v", -1, -1, -1, -1, -1},
			{"Nodes", 1, "kv", -1, -1, -1, -1, -1},
			{"GetIf", 2, "v", 1, -1, -1, -1, -1},
			{"SubTree", 5, "kv", -1, 1, 2, 3, 4},
			{"LeftSubTree", 3, "kv", -1, -1, -1, 1, 2},
			{"RightSubTree", 3, "kv", -1, 1, 2, -1, -1},
		} {
			k := &walkCheck{rbtCheck: rbtCheck{c: c, name: e.name, keyP: 0, valP: -1}, pred: e.pred, lo: e.lo, hi: e.hi, loIn: e.li, hiIn: e.hj}
			f := c.Fn(rbtPkg, "RbTree."+e.name)
			if f == nil {
				continue
			}
			if !k.fields() || len(f.Params) != e.nps {
				c.Undecided(e.name, "the tree is built in another way")
				continue
			}
			for _, w := range e.want {
				if w == 'k' {
					k.want = append(k.want, k.key)
				} else {
					k.want = append(k.want, k.val)
				}
			}
			k.tree = e.lo >= 0 || e.hi >= 0
			k.entries = map[*ssa.Function]bool{}
			for _, n := range []string{"Keys", "Values", "Nodes", "GetIf", "SubTree", "LeftSubTree", "RightSubTree"} {
				if g := c.Fn(rbtPkg, "RbTree."+n); g != nil && g != f {
					k.entries[g] = true
				}
			}
			k.insert = c.Fn(rbtPkg, "RbTree.Insert")
			c.Run(f, &Config{Event: k.event, Model: k.model, OnFresh: k.fresh, NoTemplates: true}, func(st *State, ps []*Term) {
				k.ps = ps
				st.setT("end", st.load(fAddr(st, ps[0], k.sentinel), k.sentinel.Type(), "sentinel", nil))
				st.setT("less", st.load(fAddr(st, ps[0], k.cmp), k.cmp.Type(), "less", nil))
				l := st.load(fAddr(st, ps[0], k.len), types.Typ[types.Int], "len", nil)
				st.addLin(st.linOf(l))
				st.setT("len0", l)
				st.setT("root0", st.load(fAddr(st, ps[0], k.root), k.root.Type(), "root", nil))
				st.setT("#o", st.x.T.Int(0))
			})
		}
		c.Min("result", 7)
		c.Min("visit", 7)
	}})
}
