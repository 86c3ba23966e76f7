package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Results of a batch query: which keys are given to the caller, with which
// value, decided by the hit of the same position.

type mgetCheck struct {
	c                  *Ctx
	name, kind         string
	ps                 []*Term
	keys, values, hits *types.Var
	fi                 map[*types.Var]int
}

func (k *mgetCheck) bad(st *State, ev *Ev, rule, msg string) {
	k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
}

func (k *mgetCheck) ob(ev *Ev, rule string) {
	k.c.Ob(rule, where(ev)+" in "+k.name)
	k.c.N(rule)
}

func (k *mgetCheck) part(st *State, f *types.Var) *Term {
	return st.resolve(st.x.T.field(k.ps[0], k.fi[f], f.Type()))
}

// which slice of the result is this?
func (k *mgetCheck) slice(st *State, t *Term) *types.Var {
	t = st.resolve(t)
	for _, f := range []*types.Var{k.keys, k.values, k.hits} {
		if k.part(st, f) == t {
			return f
		}
	}
	return nil
}

// elem: v is an element of the given slice at the position that is dealt with
func (k *mgetCheck) elem(st *State, v *Term, f *types.Var) bool {
	cur := st.getT("#cur")
	if cur == nil {
		return false
	}
	for _, c := range cellsOf(st, v) {
		if c.fld < 0 && k.slice(st, c.base) == f && eqLin(st, st.linOf(c.idx), st.linOf(cur)) {
			return true
		}
	}
	return false
}

// settle: the position before has been dealt with as its hit demands
func (k *mgetCheck) settle(st *State, ev *Ev) {
	h := st.getT("hit")
	if h == nil {
		return
	}
	v, known := st.truth(h)
	given := len(st.monKeys("gave."))
	want := 1
	switch {
	case k.kind == "hit" && known && !v, k.kind == "miss" && known && v:
		want = 0
	}
	if given < want {
		st.setT("missed", st.x.T.Bool(true))
	}
	k.clear(st)
}

func (k *mgetCheck) clear(st *State) {
	st.setT("hit", nil)
	st.clearMon("gave.")
}

// give: the key of the position at hand goes to the function or slice id
func (k *mgetCheck) give(st *State, ev *Ev, id string) {
	T := st.x.T
	if len(st.monKeys("gave.")) > 0 {
		k.bad(st, ev, "answer", "a key is given twice")
	}
	if st.getT("missed") != nil {
		k.bad(st, ev, "answer", "a key that was asked for may be passed over")
	}
	st.setT("some", T.Bool(true))
	st.setT("gave."+id, T.Bool(true))
	h := st.getT("hit")
	if h == nil || k.kind == "range" {
		return
	}
	v, known := st.truth(h)
	want := k.kind == "hit"
	if k.kind == "both" {
		if s := st.getT("sort." + id); s != nil {
			want = s.isBool(true)
		} else if known {
			want = v
			st.setT("sort."+id, T.Bool(v))
		}
	}
	if !known || v != want {
		k.bad(st, ev, "answer", "a key is given although its hit is not the one asked for")
	}
}

// built: the result slice or map m is, or ""
func (k *mgetCheck) built(st *State, m *Term) string {
	m = st.resolve(m)
	for _, q := range st.monKeys("out.") {
		if st.resolve(st.getT(q)) == m {
			return q[4:]
		}
	}
	return ""
}

// empty: a slice of keys without elements that can become a result
func (k *mgetCheck) empty(st *State, b *Term) bool {
	if b.isNil() || b.typ == nil || !freshSlice(rootOf(st, b)) {
		return false
	}
	s, _ := b.typ.Underlying().(*types.Slice)
	if s == nil {
		return false
	}
	if tp, _ := s.Elem().(*types.TypeParam); tp == nil || tp.Index() != 0 {
		return false
	}
	return st.prove(lenOf(st, b).scale(-1))
}

func (k *mgetCheck) event(st *State, ev *Ev) {
	T := st.x.T
	n := func() Lin { return lenOf(st, k.part(st, k.keys)) }
	switch ev.Kind {
	case "phi":
		if q := k.built(st, orNil(T, ev.Addr)); q != "" {
			st.setT("out."+q, ev.Val)
		} else if ev.Addr != nil && k.empty(st, st.resolve(ev.Addr)) {
			st.setT(fmt.Sprintf("out.%d", len(st.monKeys("out."))), ev.Val)
		}
	case "index":
		f := k.slice(st, ev.Addr)
		if f == nil {
			return
		}
		k.ob(ev, "panic")
		if !st.prove(st.linOf(ev.Val)) || !st.prove(n().add(st.linOf(ev.Val), -1).addk(-1)) {
			k.bad(st, ev, "panic", "an index may be out of range")
			st.dead = true
		}
	case "make":
		switch ev.Val.typ.Underlying().(type) {
		case *types.Slice:
		case *types.Map:
		default:
			return
		}
		st.setT(fmt.Sprintf("out.%d", len(st.monKeys("out."))), ev.Val)
	case "store":
		if q := k.built(st, ev.Val); q != "" {
			st.setT("outat."+q, ev.Addr)
		} else if ev.Addr.k == TIA && k.built(st, rootOf(st, ev.Addr.args[0])) != "" {
			k.c.Undecided(k.name, "builds the result in another way")
			st.dead = true
		} else if ev.Addr.k == TIA && k.slice(st, ev.Addr.args[0]) != nil {
			k.bad(st, ev, "answer", "changes the result of the query")
		}
	case "load":
		if ev.Addr.k != TIA {
			for _, q := range st.monKeys("outat.") {
				if st.resolve(st.getT(q)) == ev.Addr {
					st.setT("out."+q[6:], ev.Val)
				}
			}
			return
		}
		f := k.slice(st, ev.Addr.args[0])
		if f == nil {
			return
		}
		i := st.linOf(ev.Addr.args[1])
		// a pass that only looked and gave nothing does not count
		if st.getT("#cur") == nil && st.getT("some") == nil && eqLin(st, i, st.linOf(T.Int(0))) && st.prove(st.linOf(st.getT("#c.f")).addk(-1)) {
			k.clear(st)
			st.setT("missed", nil)
			st.setT("#c.f", T.Int(0))
		}
		if next := st.getT("#c.f"); eqLin(st, i, st.linOf(next)) {
			k.settle(st, ev)
			inc(st, "#c.f")
			st.setT("#cur", next)
			st.setT("hit", st.resolve(st.load(T.ia(k.part(st, k.hits), ev.Addr.args[1], types.NewPointer(types.Typ[types.Bool])), types.Typ[types.Bool], "elem", nil)))
		}
		recCell(st, ev.Val, ev.Addr.args[0], ev.Addr.args[1], 8)
	case "backedge":
		k.settle(st, ev)
		if c := st.getT("stop"); c != nil {
			if v, known := st.truth(c); known && v {
				st.setT("stop", nil)
			}
		}
		st.setT("#cur", nil)
		dropCells(st, ev)
	case "callback":
		if len(k.ps) < 2 || st.resolve(ev.Addr) != k.ps[1] {
			return
		}
		k.ob(ev, "answer")
		var want []*types.Var
		switch k.kind {
		case "range":
			want = []*types.Var{k.keys, k.hits, k.values}
		case "hit":
			want = []*types.Var{k.keys, k.values}
		case "miss":
			want = []*types.Var{k.keys}
		}
		if c := st.getT("stop"); c != nil {
			if v, known := st.truth(c); known && v {
				st.setT("stop", nil)
			}
		}
		if st.getT("stop") != nil {
			k.bad(st, ev, "answer", "goes on after the function may have asked to stop")
		}
		for i, f := range want {
			if i < len(ev.Args) && f == k.hits && st.getT("hit") != nil && st.resolve(ev.Args[i]) == st.resolve(st.getT("hit")) {
				continue
			}
			if i < len(ev.Args) && k.elem(st, ev.Args[i], f) {
				continue
			}
			k.bad(st, ev, "answer", "the function is called with something else than key, hit and value of one position")
			return
		}
		k.give(st, ev, "f")
		if len(ev.Res) == 1 {
			st.setT("stop", ev.Res[0])
		}
	case "append":
		q := k.built(st, ev.Addr)
		vs, ok := varargs(st, ev.Args[1])
		if b := st.resolve(ev.Addr); q == "" && k.empty(st, b) {
			q = fmt.Sprint(len(st.monKeys("out.")))
		}
		if q == "" {
			return
		}
		k.ob(ev, "answer")
		if b := st.resolve(ev.Addr); b.alloc && !b.isNil() && b.label == "slice" && !st.prove(lenOf(st, b).scale(-1)) {
			k.bad(st, ev, "answer", "the result starts with elements that are no keys")
			st.dead = true
			return
		}
		if !ok || len(vs) != 1 || !k.elem(st, vs[0], k.keys) {
			k.bad(st, ev, "answer", "what is added to the result is not the key of the position")
			return
		}
		k.give(st, ev, q)
		st.setT("out."+q, ev.Val)
	case "mapset":
		q := k.built(st, ev.Addr)
		if q == "" {
			return
		}
		k.ob(ev, "answer")
		if !k.elem(st, ev.Args[1], k.keys) || !k.elem(st, ev.Val, k.values) {
			k.bad(st, ev, "answer", "what is added to the result is not key and value of the position")
			return
		}
		k.give(st, ev, q)
	case "exit":
		k.ob(ev, "all")
		if ev.Panics {
			k.bad(st, ev, "panic", "panics")
			return
		}
		if c := st.getT("stop"); c != nil {
			if v, known := st.truth(c); known && !v {
				return
			}
		}
		if len(ev.Res) == 2 && st.getT("part.HitKeys") != nil && st.getT("part.MissKeys") != nil {
			if st.resolve(ev.Res[0]) != st.resolve(st.getT("part.HitKeys")) || st.resolve(ev.Res[1]) != st.resolve(st.getT("part.MissKeys")) {
				k.bad(st, ev, "all", "hits and misses are given back in the wrong places")
			}
			return
		}
		k.settle(st, ev)
		if !st.prove(st.linOf(st.getT("#c.f")).add(n(), -1)) {
			k.bad(st, ev, "all", "ends before all keys have been looked at")
		} else if st.getT("missed") != nil {
			k.bad(st, ev, "answer", "a key that was asked for may be passed over")
		}
		for i, r := range ev.Res {
			q := k.built(st, r)
			if q == "" && lenable(r.typ) && st.prove(lenOf(st, r).scale(-1)) {
				continue
			}
			if q == "" && len(st.monKeys("out.")) == 0 {
				k.c.Undecided(k.name, "builds the result in another way")
				continue
			}
			if q == "" {
				k.bad(st, ev, "all", "the result is not what has been built")
				continue
			}
			if s := st.getT("sort." + q); s != nil && s.isBool(i == 1) {
				k.bad(st, ev, "all", "hits and misses are given back in the wrong places")
			}
		}
		if len(ev.Res) == 2 && st.resolve(ev.Res[0]) == st.resolve(ev.Res[1]) {
			k.bad(st, ev, "all", "hits and misses are given back in the wrong places")
		}
	}
}

func (k *mgetCheck) fields() bool {
	n := k.c.P.named(cachePkg, "MGetResult")
	if n == nil {
		k.c.Bad(nil, "anchor", cachePkg+".MGetResult", 0, "type not found")
		return false
	}
	s, _ := n.Underlying().(*types.Struct)
	k.fi = map[*types.Var]int{}
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		sl, ok := f.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		k.fi[f] = i
		switch tp, _ := sl.Elem().(*types.TypeParam); {
		case tp == nil:
			k.hits = f
		case tp.Index() == 0:
			k.keys = f
		default:
			k.values = f
		}
	}
	return k.keys != nil && k.values != nil && k.hits != nil && len(k.fi) == 3
}

func (k *mgetCheck) run(name, kind string) {
	fn := k.c.Fn(cachePkg, "MGetResult."+name)
	if fn == nil {
		return
	}
	k.name, k.kind = name, kind
	// what other methods give back is decided for themselves
	model := func(st *State, c *Call) ([]Out, bool) {
		if kind != "both" || c.Static == nil || c.Static.Signature.Recv() == nil || len(c.Args) != 1 || st.resolve(c.Args[0]) != st.resolve(k.ps[0]) {
			return nil, false
		}
		n := c.Static.Name()
		if n != "HitKeys" && n != "MissKeys" {
			return nil, false
		}
		r := st.x.T.sym(n, c.ResTypes()[0])
		return []Out{{Res: []*Term{r}, Do: func(s *State) { s.setT("part."+n, r) }}}, true
	}
	k.c.Run(fn, &Config{Bounds: true, Event: k.event, Model: model, NoInline: func(*ssa.Function) bool { return false }}, func(st *State, ps []*Term) {
		k.ps = ps
		for _, f := range []*types.Var{k.values, k.hits} {
			l := lenOf(st, k.part(st, f)).add(lenOf(st, k.part(st, k.keys)), -1)
			st.addLin(l)
			st.addLin(l.scale(-1))
		}
		st.setT("#c.f", st.x.T.Int(0))
	})
}

// query: the helper asks the cache for exactly the keys given and keeps the answer
func (k *mgetCheck) query() {
	fn := k.c.Fn(cachePkg, "MGet")
	if fn == nil {
		return
	}
	k.name = "MGet"
	var ps []*Term
	k.c.Run(fn, &Config{NoInline: func(*ssa.Function) bool { return false },
		Model: func(st *State, c *Call) ([]Out, bool) {
			if !c.Common.IsInvoke() || c.Common.Method.Name() != "MGet" {
				return nil, false
			}
			at := fname(c.Fn) + " in MGet"
			k.c.Ob("query", at)
			k.c.N("query")
			if len(c.Args) != 3 || st.resolve(unbox(c.Args[0])) != ps[1] || st.resolve(c.Args[1]) != ps[0] || st.resolve(c.Args[2]) != ps[2] || st.getT("ans") != nil {
				k.c.Bad(st, "query", at, c.Instr.Pos(), "the cache is not asked once for exactly the keys given")
			}
			var rs []*Term
			for _, t := range c.ResTypes() {
				rs = append(rs, st.x.T.sym("answer", t))
			}
			return []Out{{Res: rs, Do: func(s *State) { s.setT("ans", s.x.T.tuple(rs...)) }}}, true
		},
		Event: func(st *State, ev *Ev) {
			if ev.Kind != "exit" || ev.Panics {
				return
			}
			k.ob(ev, "query")
			a := st.getT("ans")
			r := st.resolve(ev.Res[0])
			ok := a != nil && st.resolve(ev.Res[1]) == st.resolve(a.args[2])
			if ok {
				for f, w := range map[*types.Var]*Term{k.keys: ps[2], k.values: a.args[0], k.hits: a.args[1]} {
					if st.resolve(st.x.T.field(r, k.fi[f], f.Type())) != st.resolve(w) {
						ok = false
					}
				}
			}
			if !ok {
				k.bad(st, ev, "query", "the result is not what the cache answered for the keys")
			}
		}}, func(st *State, p []*Term) { ps = p })
}

func init() {
	register(&Property{ID: "C35", Run: func(c *Ctx) {
		c.rules["answer"] = "keys, hits and values of the same position, in order, each once, exactly the ones asked for"
		c.rules["all"] = "ends early exactly when the function returns false; the results are what has been built"
		c.rules["panic"] = "no index out of range, no panic"
		c.rules["query"] = "the cache is asked once for the keys given and its answer is kept"
		k := &mgetCheck{c: c}
		if !k.fields() {
			c.Undecided("MGetResult", "does not consist of three slices")
			return
		}
		for _, f := range [][2]string{{"Range", "range"}, {"RangeHit", "hit"}, {"RangeMiss", "miss"}, {"HitKeys", "hit"}, {"HitMapValues", "hit"}, {"MissKeys", "miss"}, {"HitMissKeys", "both"}} {
			k.run(f[0], f[1])
		}
		k.query()
		c.Min("answer", 7)
	}})
}
