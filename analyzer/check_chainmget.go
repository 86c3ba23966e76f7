package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Chain.MGet: each level is asked for the keys that no earlier level had;
// every answer goes to all positions of its key, and back to earlier levels.
//
// The answers of one level are gone through in passes over its positions. A
// pass may place hits in the results, collect them for the earlier levels,
// or keep the misses for the next level, or several of these; for each of
// the three purposes some pass has to deal with all positions.

type batchCheck struct {
	chainCheck
	heads  map[*ssa.BasicBlock]bool // of loops that ask levels
	passes map[*ssa.BasicBlock]bool // of loops over the answers of a level
}

func (k *batchCheck) undecided(st *State, why string) {
	k.c.Undecided("Chain.MGet", why)
	st.dead = true
}

func elemKind(t types.Type) string {
	if t == nil {
		return ""
	}
	kind := func(e types.Type) string {
		e = types.Unalias(e)
		if tp, ok := e.(*types.TypeParam); ok {
			return string(rune('A' + tp.Index()))
		}
		if b, ok := e.Underlying().(*types.Basic); ok {
			return b.Name()
		}
		if s, ok := e.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok {
				return "[]" + b.Name()
			}
		}
		return "?"
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return "[]" + kind(u.Elem())
	case *types.Map:
		return kind(u.Key()) + ":" + kind(u.Elem())
	}
	return ""
}

func (k *batchCheck) is(st *State, t *Term, mon string) bool {
	m := st.getT(mon)
	return m != nil && t != nil && st.resolve(m) == st.resolve(t)
}

// at: v is the element of the given slice at position i
func (k *batchCheck) elem(st *State, v *Term, mon, at string) bool {
	i := st.getT(at)
	if i == nil {
		return false
	}
	for _, c := range cellsOf(st, v) {
		if c.fld < 0 && k.is(st, c.base, mon) && eqLin(st, st.linOf(c.idx), st.linOf(i)) {
			return true
		}
	}
	v = st.resolve(v)
	for a, w := range st.heap {
		if a.k == TIA && w == v && k.is(st, a.args[0], mon) && eqLin(st, st.linOf(a.args[1]), st.linOf(i)) {
			return true
		}
	}
	return false
}

func (k *batchCheck) hit(st *State) (v, known bool) {
	h := st.getT("hit")
	if h == nil {
		return false, false
	}
	return st.truth(h)
}

// touch: the position i of the answers is looked at
func (k *batchCheck) touch(st *State, ev *Ev, i *Term) {
	T := st.x.T
	l := st.linOf(i)
	zero := st.linOf(T.Int(0))
	if cur := st.getT("#cur"); eqLin(st, l, zero) && eqLin(st, st.linOf(st.getT("#o")), zero) ||
		eqLin(st, l, zero) && (cur == nil || !eqLin(st, l, st.linOf(cur))) {
		k.finish(st)
		st.setT("#o", T.Int(0))
		for _, p := range []string{"okP", "okW", "okN"} {
			st.setT(p, T.Bool(true))
		}
		st.setT("any", nil)
	}
	if !eqLin(st, l, st.linOf(st.getT("#o"))) {
		return
	}
	k.settle(st)
	if h := innerLoop(ev); h != nil {
		k.passes[h] = true
	}
	next := st.getT("#o")
	inc(st, "#o")
	st.setT("#cur", next)
	if oks := st.resolve(st.getT("oks")); oks.isNil() {
		st.setT("hit", T.Bool(false))
	} else {
		st.setT("hit", st.resolve(st.load(T.ia(oks, i, types.NewPointer(types.Typ[types.Bool])), types.Typ[types.Bool], "elem", nil)))
	}
}

// settle: what was done for the position at hand
func (k *batchCheck) settle(st *State) {
	if st.getT("#cur") == nil {
		return
	}
	v, known := k.hit(st)
	if !known || v {
		st.setT("any", st.x.T.Bool(true))
		if list := st.getT("list"); list == nil || !st.prove(st.linOf(st.getT("#xv")).add(lenOf(st, list), -1)) || !st.prove(st.linOf(st.getT("#xs")).add(lenOf(st, list), -1)) {
			st.setT("okP", nil)
		}
		if st.getT("f.map") == nil {
			st.setT("okW", nil)
		}
	}
	if (!known || !v) && st.getT("f.keep") == nil {
		st.setT("okN", nil)
	}
	for _, m := range []string{"hit", "list", "f.map", "f.keep", "#cur", "#xv", "#xs"} {
		st.setT(m, nil)
	}
}

// finish: a pass ends
func (k *batchCheck) finish(st *State) {
	k.settle(st)
	if st.getT("asked") == nil {
		return
	}
	T := st.x.T
	o := st.linOf(st.getT("#o"))
	if st.prove(o.add(lenOf(st, st.getT("oks")), -1)) {
		if st.getT("okP") != nil {
			st.setT("doneP", T.Bool(true))
		}
		if st.getT("okW") != nil && st.getT("kvs") != nil {
			st.setT("doneW", T.Bool(true))
		}
		if st.getT("any") == nil {
			st.setT("none", T.Bool(true))
		}
	}
	if st.getT("okN") != nil && st.prove(o.add(lenOf(st, st.getT("asked")), -1)) {
		st.setT("doneN", T.Bool(true))
	}
}

// closeLevel: everything that has to be done with the answers of a level
func (k *batchCheck) closeLevel(st *State, ev *Ev) {
	if st.getT("asked") == nil {
		return
	}
	k.finish(st)
	T := st.x.T
	noAnswer := st.prove(lenOf(st, st.getT("oks")).scale(-1))
	if st.getT("doneP") == nil && st.getT("none") == nil && !noAnswer {
		k.bad(st, ev, "answer", "an answer of a level may not reach the position of its key")
	}
	k.ob(ev, "writeback")
	if st.getT("none") == nil && !noAnswer && !k.allBack(st) {
		k.bad(st, ev, "writeback", "not every earlier level gets the values found")
	}
	if st.getT("doneN") != nil {
		st.setT("nextok", T.Bool(true))
	}
	for _, m := range []string{"asked", "vals", "oks", "okP", "okW", "okN", "doneP", "doneW", "doneN", "none", "any", "kvs", "#o", "#cur", "up", "down", "#d", "doneB"} {
		st.setT(m, nil)
	}
	st.setT("#w", T.Int(0))
}

func (k *batchCheck) model(st *State, c *Call) ([]Out, bool) {
	if !c.Common.IsInvoke() || c.Static != nil {
		return nil, false
	}
	T := st.x.T
	ev := &Ev{Kind: "callback", Instr: c.Instr, Fn: c.Fn, Callee: c.Callee, Pos: c.Instr.Pos()}
	switch m := c.Common.Method.Name(); m {
	case "MGet":
		k.loops(st)
		k.closeLevel(st, ev)
		k.ob(ev, "order")
		if l := k.level(st, c.Args[0]); !same(st, l, st.getT("#q")) {
			k.bad(st, ev, "order", "the levels are not asked in their order, each once")
		}
		if e := st.getT("e"); e != nil && !k.noErr(st) && !k.continues(st) {
			k.bad(st, ev, "order", "goes on after a read error without ContinueOnReadErr")
		}
		if st.getT("e") == nil {
			if st.resolve(c.Args[2]) != st.resolve(k.ps[2]) {
				k.bad(st, ev, "order", "the first level is not asked for the keys given")
			}
		} else if !k.is(st, c.Args[2], "out") || st.getT("nextok") == nil {
			if st.getT("out") == nil && st.resolve(c.Args[2]) != st.resolve(k.ps[2]) {
				k.undecided(st, "the keys for the next level are found in another way")
				return nil, true
			}
			k.bad(st, ev, "order", "a level is not asked for exactly the keys that were not found before")
		}
		st.setT("out", nil)
		st.setT("nextok", nil)
		rt := c.ResTypes()
		vals, oks, e1, e2 := T.sym("vals", rt[0]), T.sym("oks", rt[1]), T.sym("err", rt[2]), T.sym("err", rt[2])
		e2.nonnil = true
		asked := st.resolve(c.Args[2])
		do := func(s *State, v, o, e *Term) {
			k.forget(s)
			s.setT("asked", asked)
			s.setT("vals", v)
			s.setT("oks", o)
			s.setT("e", e)
			s.setT("enil", nil)
			s.setT("#o", T.Int(0))
			for _, p := range []string{"okP", "okW", "okN"} {
				s.setT(p, T.Bool(true))
			}
			s.setT("#w", T.Int(0))
			k.start(s, s.x.arith(s, "-", s.getT("#q"), T.Int(1), types.Typ[types.Int]))
			inc(s, "#q")
		}
		return []Out{
			{Res: []*Term{vals, oks, e1}, Do: func(s *State) {
				for _, x := range []*Term{vals, oks} {
					d := lenOf(s, x).add(lenOf(s, asked), -1)
					s.addLin(d)
					s.addLin(d.scale(-1))
				}
				do(s, vals, oks, e1)
			}},
			{Res: []*Term{T.zero(rt[0]), T.zero(rt[1]), e2}, Do: func(s *State) { do(s, T.zero(rt[0]), T.zero(rt[1]), e2) }},
		}, true
	case "MSet":
		k.ob(ev, "writeback")
		if st.getT("asked") == nil {
			k.bad(st, ev, "writeback", "writes to a level that is not one asked before")
			return []Out{{Res: []*Term{T.sym("err", c.ResTypes()[0])}}}, true
		}
		k.finish(st)
		l := k.level(st, c.Args[0])
		if !k.step(st, l, st.getT("#w")) {
			k.bad(st, ev, "writeback", "the write-back skips or repeats a level")
		}
		if l == nil || !st.proveLT(l, st.x.arith(st, "-", st.getT("#q"), T.Int(1), types.Typ[types.Int])) {
			k.bad(st, ev, "writeback", "writes back to a level that was not asked before the hits")
		}
		if !k.is(st, c.Args[2], "kvs") {
			k.undecided(st, "the values to write back are collected in another way")
			return nil, true
		}
		if st.getT("doneW") == nil {
			k.bad(st, ev, "writeback", "not every value found is written back")
		}
		if l == nil || !k.ttlOf(st, c.Args[3], l) {
			k.bad(st, ev, "writeback", "writes back with a ttl that is not that of the level")
		}
		return []Out{{Res: []*Term{T.sym("err", c.ResTypes()[0])}, Do: func(s *State) {
			k.forget(s)
			inc(s, "#w")
			dec(s, "#d")
		}}}, true
	default:
		k.bad(st, ev, "order", "calls "+m+" of a level")
	}
	return nil, false
}

// noErr: the last level asked gave no error
func (k *batchCheck) noErr(st *State) bool {
	if e := st.getT("e"); st.getT("enil") == nil && e != nil && k.acc.nilT(st, st.resolve(e)) {
		st.setT("enil", st.x.T.Bool(true))
	}
	return st.getT("enil") != nil
}

// allBack: each earlier level was written to
func (k *batchCheck) allBack(st *State) bool {
	if st.getT("asked") == nil || st.getT("#d") == nil {
		return false
	}
	earlier := st.x.arith(st, "-", st.getT("#q"), st.x.T.Int(1), types.Typ[types.Int])
	if st.getT("doneB") == nil && k.finished(st, earlier, st.getT("#w")) {
		st.setT("doneB", st.x.T.Bool(true))
	}
	return st.getT("doneB") != nil
}

// forget: which levels were at hand
func (k *batchCheck) forget(st *State) {
	for _, m := range []string{"ca", "el", "tt"} {
		st.clearMon(m)
	}
	st.setT("lkk", nil)
	st.setT("lkv", nil)
}

// loops finds the loops around the call that asks a level
func (k *batchCheck) loops(st *State) {
	for _, f := range st.frames {
		for _, h := range f.fn.Blocks {
			if k.heads[h] || !h.Dominates(f.blk) {
				continue
			}
			for _, s := range h.Preds {
				if h.Dominates(s) && reaches(f.blk, s, h) {
					k.heads[h] = true
				}
			}
		}
	}
}

// innerLoop is the head of the innermost loop around what happens
func innerLoop(ev *Ev) *ssa.BasicBlock {
	if ev.Instr == nil {
		return nil
	}
	b := ev.Instr.Block()
	for h := b; h != nil; h = h.Idom() {
		for _, s := range h.Preds {
			if h.Dominates(s) && reaches(b, s, h) {
				return h
			}
		}
	}
	return nil
}

func reaches(from, to, stop *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s != stop {
				work = append(work, s)
			}
		}
	}
	return false
}

func (k *batchCheck) event(st *State, ev *Ev) {
	T := st.x.T
	n := func() Lin { return lenOf(st, k.ps[2]) }
	if a := fAddr(st, k.ps[0], k.contF); st.heap[a] == nil {
		st.heap[a] = st.getT("cont")
	}
	switch ev.Kind {
	case "edge":
		k.noErr(st)
		k.allBack(st)
	case "phi":
		if ev.Addr == nil {
			return
		}
		for _, m := range []string{"out", "asked", "list", "resV", "resS"} {
			if k.is(st, ev.Addr, m) {
				st.setT(m, ev.Val)
			}
		}
	case "make":
		switch elemKind(ev.Val.typ) {
		case "[]B":
			if st.getT("resV") == nil && eqLin(st, lenOf(st, ev.Val), n()) {
				st.setT("resV", ev.Val)
			}
		case "[]bool":
			if st.getT("resS") == nil && eqLin(st, lenOf(st, ev.Val), n()) {
				st.setT("resS", ev.Val)
			}
		case "A:[]int", "A:int":
			if st.getT("index") == nil {
				st.setT("index", ev.Val)
				st.setT("#m", T.Int(0))
			}
		case "A:B":
			if st.getT("asked") != nil {
				st.setT("kvs", ev.Val)
				// what was collected before is not in it
				if st.getT("#cur") != nil || !eqLin(st, st.linOf(st.getT("#o")), st.linOf(T.Int(0))) {
					k.finish(st)
					st.setT("doneW", nil)
					st.setT("okW", nil)
				}
			}
		case "[]A":
			if st.getT("asked") != nil && st.prove(lenOf(st, ev.Val).scale(-1)) {
				k.newOut(st, ev.Val)
			}
		}
	case "lookup":
		if !k.is(st, ev.Addr, "index") {
			return
		}
		if st.getT("asked") == nil {
			st.setT("lkv", ev.Val)
			if len(ev.Args) > 1 {
				st.setT("lkk", ev.Args[1])
			}
			return
		}
		if len(ev.Args) > 1 && k.elem(st, ev.Args[1], "asked", "#cur") {
			if elemKind(st.resolve(ev.Addr).typ) == "A:int" {
				st.setT("single", ev.Val)
				return
			}
			st.setT("list", ev.Val)
			st.setT("#xv", T.Int(0))
			st.setT("#xs", T.Int(0))
		}
	case "load":
		if ev.Addr.k != TIA {
			k.load(st, ev)
			return
		}
		b, i := st.resolve(ev.Addr.args[0]), ev.Addr.args[1]
		k.load(st, ev)
		for _, m := range []string{"asked", "vals", "oks"} {
			if k.is(st, b, m) {
				k.touch(st, ev, i)
				recCell(st, ev.Val, b, i, 8)
				return
			}
		}
		if k.is(st, b, "list") || b == st.resolve(k.ps[2]) {
			recCell(st, ev.Val, b, i, 8)
		}
	case "store":
		if ev.Addr.k != TIA {
			return
		}
		b, i := st.resolve(ev.Addr.args[0]), st.resolve(ev.Addr.args[1])
		isV, isS := k.is(st, b, "resV"), k.is(st, b, "resS")
		switch {
		case rootOf(st, b) == st.resolve(k.ps[2]):
			k.bad(st, ev, "answer", "writes to the caller's keys")
			return
		case isV || isS:
		default:
			return
		}
		k.ob(ev, "answer")
		x := "#xv"
		if isS {
			x = "#xs"
		}
		if s := st.getT("single"); s != nil && i == st.resolve(s) {
			k.bad(st, ev, "answer", "a key that was asked for twice gets one answer only")
			st.dead = true
			return
		}
		if st.getT("list") == nil || !k.elem(st, i, "list", x) {
			k.undecided(st, "the answers are placed in another way")
			return
		}
		if v, known := k.hit(st); !known || !v {
			k.bad(st, ev, "answer", "an answer is placed although the level did not have the key")
		}
		if isV && !k.elem(st, ev.Val, "vals", "#cur") {
			k.bad(st, ev, "answer", "what is placed is not the value the level gave for the key")
		}
		if v, known := st.truth(st.resolve(ev.Val)); isS && (!known || !v) {
			k.bad(st, ev, "answer", "a value is placed without saying that there is one")
		}
		if !st.prove(st.linOf(st.getT("#m")).add(n(), -1)) {
			k.bad(st, ev, "answer", "not all positions of the keys are known")
		}
		inc(st, x)
	case "mapset":
		switch {
		case k.is(st, ev.Addr, "index"):
			key, v := st.resolve(ev.Args[1]), st.resolve(ev.Args[2])
			m := st.getT("#m")
			ok := false
			for _, c := range cellsOf(st, key) {
				ok = ok || c.base == st.resolve(k.ps[2]) && eqLin(st, st.linOf(c.idx), st.linOf(m))
			}
			if ok && elemKind(st.resolve(ev.Addr).typ) == "A:int" {
				inc(st, "#m")
				return
			}
			if ok {
				ok = v.k == TSym && v.label == "append" && len(v.prov) == 2 && k.is(st, v.prov[0], "lkv") && k.is(st, key, "lkk")
				vs, many := varargs(st, orNil(T, lastOf(v.prov)))
				ok = ok && many && len(vs) == 1 && eqLin(st, st.linOf(vs[0]), st.linOf(m))
			}
			if !ok {
				k.undecided(st, "the positions of the keys are recorded in another way")
				return
			}
			inc(st, "#m")
		case k.is(st, ev.Addr, "kvs"):
			k.ob(ev, "writeback")
			if !k.elem(st, ev.Args[1], "asked", "#cur") || !k.elem(st, ev.Val, "vals", "#cur") {
				k.bad(st, ev, "writeback", "what is to be written back is not a key with its value")
			} else if v, known := k.hit(st); !known || !v {
				k.bad(st, ev, "writeback", "a key that the level did not have is to be written back")
			} else {
				st.setT("f.map", T.Bool(true))
			}
		}
	case "len":
		if k.is(st, ev.Addr, "kvs") {
			k.finish(st)
			l := linTerm(T.op("len", types.Typ[types.Int], ev.Addr))
			if st.getT("none") != nil {
				st.addLin(l.scale(-1))
				st.addLin(l)
			} else if st.getT("doneW") != nil {
				st.addLin(l.addk(-1))
			}
		}
	case "append":
		if elemKind(ev.Val.typ) != "[]A" || st.getT("asked") == nil {
			return
		}
		b := st.resolve(orNil(T, ev.Addr))
		vs, ok := varargs(st, ev.Args[1])
		if !k.is(st, b, "out") && (b.isNil() || st.prove(lenOf(st, b).scale(-1))) {
			if rootOf(st, b) == st.resolve(k.ps[2]) {
				k.bad(st, ev, "answer", "writes to the caller's keys")
			} else if !b.isNil() && !freshSlice(rootOf(st, b)) {
				k.undecided(st, "the keys for the next level are collected in other memory")
				return
			}
			k.newOut(st, b)
		}
		if !k.is(st, b, "out") {
			return
		}
		k.ob(ev, "order")
		if !ok || len(vs) != 1 || !k.elem(st, vs[0], "asked", "#cur") {
			k.undecided(st, "the keys for the next level are collected in another way")
			return
		}
		if v, known := k.hit(st); !known || v {
			k.bad(st, ev, "order", "the next level is asked for a key that was found")
		}
		if st.getT("f.keep") != nil {
			k.bad(st, ev, "order", "the next level is asked for a key twice")
		}
		st.setT("f.keep", T.Bool(true))
		st.setT("out", ev.Val)
	case "backedge":
		if ev.Instr != nil && k.heads[ev.Instr.Block()] {
			k.closeLevel(st, ev)
		}
		if ev.Instr != nil && st.getT("#cur") != nil && k.passes[ev.Instr.Block()] {
			k.settle(st)
		}
		dropCells(st, ev)
	case "exit":
		if ev.Panics {
			return
		}
		k.ob(ev, "answer")
		if st.prove(n().scale(-1)) {
			return
		}
		v, ok, e := st.resolve(ev.Res[0]), st.resolve(ev.Res[1]), st.resolve(ev.Res[2])
		last := st.getT("e")
		all := st.proveLE(k.nCaches(st), st.getT("#q"))
		if last == nil {
			if !all {
				k.bad(st, ev, "answer", "returns without asking any level")
			}
			if !k.acc.nilT(st, e) {
				k.bad(st, ev, "answer", "returns an error although no level failed")
			}
		} else if st.resolve(last) != e && !(k.acc.nilT(st, e) && k.noErr(st)) {
			k.bad(st, ev, "answer", "the error of the last level asked is not returned")
		}
		if v.isNil() && ok.isNil() {
			if last == nil || !st.notNil(st.resolve(last)) || k.mayContinue(st) {
				k.bad(st, ev, "answer", "the answers are thrown away although no error ended the search")
			}
			return
		}
		if !k.is(st, v, "resV") || !k.is(st, ok, "resS") {
			if st.getT("resV") == nil || st.getT("resS") == nil {
				k.undecided(st, "the results are built in another way")
				return
			}
			k.bad(st, ev, "answer", "the results are not what has been collected")
			return
		}
		k.closeLevel(st, ev)
		if !all {
			// nothing is left to be asked for
			if o := st.getT("out"); st.getT("nextok") == nil || o != nil && !st.prove(lenOf(st, o).scale(-1)) {
				if last == nil || k.noErr(st) || k.mayContinue(st) {
					k.bad(st, ev, "answer", "gives up before every level was asked for the keys not found")
				}
			}
		}
	}
}

func lastOf(ts []*Term) *Term {
	if len(ts) == 0 {
		return nil
	}
	return ts[len(ts)-1]
}

// newOut: another slice for the misses; what was kept before is not in it
func (k *batchCheck) newOut(st *State, b *Term) {
	first := st.getT("out") == nil
	st.setT("out", b)
	st.setT("nextok", nil)
	if first {
		return
	}
	if st.getT("#cur") != nil && !eqLin(st, st.linOf(st.getT("#cur")), st.linOf(st.x.T.Int(0))) {
		k.finish(st)
		st.setT("okN", nil)
	}
	st.setT("doneN", nil)
}

func init() {
	register(&Property{ID: "C37", Run: func(c *Ctx) {
		c.rules["order"] = "the levels are asked in their order, each for exactly the keys not found before, and not after an error that ends the search"
		c.rules["writeback"] = "each earlier level gets exactly the keys and values found, with its own ttl"
		c.rules["answer"] = "every answer reaches all positions of its key; the error is that of the last level asked"
		k := &batchCheck{}
		k.c = c
		k.on = map[string]bool{"order": true, "writeback": true, "answer": true}
		if !k.find() {
			return
		}
		k.name = "MGet"
		f := c.Fn(cachePkg, "Chain.MGet")
		if f == nil {
			return
		}
		for _, cont := range []bool{false, true} {
			k.heads, k.passes = map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
			c.Run(f, &Config{Event: k.event, Model: k.model, Keep: k.keep, KeepInLoops: true, EqTemplates: true, NoInline: func(*ssa.Function) bool { return false }}, func(st *State, ps []*Term) {
				k.init(st, ps)
				st.heap[fAddr(st, ps[0], k.contF)] = st.x.T.Bool(cont)
				st.setT("cont", st.x.T.Bool(cont))
				for _, m := range []string{"up", "down", "#d"} {
					st.setT(m, nil)
				}
			})
		}
		c.Min("order", 1)
		c.Min("answer", 1)
	}})
}
