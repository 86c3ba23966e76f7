package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Collecting errors: every error that a sub-operation returns and that may be
// non-nil must reach the returned error.
type errAcc struct {
	bad    func(st *State, ev *Ev, msg string)
	excuse func(st *State, e *Term) bool
}

func (a *errAcc) add(st *State, ev *Ev, e *Term) {
	a.settle(st, ev)
	st.setT("pend", e)
}

func (a *errAcc) nilT(st *State, e *Term) bool {
	return st.isNilT(e) || st.knownEq(e, st.x.T.Nil())
}

func (a *errAcc) settle(st *State, ev *Ev) {
	p := st.getT("pend")
	if p == nil {
		return
	}
	if !a.nilT(st, p) && (a.excuse == nil || !a.excuse(st, p)) {
		a.bad(st, ev, "an error that a step returned is dropped")
	}
	st.setT("pend", nil)
}

func (a *errAcc) event(st *State, ev *Ev) {
	switch {
	case ev.Kind == "append":
		a.sink(st, ev, ev.Addr, ev.Val, st.elems(ev.Args[len(ev.Args)-1]))
	case ev.Kind == "call" && (ev.Callee == "errors.Join" || ev.Callee == "fmt.Errorf") && len(ev.Args) > 0:
		es := ev.Args
		if ev.Callee != "errors.Join" {
			es = st.elems(ev.Args[len(ev.Args)-1])
		}
		var base *Term
		for _, e := range es {
			if hasTaint(st.taintOf(e), "errs") {
				base = e
			}
		}
		a.sink(st, ev, base, ev.Res[0], es)
	}
}

func (a *errAcc) sink(st *State, ev *Ev, base, res *Term, es []*Term) {
	p := st.getT("pend")
	hit := false
	for _, e := range es {
		e = unbox(st.resolve(e))
		if p != nil && (e == p) {
			hit = true
		}
	}
	if !hit {
		return
	}
	if st.getT("some") != nil && (base == nil || !hasTaint(st.taintOf(base), "errs")) {
		a.bad(st, ev, "the errors collected so far are dropped")
	}
	if st.getT("some") == nil && !a.nilT(st, p) {
		st.setT("some", st.x.T.Bool(true))
	}
	st.addTaint(res, "errs")
	st.setT("pend", nil)
}

func (a *errAcc) exit(st *State, ev *Ev, res *Term) {
	res = unbox(st.resolve(res))
	if p := st.getT("pend"); p != nil && res == p && st.getT("some") == nil {
		st.setT("pend", nil)
		return
	}
	a.settle(st, ev)
	if st.getT("some") != nil {
		if !hasTaint(st.taintOf(res), "errs") {
			a.bad(st, ev, "the errors that steps returned are not returned")
		}
		return
	}
	if res.isNil() || hasTaint(st.taintOf(res), "errs") {
		return
	}
	if i, ok := res.instr.(*ssa.Call); ok && res.k == TSym && i.Call.StaticCallee() != nil && fname(i.Call.StaticCallee()) == "errors.Join" {
		return // no errors were collected: Join of none is nil
	}
	if a.nilT(st, res) {
		return
	}
	a.bad(st, ev, "returns an error although every step succeeded")
}

// ---- the multi-level cache

type chainCheck struct {
	c              *Ctx
	on             map[string]bool
	name           string
	ps             []*Term
	acc            errAcc
	cachesF, contF *types.Var // of Chain
	cacheF, ttlF   *types.Var // of ChainItem
}

func (k *chainCheck) bad(st *State, ev *Ev, rule, msg string) {
	if k.on[rule] {
		k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
	}
}
func (k *chainCheck) ob(ev *Ev, rule string) {
	if k.on[rule] {
		k.c.Ob(rule, where(ev)+" in "+k.name)
		k.c.N(rule)
	}
}

func (k *chainCheck) find() bool {
	c := k.c
	fld := func(n string, f func(t types.Type, v *types.Var) bool) *types.Var {
		nm := c.P.named(cachePkg, n)
		if nm == nil {
			return nil
		}
		s, _ := nm.Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if f(s.Field(i).Type(), s.Field(i)) {
				return s.Field(i).Origin()
			}
		}
		return nil
	}
	k.cachesF = fld("Chain", func(t types.Type, v *types.Var) bool { return v.Name() == "Caches" })
	k.contF = fld("Chain", func(t types.Type, v *types.Var) bool { return v.Name() == "ContinueOnReadErr" })
	k.cacheF = fld("ChainItem", func(t types.Type, v *types.Var) bool { return v.Name() == "Cache" })
	k.ttlF = fld("ChainItem", func(t types.Type, v *types.Var) bool { return v.Name() == "TTL" })
	if k.cachesF == nil || k.contF == nil || k.cacheF == nil || k.ttlF == nil {
		c.Bad(nil, "anchor", cachePkg+".Chain", 0, "an exported field of Chain or ChainItem is gone")
		return false
	}
	return true
}

func (k *chainCheck) caches(st *State) *Term { return st.heap[fAddr(st, k.ps[0], k.cachesF)] }
func (k *chainCheck) cont(st *State) *Term {
	if t := st.getT("cont"); t != nil {
		return t
	}
	return st.heap[fAddr(st, k.ps[0], k.contF)]
}

// records of which level a loaded value belongs to: a short list, newest first
func (k *chainCheck) record(st *State, kind string, v, i *Term) {
	const n = 2
	if t := st.getT(kind + "0"); t != nil && t.args[0] == v && t.args[1] == i {
		return
	}
	for j := n - 1; j > 0; j-- {
		st.setT(kind+string(rune('0'+j)), st.getT(kind+string(rune('0'+j-1))))
	}
	st.setT(kind+"0", st.x.T.tuple(v, i))
}
func (k *chainCheck) levels(st *State, kind string, v *Term) []*Term {
	var out []*Term
	for j := 0; j < 2; j++ {
		if t := st.getT(kind + string(rune('0'+j))); t != nil && t.args[0] == v {
			out = append(out, t.args[1])
		}
	}
	return out
}

func same(st *State, a, b *Term) bool {
	return a != nil && b != nil && st.proveLE(a, b) && st.proveLE(b, a)
}

func (k *chainCheck) load(st *State, ev *Ev) {
	a := ev.Addr
	if a.k == TIA && a.args[0] == k.caches(st) {
		k.record(st, "el", ev.Val, a.args[1])
	}
	if a.k == TFA && (a.fld == k.cacheF || a.fld == k.ttlF) {
		kind := "ca"
		if a.fld == k.ttlF {
			kind = "tt"
		}
		for _, i := range k.levels(st, "el", a.args[0]) {
			k.record(st, kind, ev.Val, i)
		}
	}
}

// level: the index of the level whose cache is recv
func (k *chainCheck) level(st *State, recv *Term) *Term {
	if l := k.levels(st, "ca", recv); len(l) > 0 {
		return l[0]
	}
	return nil
}
func (k *chainCheck) ttlOf(st *State, t, lvl *Term) bool {
	for _, i := range k.levels(st, "tt", t) {
		if same(st, i, lvl) {
			return true
		}
	}
	return false
}

func (k *chainCheck) init(st *State, ps []*Term) {
	T := st.x.T
	k.ps = ps
	ps[0].nonnil = true
	cs := T.root("caches", k.cachesF.Type())
	ct := T.root("continueOnReadErr", types.Typ[types.Bool])
	st.heap[fAddr(st, ps[0], k.cachesF)] = cs
	st.heap[fAddr(st, ps[0], k.contF)] = ct
	st.atomFacts(T.op("len", types.Typ[types.Int], cs))
	for _, n := range []string{"#q", "#w"} {
		st.setT(n, T.Int(0))
	}
	if k.name == "Get" {
		return
	}
	k.start(st, st.x.arith(st, "-", k.nCaches(st), T.Int(1), types.Typ[types.Int]))
}

func (k *chainCheck) keep(st *State, a *Term) bool {
	if a.k == TFA && (a.fld == k.cachesF || a.fld == k.contF || a.fld == k.cacheF || a.fld == k.ttlF) {
		return true
	}
	if a.k != TIA {
		return false
	}
	if a.args[0] == k.caches(st) {
		return true
	}
	for _, p := range k.ps {
		if a.args[0] == p {
			return true
		}
	}
	return false
}

func ifaceMethod(ev *Ev) string {
	if ev.Kind != "callback" || !strings.HasPrefix(ev.Callee, "iface:") {
		return ""
	}
	return ev.Callee[strings.LastIndexByte(ev.Callee, '.')+1:]
}

func inc(st *State, n string) {
	st.setT(n, st.x.arith(st, "+", st.getT(n), st.x.T.Int(1), types.Typ[types.Int]))
}

func dec(st *State, n string) {
	st.setT(n, st.x.arith(st, "-", st.getT(n), st.x.T.Int(1), types.Typ[types.Int]))
}

// A run over the levels may go up from 0 (counted by a ghost) or down from
// the last one (#d); it has to keep to one direction.
func (k *chainCheck) start(st *State, last *Term) {
	st.setT("#d", last)
	st.setT("up", st.x.T.Bool(true))
	st.setT("down", st.x.T.Bool(true))
}

func (k *chainCheck) step(st *State, l, up *Term) bool {
	if st.getT("up") != nil && !same(st, l, up) {
		st.setT("up", nil)
	}
	if st.getT("down") != nil && !same(st, l, st.getT("#d")) {
		st.setT("down", nil)
	}
	return st.getT("up") != nil || st.getT("down") != nil
}

func (k *chainCheck) finished(st *State, n, up *Term) bool {
	return st.getT("up") != nil && st.proveLE(n, up) || st.getT("down") != nil && st.proveLE(st.getT("#d"), st.x.T.Int(-1))
}

func (k *chainCheck) nCaches(st *State) *Term {
	return st.x.T.op("len", types.Typ[types.Int], k.caches(st))
}

// ---- Get

func (k *chainCheck) get(st *State, ev *Ev) {
	begin := func() {
		if h := st.getT("h"); h == nil || st.getT("wrote") != nil {
			return
		} else if v, known := st.truth(h); known && v {
			k.start(st, st.x.arith(st, "-", st.getT("#q"), st.x.T.Int(2), types.Typ[types.Int]))
		}
	}
	switch m := ifaceMethod(ev); {
	case ev.Kind == "load":
		k.load(st, ev)
	case m == "Get":
		k.ob(ev, "order")
		if l := k.level(st, ev.Args[0]); !same(st, l, st.getT("#q")) {
			k.bad(st, ev, "order", "the levels are not asked in their order, each once")
		}
		if len(ev.Args) < 3 || ev.Args[1] != k.ps[1] || ev.Args[2] != k.ps[2] {
			k.bad(st, ev, "order", "a level is asked for another key")
		}
		if h := st.getT("h"); h != nil {
			st.cases(h, func(s *State, hit bool) {
				if hit {
					k.bad(s, ev, "order", "goes on to the next level after a hit")
				}
			})
			if e := st.getT("e"); !k.acc.nilT(st, e) && !k.continues(st) {
				k.bad(st, ev, "order", "goes on after a read error without ContinueOnReadErr")
			}
		}
		st.setT("v", ev.Res[0])
		st.setT("h", ev.Res[1])
		st.setT("e", ev.Res[2])
		inc(st, "#q")
	case ev.Kind == "loopentry":
		begin()
	case m == "Set":
		k.ob(ev, "writeback")
		begin()
		st.setT("wrote", st.x.T.Bool(true))
		l := k.level(st, ev.Args[0])
		q, w := st.getT("#q"), st.getT("#w")
		if !k.step(st, l, w) {
			k.bad(st, ev, "writeback", "the write-back skips or repeats a level")
		}
		if l == nil || !st.proveLT(l, st.x.arith(st, "-", q, st.x.T.Int(1), q.typ)) {
			k.bad(st, ev, "writeback", "writes back to a level that was not asked before the hit")
		}
		if h := st.getT("h"); h == nil {
			k.bad(st, ev, "writeback", "writes to a level without a hit")
		} else {
			st.cases(h, func(s *State, hit bool) {
				if !hit {
					k.bad(s, ev, "writeback", "writes to a level without a hit")
				}
			})
		}
		if len(ev.Args) < 5 || ev.Args[2] != k.ps[2] || ev.Args[3] != st.getT("v") {
			k.bad(st, ev, "writeback", "writes back another key or value than the one found")
		} else if l == nil || !k.ttlOf(st, ev.Args[4], l) {
			k.bad(st, ev, "writeback", "writes back with a ttl that is not that of the level")
		}
		inc(st, "#w")
		dec(st, "#d")
	case m != "":
		k.bad(st, ev, "order", "calls "+m+" of a level")
	case ev.Kind == "exit" && !ev.Panics:
		begin()
		k.ob(ev, "answer")
		v, ok, e := st.resolve(ev.Res[0]), st.resolve(ev.Res[1]), st.resolve(ev.Res[2])
		h := st.getT("h")
		if h == nil {
			if !ok.isBool(false) || !e.isNil() {
				k.bad(st, ev, "answer", "reports a hit or an error without asking any level")
			}
			if !st.proveLE(k.nCaches(st), st.getT("#q")) {
				k.bad(st, ev, "answer", "returns without asking any level")
			}
			return
		}
		st.cases(h, func(s *State, hit bool) {
			s.cases(ok, func(s *State, said bool) {
				if hit != said {
					k.bad(s, ev, "answer", "the answer is not that of the last level asked")
				}
				if hit && said {
					if s.resolve(v) != s.getT("v") {
						k.bad(s, ev, "answer", "the value is not that of the level that hit")
					}
					if !k.acc.nilT(s, e) {
						k.bad(s, ev, "answer", "a hit comes with an error")
					}
					k.ob(ev, "writeback")
					if !k.finished(s, s.x.arith(s, "-", s.getT("#q"), st.x.T.Int(1), types.Typ[types.Int]), s.getT("#w")) {
						k.bad(s, ev, "writeback", "not every earlier level gets the value")
					}
				}
				if !hit && !said {
					if !s.proveLE(k.nCaches(s), s.getT("#q")) && (k.acc.nilT(s, s.getT("e")) || k.continues(s)) {
						k.bad(s, ev, "answer", "gives up before every level was asked")
					} else if !s.proveLE(k.nCaches(s), s.getT("#q")) && k.mayContinue(s) {
						k.bad(s, ev, "answer", "gives up before every level was asked although ContinueOnReadErr may be set")
					}
					if s.resolve(e) != s.getT("e") && !(k.acc.nilT(s, e) && k.acc.nilT(s, s.getT("e"))) {
						k.bad(s, ev, "answer", "the error of the last level asked is not returned")
					}
				}
			})
		})
	}
}

func (k *chainCheck) continues(st *State) bool {
	v, known := st.truth(k.cont(st))
	return known && v
}
func (k *chainCheck) mayContinue(st *State) bool {
	v, known := st.truth(k.cont(st))
	return !known || v
}

// ---- Set, MSet, Delete

func (k *chainCheck) write(st *State, ev *Ev) {
	T := st.x.T
	k.acc.event(st, ev)
	switch m := ifaceMethod(ev); {
	case ev.Kind == "load":
		k.load(st, ev)
	case m == k.name:
		k.ob(ev, "levels")
		l := k.level(st, ev.Args[0])
		q := st.getT("#q")
		if !k.step(st, l, q) {
			k.bad(st, ev, "levels", "a level is skipped or written twice")
		}
		n := len(ev.Args) - 1
		if k.name == "Delete" {
			n++
		}
		for i := 1; i < n; i++ {
			if ev.Args[i] != k.ps[i] {
				k.bad(st, ev, "levels", "a level is given another argument than the caller's")
			}
		}
		if k.name != "Delete" && (l == nil || !k.ttlOf(st, ev.Args[n], l)) {
			k.bad(st, ev, "ttl", "a level is written with a ttl other than its own")
		}
		if k.name != "Delete" {
			k.ob(ev, "ttl")
		}
		k.ob(ev, "errors")
		k.acc.add(st, ev, ev.Res[0])
		inc(st, "#q")
		dec(st, "#d")
	case m != "":
		k.bad(st, ev, "levels", "calls "+m+" of a level")
	case ev.Kind == "exit" && !ev.Panics:
		k.ob(ev, "errors")
		k.acc.exit(st, ev, ev.Res[0])
		k.ob(ev, "levels")
		if k.finished(st, k.nCaches(st), st.getT("#q")) {
			return
		}
		if k.name != "Set" && st.prove(st.linOf(T.op("len", types.Typ[types.Int], k.ps[2])).scale(-1)) {
			return
		}
		k.bad(st, ev, "levels", "returns before every level was reached")
	}
}

func chainProp(id string, ops []string, rules map[string]string, min map[string]int, expl string) {
	register(&Property{ID: id, Expl: expl, Run: func(c *Ctx) {
		k := &chainCheck{c: c, on: map[string]bool{}}
		for n, t := range rules {
			k.on[n] = true
			c.rules[n] = t
		}
		if !k.find() {
			return
		}
		for _, o := range ops {
			f := c.Fn(cachePkg, "Chain."+o)
			if f == nil {
				continue
			}
			k.name = o
			k.acc = errAcc{bad: func(st *State, ev *Ev, msg string) { k.bad(st, ev, "errors", msg) }}
			h := k.write
			if o == "Get" {
				h = k.get
			}
			c.Run(f, &Config{Event: h, Keep: k.keep}, k.init)
		}
		for n, m := range min {
			c.Min(n, m)
		}
	}, Assum: []string{"the fields of a Chain and of its items, and the key slices passed in, are not changed during a call"}})
}

func init() {
	chainProp("C09", []string{"Get"}, map[string]string{
		"order":     "the levels are asked in their order, each once, and not after a hit or after an error that ends the search",
		"writeback": "on a hit each earlier level gets the key and value found with its own ttl, and nothing else is written",
		"answer":    "the answer, value and error are those of the last level asked; the search ends early only on a hit, or an error without ContinueOnReadErr",
	}, map[string]int{"order": 1, "writeback": 1, "answer": 1}, "Calls of the levels are matched against counters kept by linear invariants over the loop.")
	chainProp("C10", []string{"Set", "MSet", "Delete"}, map[string]string{
		"levels": "every level is called exactly once with the caller's arguments",
		"ttl":    "each level is written with its own ttl",
		"errors": "an error of any level does not stop the others and is part of the error returned; no error without one",
	}, map[string]int{"levels": 3, "ttl": 2, "errors": 3}, "Calls of the levels are matched against counters kept by linear invariants; errors are followed from each level to the result.")
}
