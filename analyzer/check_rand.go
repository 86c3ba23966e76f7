package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Pseudo-random numbers: ranges of the results, and which positions Shuffle,
// Perm and Read deal with.

const randPkg = "hack/fastrand"

func isIntResult(sig *types.Signature) bool {
	return sig.Results().Len() == 1 && isInt(sig.Results().At(0).Type())
}

func randRanges(c *Ctx) {
	g := &ranges{p: c.P, fns: map[string]bool{}}
	pkg := c.P.SPkg[randPkg]
	for _, name := range []string{"Int", "Int31", "Int63", "Int31n", "Int63n", "Intn", "Uint32n", "Uint64n", "Uintn", "Float64", "Float32"} {
		var fn *ssa.Function
		if pkg != nil {
			if gl, ok := pkg.Members[name].(*ssa.Global); ok {
				fn = onceFunc(gl)
			}
		}
		if fn == nil {
			fn = c.Fn(randPkg, name)
		}
		if fn == nil || fn.Signature.Results().Len() != 1 || fn.Signature.Params().Len() > 1 {
			continue
		}
		c.entries = append(c.entries, fname(fn))
		f := &rframe{fn: fn, in: map[ssa.Value]*rng{}, busy: map[ssa.Value]bool{}}
		if fn.Signature.Params().Len() == 1 {
			_, hi, ok := typeBounds(c.P, fn.Signature.Params().At(0).Type())
			if !ok {
				c.Undecided(name, "the argument is no integer")
				continue
			}
			f.args = []*rng{{lo: bi(1), hi: hi, up: []sb{{bi(1), bi(0)}}}}
		}
		r := g.result(f, 0)
		c.Ob("range", fname(fn))
		c.N("range")
		ok, want := false, ""
		switch {
		case r.empty:
			c.Bad(nil, "range", fname(fn), fn.Pos(), "never gives a result")
			continue
		case r.float:
			ok, want = r.flo >= 0 && r.fhi < 1, "[0, 1)"
		case len(f.args) == 1:
			ok, want = r.lo.Sign() >= 0 && r.under(sb{bi(1), bi(-1)}), "[0, n)"
		default:
			ok, want = r.lo.Sign() >= 0, "the numbers that are not negative"
		}
		if ok {
			continue
		}
		if r.vague || r.float && math.IsInf(r.fhi, 0) {
			c.Undecided(fname(fn), "the range of the result depends on "+r.why)
			continue
		}
		c.Bad(nil, "range", fname(fn), fn.Pos(), fmt.Sprintf("the result ranges over %v, not within %s", r, want))
	}
	for f := range g.fns {
		_ = f
		c.N("functions with ranges")
	}
	c.steps += g.ops
	c.calls += g.calls
}

type randCheck struct {
	c    *Ctx
	name string
	ps   []*Term
	kind string
}

func (k *randCheck) at(ev *Ev) string { return where(ev) + " in " + k.name }

func (k *randCheck) bad(st *State, ev *Ev, rule, msg string) {
	k.c.Bad(st, rule, k.at(ev), ev.Pos, msg)
}

func (k *randCheck) ob(ev *Ev, rule string) {
	k.c.Ob(rule, k.at(ev))
	k.c.N(rule)
}

// panics exactly for n ≤ 0
func (k *randCheck) argument(st *State, ev *Ev) {
	if ev.Kind != "exit" {
		return
	}
	k.ob(ev, "argument")
	n := st.linOf(k.ps[0])
	if ev.Panics && !st.prove(n.scale(-1)) {
		k.bad(st, ev, "argument", "panics although n may be positive")
	}
	if !ev.Panics && !st.prove(n.addk(-1)) {
		k.bad(st, ev, "argument", "gives a result although n may be zero or negative")
	}
}

// draws of a number below a bound
func (k *randCheck) model(st *State, c *Call) ([]Out, bool) {
	f := c.Static
	if f == nil || f.Pkg == nil || !isIntResult(f.Signature) || f.Signature.Params().Len() != 1 || f.Signature.Recv() != nil {
		return nil, false
	}
	if rel(f.Pkg.Pkg.Path()) != randPkg && !strings.HasPrefix(f.Pkg.Pkg.Path(), "math/rand") {
		return nil, false
	}
	switch f.Name() {
	case "Intn", "Int31n", "Int63n", "Uint32n", "Uint64n", "Uintn", "IntN", "Int32N", "Int64N", "Uint32N", "Uint64N", "UintN":
	default:
		return nil, false
	}
	T := st.x.T
	b := c.Args[0]
	k.c.Ob("draw", fname(c.Fn)+" in "+k.name)
	k.c.N("draw")
	where := fname(c.Fn) + " in " + k.name
	l := st.linOf(b)
	if !st.prove(l.addk(-1)) {
		k.c.Bad(st, "draw", where, c.Instr.Pos(), "the bound of the number drawn may be zero or negative, or too big for its type")
	}
	r := T.sym("draw", c.ResTypes()[0])
	st.addLin(linTerm(r))
	st.addLin(l.add(linTerm(r), -1).addk(-1))
	ev := &Ev{Instr: c.Instr, Pos: c.Instr.Pos()}
	return []Out{{Res: []*Term{r}, Do: func(s *State) { k.drawn(s, ev, where, r, b) }}}, true
}

// A step is a position and the number drawn for it. For Shuffle the draw may
// belong to more than one way of going through the positions (downwards,
// upwards among those before, upwards among those left); a way that does not
// fit what is exchanged is given up.
var ways = []string{"b", "f", "w"}

func (k *randCheck) pending(st *State, way string) (pos, r Lin, ok bool) {
	p := st.getT("step." + way)
	if p == nil {
		return
	}
	return st.linOf(p.args[0]), st.linOf(p.args[1]), true
}

func (k *randCheck) drawn(st *State, ev *Ev, where string, r, bound *Term) {
	k.finish(st, where, ev.Pos)
	T := st.x.T
	b := st.linOf(bound)
	if k.kind == "perm" {
		n := st.getT("#k")
		if n == nil {
			k.c.Undecided(k.name, "builds the result in another way")
			st.dead = true
			return
		}
		if eqLin(st, b.addk(-1), st.linOf(n)) {
			st.setT("step.p", T.tuple(n, r))
			inc(st, "#k")
			return
		}
		k.c.Bad(st, "draw", where, ev.Pos, "the number drawn is not bounded by the number of values placed so far")
		return
	}
	hi, lo, fw := st.getT("#s.b"), st.getT("#s.f"), st.getT("#s.w")
	hit := false
	if hi != nil && eqLin(st, b, st.linOf(hi)) {
		dec(st, "#s.b")
		st.setT("step.b", T.tuple(st.getT("#s.b"), r))
		hit = true
	}
	if lo != nil && eqLin(st, b.addk(-1), st.linOf(lo)) {
		st.setT("step.f", T.tuple(lo, r))
		inc(st, "#s.f")
		hit = true
	}
	if fw != nil && eqLin(st, b, st.linOf(k.ps[0]).add(st.linOf(fw), -1)) {
		st.setT("step.w", T.tuple(fw, st.x.termOf(st.linOf(fw).add(st.linOf(r), 1), types.Typ[types.Int])))
		inc(st, "#s.w")
		hit = true
	}
	if !hit {
		k.c.Bad(st, "draw", where, ev.Pos, "the number is not drawn from exactly the positions that are left")
	}
}

func (k *randCheck) giveUp(st *State, way string) {
	st.setT("step."+way, nil)
	st.setT("#s."+way, nil)
}

// finish: the step before has to be complete
func (k *randCheck) finish(st *State, where string, pos token.Pos) {
	if k.kind == "perm" {
		p, r, ok := k.pending(st, "p")
		if !ok {
			return
		}
		if st.getT("p2") == nil || st.getT("p1") == nil && !eqLin(st, p, r) {
			k.c.Bad(st, "positions", where, pos, "a value is drawn but not put in its place")
		}
	} else if st.getT("done") == nil {
		any, left := false, false
		for _, w := range ways {
			p, r, ok := k.pending(st, w)
			if !ok {
				continue
			}
			any = true
			if eqLin(st, p, r) {
				left = true
			} else {
				k.giveUp(st, w)
			}
		}
		if any && !left {
			k.c.Bad(st, "positions", where, pos, "a position is drawn but nothing is exchanged")
		}
	}
	for _, m := range []string{"step.p", "step.b", "step.f", "step.w", "p1", "p2", "done", "old"} {
		st.setT(m, nil)
	}
}

func (k *randCheck) shuffle(st *State, ev *Ev) {
	n := st.linOf(k.ps[0])
	switch ev.Kind {
	case "backedge":
		k.finish(st, k.at(ev), ev.Pos)
	case "callback":
		if st.resolve(ev.Addr) != k.ps[1] || len(ev.Args) != 2 {
			return
		}
		k.ob(ev, "positions")
		a, b := st.linOf(ev.Args[0]), st.linOf(ev.Args[1])
		for _, l := range []Lin{a, b} {
			if !st.prove(l) || !st.prove(n.add(l, -1).addk(-1)) {
				k.bad(st, ev, "positions", "calls swap with an index that may be out of range")
				return
			}
		}
		ok := false
		for _, w := range ways {
			p, r, has := k.pending(st, w)
			if !has {
				continue
			}
			if st.getT("done") == nil && (eqLin(st, a, p) && eqLin(st, b, r) || eqLin(st, b, p) && eqLin(st, a, r)) {
				ok = true
			} else {
				k.giveUp(st, w)
			}
		}
		if !ok {
			k.bad(st, ev, "positions", "the two positions exchanged are not the next one and the one drawn for it")
			return
		}
		st.setT("done", st.x.T.Bool(true))
	case "exit":
		k.ob(ev, "all")
		if ev.Panics {
			if !st.prove(n.scale(-1).addk(-1)) {
				k.bad(st, ev, "all", "panics although n may not be negative")
			}
			return
		}
		k.finish(st, k.at(ev), ev.Pos)
		if !st.prove(n) {
			k.bad(st, ev, "all", "returns although n may be negative")
		}
		b, f, w := st.getT("#s.b"), st.getT("#s.f"), st.getT("#s.w")
		if !(st.prove(linConst(1).add(n, -1)) || b != nil && st.prove(linConst(1).add(st.linOf(b), -1)) || f != nil && st.prove(st.linOf(f).add(n, -1)) ||
			w != nil && st.prove(st.linOf(w).add(n, -1).addk(1))) {
			k.bad(st, ev, "all", "a position may be left out")
		}
	}
}

func (k *randCheck) perm(st *State, ev *Ev) {
	T := st.x.T
	n := st.linOf(k.ps[0])
	m := st.getT("m")
	off := func(a *Term) (Lin, bool) {
		if a.k != TIA || m == nil {
			return Lin{}, false
		}
		root, o := region(st, a.args[0])
		if root != st.resolve(m) {
			return Lin{}, false
		}
		return o.add(st.linOf(a.args[1]), 1), true
	}
	switch ev.Kind {
	case "make":
		if _, ok := ev.Val.typ.Underlying().(*types.Slice); !ok {
			return
		}
		if m != nil {
			k.c.Undecided(k.name, "uses more than one slice")
			st.dead = true
			return
		}
		st.setT("m", ev.Val)
		st.setT("#k", T.Int(0))
	case "append", "copy":
		k.c.Undecided(k.name, "builds the result in another way")
		st.dead = true
	case "edge":
		// position 0 of a new slice holds 0
		if m == nil || st.getT("wrote") != nil || !st.prove(st.linOf(st.getT("#k")).scale(-1)) {
			return
		}
		for _, a := range ev.Args {
			if c, ok := a.intVal(); ok && c == 1 {
				st.setT("#k", T.Int(1))
			}
		}
	case "index":
		root, o := region(st, ev.Addr)
		if m == nil || root != st.resolve(m) {
			return
		}
		k.ob(ev, "positions")
		i := o.add(st.linOf(ev.Val), 1)
		if !st.prove(i) || !st.prove(n.add(i, -1).addk(-1)) {
			k.bad(st, ev, "positions", "an index may be out of range")
		}
	case "load":
		if i, ok := off(ev.Addr); ok && st.getT("p1") == nil && st.getT("p2") == nil {
			if _, r, ok := k.pending(st, "p"); ok && eqLin(st, i, r) {
				st.setT("old", ev.Val)
			}
		}
	case "store":
		i, ok := off(ev.Addr)
		if !ok {
			return
		}
		k.ob(ev, "positions")
		st.setT("wrote", T.Bool(true))
		p, r, has := k.pending(st, "p")
		if !has {
			k.c.Undecided(k.name, "builds the result in another way")
			st.dead = true
			return
		}
		v := st.linOf(ev.Val)
		old := st.getT("old")
		switch {
		case eqLin(st, i, r) && eqLin(st, v, p):
			st.setT("p2", T.Bool(true))
		case eqLin(st, i, p) && old != nil && (st.resolve(old) == st.resolve(ev.Val) || eqLin(st, st.linOf(old), v)):
			if st.getT("p2") != nil && !st.prove(p.add(r, -1).addk(-1)) {
				k.bad(st, ev, "positions", "a value just placed may be overwritten")
			}
			st.setT("p1", T.Bool(true))
		default:
			k.bad(st, ev, "positions", "what is stored is neither the value that has to move nor the new one")
		}
	case "backedge":
		k.finish(st, k.at(ev), ev.Pos)
		st.setT("old", nil)
	case "exit":
		k.ob(ev, "all")
		if ev.Panics {
			if !st.prove(n.scale(-1).addk(-1)) {
				k.bad(st, ev, "all", "panics although n may not be negative")
			}
			return
		}
		k.finish(st, k.at(ev), ev.Pos)
		if m == nil || len(ev.Res) != 1 {
			k.c.Undecided(k.name, "builds the result in another way")
			return
		}
		root, o := region(st, ev.Res[0])
		if root != st.resolve(m) || !eqLin(st, o, linConst(0)) || !eqLin(st, lenOf(st, ev.Res[0]), n) {
			k.bad(st, ev, "all", "the result is not the slice of n values")
			return
		}
		kk := st.linOf(st.getT("#k"))
		if !(st.prove(kk.add(n, -1)) || st.getT("wrote") == nil && st.prove(linConst(1).add(n, -1))) {
			k.bad(st, ev, "all", "a value may be missing")
		}
	}
}

func (k *randCheck) readModel(st *State, c *Call) ([]Out, bool) {
	if c.Static != nil && inRepo(c.Static) || len(c.Args) == 0 {
		return nil, false
	}
	for i, w := range map[string]int64{"PutUint64": 8, "PutUint32": 4, "PutUint16": 2} {
		if strings.HasPrefix(c.Callee, "encoding/binary.") && strings.HasSuffix(c.Callee, "."+i) {
			a := c.Args[len(c.Args)-2]
			k.fill(st, &Ev{Instr: c.Instr, Pos: c.Instr.Pos()}, fname(c.Fn), a, linConst(0), w)
			return []Out{{}}, true
		}
	}
	for _, a := range c.Args {
		if root, _ := region(st, a); root == k.ps[0] && !strings.HasPrefix(c.Callee, "builtin:") {
			k.c.Undecided(k.name, "hands the slice to "+c.Callee)
			st.dead = true
			return nil, true
		}
	}
	return nil, false
}

// fill: w bytes at base[off:] are written
func (k *randCheck) fill(st *State, ev *Ev, where string, base *Term, off Lin, w int64) {
	root, o := region(st, base)
	if root != k.ps[0] {
		return
	}
	k.c.Ob("positions", where+" in "+k.name)
	k.c.N("positions")
	at := o.add(off, 1)
	n := lenOf(st, k.ps[0])
	if !st.prove(at) || !st.prove(n.add(at, -1).addk(-w)) {
		k.c.Bad(st, "positions", where+" in "+k.name, ev.Pos, "memory outside of the slice may be written")
		return
	}
	f, b := st.getT("#r.f"), st.getT("#r.b")
	if f != nil && eqLin(st, at, st.linOf(f)) {
		st.setT("#r.f", settled(st, at.addk(w)))
		return
	}
	if b != nil && eqLin(st, at.addk(w), st.linOf(b)) {
		st.setT("#r.b", settled(st, at))
		return
	}
	// writing again, or ahead: what counts is what is contiguous
	if st.prove(st.linOf(f).add(at, -1)) && st.prove(at.addk(w).add(st.linOf(f), -1)) {
		st.setT("#r.f", settled(st, at.addk(w)))
	}
}

// drawnBits: the w low bytes of v are not constant
func drawnBits(st *State, v *Term, w int64) bool {
	v = st.resolve(v)
	for v.k == TOp && strings.HasPrefix(v.op, "conv:") {
		v = st.resolve(v.args[0])
	}
	if _, ok := v.intVal(); ok {
		return false
	}
	if v.k != TOp || len(v.args) != 2 {
		return true
	}
	left := linConst(8 * (int64(sizeOf(v.args[0].typ)) - w))
	switch v.op {
	case ">>":
		return st.prove(left.add(st.linOf(v.args[1]), -1))
	case "/":
		if d, ok := v.args[1].intVal(); ok && d > 0 {
			return bits.Len64(uint64(d))-1 <= int(left.k)
		}
	}
	return true
}

func (k *randCheck) read(st *State, ev *Ev) {
	n := func() Lin { return lenOf(st, k.ps[0]) }
	switch ev.Kind {
	case "phi":
		phiRegion(st, ev)
	case "loopentry", "backedge":
		for _, name := range []string{"#r.f", "#r.b"} {
			f := st.getT(name)
			for _, in := range ev.Instr.Block().Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v := st.top().env[p]
				if v == nil {
					continue
				}
				if lenable(p.Type()) {
					l := st.linOf(f).add(lenOf(st, v), 1).add(n(), -1)
					if st.prove(l) && st.prove(l.scale(-1)) {
						st.addLinForce(l)
						st.addLinForce(l.scale(-1))
					}
				}
				if !isInt(p.Type()) {
					continue
				}
				if l := st.linOf(v).scale(-1).addk(7); st.prove(l) {
					st.addLinForce(l)
				}
				for _, s := range []int64{8, 4, 1} {
					for _, l := range []Lin{
						st.linOf(f).add(st.linOf(v).scale(s), -1),
						st.linOf(f).add(st.linOf(v).scale(s), 1).add(n(), -1),
					} {
						if st.prove(l) && st.prove(l.scale(-1)) {
							st.addLinForce(l)
							st.addLinForce(l.scale(-1))
						}
					}
				}
			}
		}
	case "store":
		a := ev.Addr
		if a.k != TIA {
			return
		}
		root, _ := region(st, a.args[0])
		if root != k.ps[0] {
			return
		}
		st2, ok := ev.Instr.(*ssa.Store)
		if !ok {
			return
		}
		w := int64(sizeOf(st2.Val.Type()))
		stride := int64(1)
		if ia, ok := st2.Addr.(*ssa.IndexAddr); ok {
			if s, ok := ia.X.Type().Underlying().(*types.Slice); ok {
				stride = int64(sizeOf(s.Elem()))
			}
		}
		if a.args[0].k == TOp && a.args[0].op == "slice" && stride != 1 {
			k.c.Undecided(k.name, "slices of words")
			st.dead = true
			return
		}
		k.fill(st, ev, where(ev), a.args[0], st.linOf(a.args[1]).scale(stride), w)
		if !drawnBits(st, ev.Val, w) {
			k.bad(st, ev, "positions", "bits that are stored may be no drawn ones")
		}
	case "copy":
		root, o := region(st, ev.Addr)
		if root != k.ps[0] {
			return
		}
		f := st.getT("#r.f")
		ln := Lin{}
		a, b := lenOf(st, ev.Addr), lenOf(st, ev.Val)
		switch {
		case st.prove(a.add(b, -1)):
			ln = b
		case st.prove(b.add(a, -1)):
			ln = a
		default:
			k.c.Undecided(k.name, "copies as many bytes as fit")
			st.dead = true
			return
		}
		k.ob(ev, "positions")
		if eqLin(st, o, st.linOf(f)) {
			st.setT("#r.f", settled(st, o.add(ln, 1)))
		}
	case "exit":
		k.ob(ev, "all")
		if ev.Panics {
			k.bad(st, ev, "all", "panics")
			return
		}
		f, b := st.linOf(st.getT("#r.f")), st.linOf(st.getT("#r.b"))
		if !st.prove(f.add(n(), -1)) && !st.prove(b.scale(-1)) && !st.prove(f.add(b, -1)) {
			k.bad(st, ev, "all", "a byte may be left as it was")
		}
		if !eqLin(st, st.linOf(ev.Res[0]), n()) || !st.resolve(ev.Res[1]).isNil() {
			k.bad(st, ev, "all", "the answer is not the length and no error")
		}
	}
}

func (k *randCheck) run(name, kind string) {
	fn := k.c.Fn(randPkg, name)
	if fn == nil {
		return
	}
	k.name, k.kind = name, kind
	cfg := &Config{Bounds: true, NoInline: func(*ssa.Function) bool { return false }}
	switch kind {
	case "argument":
		cfg.Event = k.argument
	case "shuffle":
		cfg.Event, cfg.Model = k.shuffle, k.model
	case "perm":
		cfg.Event, cfg.Model = k.perm, k.model
		cfg.Fork = func(*State, *Term) *Term { return nil }
	case "read":
		cfg.Event, cfg.Model = k.read, k.readModel
	}
	k.c.Run(fn, cfg, func(st *State, ps []*Term) {
		T := st.x.T
		k.ps = ps
		switch kind {
		case "shuffle":
			s := T.sym("n", types.Typ[types.Int])
			l := linTerm(s).add(st.linOf(ps[0]), -1)
			st.addLin(l)
			st.addLin(l.scale(-1))
			st.setT("#s.b", s)
			st.setT("#s.f", T.Int(1))
			st.setT("#s.w", T.Int(0))
		case "read":
			st.atomFacts(T.op("len", types.Typ[types.Int], ps[0]))
			st.setT("#r.f", T.Int(0))
			s := T.sym("n", types.Typ[types.Int])
			l := linTerm(s).add(lenOf(st, ps[0]), -1)
			st.addLin(l)
			st.addLin(l.scale(-1))
			st.setT("#r.b", s)
		}
	})
}

func init() {
	register(&Property{ID: "C33", Run: func(c *Ctx) {
		c.rules["range"] = "interval of the result over all draws, for every argument of at least 1"
		c.rules["argument"] = "panics on exactly the paths where n is not positive"
		randRanges(c)
		k := &randCheck{c: c}
		for _, n := range []string{"Int31n", "Int63n", "Intn"} {
			k.run(n, "argument")
		}
		c.Min("range", 11)
	}})
	register(&Property{ID: "C34", Run: func(c *Ctx) {
		c.rules["draw"] = "every number is drawn from exactly the positions that are left"
		c.rules["positions"] = "what is exchanged, placed or filled is the next position and the one drawn for it, inside the bounds"
		c.rules["all"] = "no position is left out; the answer is the documented one"
		k := &randCheck{c: c}
		k.run("Shuffle", "shuffle")
		k.run("Perm", "perm")
		k.run("Read", "read")
		c.Min("all", 3)
	}})
}
