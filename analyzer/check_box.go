package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values that are put into a box of the standard library (atomic.Value,
// sync.Pool) and taken out again: what is put in and what the constructor of
// the pool makes has one concrete type, and taking it out gives back exactly
// what was put in.

const (
	consPkg = "gogenerics/gconstraints"
	poolPkg = "gogenerics/gcontainers/gpool"
)

// shape says how a value is packed
type shape struct {
	ok  bool
	ptr bool // a pointer to the packed value
	typ types.Type
	fld int // field of the struct that holds it, or -1
}

type boxCheck struct {
	c     *Ctx
	name  string
	ps    []*Term
	shape shape
	lit   *ssa.Function
}

func (k *boxCheck) ob(ev *Ev, rule string) {
	k.c.Ob(rule, where(ev)+" in "+k.name)
	k.c.N(rule)
}

func (k *boxCheck) bad(st *State, ev *Ev, rule, msg string) {
	k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
}

// of finds how want is packed in v
func (k *boxCheck) of(st *State, v, want *Term) (shape, string) {
	v = st.resolve(v)
	if v == st.resolve(want) && isTP(want.typ) {
		return shape{ok: true, typ: want.typ, fld: -1}, ""
	}
	if v == st.resolve(want) && isInterface(want.typ) {
		return shape{}, "an interface value is put in as it is, so that values of different types meet in one place"
	}
	if v.k != TOp || v.op != "iface" {
		return shape{}, "?"
	}
	s := shape{ok: true, typ: v.args[0].typ, fld: -1}
	in := st.resolve(v.args[0])
	if in.alloc && s.typ != nil {
		if p, ok := s.typ.Underlying().(*types.Pointer); ok {
			s.ptr = true
			in = st.resolve(st.load(in, p.Elem(), "boxed", nil))
		}
	}
	if in == st.resolve(want) {
		return s, ""
	}
	t := s.typ
	if s.ptr {
		t = s.typ.Underlying().(*types.Pointer).Elem()
	}
	if str, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < str.NumFields(); i++ {
			if st.resolve(st.x.T.field(in, i, str.Field(i).Type())) == st.resolve(want) {
				s.fld = i
				return s, ""
			}
		}
	}
	return shape{}, "what is put in is not the value given"
}

func isInterface(t types.Type) bool {
	if t == nil || isTP(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// pack gives a box that holds v
func (k *boxCheck) pack(st *State, v *Term, res types.Type) *Term {
	T := st.x.T
	t := k.shape.typ
	if k.shape.fld < 0 {
		// the type as the method at hand names it
		if t = v.typ; k.shape.ptr {
			t = types.NewPointer(t)
		}
	}
	whole := t
	var p *types.Pointer
	if k.shape.ptr {
		p = t.Underlying().(*types.Pointer)
		t = p.Elem()
	}
	in := v
	if k.shape.fld >= 0 {
		str := t.Underlying().(*types.Struct)
		var fs []*Term
		for i := 0; i < str.NumFields(); i++ {
			if i == k.shape.fld {
				fs = append(fs, v)
			} else {
				fs = append(fs, T.sym("other", str.Field(i).Type()))
			}
		}
		in = T.strukt(fs, t)
	}
	if p != nil {
		a := T.sym("box", whole)
		a.alloc = true
		st.store(a, in)
		in = a
	}
	return T.op("iface", whole, in)
}

func (k *boxCheck) same(s shape) bool {
	return s.ok && s.ptr == k.shape.ptr && s.fld == k.shape.fld && originIdentical(s.typ, k.shape.typ)
}

// originIdentical: types of different methods name their type parameters apart
func originIdentical(a, b types.Type) bool {
	if types.Identical(a, b) {
		return true
	}
	ta, ok1 := a.(*types.TypeParam)
	tb, ok2 := b.(*types.TypeParam)
	if ok1 && ok2 {
		return ta.Index() == tb.Index()
	}
	switch x := a.(type) {
	case *types.Slice:
		y, ok := b.(*types.Slice)
		return ok && originIdentical(x.Elem(), y.Elem())
	case *types.Pointer:
		y, ok := b.(*types.Pointer)
		return ok && originIdentical(x.Elem(), y.Elem())
	case *types.Named:
		y, ok := b.(*types.Named)
		return ok && x.Origin() == y.Origin()
	}
	return false
}

// within: the address lies in the receiver
func (k *boxCheck) within(st *State, a *Term) bool {
	a = st.resolve(a)
	return a.base() == st.resolve(k.ps[0]).base()
}

func (k *boxCheck) put(st *State, ev *Ev, v, want *Term) {
	s, msg := k.of(st, v, want)
	switch {
	case msg == "?":
		k.c.Undecided(k.name, "stores the value in another form")
		st.dead = true
		return
	case !s.ok:
		k.bad(st, ev, "type", msg)
		return
	case !k.shape.ok:
		k.shape = s
	case !k.same(s):
		k.bad(st, ev, "type", "values of another type are put in here than elsewhere")
		return
	}
	inc(st, "#put")
}

func (k *boxCheck) common(st *State, ev *Ev) {
	if ev.Kind == "assert" {
		if in, ok := ev.Instr.(*ssa.TypeAssert); ok && !in.CommaOk {
			v := st.resolve(ev.Addr)
			if v.isNil() || v.k == TOp && v.op == "iface" {
				k.ob(ev, "panic")
				k.bad(st, ev, "panic", "a type assertion fails for what may have been put in")
				st.dead = true
			}
		}
	}
}

// atomic errors

func (k *boxCheck) setError(fn *ssa.Function) {
	k.name = "Set"
	other := false
	k.c.Run(fn, &Config{NoInline: func(*ssa.Function) bool { return false }, Event: func(st *State, ev *Ev) {
		k.common(st, ev)
		switch ev.Kind {
		case "astore", "aswap", "acas":
			if !k.within(st, ev.Addr) || ev.Kind == "acas" && ev.Detail != "ok" {
				return
			}
			k.ob(ev, "type")
			k.put(st, ev, ev.Val, k.ps[1])
		case "store":
			if k.within(st, ev.Addr) {
				other = true
			}
		case "exit":
			k.ob(ev, "answer")
			if ev.Panics {
				k.bad(st, ev, "panic", "panics")
				return
			}
			n := st.linOf(st.getT("#put"))
			if other {
				return
			}
			if !st.prove(n.addk(-1)) && !st.isNilT(st.resolve(k.ps[1])) {
				k.bad(st, ev, "answer", "an error that may not be nil is not stored")
			}
			if st.prove(n.addk(-1)) && !st.notNil(st.resolve(k.ps[1])) {
				k.bad(st, ev, "answer", "a nil error may overwrite the one stored")
			}
		}
	}}, func(st *State, ps []*Term) {
		k.ps = ps
		st.setT("#put", st.x.T.Int(0))
	})
	if other {
		k.c.Undecided("AtomicError", "is not kept in an atomic value")
	}
}

func (k *boxCheck) loadError(fn *ssa.Function) {
	k.name = "Load"
	k.c.Run(fn, &Config{NoInline: func(*ssa.Function) bool { return false },
		Model: func(st *State, c *Call) ([]Out, bool) {
			if !strings.HasPrefix(c.Callee, "sync/atomic.") || !strings.HasSuffix(c.Callee, "Load") || len(c.Args) != 1 || !k.within(st, c.Args[0]) {
				return nil, false
			}
			T := st.x.T
			t := c.ResTypes()[0]
			v := T.sym("stored", errorT())
			return []Out{
				{Res: []*Term{T.zero(t)}},
				{Res: []*Term{k.pack(st, v, t)}, Do: func(s *State) {
					s.setT("want", v)
					s.assume(s.mkEq(v, T.Nil()), false)
				}},
			}, true
		},
		Event: func(st *State, ev *Ev) {
			k.common(st, ev)
			if ev.Kind != "exit" {
				return
			}
			k.ob(ev, "answer")
			if ev.Panics {
				k.bad(st, ev, "panic", "panics")
				return
			}
			r := st.resolve(ev.Res[0])
			if w := st.getT("want"); w != nil && st.resolve(w) != r || w == nil && !st.isNilT(r) {
				k.bad(st, ev, "answer", "the result is not the error stored last, or nil if there is none")
			}
		}}, func(st *State, ps []*Term) { k.ps = ps })
}

func errorT() types.Type { return types.Universe.Lookup("error").Type() }

// pools

func (k *boxCheck) pool(typ, ctor string) {
	newFn, get, put := k.c.Fn(poolPkg, ctor), k.c.Fn(poolPkg, typ+".Get"), k.c.Fn(poolPkg, typ+".Put")
	if newFn == nil || get == nil || put == nil {
		return
	}
	array := typ == "ArrayPool"
	k.shape, k.lit = shape{}, nil
	k.name = typ + ".Put"
	poolCall := func(st *State, c *Call, op string) bool {
		return c.Callee == "sync.Pool."+op || strings.HasSuffix(c.Callee, "sync.Pool)."+op)
	}
	k.c.Run(put, &Config{NoInline: func(*ssa.Function) bool { return false },
		Model: func(st *State, c *Call) ([]Out, bool) {
			if !poolCall(st, c, "Put") {
				return nil, false
			}
			ev := &Ev{Kind: "put", Instr: c.Instr, Fn: c.Fn, Callee: c.Callee, Pos: c.Instr.Pos()}
			k.ob(ev, "type")
			if !k.within(st, c.Args[0]) {
				k.bad(st, ev, "answer", "the value goes to another pool")
			}
			k.put(st, ev, c.Args[1], k.ps[1])
			return []Out{{}}, true
		},
		Event: func(st *State, ev *Ev) {
			if ev.Kind != "exit" {
				return
			}
			k.ob(ev, "answer")
			if ev.Panics {
				k.bad(st, ev, "panic", "panics")
			} else if st.prove(st.linOf(st.getT("#put")).addk(-2)) {
				k.bad(st, ev, "answer", "a value is put in twice, so that two users may get it")
			}
		}}, func(st *State, ps []*Term) {
		k.ps = ps
		st.setT("#put", st.x.T.Int(0))
	})
	if !k.shape.ok {
		return
	}
	// what the constructor gives to the pool
	k.name = ctor
	k.c.Run(newFn, &Config{NoInline: func(*ssa.Function) bool { return false }, Event: func(st *State, ev *Ev) {
		switch {
		case ev.Kind == "callback":
			k.bad(st, ev, "answer", "the function that makes values is called when the pool is made")
		case ev.Kind == "exit":
			k.ob(ev, "type")
			if ev.Panics {
				k.bad(st, ev, "panic", "panics")
			}
		case ev.Kind == "store" && ev.Addr.k == TFA && ev.Addr.fld.Name() == "New" && ev.Addr.fld.Pkg() != nil && ev.Addr.fld.Pkg().Path() == "sync":
			f := st.resolve(ev.Val)
			if f.isNil() {
				k.bad(st, ev, "answer", "the pool has no function that makes new values")
			}
			if f.k == TClosure && len(f.args) == 1 {
				b := st.resolve(f.args[0])
				in := b
				if p := pointee(b.typ); p != nil {
					in = st.resolve(st.load(b, p, "captured", nil))
				}
				if in == st.resolve(k.ps[0]) || b == st.resolve(k.ps[0]) {
					k.lit = f.fn
				}
			}
		}
	}}, func(st *State, ps []*Term) { k.ps = ps })
	if k.lit == nil {
		k.c.Undecided(ctor, "the function that makes new values is not followed")
	} else {
		k.make(array)
	}
	// what comes out
	k.name = typ + ".Get"
	k.c.Run(get, &Config{NoInline: func(*ssa.Function) bool { return false },
		Model: func(st *State, c *Call) ([]Out, bool) {
			if !poolCall(st, c, "Get") {
				return nil, false
			}
			T := st.x.T
			t := get.Signature.Results().At(0).Type()
			v := T.sym("put", t)
			full := k.pack(st, v, t)
			outs := []Out{{Res: []*Term{full}, Do: func(s *State) {
				s.setT("want", v)
				s.assume(s.mkEq(full, T.Nil()), false)
			}}}
			if !array && !k.shape.ptr && k.shape.fld < 0 {
				// a nil value of an interface type
				outs = append(outs, Out{Res: []*Term{T.Nil()}, Do: func(s *State) { s.setT("want", T.zero(t)) }})
			}
			return outs, true
		},
		Event: func(st *State, ev *Ev) {
			k.common(st, ev)
			if ev.Kind != "exit" {
				return
			}
			k.ob(ev, "answer")
			if ev.Panics {
				k.bad(st, ev, "panic", "panics")
				return
			}
			if w := st.getT("want"); w == nil || st.resolve(w) != st.resolve(ev.Res[0]) {
				k.bad(st, ev, "answer", "the result is not what was taken from the pool")
			}
		}}, func(st *State, ps []*Term) { k.ps = ps })
}

// make: the function that makes new values
func (k *boxCheck) make(array bool) {
	k.c.Run(k.lit, &Config{NoInline: func(*ssa.Function) bool { return false }, Event: func(st *State, ev *Ev) {
		switch ev.Kind {
		case "callback":
			inc(st, "#calls")
			if len(ev.Res) == 1 {
				st.setT("made", ev.Res[0])
			}
		case "make":
			if array && len(ev.Args) == 2 {
				st.setT("made", ev.Val)
				st.setT("room", ev.Args[1])
			}
		case "exit":
			if ev.Panics {
				return
			}
			k.ob(ev, "type")
			m := st.getT("made")
			if m == nil {
				k.c.Undecided(k.name, "makes new values in another way")
				return
			}
			r := st.resolve(ev.Res[0])
			s, msg := k.of(st, r, m)
			switch {
			case msg == "?":
				k.c.Undecided(k.name, "makes new values in another form")
			case !s.ok:
				k.bad(st, ev, "answer", "a new value is not what the function made")
			case !k.same(s):
				k.bad(st, ev, "type", "new values have another type than the ones put in")
			}
			if array {
				if !st.prove(lenOf(st, m).scale(-1)) {
					k.bad(st, ev, "answer", "a new slice is not empty")
				}
				room := st.resolve(st.getT("room"))
				if room.k == TConst || room.k == TOp && (!strings.HasPrefix(room.op, "conv:") || sizeOf(room.typ) < sizeOf(types.Typ[types.Uint])) {
					k.bad(st, ev, "answer", "a new slice has room for another number of elements")
				}
			} else if !eqLin(st, st.linOf(st.getT("#calls")), st.linOf(st.x.T.Int(1))) {
				k.bad(st, ev, "answer", "the function that makes values is not called once")
			}
		}
	}}, func(st *State, ps []*Term) { st.setT("#calls", st.x.T.Int(0)) })
}

func init() {
	register(&Property{ID: "C36", Run: func(c *Ctx) {
		c.rules["type"] = "all values put into one place have one concrete type and hold exactly what was given"
		c.rules["answer"] = "what comes out is what was put in, or made by the function for new values"
		c.rules["panic"] = "no type assertion fails and nothing panics, nil values of interface types included"
		k := &boxCheck{c: c}
		if set, load := c.Fn(consPkg, "AtomicError.Set"), c.Fn(consPkg, "AtomicError.Load"); set != nil && load != nil {
			k.setError(set)
			if k.shape.ok {
				k.loadError(load)
			}
		}
		k.pool("Pool", "New")
		k.pool("ArrayPool", "NewArrayPool")
		c.Min("answer", 3)
	}})
}
