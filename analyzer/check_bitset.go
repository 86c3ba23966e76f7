package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Bit sets: the lock around the bytes, the independence of results, and which
// bit an offset means.

const bitPkg = "library/bitset"

type bitCheck struct {
	c        *Ctx
	on       map[string]bool
	name     string
	setF, mu *types.Var
	recv     *Term
	ps       []*Term
	own      map[*Term]*Term // value of the byte field -> the bit set
}

func (k *bitCheck) bad(st *State, ev *Ev, rule, msg string) {
	if k.on[rule] {
		k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
	}
}
func (k *bitCheck) ob(ev *Ev, rule string) {
	if k.on[rule] {
		k.c.Ob(rule, where(ev)+" in "+k.name)
		k.c.N(rule)
	}
}

func (k *bitCheck) find() bool {
	nm := k.c.P.named(bitPkg, "BitSet")
	if nm != nil {
		s, _ := nm.Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			f := s.Field(i).Origin()
			if sl, ok := f.Type().Underlying().(*types.Slice); ok && sl.Elem().String() == "byte" || f.Type().String() == "[]uint8" {
				k.setF = f
			}
			if namedIs(f.Type(), "sync", "RWMutex") || namedIs(f.Type(), "sync", "Mutex") {
				k.mu = f
			}
		}
	}
	if k.setF == nil || k.mu == nil {
		k.c.Bad(nil, "anchor", bitPkg+".BitSet", 0, "BitSet has no byte slice or no mutex")
		return false
	}
	return true
}

// owner: the bit set whose bytes t is, or is part of
func (k *bitCheck) owner(st *State, t *Term) *Term {
	t = k.root(st, t)
	if o := k.own[t]; o != nil {
		return st.resolve(o)
	}
	return nil
}

// root follows slicing and appending to the memory a value lies in
func (k *bitCheck) root(st *State, t *Term) *Term {
	for i := 0; i < 20 && t != nil; i++ {
		t = st.resolve(t)
		switch {
		case t.k == TOp && t.op == "slice":
			t = t.args[0]
		case t.k == TSym && t.label == "append" && len(t.prov) > 0 && k.own[t] == nil:
			if t.prov[0].isNil() || noRoom(t.prov[0]) {
				return t
			}
			if b := k.root(st, t.prov[0]); b.alloc {
				return t
			} else {
				t = b
			}
		default:
			return t
		}
	}
	return t
}

// noRoom: a slice expression of capacity 0
func noRoom(t *Term) bool {
	if t.k != TOp || t.op != "slice" || len(t.args) < 4 || t.args[3].isNil() {
		return false
	}
	lo, ok := t.args[1].intVal()
	if t.args[1].isNil() {
		lo, ok = 0, true
	}
	hi, ok2 := t.args[3].intVal()
	return ok && ok2 && lo == hi
}

func (k *bitCheck) set(st *State) *Term { return st.getT("set") }

func (k *bitCheck) use(st *State, ev *Ev, base *Term, mode string) {
	o := k.owner(st, base)
	if o == nil || o.alloc && !st.esc[o] {
		return
	}
	k.needLock(st, ev, o, mode)
	if mode == "w" && k.name != "Set" && k.name != "Clear" {
		k.bad(st, ev, "pure", "changes the bits of an existing bit set")
	}
}

func (k *bitCheck) needLock(st *State, ev *Ev, o *Term, mode string) {
	k.ob(ev, "lock")
	m := st.holds(fAddr(st, o, k.mu))
	if m == "" {
		k.bad(st, ev, "lock", "uses the bytes of a bit set without holding its lock: data race")
	} else if mode == "w" && m != "w" {
		k.bad(st, ev, "lock", "changes a bit set while holding its lock only for reading: data race")
	}
}

func (k *bitCheck) isSetField(a *Term) bool { return a != nil && a.k == TFA && a.fld == k.setF }

func (k *bitCheck) event(st *State, ev *Ev) {
	T := st.x.T
	switch ev.Kind {
	case "lock":
		k.ob(ev, "lock")
		if st.holds(ev.Addr) != "" {
			k.bad(st, ev, "lock", "locks a mutex this call already holds: deadlock")
		} else if len(st.locks()) > 0 {
			k.bad(st, ev, "lock", "locks a second bit set while holding the lock of another: two such calls can wait for each other forever")
		}
	case "locked":
		st.setT("cur", nil)
		if k.recv != nil && ev.Addr == fAddr(st, k.recv, k.mu) && !bitOp[k.name] && k.name != "Range" {
			if st.getT("crit") != nil {
				k.bad(st, ev, "lock", "looks at the bit set twice, releasing its lock in between: another call may change it meanwhile")
			}
			st.setT("crit", T.Bool(true))
		}
	case "unlock":
		st.setT("cur", nil)
		if ev.Detail == "notheld" {
			k.bad(st, ev, "lock", "unlocks a mutex that is not held")
		}
	case "callback":
		if len(st.locks()) > 0 {
			k.bad(st, ev, "lock", "calls the caller's function with the lock held")
		}
	case "load":
		if k.isSetField(ev.Addr) {
			o := st.resolve(ev.Addr.args[0])
			if ev.Val.k == TSym && k.own[ev.Val] == nil && !(o.alloc && !st.esc[o]) {
				k.own[ev.Val] = o
			}
			if !(o.alloc && !st.esc[o]) {
				k.needLock(st, ev, o, "r")
			}
			if o == k.recv {
				st.setT("set", ev.Val)
				st.setT("cur", ev.Val)
			}
		}
		if ev.Addr.k == TIA {
			k.use(st, ev, ev.Addr.args[0], "r")
			k.record(st, ev.Val, ev.Addr.args[0], ev.Addr.args[1])
		}
	case "store":
		if k.isSetField(ev.Addr) {
			o := st.resolve(ev.Addr.args[0])
			if !(o.alloc && !st.esc[o]) {
				k.needLock(st, ev, o, "w")
				if k.name != "Set" && k.name != "Clear" {
					k.bad(st, ev, "pure", "changes the bits of an existing bit set")
				}
			}
			if o.alloc {
				st.setT("out", ev.Val)
			}
			k.ob(ev, "own")
			r := k.root(st, ev.Val)
			if w := k.owner(st, ev.Val); w != nil && w != o {
				k.bad(st, ev, "own", "two bit sets share their bytes")
			} else if w == nil && !r.isNil() && !r.alloc && !k.fresh(r) {
				k.bad(st, ev, "own", "the bit set shares its bytes with the caller")
			}
			if o == k.recv {
				k.grown(st, ev)
				st.setT("set", ev.Val)
				st.setT("cur", ev.Val)
				if ev.Val.k == TSym {
					k.own[ev.Val] = o
				}
			}
		}
		if ev.Addr.k == TIA {
			k.use(st, ev, ev.Addr.args[0], "w")
			k.elemStore(st, ev)
		}
	case "copy":
		k.use(st, ev, ev.Args[0], "w")
		k.use(st, ev, ev.Args[1], "r")
		d, s := st.resolve(ev.Args[0]), st.resolve(ev.Args[1])
		if k.name == "Set" && d.k == TOp && d.op == "slice" && d.args[0].alloc {
			if lo, ok := d.args[1].intVal(); d.args[1].isNil() || ok && lo == 0 {
				if st.proveLE(T.op("len", types.Typ[types.Int], s), T.op("len", types.Typ[types.Int], d)) {
					d = d.args[0]
				}
			} else if k.on["bits"] {
				k.bad(st, ev, "bits", "bits beyond the old end may not be zero")
			}
		}
		if s == k.set(st) && d.alloc {
			st.setT("cp", d)
		}
		if k.isSet(st, s) && d.alloc && bitOp[k.name] {
			st.setT("init", d)
		}
	case "append":
		k.use(st, ev, ev.Args[0], "r")
		for _, a := range ev.Args[1:] {
			k.use(st, ev, a, "r")
		}
		k.appended(st, ev)
	case "clear":
		k.use(st, ev, ev.Args[0], "w")
		if ev.Args[0] == k.set(st) {
			st.setT("#n", T.op("len", types.Typ[types.Int], k.set(st)))
		}
	case "call":
		for _, a := range ev.Args {
			k.use(st, ev, unbox(a), "r")
		}
		if strings.HasPrefix(ev.Callee, "math/bits.OnesCount") && k.name == "Count" {
			k.counted(st, ev)
		}
	case "phi":
		k.phi(st, ev)
	case "backedge":
		// what was read in this round belongs to it
		for _, q := range st.monKeys("cell") {
			if variant(st.getT(q).args[2]) {
				st.setT(q, nil)
			}
		}
	case "index", "slice":
		if ev.Kind == "slice" && bitOp[k.name] && sliceElemT(ev.Addr.typ) != nil && !ev.Args[0].isNil() && widthOf(sliceElemT(ev.Addr.typ)) != 8 {
			if n, ok := ev.Args[0].intVal(); !ok || n != 0 {
				k.bad(st, ev, "bits", "an argument is left out")
			}
		}
		if k.on["bounds"] {
			k.bounds(st, ev)
		}
	case "exit":
		k.ob(ev, "lock")
		if len(st.locks()) > 0 {
			k.bad(st, ev, "lock", "returns or panics with the lock held")
		}
		if ev.Panics {
			if k.on["bounds"] && !k.userPanic(st) {
				k.bad(st, ev, "bounds", "may panic")
			}
			return
		}
		k.exit(st, ev)
	}
	if ev.Kind == "callback" && k.name == "Range" {
		k.visited(st, ev)
	}
}

func (k *bitCheck) userPanic(st *State) bool { return st.getT("cbp") != nil }

// results of calls that leave the repository are new
func (k *bitCheck) fresh(t *Term) bool {
	if t.k != TSym {
		return t.k == TConst
	}
	c, ok := t.instr.(ssa.CallInstruction)
	return ok && (c.Common().StaticCallee() == nil || !inRepo(c.Common().StaticCallee())) || t.label == "conv"
}

func (k *bitCheck) record(st *State, v, base, idx *Term) {
	if v.typ == nil || widthOf(v.typ) != 8 || v.k == TConst {
		return
	}
	if v.k != TSym && !(bitOp[k.name] && base.alloc) {
		return
	}
	for _, q := range st.monKeys("cell") {
		if st.getT(q).args[0] == v {
			return
		}
	}
	n := 0
	for st.getT(fmt.Sprintf("cell%d", n)) != nil {
		n++
	}
	if n > 7 {
		return
	}
	st.setT(fmt.Sprintf("cell%d", n), st.x.T.tuple(v, base, idx))
}

var bitOp = map[string]bool{"And": true, "Or": true, "Xor": true, "AndNot": true}

// variant: the value changes from one round of a loop to the next
func variant(t *Term) bool {
	if t.k == TSym && (strings.HasPrefix(t.label, "phi:") || t.label == "cell") {
		return true
	}
	for _, a := range t.args {
		if a != nil && variant(a) {
			return true
		}
	}
	return false
}

// cellOf: where a byte was read
func (k *bitCheck) cellOf(st *State, t *Term) (base, idx *Term) {
	for _, q := range st.monKeys("cell") {
		if c := st.getT(q); c.args[0] == t {
			return c.args[1], c.args[2]
		}
	}
	if t.k == TOp && t.op == "at" {
		return t.args[0], t.args[1]
	}
	return nil, nil
}

func (k *bitCheck) env(st *State, env map[*Term]int64) *bitEnv {
	e := &bitEnv{st: st, val: env}
	e.cell = func(t *Term) ([]bit, bool) {
		if b, _ := k.cellOf(st, t); b != nil {
			return symBits(t, 8), true
		}
		if p := st.getT("phi"); p != nil && p.args[0] == t {
			// a byte carried round a loop, shifted
			n, ok := e.num(p.args[2])
			a, ok2 := e.bits(p.args[1], 8)
			if !ok || !ok2 {
				return nil, false
			}
			r := make([]bit, 8)
			for i := range r {
				if j := int64(i) - n; j >= 0 && j < 8 {
					r[i] = a[j]
				}
			}
			return r, true
		}
		return nil, false
	}
	return e
}

// isSet: base is the bytes of the receiver, or an unchanged copy of them
func (k *bitCheck) isSet(st *State, base *Term) bool {
	base = st.resolve(base)
	return base != nil && (base == k.set(st) || base == st.getT("cp") || base == st.getT("apc"))
}

// pos is the offset of a bit of the receiver
func (k *bitCheck) pos(st *State, b bit) (Lin, bool) {
	base, idx := k.cellOf(st, b.cel)
	if base == nil || !k.isSet(st, base) {
		return Lin{}, false
	}
	return st.linOf(idx).scale(8).addk(int64(7 - b.n)), true
}

func (k *bitCheck) size(st *State) Lin {
	s := k.set(st)
	if s == nil {
		return linConst(0)
	}
	return st.linOf(st.x.T.op("len", types.Typ[types.Int], s)).scale(8)
}

// split runs f in the states where l >= 0 and where l <= -1
func split(st *State, l Lin, f func(s *State, nonneg bool)) {
	if st.prove(l) {
		f(st, true)
		return
	}
	if st.prove(l.scale(-1).addk(-1)) {
		f(st, false)
		return
	}
	a := st.clone()
	a.addLin(l)
	f(a, true)
	b := st.clone()
	b.addLin(l.scale(-1).addk(-1))
	f(b, false)
}

func eqLin(st *State, a, b Lin) bool {
	d := a.add(b, -1)
	return st.prove(d) && st.prove(d.scale(-1))
}

// offset: the meaning of an offset that may count from the end
func (k *bitCheck) offset(st *State, o *Term, f func(s *State, pos Lin)) {
	l := st.linOf(o)
	split(st, l, func(s *State, nn bool) {
		if nn {
			f(s, l)
		} else {
			f(s, l.add(k.size(s), 1))
		}
	})
}

// ---- Get and Set

// literal: what the conditions of the path say about the bit at pos
func (k *bitCheck) literal(st *State, env map[*Term]int64, pos Lin) (bool, bool) {
	e := k.env(st, env)
	for t, v := range st.cond {
		b, ok := e.cond(t)
		if !ok || b.k != 2 && b.k != 3 {
			continue
		}
		if p, ok := k.pos(st, b); ok && eqLin(st, p, pos) {
			return v == (b.k == 2), true
		}
	}
	// or a number made of that bit alone
	for _, l := range st.lin {
		for t := range l.c {
			if t.k != TOp || len(t.args) != 2 {
				continue
			}
			bs, ok := e.bits(t, 8)
			if !ok {
				continue
			}
			one, n, w := bit{}, 0, int64(0)
			for i, b := range bs {
				if b.k != 0 {
					one, w = b, 1<<uint(i)
					n++
				}
			}
			if n != 1 || one.k != 2 {
				continue
			}
			if p, ok := k.pos(st, one); !ok || !eqLin(st, p, pos) {
				continue
			}
			if st.prove(linTerm(t).addk(-1)) {
				return true, true
			} else if st.prove(linTerm(t).scale(-1)) {
				return false, true
			} else if v, kn := st.truth(st.mkEq(t, st.x.T.Int(w))); kn {
				return v, true
			}
		}
	}
	return false, false
}

// isBit: the truth value t is the bit at pos
func (k *bitCheck) isBit(st *State, env map[*Term]int64, t *Term, pos Lin) bool {
	if t.k == TConst {
		v, ok := k.literal(st, env, pos)
		return ok && t.isBool(v)
	}
	b, ok := k.env(st, env).cond(t)
	if !ok || b.k != 2 {
		return false
	}
	p, ok := k.pos(st, b)
	return ok && eqLin(st, p, pos)
}

// terms whose small parts decide which bit is meant
func (k *bitCheck) parts(st *State, ts ...*Term) []*Term {
	for t := range st.cond {
		ts = append(ts, t)
	}
	for _, q := range st.monKeys("cell") {
		ts = append(ts, st.getT(q).args[2])
	}
	// bytes themselves are not small
	var out []*Term
	for _, t := range ts {
		if t.k != TSym {
			out = append(out, t)
		}
	}
	return out
}

func (k *bitCheck) exit(st *State, ev *Ev) {
	T := st.x.T
	for _, r := range ev.Res {
		r = st.resolve(r)
		k.ob(ev, "own")
		if o := k.owner(st, unbox(r)); o != nil {
			k.bad(st, ev, "own", "hands out the bytes of the bit set itself")
		}
		if r.typ != nil && r.k != TConst && namedIs(derefT(r.typ), bitFull(k.c), "BitSet") && !r.alloc {
			vs := k.ps[len(k.ps)-1]
			if r != k.recv || sliceElemT(vs.typ) == nil || !st.prove(st.linOf(T.op("len", types.Typ[types.Int], vs)).scale(-1)) {
				k.bad(st, ev, "own", "returns an existing bit set instead of a new one")
			}
		}
	}
	switch k.name {
	case "Get":
		if !k.on["bits"] {
			return
		}
		k.ob(ev, "bits")
		res := st.resolve(ev.Res[0])
		k.offset(st, k.ps[1], func(s *State, pos Lin) {
			split(s, pos, func(s *State, nn bool) {
				if !nn {
					if !k.isFalse(s, res) {
						k.bad(s, ev, "bits", "reports a bit before the first one as set")
					}
					return
				}
				split(s, pos.add(k.size(s), -1), func(s *State, beyond bool) {
					if beyond {
						if !k.isFalse(s, res) {
							k.bad(s, ev, "bits", "reports a bit beyond the last one as set")
						}
						return
					}
					forEachOctal(s, k.parts(s, res), func(s *State, env map[*Term]int64) {
						if !k.isBit(s, env, res, pos) {
							k.bad(s, ev, "bits", "does not report the bit at the offset asked for")
						}
					})
				})
			})
		})
	case "Set":
		k.setExit(st, ev)
	case "Count":
		k.countExit(st, ev)
	case "Range":
		if st.getT("stop") == nil && k.on["bits"] {
			k.ob(ev, "bits")
			if n := st.getT("#n"); !st.prove(st.linOf(n).add(k.size(st), -1)) {
				k.bad(st, ev, "bits", "returns before every bit was visited")
			}
		}
	case "Clear", "Not":
		if k.on["bits"] {
			k.ob(ev, "bits")
			if k.name == "Clear" && st.getT("fresh0") != nil {
				return
			}
			if n := st.getT("#n"); k.set(st) == nil || !st.prove(st.linOf(n).scale(8).add(k.size(st), -1)) {
				k.bad(st, ev, "bits", "not every byte is treated")
			}
		}
	case "Sub":
		k.subExit(st, ev)
	case "Size":
		if k.on["bits"] {
			k.ob(ev, "bits")
			if !eqLin(st, st.linOf(st.resolve(ev.Res[0])), k.size(st)) {
				k.bad(st, ev, "bits", "the size is not eight bits per byte")
			}
		}
	case "Bytes":
		if k.on["bits"] {
			k.ob(ev, "bits")
			r := st.resolve(ev.Res[0])
			if r != st.getT("cp") && st.getT("apc") != r || !eqLin(st, st.linOf(T.op("len", types.Typ[types.Int], r)).scale(8), k.size(st)) {
				k.bad(st, ev, "bits", "what is returned is not a full copy of the bytes")
			}
		}
	}
}

func bitFull(c *Ctx) string {
	if nm := c.P.named(bitPkg, "BitSet"); nm != nil {
		return nm.Obj().Pkg().Path()
	}
	return bitPkg
}

func (k *bitCheck) isFalse(st *State, t *Term) bool {
	v, kn := st.truth(t)
	return kn && !v
}

func (k *bitCheck) setExit(st *State, ev *Ev) {
	if !k.on["bits"] {
		return
	}
	k.ob(ev, "bits")
	old, err := st.resolve(ev.Res[0]), st.resolve(ev.Res[1])
	k.offset(st, k.ps[1], func(s *State, pos Lin) {
		// counted from the end of the set as it was found
		if z := s.getT("size0"); z != nil && s.prove(s.linOf(k.ps[1]).scale(-1).addk(-1)) {
			pos = s.linOf(k.ps[1]).add(s.linOf(z), 8)
		}
		split(s, pos, func(s *State, nn bool) {
			if !nn {
				if !s.notNil(err) {
					k.bad(s, ev, "bits", "an offset before the first bit is not refused")
				}
				return
			}
			if !err.isNil() {
				k.bad(s, ev, "bits", "a valid offset is refused")
				return
			}
			if !s.prove(k.size(s).add(pos, -1).addk(-1)) {
				k.bad(s, ev, "bits", "the bit set does not grow to hold the bit")
				return
			}
			parts := k.parts(s, old)
			if w := s.getT("wr"); w != nil {
				parts = append(parts, w.args[0], w.args[1])
			}
			forEachOctal(s, parts, func(s *State, env map[*Term]int64) { k.setCase(s, ev, env, pos, old) })
		})
	})
}

func (k *bitCheck) setCase(s *State, ev *Ev, env map[*Term]int64, pos Lin, old *Term) {
	val := k.ps[2]
	if z := s.getT("zero"); z != nil && s.prove(pos.add(s.linOf(z), -8)) {
		// beyond what was there: the byte is new and zero
		if k.isFalse(s, old) {
			old = nil
		}
	}
	if old != nil && !k.isBit(s, env, old, pos) {
		k.bad(s, ev, "bits", "the previous value reported is not that of the bit at the offset")
	}
	w := s.getT("wr")
	if w == nil {
		// nothing written: the bit already had the value
		have, kn := k.literal(s, env, pos)
		want, kn2 := flag(s, val)
		if kn && kn2 && have == want {
			return
		}
		if o := s.resolve(old0(s, old)); o == s.resolve(val) {
			return
		} else if v, ok := s.truth(s.mkEq(o, s.resolve(val))); ok && v {
			return
		}
		k.bad(s, ev, "bits", "returns without having set the bit, which may have had the other value")
		return
	}
	e := k.env(s, env)
	bs, ok := e.bits(w.args[1], 8)
	if !ok {
		k.c.Undecided("Set", "the byte written is not of a form that is understood")
		return
	}
	base := s.linOf(w.args[0]).scale(8)
	for n, b := range bs {
		p := base.addk(int64(7 - n))
		target := eqLin(s, p, pos)
		switch {
		case b.k == 2 && !target:
			if q, ok := k.pos(s, b); !ok || !eqLin(s, q, p) {
				k.bad(s, ev, "bits", "another bit is changed")
			}
		case target && b.k == 3:
			// inverted: right if the bit had the other value
			q, ok := k.pos(s, b)
			if !ok || !eqLin(s, q, p) {
				k.bad(s, ev, "bits", "the bit does not get the value given")
				continue
			}
			have, kn := k.literal(s, env, pos)
			want, kn2 := flag(s, val)
			if kn && kn2 && have != want {
				continue
			}
			if v, ok := flag(s, s.mkEq(old0(s, old), val)); !ok || v {
				k.bad(s, ev, "bits", "the bit does not get the value given")
			}
		case target && b.k == 2:
			have, kn := k.literal(s, env, pos)
			want, kn2 := flag(s, val)
			if !kn || !kn2 || have != want {
				k.bad(s, ev, "bits", "the bit does not get the value given")
			}
		case target && (b.k == 0 || b.k == 1):
			if want, kn := flag(s, val); !kn || want != (b.k == 1) {
				// the value may be given through the old one
				if have, kn := k.literal(s, env, pos); kn {
					if v, ok := s.truth(s.mkEq(s.x.T.Bool(have), val)); ok && !v && have != (b.k == 1) {
						continue
					}
				}
				k.bad(s, ev, "bits", "the bit does not get the value given")
			}
		default:
			if b.k == 0 && s.getT("zero") != nil && s.prove(p.add(s.linOf(s.getT("zero")), -8)) {
				continue
			}
			k.bad(s, ev, "bits", "another bit is changed, or the bit does not get the value given")
		}
	}
}

// flag: the truth of t, also through an equation with something known
func flag(st *State, t *Term) (bool, bool) {
	t = st.resolve(t)
	if v, kn := st.truth(t); kn {
		return v, true
	}
	for q, v := range st.cond {
		if q.k != TOp || q.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if st.resolve(q.args[i]) == t {
				if w, kn := st.truth(st.resolve(q.args[1-i])); kn {
					return w == v, true
				}
			}
		}
	}
	return false, false
}

func old0(st *State, t *Term) *Term {
	if t == nil {
		return st.x.T.Bool(false)
	}
	return t
}

// grown: the receiver gets new bytes
func (k *bitCheck) grown(st *State, ev *Ev) {
	T := st.x.T
	v := st.resolve(ev.Val)
	old := k.set(st)
	switch k.name {
	case "Set":
		k.ob(ev, "bits")
		if old == nil || v == old {
			return
		}
		if v != st.getT("cp") && st.getT("apc") != v {
			k.bad(st, ev, "bits", "the bits present are not kept when the set grows")
		}
		if !st.proveLE(T.op("len", types.Typ[types.Int], old), T.op("len", types.Typ[types.Int], v)) {
			k.bad(st, ev, "bits", "the bit set may shrink")
		}
		st.setT("zero", T.op("len", types.Typ[types.Int], old))
		st.setT("cp", v)
	case "Clear":
		if v.alloc && old != nil && same(st, T.op("len", types.Typ[types.Int], v), T.op("len", types.Typ[types.Int], old)) {
			st.setT("fresh0", T.Bool(true))
		}
	}
}

func (k *bitCheck) elemStore(st *State, ev *Ev) {
	T := st.x.T
	base, idx := st.resolve(ev.Addr.args[0]), ev.Addr.args[1]
	if !k.on["bits"] {
		return
	}
	switch k.name {
	case "Set":
		if k.isSet(st, base) {
			if st.getT("wr") != nil {
				k.c.Undecided("Set", "writes twice")
				return
			}
			st.setT("wr", T.tuple(idx, ev.Val))
		}
	case "Clear":
		if base == k.set(st) {
			k.ob(ev, "bits")
			if v, ok := ev.Val.intVal(); !ok || v != 0 {
				k.bad(st, ev, "bits", "a byte is not cleared")
			}
			if !same(st, idx, st.getT("#n")) {
				k.bad(st, ev, "bits", "a byte is passed over")
			}
			inc(st, "#n")
		}
	case "Not":
		if base.alloc && !arrPtrT(base.typ) {
			k.ob(ev, "bits")
			bs, ok := k.env(st, nil).bits(ev.Val, 8)
			if !ok {
				k.c.Undecided("Not", "the byte written is not of a form that is understood")
				return
			}
			for n, b := range bs {
				b = notBit(b)
				p, ok := k.pos(st, b)
				if b.k != 2 || !ok || !eqLin(st, p, st.linOf(idx).scale(8).addk(int64(7-n))) {
					k.bad(st, ev, "bits", "a bit of the result is not the complement of the bit at the same offset")
					break
				}
			}
			if !same(st, idx, st.getT("#n")) {
				k.bad(st, ev, "bits", "a byte is passed over")
			}
			inc(st, "#n")
		}
	case "And", "Or", "Xor", "AndNot":
		if base.alloc && !arrPtrT(base.typ) && widthOf(sliceElemT(base.typ)) == 8 {
			k.combined(st, ev, base, idx)
		}
	}
}

// combined: a byte of the result of And, Or, Xor, AndNot
func (k *bitCheck) combined(st *State, ev *Ev, base, idx *Term) {
	k.ob(ev, "bits")
	bs, ok := k.env(st, nil).bits(ev.Val, 8)
	if !ok {
		if ev.Val.k == TSym {
			return // a value carried round a loop: judged where it is combined
		}
		k.c.Undecided(k.name, "the byte written is not of a form that is understood")
		return
	}
	begun := st.getT("init") == base
	if t := st.getT("ini"); t != nil && t.args[0] == base && same(st, t.args[1], idx) {
		begun = true
	}
	// the bits a byte of the result may be made of, by where they were read
	var acc, arg []*Term
	for _, q := range st.monKeys("cell") {
		c := st.getT(q)
		b := st.resolve(c.args[1])
		if !same(st, c.args[2], idx) {
			continue
		}
		if b == base && begun || k.isSet(st, b) {
			acc = append(acc, c.args[0])
		} else {
			arg = append(arg, c.args[0])
		}
	}
	for n, b := range bs {
		if b.k == 2 { // copied from the receiver
			ok := false
			for _, a := range acc {
				ok = ok || b.cel == a && b.n == n
			}
			if !ok {
				k.bad(st, ev, "bits", "a bit of the result comes from another offset or from one operand only")
				return
			}
			continue
		}
		ok := false
		for _, x := range acc {
			for _, y := range arg {
				sx, sy := symBits(x, 8)[n], symBits(y, 8)[n]
				var want bit
				switch k.name {
				case "And":
					want = andBit(sx, sy)
				case "Or":
					want = notBit(andBit(notBit(sx), notBit(sy)))
				case "Xor":
					want = xorBit(sx, sy)
				case "AndNot":
					want = andBit(sx, notBit(sy))
				}
				ok = ok || want.String() == b.String()
			}
		}
		if !ok {
			k.bad(st, ev, "bits", "a bit of the result is not the "+k.name+" of the bits at the same offset")
			return
		}
	}
	st.setT("ini", st.x.T.tuple(base, idx))
}

// ---- Range

func (k *bitCheck) visited(st *State, ev *Ev) {
	T := st.x.T
	if !k.on["bits"] {
		return
	}
	if ev.Panics {
		st.setT("cbp", T.Bool(true))
		return
	}
	k.ob(ev, "bits")
	if st.getT("stop") != nil {
		k.bad(st, ev, "bits", "goes on after the function returned false")
	}
	if a := st.getT("ans"); a != nil && st.getT("stop") == nil {
		if v, kn := st.truth(a); !kn || !v {
			k.bad(st, ev, "bits", "goes on whatever the function returned")
		}
	}
	n := st.getT("#n")
	if !same(st, ev.Args[0], n) {
		k.bad(st, ev, "bits", "the offsets are not visited one after the other")
	}
	pos := st.linOf(ev.Args[0])
	t := st.resolve(ev.Args[1])
	forEachOctal(st, k.parts(st, t), func(s *State, env map[*Term]int64) {
		if !k.isBit(s, env, t, pos) {
			k.bad(s, ev, "bits", "the bit passed is not that at the offset passed")
		}
	})
	inc(st, "#n")
	st.setT("ans", ev.Res[0])
}

// ---- Count

// bounds of the range asked for, both inclusive, on the current path
func (k *bitCheck) span(st *State, f func(s *State, lo, hi Lin, empty bool)) {
	a, b := st.linOf(k.ps[1]), st.linOf(k.ps[2])
	z := k.size(st)
	split(st, a, func(s *State, nn bool) {
		if !nn {
			a := a.add(z, 1)
			split(s, a, func(s *State, nn bool) {
				if !nn {
					k.span2(s, linConst(0), b, z, f)
				} else {
					k.span2(s, a, b, z, f)
				}
			})
			return
		}
		k.span2(s, a, b, z, f)
	})
}

func (k *bitCheck) span2(st *State, a, b, z Lin, f func(s *State, lo, hi Lin, empty bool)) {
	fin := func(s *State, b Lin) {
		split(s, b.add(z, -1), func(s *State, beyond bool) {
			if beyond {
				b = z.addk(-1)
			}
			split(s, b.add(a, -1), func(s *State, some bool) {
				f(s, a, b, !some)
			})
		})
	}
	split(st, b, func(s *State, nn bool) {
		if nn {
			fin(s, b)
		} else {
			fin(s, b.add(z, 1))
		}
	})
}

// interval: the value is exactly the bits lo..hi of the receiver (in any order)
func (k *bitCheck) interval(s *State, env map[*Term]int64, t *Term) (lo, hi Lin, n int, ok bool) {
	bs, ok := k.env(s, env).bits(t, 8)
	if !ok {
		return lo, hi, 0, false
	}
	var ps []Lin
	for _, b := range bs {
		if b.k == 0 {
			continue
		}
		p, ok := k.pos(s, b)
		if b.k != 2 || !ok {
			return lo, hi, 0, false
		}
		ps = append(ps, p)
	}
	if len(ps) == 0 {
		return lo, hi, 0, true
	}
	lo, hi = ps[0], ps[0]
	for _, p := range ps[1:] {
		d := p.add(lo, -1)
		if len(d.c) > 0 {
			return lo, hi, 0, false
		}
		if d.k < 0 {
			lo = p
		}
		if e := p.add(hi, -1); e.k > 0 {
			hi = p
		}
	}
	if d := hi.add(lo, -1); int(d.k) != len(ps)-1 {
		return lo, hi, 0, false
	}
	return lo, hi, len(ps), true
}

func (k *bitCheck) counted(st *State, ev *Ev) {
	T := st.x.T
	if !k.on["bits"] {
		return
	}
	k.ob(ev, "bits")
	intT := types.Typ[types.Int]
	// the counts add up to the result
	sum := st.getT("#sum")
	st.setT("#sum", st.x.arith(st, "+", sum, ev.Res[0], intT))
	arg := st.resolve(ev.Args[0])
	// which part of the range: starting at its start, or at byte #hb; ending
	// with a byte, or at its end
	starts := map[string]bool{"S": true, "hb": true, "byte": true}
	ends := map[string]bool{"byte": true, "E": true}
	understood, some := true, false
	var idx *Term
	octalOf := k.parts(st, arg)
	k.span(st, func(s *State, S, E Lin, empty bool) {
		if empty {
			return
		}
		forEachOctal(s, octalOf, func(s *State, env map[*Term]int64) {
			lo, hi, n, ok := k.interval(s, env, arg)
			if !ok {
				understood = false
				return
			}
			if n == 0 {
				starts, ends = nil, nil
				return
			}
			some = true
			bs, _ := k.env(s, env).bits(arg, 8)
			for _, b := range bs {
				if b.k == 2 {
					_, idx = k.cellOf(s, b.cel)
				}
			}
			if !eqLin(s, lo, S) {
				delete(starts, "S")
			}
			if !eqLin(s, lo, s.linOf(s.getT("#hb")).scale(8)) {
				delete(starts, "hb")
			}
			if !eqLin(s, lo, s.linOf(idx).scale(8)) {
				delete(starts, "byte")
			}
			if !eqLin(s, hi, E) {
				delete(ends, "E")
			}
			if !eqLin(s, hi, s.linOf(idx).scale(8).addk(7)) {
				delete(ends, "byte")
			}
		})
	})
	if !understood {
		k.c.Undecided("Count", "the bits counted are not of a form that is understood")
		st.setT("und", T.Bool(true))
		return
	}
	if !some {
		return
	}
	next := func() *Term { return st.x.arith(st, "+", idx, T.Int(1), intT) }
	begun := st.getT("begun") != nil
	switch {
	case !begun && starts["S"] && ends["E"]:
		st.setT("begun", T.Bool(true))
		st.setT("ended", T.Bool(true))
	case !begun && starts["S"] && ends["byte"]:
		st.setT("begun", T.Bool(true))
		st.setT("#hb", next())
	case begun && starts["hb"] && ends["E"] && st.getT("ended") == nil:
		st.setT("ended", T.Bool(true))
		st.setT("tail", nil)
	case begun && starts["hb"] && ends["byte"] && st.getT("ended") == nil:
		st.setT("#hb", next())
	case starts["byte"] && ends["E"] && st.getT("tail") == nil:
		st.setT("tail", T.tuple(idx))
	default:
		k.bad(st, ev, "bits", "the bits counted are not the next ones of the range, or reach outside it")
	}
}

func (k *bitCheck) countExit(st *State, ev *Ev) {
	if !k.on["bits"] || st.getT("und") != nil {
		return
	}
	k.ob(ev, "bits")
	res := st.resolve(ev.Res[0])
	k.span(st, func(s *State, S, E Lin, empty bool) {
		if empty {
			if !s.prove(s.linOf(res)) || !s.prove(s.linOf(res).scale(-1)) {
				k.bad(s, ev, "bits", "counts bits although the range is empty")
			}
			return
		}
		if s.getT("ended") == nil {
			t := s.getT("tail")
			if s.getT("begun") == nil || t == nil || !same(s, t.args[0], s.getT("#hb")) {
				k.bad(s, ev, "bits", "not every bit of the range is counted")
				return
			}
		}
		if !eqLin(s, s.linOf(res), s.linOf(s.getT("#sum"))) {
			k.bad(s, ev, "bits", "the result is not the sum of the bits counted")
		}
	})
}

// ---- Sub

func (k *bitCheck) phi(st *State, ev *Ev) {
	if k.name != "Sub" || widthOf(ev.Val.typ) != 8 {
		return
	}
	t := st.resolve(ev.Addr)
	if b, i := k.cellOf(st, t); b != nil {
		st.setT("phi", st.x.T.tuple(ev.Val, st.x.T.op("at", t.typ, b, i), st.x.T.Int(0)))
		return
	}
	if t.k == TOp && strings.TrimPrefix(t.op, "wrap") == "<<" {
		if b, i := k.cellOf(st, t.args[0]); b != nil {
			st.setT("phi", st.x.T.tuple(ev.Val, st.x.T.op("at", t.args[0].typ, b, i), t.args[1]))
		}
	}
}

func (k *bitCheck) appended(st *State, ev *Ev) {
	T := st.x.T
	old := st.resolve(ev.Args[0])
	if old == k.set(st) || len(ev.Args) > 1 && st.resolve(ev.Args[1]) == k.set(st) && (old.isNil() || st.prove(st.linOf(T.op("len", types.Typ[types.Int], old)).scale(-1))) {
		st.setT("apc", ev.Val) // keeps the bytes
	}
	if k.name != "Sub" || !k.on["bits"] || len(ev.Args) < 2 {
		return
	}
	es := st.elems(ev.Args[1])
	if len(es) != 1 || widthOf(es[0].typ) != 8 {
		return
	}
	k.ob(ev, "bits")
	if o := st.getT("outs"); o != nil && o != old {
		k.bad(st, ev, "bits", "bytes of the subset are dropped")
	}
	st.setT("outs", ev.Val)
	j := st.getT("#n")
	inc(st, "#n")
	v := st.resolve(es[0])
	parts := k.parts(st, v)
	if p := st.getT("phi"); p != nil {
		parts = append(parts, p.args[2])
	}
	k.span(st, func(s *State, S, E Lin, empty bool) {
		if empty {
			k.bad(s, ev, "bits", "an empty range has bits")
			return
		}
		forEachOctal(s, parts, func(s *State, env map[*Term]int64) {
			bs, ok := k.env(s, env).bits(v, 8)
			if !ok {
				k.c.Undecided("Sub", "the byte appended is not of a form that is understood")
				if dbg {
					s.dump("UND " + v.String())
				}
				return
			}
			for n, b := range bs {
				want := S.add(s.linOf(j), 8).addk(int64(7 - n))
				out := want.add(E, -1).addk(-1)
				switch b.k {
				case 2:
					p, ok := k.pos(s, b)
					if !ok || !eqLin(s, p, want) {
						k.bad(s, ev, "bits", "a bit of the subset is not the bit of the range at the same place")
						return
					}
					if !s.prove(out.scale(-1).addk(-1)) {
						k.bad(s, ev, "bits", "the subset has a bit from beyond the range")
						return
					}
				case 0:
					if !s.prove(out) {
						k.bad(s, ev, "bits", "a bit of the range is missing from the subset")
						return
					}
				default:
					k.bad(s, ev, "bits", "a bit of the subset is not the bit of the range at the same place")
					return
				}
			}
		})
	})
}

func (k *bitCheck) subExit(st *State, ev *Ev) {
	if !k.on["bits"] {
		return
	}
	k.ob(ev, "bits")
	r := st.heap[fAddr(st, st.resolve(ev.Res[0]), k.setF)]
	k.span(st, func(s *State, S, E Lin, empty bool) {
		n := s.getT("#n")
		if empty {
			if !s.prove(s.linOf(n).scale(-1)) {
				k.bad(s, ev, "bits", "an empty range has bits")
			}
			return
		}
		// 8n >= E-S+1 > 8(n-1)
		d := s.linOf(n).scale(8).add(E, -1).add(S, 1).addk(-1)
		if !s.prove(d) {
			k.bad(s, ev, "bits", "the subset is too short")
		} else if !s.prove(d.scale(-1).addk(7)) {
			k.bad(s, ev, "bits", "the subset is too long")
		}
		if r != nil && s.getT("outs") != nil && r != s.getT("outs") {
			k.bad(s, ev, "bits", "the subset holds other bytes than those of the range")
		}
	})
}

// ---- bounds

func (k *bitCheck) bounds(st *State, ev *Ev) {
	T := st.x.T
	k.ob(ev, "bounds")
	intT := types.Typ[types.Int]
	ln := st.linOf(T.op("len", intT, ev.Addr))
	if ev.Kind == "index" {
		i := st.linOf(ev.Val)
		if !st.prove(i) || !st.prove(ln.add(i, -1).addk(-1)) {
			k.bad(st, ev, "bounds", "an index may be out of range")
		}
		return
	}
	lo, hi := ev.Args[0], ev.Args[1]
	h := ln
	if !hi.isNil() {
		h = st.linOf(hi)
		if !st.prove(ln.add(h, -1)) {
			k.bad(st, ev, "bounds", "a slice expression may be out of range")
			return
		}
	}
	if l := st.linOf(lo); !st.prove(l) || !st.prove(h.add(l, -1)) {
		k.bad(st, ev, "bounds", "a slice expression may be out of range")
	}
}

func (k *bitCheck) run(name string) {
	f := k.c.Fn(bitPkg, name)
	if f == nil {
		return
	}
	k.own = map[*Term]*Term{}
	k.name = strings.TrimPrefix(name, "BitSet.")
	cfg := &Config{Bounds: k.on["bounds"] || k.on["bits"], CallbackPanics: true, Event: func(st *State, ev *Ev) {
		k.event(st, ev)
		if ev.Kind == "branch" {
			if a := st.getT("ans"); a != nil {
				if v, kn := st.truth(a); kn && !v {
					st.setT("stop", st.x.T.Bool(true))
				}
			}
		}
		if ev.Kind == "len" && k.name == "Set" && st.getT("size0") == nil && k.set(st) != nil && ev.Addr == k.set(st) {
			st.setT("size0", st.x.T.op("len", types.Typ[types.Int], k.set(st)))
		}
	}}
	cfg.OnFresh = func(st *State, a, s *Term) {
		if !k.isSetField(a) {
			return
		}
		if a.args[0] == k.recv && st.getT("cur") != nil {
			st.heap[a] = st.getT("cur")
		} else if a.args[0].alloc && st.getT("out") != nil {
			st.heap[a] = st.getT("out")
		}
	}
	cfg.Model = func(st *State, c *Call) ([]Out, bool) {
		if strings.HasPrefix(c.Callee, "hack/unsafex.") && len(c.Args) == 1 && len(c.ResTypes()) == 1 {
			return []Out{{Res: []*Term{st.x.T.op("slice", c.ResTypes()[0], c.Args[0], st.x.T.Int(0), st.x.T.Nil())}}}, true
		}
		return nil, false
	}
	k.c.Run(f, cfg, func(st *State, ps []*Term) {
		k.ps = ps
		k.recv = nil
		if f.Signature.Recv() != nil {
			k.recv = ps[0]
			ps[0].nonnil = true
		}
		if !k.on["bits"] {
			return
		}
		st.setT("#n", st.x.T.Int(0))
		if k.name == "Set" {
			st.setT("par", st.x.T.tuple(ps[1], ps[2]))
		}
		if k.name == "Count" {
			st.setT("#sum", st.x.T.Int(0))
			st.setT("#hb", st.x.T.Int(0))
		}
	})
}

var bitOps = []string{"New", "NewFromHex", "BitSet.Set", "BitSet.Get", "BitSet.Range", "BitSet.Count", "BitSet.Not", "BitSet.And", "BitSet.Or", "BitSet.Xor",
	"BitSet.AndNot", "BitSet.Clear", "BitSet.Size", "BitSet.Bytes", "BitSet.Binary", "BitSet.String", "BitSet.Sub"}

func bitProp(id string, ops []string, rules map[string]string, min map[string]int, expl string) {
	register(&Property{ID: id, Expl: expl, Run: func(c *Ctx) {
		k := &bitCheck{c: c, on: map[string]bool{}}
		for n, t := range rules {
			k.on[n] = true
			c.rules[n] = t
		}
		if !k.find() {
			return
		}
		for _, o := range ops {
			k.run(o)
		}
		for n, m := range min {
			c.Min(n, m)
		}
	}})
}

func init() {
	bitProp("C16", bitOps, map[string]string{
		"lock": "the bytes of a bit set are used only under its lock, changed only under the exclusive lock; one lock at a time, none while the caller's function runs, none left behind",
	}, map[string]int{"lock": 20}, "A lockset is carried along every path of every operation.")
	bitProp("C17", bitOps, map[string]string{
		"own":  "the bytes of a bit set are its own: made by the operation, never the caller's, never handed out, never another's",
		"pure": "only Set and Clear change an existing bit set",
	}, map[string]int{"own": 15}, "Every byte slice that is stored in a bit set or returned is traced to where it was made.")
	bitProp("C18", []string{"BitSet.Set", "BitSet.Get", "BitSet.Range", "BitSet.Count", "BitSet.Not", "BitSet.Clear", "BitSet.Size", "BitSet.Bytes", "BitSet.Sub"}, map[string]string{
		"bits":   "offset o means bit 7-o%8 of byte o/8, negative offsets count from the end, in every operation, for all values of o%8",
		"bounds": "no index leaves the bytes",
	}, map[string]int{"bits": 10, "bounds": 8}, "Byte expressions are evaluated bit by bit for all shift distances; positions are linear terms over the offsets.")
	bitProp("C19", []string{"BitSet.And", "BitSet.Or", "BitSet.Xor", "BitSet.AndNot"}, map[string]string{
		"bits": "a bit of the result is the operation applied to the bits at the same offset",
	}, map[string]int{"bits": 4}, "")
}
