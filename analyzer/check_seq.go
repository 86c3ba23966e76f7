package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Helpers for slices, maps and sets: what they may touch, what they answer,
// and what they build.

const (
	gslicePkg = "gogenerics/gcontainers/gslice"
	gmapPkg   = "gogenerics/gcontainers/gmap"
	gsetPkg   = "gogenerics/gcontainers/gset"
	gnumPkg   = "gogenerics/gnumerics"
)

type seqFn struct {
	pkg, name string
	kind      string
}

// kinds: alleq (slices), mapeq, index, found, sorted, best, two, copy, unique,
// merge, reverse, shuffle, keys, values, entries, mapcopy, tomap, len, has,
// add, remove, clear, new
var seqFns = []seqFn{
	{gslicePkg, "Copy", "copy"}, {gslicePkg, "Equal", "alleq"}, {gslicePkg, "EqualWithFunc", "alleq"},
	{gslicePkg, "Index", "index"}, {gslicePkg, "IndexWithFunc", "index"},
	{gslicePkg, "Contains", "index"}, {gslicePkg, "ContainsWithFunc", "index"},
	{gslicePkg, "Len", "len"}, {gslicePkg, "Unique", "unique"}, {gslicePkg, "UniqueWithFunc", "unique"},
	{gslicePkg, "Reverse", "reverse"}, {gslicePkg, "Merge", "merge"},
	{gslicePkg, "IsSorted", "sorted"}, {gslicePkg, "IsSortedFunc", "sorted"}, {gslicePkg, "Shuffle", "shuffle"},
	{gmapPkg, "Keys", "keys"}, {gmapPkg, "Values", "values"}, {gmapPkg, "Copy", "mapcopy"}, {gmapPkg, "Len", "len"},
	{gmapPkg, "Contains", "has"}, {gmapPkg, "Clear", "clear"}, {gmapPkg, "Map2Entries", "entries"},
	{gmapPkg, "Entries2Map", "tomap"}, {gmapPkg, "Equal", "mapeq"}, {gmapPkg, "EqualWithFunc", "mapeq"},
	{gsetPkg, "NewSet", "new"}, {gsetPkg, "NewSetWithSize", "new"}, {gsetPkg, "Len", "len"}, {gsetPkg, "Contains", "has"},
	{gsetPkg, "Add", "add"}, {gsetPkg, "Remove", "remove"}, {gsetPkg, "Items", "keys"}, {gsetPkg, "Clear", "clear"},
	{gnumPkg, "Max", "two"}, {gnumPkg, "Min", "two"}, {gnumPkg, "MaxCollection", "best"}, {gnumPkg, "MinCollection", "best"},
	{gnumPkg, "MaxBy", "best"}, {gnumPkg, "MinBy", "best"},
}

type seqCheck struct {
	c    *Ctx
	on   map[string]bool
	fn   seqFn
	name string
	ps   []*Term
	max  bool // the greatest is looked for
}

func (k *seqCheck) bad(st *State, ev *Ev, rule, msg string) {
	if k.on[rule] {
		k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
	}
}
func (k *seqCheck) ob(ev *Ev, rule string) {
	if k.on[rule] {
		k.c.Ob(rule, where(ev)+" in "+k.name)
		k.c.N(rule)
	}
}

func (k *seqCheck) param(st *State, t *Term) bool {
	r := rootOf(st, t)
	for _, p := range k.ps {
		if r == p {
			return true
		}
	}
	return false
}

func isRef(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		_, tp := types.Unalias(t).(*types.TypeParam)
		return !tp
	}
	return false
}

var seqMutator = map[string]string{"reverse": "elements", "shuffle": "elements", "add": "set", "remove": "delete", "clear": "delete"}

// touch: memory that a parameter refers to is changed
func (k *seqCheck) touch(st *State, ev *Ev, m *Term, how string) {
	if !k.param(st, m) {
		return
	}
	k.ob(ev, "args")
	if seqMutator[k.fn.kind] != how {
		k.bad(st, ev, "args", "changes what it was given")
	}
}

func (k *seqCheck) event(st *State, ev *Ev) {
	T := st.x.T
	switch ev.Kind {
	case "load":
		if p := st.getT("half"); p != nil && ev.Addr.k == TIA && same(st, p.args[0], ev.Addr.args[1]) {
			return // what was there before is gone
		}
		if ev.Addr.k == TIA {
			recCell(st, ev.Val, ev.Addr.args[0], ev.Addr.args[1], 8)
			k.taken(st, ev, ev.Addr.args[0], ev.Addr.args[1])
		} else if ev.Addr.k == TFA && ev.Addr.args[0].k == TIA {
			ia := ev.Addr.args[0]
			s := coreStruct(derefT(ia.typ))
			for i := 0; s != nil && i < s.NumFields(); i++ {
				if s.Field(i).Origin() == ev.Addr.fld.Origin() && ev.Val.k == TSym && st.getT("cell7") == nil {
					n := 0
					for ; st.getT("cell"+string(rune('0'+n))) != nil; n++ {
					}
					st.setT("cell"+string(rune('0'+n)), T.tuple(ev.Val, st.resolve(ia.args[0]), ia.args[1], T.Int(int64(i))))
				}
			}
			k.taken(st, ev, ia.args[0], ia.args[1])
		}
	case "store":
		if ev.Addr.k == TIA || ev.Addr.k == TFA && ev.Addr.args[0].k == TIA {
			ia := ev.Addr
			if ia.k == TFA {
				ia = ia.args[0]
			}
			if _, arr := arrayLen(ia.args[0].typ); arr {
				return
			}
			k.touch(st, ev, ia.args[0], "elements")
			k.stored(st, ev, ia)
		}
	case "mapset":
		k.touch(st, ev, ev.Addr, "set")
		k.mapset(st, ev)
	case "mapdel":
		k.touch(st, ev, ev.Addr, "delete")
		k.mapdel(st, ev)
	case "clear":
		k.touch(st, ev, ev.Addr, "delete")
		if ev.Addr == k.ps[0] {
			st.setT("ended", T.Bool(true))
		}
	case "append":
		if k.param(st, ev.Addr) && !noRoom(st.resolve(ev.Addr)) {
			k.ob(ev, "args")
			k.bad(st, ev, "args", "appends to a slice it was given: what follows its end in memory may be overwritten")
		}
		k.appended(st, ev)
	case "copy":
		k.touch(st, ev, ev.Addr, "elements")
		k.copied(st, ev)
	case "call":
		if k.fn.kind != "shuffle" {
			k.c.Undecided(k.name, "calls "+ev.Callee+", which is not followed")
		}
	case "callback":
		takeCall(st, ev, 2)
	case "cond":
		takeTest(st, "q", ev.Val)
	case "branch":
		if t, v := heldTest(st, "q", ev.Detail == "true"); t != nil {
			k.tested(st, ev, t, v)
		}
		st.clearMon("q")
	case "lookup":
		k.looked(st, ev)
	case "range":
		k.ranged(st, ev)
	case "rangeend":
		k.pendingEntry(st, ev)
		if ev.Addr == k.ps[0] || k.fn.kind == "mapeq" && ev.Addr == k.ps[1] {
			st.setT("ended", T.Bool(true))
			if n := st.getT("#n"); n != nil {
				// every entry has been written once
				l := st.linOf(n).add(lenOf(st, k.ps[0]), -1)
				st.addLin(l)
				st.addLin(l.scale(-1))
			}
		}
	case "backedge":
		dropCells(st, ev)
		st.clearMon("cb.")
		k.roundEnd(st, ev)
	case "exit":
		k.exit(st, ev)
	}
}

func (k *seqCheck) eltOf(st *State, refs []cellRef, p *Term) (cellRef, bool) {
	for _, r := range refs {
		if r.base == p && r.fld < 0 {
			return r, true
		}
	}
	return cellRef{}, false
}

// tested: a comparison has decided a branch
func (k *seqCheck) tested(st *State, ev *Ev, t *test, v bool) {
	T := st.x.T
	yes := T.Bool(true)
	switch k.fn.kind {
	case "alleq":
		if t.op == "eq" == (len(k.ps) > 2) || t.op == "lt" || t.op == "le" {
			return
		}
		a, ok := k.eltOf(st, t.ca, k.ps[0])
		b, ok2 := k.eltOf(st, t.cb, k.ps[1])
		if t.op == "eq" && !(ok && ok2) {
			a, ok = k.eltOf(st, t.ca, k.ps[1])
			b, ok2 = k.eltOf(st, t.cb, k.ps[0])
		}
		if !ok || !ok2 || !same(st, a.idx, b.idx) {
			return
		}
		if v {
			cover(st, "c", st.linOf(a.idx))
		} else {
			st.setT("diff", yes)
		}
	case "mapeq":
		p := st.getT("pair")
		if p == nil {
			return
		}
		hit := false
		switch t.op {
		case "eq":
			hit = len(k.ps) == 2 && (t.a == p.args[0] && t.b == p.args[1] || t.a == p.args[1] && t.b == p.args[0])
		case "call":
			// in the order of the maps
			hit = t.a == p.args[0] && t.b == p.args[1]
		}
		if !hit {
			return
		}
		if v {
			st.setT("entry", nil)
		} else {
			st.setT("diff", yes)
		}
		st.setT("pair", nil)
	case "index":
		var r cellRef
		ok := false
		switch {
		case t.op == "call":
			r, ok = k.eltOf(st, t.ca, k.ps[0])
		case t.op == "eq" && t.b == k.ps[1]:
			r, ok = k.eltOf(st, t.ca, k.ps[0])
		case t.op == "eq" && t.a == k.ps[1]:
			r, ok = k.eltOf(st, t.cb, k.ps[0])
		case t.op == "eq": // the target has become one with the element
			if r, ok = k.eltOf(st, t.ca, k.ps[0]); !ok {
				r, ok = k.eltOf(st, t.cb, k.ps[0])
			}
			ok = ok && v && st.resolve(k.ps[1]) == t.a
		}
		if !ok {
			return
		}
		if v {
			st.setT("hit", r.idx)
			if f := st.getT("#c.f"); f != nil && eqLin(st, st.linOf(r.idx), st.linOf(f)) {
				st.setT("first", yes)
			}
		} else {
			cover(st, "c", st.linOf(r.idx))
		}
	case "sorted":
		var hi, lo cellRef
		var ok, ok2 bool
		bad := v
		switch t.op {
		case "lt", "call":
			hi, ok = k.eltOf(st, t.ca, k.ps[0])
			lo, ok2 = k.eltOf(st, t.cb, k.ps[0])
		case "le":
			lo, ok = k.eltOf(st, t.ca, k.ps[0])
			hi, ok2 = k.eltOf(st, t.cb, k.ps[0])
			bad = !v
		}
		if !ok || !ok2 || t.op == "call" != (len(k.ps) > 1) {
			return
		}
		if !eqLin(st, st.linOf(hi.idx), st.linOf(lo.idx).addk(1)) {
			return
		}
		if bad {
			st.setT("diff", yes)
		} else {
			cover(st, "c", st.linOf(lo.idx))
		}
	case "best":
		cur := st.getT("cur")
		a, b := t.a, t.b // a is compared with b; which one is an element after the best so far?
		ref, isA := k.eltOf(st, t.ca, k.ps[0])
		refB, isB := k.eltOf(st, t.cb, k.ps[0])
		if cur == nil {
			// the first comparison: the best so far is the first element
			switch {
			case isA && k.at0(st, ref):
				cur = a
			case isB && k.at0(st, refB):
				cur = b
			default:
				return
			}
			cover(st, "c", linConst(0))
			st.setT("cur", cur)
			st.setT("#cur", T.Int(0))
		}
		cur = st.resolve(cur)
		// the best so far is known by its value, or by its index
		isCur := func(v *Term, r cellRef, ok bool) bool {
			return v == cur || ok && eqLin(st, st.linOf(r.idx), st.linOf(st.getT("#cur")))
		}
		newFirst := !isCur(a, ref, isA) // the new element is the left one
		nref, ok := refB, isB
		n := b
		if newFirst {
			nref, ok, n = ref, isA, a
		}
		if !ok || newFirst && !isCur(b, refB, isB) {
			return
		}
		better := v
		switch t.op {
		case "eq":
			return
		case "call":
			if !newFirst {
				return
			}
		case "lt", "le":
			// n < cur means better for Min; cur < n for Max
			if newFirst == k.max {
				better = !v
			}
		}
		if !cover(st, "c", st.linOf(nref.idx)) {
			return
		}
		if better {
			st.setT("cur", n)
			st.setT("#cur", nref.idx)
		}
	}
}

func (k *seqCheck) at0(st *State, r cellRef) bool { return eqLin(st, st.linOf(r.idx), linConst(0)) }

// ---- maps

func (k *seqCheck) ranged(st *State, ev *Ev) {
	T := st.x.T
	k.pendingEntry(st, ev)
	if ev.Addr == k.ps[0] || k.fn.kind == "mapeq" && ev.Addr == k.ps[1] {
		st.setT("entry", T.tuple(ev.Args[0], orNil(T, ev.Args[1])))
		st.setT("of", ev.Addr)
	}
}

// pendingEntry: the entry of the map that the last round was about
func (k *seqCheck) pendingEntry(st *State, ev *Ev) {
	if st.getT("entry") == nil {
		return
	}
	switch k.fn.kind {
	case "keys", "values", "entries", "mapcopy":
		k.ob(ev, "content")
		k.bad(st, ev, "content", "an entry of the map is left out")
	case "clear":
		k.ob(ev, "content")
		k.bad(st, ev, "content", "an entry of the map is not deleted")
	case "mapeq":
		k.ob(ev, "answer")
		k.bad(st, ev, "answer", "goes on to another key without having compared the values of this one")
	}
	st.setT("entry", nil)
}

func (k *seqCheck) looked(st *State, ev *Ev) {
	T := st.x.T
	m, key := ev.Args[0], ev.Args[1]
	present := ev.Res[1].isBool(true)
	switch k.fn.kind {
	case "mapeq":
		e := st.getT("entry")
		of := st.getT("of")
		if e == nil || of == m || m != k.ps[0] && m != k.ps[1] {
			return
		}
		if st.resolve(e.args[0]) != key {
			return
		}
		if !present {
			st.setT("diff", T.Bool(true))
			// an entry that is missing yields the zero value, which says nothing
			st.setT("pair", nil)
			return
		}
		if m == k.ps[1] {
			st.setT("pair", T.tuple(e.args[1], ev.Val))
		} else {
			st.setT("pair", T.tuple(ev.Val, e.args[1]))
		}
	case "tomap":
		if !m.alloc {
			return
		}
		if !present {
			st.setT("look", T.tuple(m, key))
			return
		}
		for _, r := range cellsOf(st, key) {
			if r.base == k.ps[0] && r.fld == 0 && eqLin(st, st.linOf(r.idx), st.linOf(st.getT("#c.b")).addk(-1)) {
				dec(st, "#c.b")
			}
		}
	case "has":
		if m == k.ps[0] && key == k.ps[1] {
			st.setT("has", T.Bool(present))
		}
	case "unique":
		if !m.alloc {
			return
		}
		if present && isBoolT(ev.Val.typ) {
			if !st.assume(ev.Val, true) { // only true is ever stored
				return
			}
		}
		st.setT("look", T.tuple(m, key, T.Bool(present)))
		st.setT("wrote", nil)
		st.setT("noted", nil)
		if r, ok := k.keyOf(st, key); ok {
			k.ob(ev, "content")
			if !eqLin(st, st.linOf(r.idx), st.linOf(st.getT("#c.f"))) {
				k.bad(st, ev, "content", "an element is passed over, or the elements are not taken in their order")
			}
			st.setT("idx", r.idx)
			inc(st, "#c.f")
		}
	}
}

// keyOf: the element that a key of the set of seen values stands for
func (k *seqCheck) keyOf(st *State, key *Term) (cellRef, bool) {
	if len(k.ps) > 1 {
		c := callOf(st, key)
		if len(c) != 2 || c[0] != k.ps[1] {
			return cellRef{}, false
		}
		return k.eltOf(st, cellsOf(st, c[1]), k.ps[0])
	}
	return k.eltOf(st, cellsOf(st, key), k.ps[0])
}

func (k *seqCheck) mapset(st *State, ev *Ev) {
	T := st.x.T
	m, key, v := ev.Args[0], ev.Args[1], ev.Args[2]
	switch k.fn.kind {
	case "mapcopy":
		e := st.getT("entry")
		k.ob(ev, "content")
		if e == nil || st.resolve(e.args[0]) != key || st.resolve(e.args[1]) != v {
			k.bad(st, ev, "content", "what is put into the new map is not the entry at hand")
		}
		if o := st.getT("bld"); o != nil && o != m {
			k.bad(st, ev, "content", "entries are put into different maps")
		}
		st.setT("bld", m)
		st.setT("entry", nil)
	case "tomap":
		k.ob(ev, "content")
		ok, back := false, false
		for _, r := range cellsOf(st, key) {
			if r.base != k.ps[0] || r.fld != 0 {
				continue
			}
			// from the last pair, those whose key is there already left out
			if l := st.getT("look"); l != nil && l.args[0] == m && st.resolve(l.args[1]) == key {
				for _, q := range cellsOf(st, v) {
					if q.base == r.base && q.fld == 1 && same(st, q.idx, r.idx) && eqLin(st, st.linOf(r.idx), st.linOf(st.getT("#c.b")).addk(-1)) {
						ok, back = true, true
					}
				}
				if back {
					break
				}
			}
			for _, q := range cellsOf(st, v) {
				if q.base == r.base && q.fld == 1 && same(st, q.idx, r.idx) && eqLin(st, st.linOf(r.idx), st.linOf(st.getT("#c.f"))) {
					ok = true
				}
			}
		}
		if !ok {
			k.bad(st, ev, "content", "what is put into the map is not the next pair")
		}
		if o := st.getT("bld"); o != nil && o != m {
			k.bad(st, ev, "content", "pairs are put into different maps")
		}
		st.setT("bld", m)
		st.setT("look", nil)
		if back {
			dec(st, "#c.b")
		} else {
			inc(st, "#c.f")
		}
	case "add":
		k.ob(ev, "content")
		if m != k.ps[0] || key != k.ps[1] {
			k.bad(st, ev, "content", "adds something else than the element given")
		}
		st.setT("ended", T.Bool(true))
	case "unique":
		if isBoolT(v.typ) && !v.isBool(true) {
			k.c.Undecided(k.name, "the set of seen values holds more than true")
		}
		if l := st.getT("look"); l != nil && l.args[0] == m && st.resolve(l.args[1]) == key {
			st.setT("noted", T.Bool(true))
		}
	case "new":
		k.ob(ev, "content")
		k.bad(st, ev, "content", "the new set is not empty")
	}
}

func (k *seqCheck) mapdel(st *State, ev *Ev) {
	switch k.fn.kind {
	case "remove":
		k.ob(ev, "content")
		if ev.Addr != k.ps[0] || st.resolve(ev.Args[1]) != k.ps[1] {
			k.bad(st, ev, "content", "removes something else than the element given")
		}
		st.setT("ended", st.x.T.Bool(true))
	case "clear":
		if e := st.getT("entry"); e != nil && ev.Addr == k.ps[0] && st.resolve(e.args[0]) == st.resolve(ev.Args[1]) {
			st.setT("entry", nil)
		}
	}
}

// ---- what is built

// total: the number of elements that the result has to have
func (k *seqCheck) builds() bool {
	switch k.fn.kind {
	case "copy", "merge", "unique", "keys", "values", "entries":
		return true
	}
	return false
}

// put: v is written to position pos of the memory b
func (k *seqCheck) put(st *State, ev *Ev, b *Term, pos Lin, v *Term) {
	n := st.getT("#n")
	k.ob(ev, "content")
	back := false
	if b := st.getT("#c.b"); (k.fn.kind == "copy" || k.fn.kind == "merge") && b != nil && (n == nil || !eqLin(st, pos, st.linOf(n))) {
		back = eqLin(st, pos, st.linOf(b).addk(-1)) // from the last one
	}
	if !back && (n == nil || !eqLin(st, pos, st.linOf(n))) {
		k.bad(st, ev, "content", "an element is not written right after the one before")
		return
	}
	switch k.fn.kind {
	case "copy", "merge":
		ok := false
		for _, r := range cellsOf(st, v) {
			if r.fld >= 0 {
				continue
			}
			if r.base == k.ps[0] && eqLin(st, st.linOf(r.idx), pos) {
				ok = true
			}
			if len(k.ps) > 1 && r.base == k.ps[1] && eqLin(st, st.linOf(r.idx).add(lenOf(st, k.ps[0]), 1), pos) {
				ok = true
			}
		}
		if !ok {
			k.bad(st, ev, "content", "what is written is not the next element")
		}
	case "unique":
		l := st.getT("look")
		r, ok := cellRef{}, false
		if l != nil {
			r, ok = k.eltOf(st, cellsOf(st, v), k.ps[0])
			ok = ok && st.getT("idx") != nil && same(st, r.idx, st.getT("idx"))
		}
		switch {
		case l == nil:
			// written before it is looked up
			k.c.Undecided(k.name, "an element is written before it is looked up")
		case !ok:
			k.bad(st, ev, "content", "what is written is not the element that was looked up")
		case l.args[2].isBool(true):
			k.bad(st, ev, "content", "an element that was seen before is written again")
		case st.getT("wrote") != nil:
			k.bad(st, ev, "content", "an element is written twice")
		}
		st.setT("wrote", st.x.T.Bool(true))
	case "keys", "values", "entries":
		e := st.getT("entry")
		ok := false
		if e != nil {
			key, val := st.resolve(e.args[0]), st.resolve(e.args[1])
			v = st.resolve(v)
			switch k.fn.kind {
			case "keys":
				ok = v == key
			case "values":
				ok = v == val
			case "entries":
				ok = v.k == TStruct && len(v.args) == 2 && v.args[0] == key && v.args[1] == val
			}
		}
		if !ok {
			k.bad(st, ev, "content", "what is written does not belong to the entry at hand, or is written twice")
		}
		st.setT("entry", nil)
	}
	if back {
		dec(st, "#c.b")
		return
	}
	inc(st, "#n")
}

func (k *seqCheck) bulk(st *State, ev *Ev, pos Lin, s *Term) {
	k.ob(ev, "content")
	n := st.getT("#n")
	s = st.resolve(s)
	if s.isNil() || st.prove(lenOf(st, s).scale(-1)) {
		return
	}
	ok := eqLin(st, pos, st.linOf(n))
	switch {
	case k.fn.kind == "copy" && s == k.ps[0]:
		ok = ok && eqLin(st, pos, linConst(0))
	case k.fn.kind == "merge" && s == k.ps[0]:
		ok = ok && eqLin(st, pos, linConst(0))
	case k.fn.kind == "merge" && s == k.ps[1]:
		ok = ok && eqLin(st, pos, lenOf(st, k.ps[0]))
	default:
		ok = false
	}
	if !ok {
		k.bad(st, ev, "content", "the elements are not taken over in their order")
		return
	}
	st.setT("#n", st.x.arith(st, "+", n, st.x.T.op("len", types.Typ[types.Int], s), types.Typ[types.Int]))
}

func (k *seqCheck) appended(st *State, ev *Ev) {
	if !k.builds() {
		return
	}
	base := st.resolve(ev.Addr)
	b := st.getT("bld")
	if b != nil && st.resolve(b) != base {
		k.bad(st, ev, "content", "what was built before is not what is appended to")
		return
	}
	st.setT("bld", ev.Val)
	if len(ev.Args) < 2 {
		return
	}
	pos := lenOf(st, base)
	if vs, ok := varargs(st, ev.Args[1]); ok {
		for i, v := range vs {
			k.put(st, ev, ev.Val, pos.addk(int64(i)), v)
		}
		return
	}
	k.bulk(st, ev, pos, ev.Args[1])
}

func (k *seqCheck) copied(st *State, ev *Ev) {
	if !k.builds() {
		return
	}
	d, s := st.resolve(ev.Args[0]), st.resolve(ev.Args[1])
	pos := linConst(0)
	b := d
	for b.k == TOp && b.op == "slice" {
		pos = pos.add(st.linOf(b.args[1]), 1)
		b = b.args[0]
	}
	if !b.alloc {
		return
	}
	if o := st.getT("bld"); o != nil && st.resolve(o) != b {
		k.bad(st, ev, "content", "what was built before is not what is copied to")
		return
	}
	st.setT("bld", b)
	if !st.prove(lenOf(st, d).add(lenOf(st, s), -1)) {
		k.bad(st, ev, "content", "there may not be room for all elements")
		return
	}
	k.bulk(st, ev, pos, s)
}

func (k *seqCheck) stored(st *State, ev *Ev, ia *Term) {
	T := st.x.T
	b := st.resolve(ia.args[0])
	if k.builds() && b.alloc {
		if o := st.getT("bld"); o != nil && st.resolve(o) != b {
			k.bad(st, ev, "content", "the elements are written to different slices")
			return
		}
		st.setT("bld", b)
		if ev.Addr.k == TFA {
			// a struct element, field by field: complete with its last field
			s := coreStruct(derefT(ia.typ))
			if s == nil || s.Field(s.NumFields()-1).Origin() != ev.Addr.fld.Origin() {
				return
			}
			fs := []*Term{}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				a := T.fa(ia, f.Origin(), types.NewPointer(f.Type()))
				if a == ev.Addr {
					fs = append(fs, ev.Val)
				} else {
					fs = append(fs, orNil(T, st.heap[a]))
				}
			}
			k.put(st, ev, b, st.linOf(ia.args[1]), T.strukt(fs, derefT(ia.typ)))
			return
		}
		k.put(st, ev, b, st.linOf(ia.args[1]), ev.Val)
		return
	}
	if b != k.ps[0] || k.fn.kind != "reverse" && k.fn.kind != "shuffle" {
		return
	}
	// an exchange
	k.ob(ev, "content")
	to := ia.args[1]
	var from *Term
	p := st.getT("half")
	for _, r := range cellsOf(st, ev.Val) {
		if r.base != b || r.fld >= 0 {
			continue
		}
		if k.fn.kind == "reverse" && !eqLin(st, st.linOf(r.idx).add(st.linOf(to), 1).addk(1), lenOf(st, b)) {
			continue
		}
		if p != nil && !(same(st, p.args[0], r.idx) && same(st, p.args[1], to)) {
			continue
		}
		from = r.idx
	}
	if from == nil {
		if k.fn.kind == "reverse" {
			k.bad(st, ev, "content", "an element does not go to the place opposite to its own")
		} else {
			k.bad(st, ev, "content", "what is written is not part of an exchange of two elements")
		}
		st.setT("half", nil)
		return
	}
	if p == nil {
		st.setT("half", T.tuple(to, from))
		return
	}
	st.setT("half", nil)
	dropSwapped(st, b)
	if k.fn.kind == "reverse" {
		// positions from the front, or from the middle outwards
		a, b := cover(st, "c", st.linOf(to)), cover(st, "c", st.linOf(from))
		if !a && !b {
			a, b = cover(st, "r", st.linOf(to)), cover(st, "r", st.linOf(from))
		}
		if !a && !b {
			k.bad(st, ev, "content", "pairs are exchanged twice or left out")
		}
	}
}

func dropSwapped(st *State, b *Term) {
	for _, q := range st.monKeys("cell") {
		if st.getT(q).args[1] == b {
			st.setT(q, nil)
		}
	}
}

// taken: an element of the parameter is read
func (k *seqCheck) taken(st *State, ev *Ev, base, idx *Term) {}

// roundEnd: the end of one round of a loop
func (k *seqCheck) roundEnd(st *State, ev *Ev) {
	if k.fn.kind == "unique" {
		k.uniqueRound(st, ev)
	}
	if st.getT("half") != nil {
		k.bad(st, ev, "content", "an element is overwritten without going anywhere itself")
		st.setT("half", nil)
	}
}

func (k *seqCheck) uniqueRound(st *State, ev *Ev) {
	l := st.getT("look")
	if l == nil {
		return
	}
	k.ob(ev, "content")
	if l.args[2].isBool(false) {
		if st.getT("wrote") == nil {
			k.bad(st, ev, "content", "an element that was not seen before is left out")
		}
		if st.getT("noted") == nil {
			k.bad(st, ev, "content", "an element is not noted as seen")
		}
	}
	for _, n := range []string{"look", "wrote", "noted", "idx"} {
		st.setT(n, nil)
	}
}

// notNilSlice: the value is a slice or map that is not nil
func notNilSlice(st *State, t *Term) bool {
	for i := 0; i < 30; i++ {
		t = st.resolve(t)
		if st.notNil(t) {
			return true
		}
		if t.k == TOp && t.op == "slice" {
			t = t.args[0]
			continue
		}
		if t.k == TSym && t.label == "append" && len(t.prov) > 0 {
			if len(t.prov) > 1 && st.prove(lenOf(st, st.resolve(t.prov[1])).addk(-1)) {
				return true
			}
			t = t.prov[0]
			continue
		}
		return false
	}
	return false
}

// noRoomOf: built on p[:0:0], so that it is nil when p is
func noRoomOf(st *State, v, p *Term) bool {
	for i := 0; i < 30; i++ {
		v = st.resolve(v)
		switch {
		case v.k == TOp && v.op == "slice" && noRoom(v):
			return st.resolve(v.args[0]) == p
		case v.k == TSym && v.label == "append" && len(v.prov) > 0:
			v = v.prov[0]
		default:
			return false
		}
	}
	return false
}

func (k *seqCheck) exit(st *State, ev *Ev) {
	T := st.x.T
	if ev.Panics {
		return
	}
	var r *Term
	if len(ev.Res) > 0 {
		r = st.resolve(ev.Res[0])
	}
	// ownership of results
	for i, v := range ev.Res {
		v = st.resolve(v)
		sig := k.sig()
		if sig == nil || !isRef(sig.Results().At(i).Type()) {
			continue
		}
		k.ob(ev, "own")
		switch k.fn.kind {
		case "reverse", "shuffle":
			if v != k.ps[0] {
				k.bad(st, ev, "own", "does not return the slice it was given")
			}
		default:
			root := rootOf(st, v)
			if k.param(st, v) && !(noRoom(v) || st.isNilT(v)) {
				k.bad(st, ev, "own", "the result shares memory with what was given")
			} else if !freshSlice(root) {
				k.bad(st, ev, "own", "the result is not known to be new memory")
			}
			if k.fn.kind == "copy" && k.fn.pkg == gslicePkg {
				in := st.isNilT(k.ps[0])
				tied := noRoomOf(st, v, k.ps[0])
				if st.isNilT(v) != in || !in && !tied && !(st.notNil(k.ps[0]) && notNilSlice(st, v)) {
					k.bad(st, ev, "own", "the copy of nil, and only that, has to be nil")
				}
			} else if !notNilSlice(st, v) {
				k.bad(st, ev, "own", "the result may be nil")
			}
		}
	}
	if st.getT("half") != nil {
		k.bad(st, ev, "content", "an element is overwritten without going anywhere itself")
	}
	switch k.fn.kind {
	case "alleq", "mapeq", "index", "sorted", "has":
		if r.typ != nil && isBoolT(r.typ) {
			takeTest(st, "q", r)
			st.cases(r, func(s *State, v bool) {
				if _, known := st.truth(r); !known {
					if t, w := heldTest(s, "q", v); t != nil {
						k.tested(s, ev, t, w)
					}
				}
				k.answer(s, ev, v)
			})
			return
		}
		k.position(st, ev, r)
	case "len":
		k.ob(ev, "answer")
		if !eqLin(st, st.linOf(r), lenOf(st, k.ps[0])) {
			k.bad(st, ev, "answer", "is not the number of elements")
		}
	case "best":
		k.ob(ev, "answer")
		n := lenOf(st, k.ps[0])
		cur := st.getT("cur")
		if st.prove(n.scale(-1)) {
			if !isZero(st, r) {
				k.bad(st, ev, "answer", "the result for no elements is not the zero value")
			}
			return
		}
		if cur == nil {
			// nothing was compared: there is one element
			if ref, ok := k.eltOf(st, cellsOf(st, r), k.ps[0]); !ok || !k.at0(st, ref) || !st.prove(n.scale(-1).addk(1)) {
				k.bad(st, ev, "answer", "returns without having compared the elements")
			}
			return
		}
		if !covered(st, "c", n) {
			k.bad(st, ev, "answer", "not every element is compared with the best one so far, new one first")
		}
		ref, ok := k.eltOf(st, cellsOf(st, r), k.ps[0])
		if st.resolve(cur) != r && !(ok && eqLin(st, st.linOf(ref.idx), st.linOf(st.getT("#cur")))) {
			k.bad(st, ev, "answer", "the result is not the best element found")
		}
	case "two":
		k.ob(ev, "answer")
		a, b := k.ps[0], k.ps[1]
		o := b
		if r == b {
			o = a
		} else if r != a {
			k.bad(st, ev, "answer", "the result is neither of the two")
			return
		}
		// r is not worse than o
		lo, hi := r, o
		if k.max {
			lo, hi = o, r
		}
		v1, k1 := st.truth(T.op("lt", types.Typ[types.Bool], hi, lo))
		v2, k2 := st.truth(T.op("lt", types.Typ[types.Bool], lo, hi))
		v3, k3 := st.truth(T.op("le", types.Typ[types.Bool], lo, hi))
		v4, k4 := st.truth(T.op("le", types.Typ[types.Bool], hi, lo))
		if !(k1 && !v1 || k2 && v2 || k3 && v3 || k4 && !v4) {
			k.bad(st, ev, "answer", "the other one may be the better one")
		}
	case "copy", "merge", "keys", "values", "entries", "unique":
		k.built(st, ev, r)
	case "mapcopy", "tomap":
		k.ob(ev, "content")
		b := st.getT("bld")
		n := lenOf(st, k.ps[0])
		if b != nil && b != r {
			k.bad(st, ev, "content", "returns another map than the one that was filled")
		}
		done := st.getT("ended") != nil
		if k.fn.kind == "tomap" {
			done = covered(st, "c", n)
		}
		if !done && !st.prove(n.scale(-1)) {
			k.bad(st, ev, "content", "returns before everything has been taken over")
		}
	case "clear", "add", "remove":
		k.ob(ev, "content")
		if st.getT("ended") == nil && !(k.fn.kind != "add" && st.prove(lenOf(st, k.ps[0]).scale(-1))) {
			absent := false
			if k.fn.kind != "clear" {
				if h := st.heap[T.has(k.ps[0], k.ps[1])]; h != nil {
					v, known := st.truth(h)
					absent = known && v == (k.fn.kind == "add")
				}
			}
			if !absent {
				k.bad(st, ev, "content", "returns without having done it")
			}
		}
	case "reverse":
		k.ob(ev, "content")
		// pairs 0..f-1 have been exchanged
		n := lenOf(st, k.ps[0])
		f, b := st.getT("#c.f"), st.getT("#r.b")
		if !st.prove(st.linOf(f).scale(2).add(n, -1).addk(1)) && !(b != nil && st.prove(st.linOf(b).scale(-1))) {
			k.bad(st, ev, "content", "returns before all pairs have been exchanged")
		}
	case "new":
		k.ob(ev, "content")
	}
}

func (k *seqCheck) sig() *types.Signature {
	f := k.c.P.fn(k.fn.pkg, k.fn.name)
	if f == nil {
		return nil
	}
	return f.Signature
}

func (k *seqCheck) built(st *State, ev *Ev, r *Term) {
	k.ob(ev, "content")
	if k.fn.kind == "unique" {
		k.uniqueRound(st, ev)
	}
	n := st.getT("#n")
	l := lenOf(st, r)
	empty := st.prove(l.scale(-1))
	if b := st.getT("bld"); b != nil && !empty && rootOf(st, r) != rootOf(st, st.resolve(b)) {
		k.bad(st, ev, "content", "returns another slice than the one that was filled")
	}
	if r.k == TOp && r.op == "slice" {
		if lo, ok := r.args[1].intVal(); !r.args[1].isNil() && !(ok && lo == 0) {
			k.bad(st, ev, "content", "leaves out the first elements")
		}
	}
	all := lenOf(st, k.ps[0])
	if k.fn.kind == "merge" {
		all = all.add(lenOf(st, k.ps[1]), 1)
	}
	if b := st.getT("#c.b"); (k.fn.kind == "copy" || k.fn.kind == "merge") && st.prove(st.linOf(n).add(st.linOf(b), -1)) {
		if !eqLin(st, l, all) {
			k.bad(st, ev, "content", "the length of the result is not that of what was given")
		}
		return
	}
	if !eqLin(st, l, st.linOf(n)) {
		k.bad(st, ev, "content", "the length of the result is not the number of elements written")
	}
	want := lenOf(st, k.ps[0])
	switch k.fn.kind {
	case "copy", "merge":
		if k.fn.kind == "merge" {
			want = want.add(lenOf(st, k.ps[1]), 1)
		}
		if !eqLin(st, st.linOf(n), want) {
			k.bad(st, ev, "content", "not all elements are in the result")
		}
	case "keys", "values", "entries":
		if st.getT("ended") == nil && !st.prove(want.scale(-1)) {
			k.bad(st, ev, "content", "returns before all entries have been visited")
		}
	case "unique":
		if !covered(st, "c", want) && st.prove(st.linOf(st.getT("#c.f")).scale(-1)) {
			k.c.Undecided(k.name, "elements are not looked up before they are written")
		} else if !covered(st, "c", want) {
			k.bad(st, ev, "content", "returns before all elements have been looked at")
		}
		if len(ev.Res) > 1 && !eqLin(st, st.linOf(st.resolve(ev.Res[1])), l) {
			k.bad(st, ev, "content", "the number returned is not the length of the result")
		}
	}
}

// answer: the function says v
func (k *seqCheck) answer(st *State, ev *Ev, v bool) {
	k.ob(ev, "answer")
	n := lenOf(st, k.ps[0])
	switch k.fn.kind {
	case "alleq", "mapeq":
		m := lenOf(st, k.ps[1])
		d := n.add(m, -1)
		differ := st.prove(d.addk(-1)) || st.prove(d.scale(-1).addk(-1))
		if x, known := st.truth(st.mkEq(st.x.T.op("len", types.Typ[types.Int], k.ps[0]), st.x.T.op("len", types.Typ[types.Int], k.ps[1]))); known && !x {
			differ = true
		}
		if !v {
			if st.getT("diff") == nil && !differ {
				k.bad(st, ev, "answer", "says they are not equal although no difference was found")
			}
			return
		}
		if st.getT("diff") != nil {
			k.bad(st, ev, "answer", "says they are equal although a difference was found")
		}
		if !st.prove(d) || !st.prove(d.scale(-1)) {
			k.bad(st, ev, "answer", "says they are equal although their lengths may differ")
		}
		if k.fn.kind == "alleq" && !covered(st, "c", n) {
			k.bad(st, ev, "answer", "says they are equal although not all elements were compared in pairs")
		}
		if k.fn.kind == "mapeq" {
			k.pendingEntry(st, ev)
			if st.getT("ended") == nil && !st.prove(n.scale(-1)) {
				k.bad(st, ev, "answer", "says they are equal although not all keys were compared")
			}
		}
	case "index":
		if v && st.getT("hit") == nil {
			k.bad(st, ev, "answer", "says there is such an element although none was found")
		}
		if !v && (st.getT("hit") != nil || !covered(st, "c", n)) {
			k.bad(st, ev, "answer", "says there is no such element although not all were compared")
		}
	case "sorted":
		if v && (st.getT("diff") != nil || !covered(st, "c", n.addk(-1))) {
			k.bad(st, ev, "answer", "says the slice is sorted although not all neighbours were found in order")
		}
		if !v && st.getT("diff") == nil {
			k.bad(st, ev, "answer", "says the slice is not sorted although no neighbours were found out of order")
		}
	case "has":
		h := st.getT("has")
		if h == nil {
			if !v && st.prove(n.scale(-1)) {
				return
			}
			k.bad(st, ev, "answer", "answers without a look at the key")
		} else if !h.isBool(v) {
			k.bad(st, ev, "answer", "the answer is the opposite of what was found")
		}
	}
}

func (k *seqCheck) position(st *State, ev *Ev, r *Term) {
	k.ob(ev, "answer")
	hit := st.getT("hit")
	if hit != nil {
		if !eqLin(st, st.linOf(r), st.linOf(hit)) {
			k.bad(st, ev, "answer", "the index returned is not the one where the element was found")
		}
		if st.getT("first") == nil {
			k.bad(st, ev, "answer", "the element found may not be the first one")
		}
		return
	}
	if !eqLin(st, st.linOf(r), linConst(-1)) {
		k.bad(st, ev, "answer", "returns something else than -1 although nothing was found")
	}
	if !covered(st, "c", lenOf(st, k.ps[0])) {
		k.bad(st, ev, "answer", "says there is no such element although not all were compared")
	}
}

func (k *seqCheck) run(f seqFn) {
	fn := k.c.Fn(f.pkg, f.name)
	if fn == nil {
		return
	}
	k.fn = f
	k.name = f.name
	k.max = f.name == "Max" || f.name == "MaxCollection"
	k.c.Run(fn, &Config{Bounds: true, Event: k.event, Model: func(st *State, c *Call) ([]Out, bool) {
		if f.kind == "shuffle" && c.Callee == "hack/fastrand.Shuffle" {
			return nil, false
		}
		return nil, false
	}, NoInline: func(g *ssa.Function) bool { return false }}, func(st *State, ps []*Term) {
		k.ps = ps
		T := st.x.T
		n := linConst(0)
		if len(ps) > 0 && isRef(ps[0].typ) {
			n = lenOf(st, ps[0])
		}
		switch f.kind {
		case "sorted":
			n = n.addk(-1)
		}
		if f.kind == "merge" {
			n = n.add(lenOf(st, ps[1]), 1)
		}
		coverInit(st, "c", n)
		if f.kind == "reverse" {
			h := st.x.arith(st, "/", T.op("len", types.Typ[types.Int], ps[0]), T.Int(2), types.Typ[types.Int])
			coverInit(st, "r", st.linOf(h))
			st.setT("#r.f", nil)
		}
		if k.builds() {
			st.setT("#n", T.Int(0))
		}
	})
}

func seqProp(id string, rules map[string]string, min map[string]int, expl string) {
	register(&Property{ID: id, Expl: expl, Run: func(c *Ctx) {
		k := &seqCheck{c: c, on: map[string]bool{}}
		for n, t := range rules {
			k.on[n] = true
			c.rules[n] = t
		}
		for _, f := range seqFns {
			k.run(f)
		}
		for n, m := range min {
			c.Min(n, m)
		}
	}})
}

func init() {
	seqProp("C24", map[string]string{
		"args": "memory that an argument refers to is changed only by the functions whose purpose it is",
		"own":  "slices and maps that are returned are new memory, and not nil (Copy: nil for nil)",
	}, map[string]int{"own": 12}, "")
	seqProp("C25", map[string]string{
		"answer": "an answer is given only with the comparisons that prove it: all positions covered, or a witness",
	}, map[string]int{"answer": 30}, "")
	seqProp("C26", map[string]string{
		"content": "every element is taken over once, in order; exchanges move elements to their place",
	}, map[string]int{"content": 30}, "")
}
