package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const cachePkg = "library/cachex"

type lruRoles struct {
	mux, table, list, capF, maxF *types.Var
	el, exp, used, val           *types.Var // of an item
}

func findLRU(c *Ctx) *lruRoles {
	r := &lruRoles{}
	n := c.P.named(cachePkg, "LRUCacheV2")
	if n != nil {
		st, _ := n.Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			f := st.Field(i).Origin()
			switch {
			case namedIs(f.Type(), "sync", "Mutex"), namedIs(f.Type(), "sync", "RWMutex"):
				r.mux = f
			case namedIs(derefT(f.Type()), "container/list", "List"):
				r.list = f
			default:
				if m, ok := f.Type().Underlying().(*types.Map); ok {
					r.table = f
					if es := coreStruct(derefT(m.Elem())); es != nil {
						for j := 0; j < es.NumFields(); j++ {
							g := es.Field(j).Origin()
							switch {
							case namedIs(g.Type(), "time", "Time"):
								r.exp = g
							case namedIs(derefT(g.Type()), "container/list", "Element"):
								r.el = g
							case isInt(g.Type()):
								r.used = g
							default:
								if _, ok := types.Unalias(g.Type()).(*types.TypeParam); ok {
									r.val = g
								}
							}
						}
					}
				}
			}
		}
	}
	if r.mux == nil || r.table == nil || r.list == nil || r.el == nil || r.exp == nil || r.used == nil || r.val == nil {
		c.Bad(nil, "anchor", cachePkg+".LRUCacheV2", 0, "the parts of the cache (mutex, table, list, item fields) could not be identified")
		return nil
	}
	return r
}

type lruCheck struct {
	c    *Ctx
	r    *lruRoles
	on   map[string]bool
	name string
	recv *Term
	ps   []*Term
	x    *Exec
}

func (k *lruCheck) bad(st *State, ev *Ev, rule, msg string) {
	if k.on[rule] {
		k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
	}
}
func (k *lruCheck) ob(ev *Ev, rule string) {
	if k.on[rule] {
		k.c.Ob(rule, where(ev)+" in "+k.name)
		k.c.N(rule)
	}
}

func fAddr(st *State, base *Term, v *types.Var) *Term {
	return st.x.T.fa(base, v, types.NewPointer(v.Type()))
}

// unbox strips a conversion to an interface
func unbox(t *Term) *Term {
	for t != nil && t.k == TOp && t.op == "iface" {
		t = t.args[0]
	}
	return t
}

// constructor finds which fields hold the capacity and the usage limit.
func (k *lruCheck) constructor() {
	c, r := k.c, k.r
	f := c.Fn(cachePkg, "NewLRUCacheV2")
	if f == nil {
		return
	}
	k.name = "NewLRUCacheV2"
	c.Run(f, &Config{Event: func(st *State, ev *Ev) {
		if ev.Kind != "exit" || ev.Panics {
			return
		}
		k.ob(ev, "capacity")
		o := st.resolve(ev.Res[0])
		s, _ := c.P.named(cachePkg, "LRUCacheV2").Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			g := s.Field(i).Origin()
			v := st.heap[fAddr(st, o, g)]
			if v == nil {
				continue
			}
			if v == k.ps[0] {
				r.capF = g
			}
			if v == k.ps[1] {
				r.maxF = g
			}
			if (g == r.table || g == r.list) && !st.notNil(v) {
				k.bad(st, ev, "capacity", "the new cache has no "+g.Name())
			}
		}
		if !st.prove(st.linOf(k.ps[0]).addk(-1)) {
			k.bad(st, ev, "capacity", "accepts a capacity below one")
		}
	}}, func(st *State, ps []*Term) { k.ps = ps })
	if r.capF == nil || r.maxF == nil {
		c.Bad(nil, "anchor", cachePkg+".NewLRUCacheV2", f.Pos(), "the constructor does not keep its two parameters")
	}
}

func (k *lruCheck) locked(st *State) string { return st.holds(fAddr(st, k.recv, k.r.mux)) }
func (k *lruCheck) tableT(st *State) *Term  { return st.heap[fAddr(st, k.recv, k.r.table)] }
func (k *lruCheck) listT(st *State) *Term   { return st.heap[fAddr(st, k.recv, k.r.list)] }
func (k *lruCheck) capT(st *State) *Term    { return st.heap[fAddr(st, k.recv, k.r.capF)] }
func (k *lruCheck) maxT(st *State) *Term    { return st.heap[fAddr(st, k.recv, k.r.maxF)] }

func (k *lruCheck) curKey(st *State) *Term {
	if t := st.getT("cur"); t != nil {
		return t.args[0]
	}
	return nil
}
func (k *lruCheck) curItem(st *State) *Term {
	if t := st.getT("cur"); t != nil && !t.args[1].isNil() {
		return t.args[1]
	}
	return nil
}

// keyOf: the key a list element stands for
func (k *lruCheck) keyOf(st *State, el *Term) *Term {
	for _, m := range st.monKeys("rel") {
		if t := st.mon[m]; t.args[0] == el {
			return t.args[1]
		}
	}
	return nil
}
func (k *lruCheck) relate(st *State, el, key *Term) {
	for _, m := range st.monKeys("rel") {
		if st.mon[m].args[0] == el {
			return
		}
	}
	for n := 'a'; ; n++ {
		if st.getT("rel"+string(n)) == nil {
			st.setT("rel"+string(n), st.x.T.tuple(el, key))
			return
		}
	}
}

func (k *lruCheck) num(st *State) *Term { return st.getT("#n") }

func (k *lruCheck) model(st *State, c *Call) ([]Out, bool) {
	T := st.x.T
	if len(c.Args) == 0 || c.Args[0] != k.listT(st) {
		return nil, false
	}
	ev := &Ev{Kind: "list", Instr: c.Instr, Callee: c.Callee, Args: c.Args, Fn: c.Fn, Pos: instrPos(c.Instr)}
	k.needLock(st, ev, "w", "the recency list")
	n := k.num(st)
	if n == nil {
		return nil, false
	}
	switch c.Callee {
	case "container/list.List.Len":
		return []Out{{Res: []*Term{n}}}, true
	case "container/list.List.Back", "container/list.List.Front":
		el := T.sym(shortName(c.Callee), c.ResTypes()[0])
		el.instr = c.Instr
		if st.prove(st.linOf(n).addk(-1)) {
			el.nonnil = true
		}
		if c.Callee == "container/list.List.Back" {
			st.setT("back", el)
			st.setT("over", nil)
			if st.prove(st.linOf(n).add(st.linOf(k.capT(st)), -1).addk(-1)) {
				st.setT("over", T.Bool(true))
			}
		}
		return []Out{{Res: []*Term{el}}}, true
	case "container/list.List.PushFront":
		el := T.sym("element", c.ResTypes()[0])
		el.nonnil, el.instr = true, c.Instr
		key := unbox(st.resolve(c.Args[1]))
		k.ob(ev, "pairing")
		k.relate(st, el, key)
		if st.getT("pushed") != nil {
			k.bad(st, ev, "pairing", "adds a list element before the previous one is in the table")
		}
		st.setT("pushed", T.tuple(el, key))
		st.setT("#n", st.x.arith(st, "+", n, T.Int(1), types.Typ[types.Int]))
		if key == k.curKey(st) {
			st.setT("front", T.Bool(true))
		}
		return []Out{{Res: []*Term{el}}}, true
	case "container/list.List.MoveToFront":
		k.ob(ev, "order")
		el := st.resolve(c.Args[1])
		if ke := k.keyOf(st, el); ke != nil && ke == k.curKey(st) {
			st.setT("front", T.Bool(true))
		} else {
			k.bad(st, ev, "order", "moves the element of another key to the front")
		}
		return []Out{{}}, true
	case "container/list.List.Remove":
		k.removed(st, ev, st.resolve(c.Args[1]))
		st.setT("#n", st.x.arith(st, "-", n, T.Int(1), types.Typ[types.Int]))
		v := T.sym("removed", c.ResTypes()[0])
		return []Out{{Res: []*Term{v}}}, true
	}
	k.bad(st, ev, "order", "uses "+c.Callee+" on the recency list: the order of the list is no longer the order of use")
	return nil, false
}

func (k *lruCheck) needLock(st *State, ev *Ev, mode, what string) {
	k.ob(ev, "lock")
	m := k.locked(st)
	if m == "" || mode == "w" && m != "w" {
		k.bad(st, ev, "lock", ev.Kind+" on "+what+" without holding the lock exclusively: data race")
	}
}

// removal of list elements and table entries, in either order
func (k *lruCheck) removed(st *State, ev *Ev, el *Term) {
	k.ob(ev, "pairing")
	key := k.keyOf(st, el)
	if key == nil && el == st.getT("back") {
		key = st.heap[st.x.T.fa(el, k.elemValue(), types.NewPointer(k.elemValue().Type()))]
	}
	if p := st.getT("rmk"); p != nil {
		if key == nil || p != key {
			k.bad(st, ev, "pairing", "the element taken out of the list is not that of the key taken out of the table")
		}
		st.setT("rmk", nil)
		k.left(st, el)
		return
	}
	if st.getT("rme") != nil {
		k.bad(st, ev, "pairing", "removes two list elements but no table entry")
	}
	st.setT("rme", el)
	k.justify(st, ev, key, el)
}

// left forgets an element that is no longer in the list
func (k *lruCheck) left(st *State, el *Term) {
	for _, m := range st.monKeys("rel") {
		if st.mon[m].args[0] == el {
			st.setT(m, nil)
		}
	}
	if st.getT("back") == el {
		st.setT("back", nil)
		st.setT("over", nil)
	}
}

func (k *lruCheck) elemValue() *types.Var {
	n := derefT(k.r.el.Type()).Underlying().(*types.Struct)
	for i := 0; i < n.NumFields(); i++ {
		if n.Field(i).Name() == "Value" {
			return n.Field(i)
		}
	}
	return nil
}

func (k *lruCheck) unmapped(st *State, ev *Ev, key *Term) {
	key = unbox(key)
	if key == k.curKey(st) && k.curItem(st) == nil && st.getT("stored") == nil {
		return // nothing to delete
	}
	k.ob(ev, "pairing")
	if el := st.getT("rme"); el != nil {
		ke := k.keyOf(st, el)
		if ke == nil || ke != key {
			k.bad(st, ev, "pairing", "the key taken out of the table is not that of the element taken out of the list")
		}
		if key == k.curKey(st) {
			st.setT("delkey", st.x.T.Bool(true))
		}
		st.setT("rme", nil)
		k.left(st, el)
		return
	}
	if st.getT("rmk") != nil {
		k.bad(st, ev, "pairing", "removes two keys from the table but no list element")
	}
	st.setT("rmk", key)
	if key == k.curKey(st) {
		st.setT("delkey", st.x.T.Bool(true))
	}
	k.justify(st, ev, key, nil)
}

// justify: why an entry may go
func (k *lruCheck) justify(st *State, ev *Ev, key, el *Term) {
	k.ob(ev, "evict")
	if key != nil && key == k.curKey(st) && k.curItem(st) != nil {
		switch k.name {
		case "Delete":
			return
		case "Get", "MGet":
			if !k.expired(st) && !k.over(st) {
				k.bad(st, ev, "evict", "removes an entry that is neither expired nor used up")
			}
			return
		}
	}
	// eviction
	b := st.getT("back")
	if b == nil || el != nil && el != b || key != nil && k.keyOf(st, b) != key {
		k.bad(st, ev, "evict", "evicts an entry that is not the least recently used one")
		return
	}
	if st.getT("over") == nil {
		k.bad(st, ev, "evict", "evicts an entry although the cache is not over its capacity")
	}
}

// ---- evidence about the current item

func (k *lruCheck) nows(st *State) []*Term {
	var out []*Term
	for _, n := range []string{"nowF", "nowL"} {
		if t := st.getT(n); t != nil {
			out = append(out, st.nanos(t))
		}
	}
	return out
}
func (k *lruCheck) expT(st *State) *Term {
	if t := st.getT("exp"); t != nil {
		return st.nanos(t)
	}
	return nil
}
func (k *lruCheck) expired(st *State) bool {
	e := k.expT(st)
	for _, n := range k.nows(st) {
		if e != nil && st.proveLE(e, n) {
			return true
		}
	}
	return false
}
func (k *lruCheck) fresh(st *State) bool {
	e := k.expT(st)
	for _, n := range k.nows(st) {
		if e != nil && st.proveLE(n, e) {
			return true
		}
	}
	return false
}
func (k *lruCheck) over(st *State) bool {
	u, m := st.getT("used0"), k.maxT(st)
	return u != nil && st.proveLE(m, u) && st.prove(st.linOf(m).addk(-1))
}
func (k *lruCheck) unlimited(st *State) bool { return st.prove(st.linOf(k.maxT(st)).scale(-1)) }
func (k *lruCheck) under(st *State) bool {
	if k.unlimited(st) {
		return true
	}
	u, m := st.getT("used0"), k.maxT(st)
	return u != nil && st.proveLT(u, m)
}

// hit: the current item is served as v
func (k *lruCheck) hit(st *State, ev *Ev, v *Term) {
	k.ob(ev, "serve")
	it := k.curItem(st)
	if it == nil {
		k.bad(st, ev, "serve", "reports a hit for a key that is not in the cache")
		return
	}
	if !k.fresh(st) {
		k.bad(st, ev, "serve", "serves an entry without having established that it has not expired")
	}
	if !k.under(st) {
		k.bad(st, ev, "serve", "serves an entry without having established that its usage limit is not reached")
	}
	if v == nil || v != st.getT("val0") {
		k.bad(st, ev, "serve", "the value served is not that of the entry")
	}
	if !k.unlimited(st) {
		u0, u1 := st.getT("used0"), st.getT("used1")
		if u0 == nil || u1 == nil || !st.proveLE(u1, st.x.arith(st, "+", u0, st.x.T.Int(1), u0.typ)) || !st.proveLT(u0, u1) {
			k.bad(st, ev, "serve", "a use of the entry is not counted exactly once")
		}
	}
	k.ob(ev, "order")
	if st.getT("front") == nil {
		k.bad(st, ev, "order", "a hit does not make the entry the most recently used one")
	}
	if st.getT("delkey") != nil {
		k.bad(st, ev, "serve", "serves an entry it has removed")
	}
}

func (k *lruCheck) miss(st *State, ev *Ev, v *Term) {
	k.ob(ev, "serve")
	if k.curKey(st) == nil {
		k.bad(st, ev, "serve", "reports a miss without looking for the key")
		return
	}
	if k.curItem(st) != nil && !k.expired(st) && !k.over(st) {
		k.bad(st, ev, "serve", "reports a miss for an entry that is present, not expired and not used up")
	}
	if v != nil && !isZero(st, v) {
		k.bad(st, ev, "serve", "returns a value together with a miss")
	}
}

func isZero(st *State, v *Term) bool {
	return v.isNil() || v == st.x.T.zero(v.typ) || v.k == TConst && v.op == "zero"
}

var perKey = []string{"cur", "val0", "used1", "exp", "used0", "front", "delkey", "stored", "pv", "po", "nowF", "nowL"}

func (k *lruCheck) begin(st *State) {
	for _, n := range perKey {
		st.setT(n, nil)
	}
	st.clearMon("rel")
	st.setT("back", nil)
	st.setT("over", nil)
}

// done: all that should happen for the current key has happened
func (k *lruCheck) done(st *State, ev *Ev) {
	if st.getT("cur") == nil {
		return
	}
	T := st.x.T
	switch k.name {
	case "MGet":
		po := st.getT("po")
		if po == nil {
			po = T.Bool(false)
		}
		st.cases(po, func(s *State, ok bool) {
			if ok {
				k.hit(s, ev, s.getT("pv"))
			} else {
				k.miss(s, ev, s.getT("pv"))
			}
		})
	case "Set", "MSet":
		k.setDone(st, ev)
	case "Delete":
		k.ob(ev, "evict")
		if k.curItem(st) != nil && st.getT("delkey") == nil {
			k.bad(st, ev, "evict", "a key that is in the cache is not deleted")
		}
	}
	k.pairs(st, ev)
	k.begin(st)
}

func (k *lruCheck) want(st *State) (key, val, ttl *Term) {
	if k.name == "Set" {
		return k.ps[2], k.ps[3], k.ps[4]
	}
	if p := st.getT("pair"); p != nil {
		return p.args[0], p.args[1], k.ps[3]
	}
	return nil, nil, k.ps[3]
}

func (k *lruCheck) setDone(st *State, ev *Ev) {
	k.ob(ev, "store")
	key, val, ttl := k.want(st)
	it := st.getT("stored")
	if it == nil {
		it = k.curItem(st)
	}
	if it == nil || key != k.curKey(st) {
		k.bad(st, ev, "store", "a key that was set is not in the table")
		return
	}
	if st.heap[fAddr(st, it, k.r.val)] != val {
		k.bad(st, ev, "store", "the entry does not hold the value that was set")
	}
	ok := false
	if e := st.heap[fAddr(st, it, k.r.exp)]; e != nil {
		l := st.linOf(st.nanos(e)).add(st.linOf(ttl), -1)
		for _, n := range []string{"nowF", "nowL"} {
			if w := st.getT(n); w != nil {
				d := l.add(linTerm(st.nanos(w)), -1)
				if st.prove(d) && st.prove(d.scale(-1)) {
					ok = true
				}
			}
		}
	}
	if !ok {
		k.bad(st, ev, "store", "the entry's expiry is not the present time plus the given ttl")
	}
	if u := st.heap[fAddr(st, it, k.r.used)]; u == nil {
		k.bad(st, ev, "store", "the entry's usage count is not reset")
	} else if !st.prove(st.linOf(u)) || !st.prove(st.linOf(u).scale(-1)) {
		k.bad(st, ev, "store", "the entry's usage count is not reset")
	}
	k.ob(ev, "order")
	if st.getT("front") == nil {
		k.bad(st, ev, "order", "setting a key does not make it the most recently used one")
	}
}

// pairs: list and table hold the same keys
func (k *lruCheck) pairs(st *State, ev *Ev) {
	k.ob(ev, "pairing")
	if st.getT("pushed") != nil {
		k.bad(st, ev, "pairing", "an element was added to the list without an entry in the table")
	}
	if st.getT("rmk") != nil {
		k.bad(st, ev, "pairing", "a key was removed from the table but not from the list")
	}
	if st.getT("rme") != nil {
		k.bad(st, ev, "pairing", "an element was removed from the list but not from the table")
	}
	if n := k.num(st); n != nil {
		k.ob(ev, "capacity")
		if !st.proveLE(n, k.capT(st)) {
			k.bad(st, ev, "capacity", "the cache may hold more entries than its capacity")
		}
	}
}

// settle forgets how far below the capacity the number of entries is
func (k *lruCheck) settle(st *State) {
	if n := k.num(st); n != nil && st.proveLE(n, k.capT(st)) {
		k.anyNum(st)
	}
}

func (k *lruCheck) anyNum(st *State) {
	n := st.x.T.sym("entries", types.Typ[types.Int])
	st.addLin(linTerm(n))
	st.addLin(st.linOf(k.capT(st)).add(linTerm(n), -1))
	st.setT("#n", n)
}

func (k *lruCheck) event(st *State, ev *Ev) {
	T := st.x.T
	r := k.r
	muA := fAddr(st, k.recv, r.mux)
	switch ev.Kind {
	case "backedge", "loopentry":
		k.settle(st)
	case "lock":
		k.ob(ev, "lock")
		if st.holds(ev.Addr) != "" {
			k.bad(st, ev, "lock", "locks a mutex this call already holds: deadlock")
		}
	case "locked":
		if ev.Addr == muA {
			k.anyNum(st)
		}
	case "unlock":
		if ev.Detail == "notheld" {
			k.bad(st, ev, "lock", "unlocks a mutex that is not held")
		}
		if ev.Addr == muA && st.getT("#n") != nil {
			if !st.top().unwinding {
				k.finish(st, ev)
			}
			k.pairs(st, ev)
		}
	case "now":
		if st.getT("nowF") == nil {
			st.setT("nowF", ev.Val)
		}
		st.setT("nowL", ev.Val)
	case "lookup":
		if ev.Addr != k.tableT(st) {
			return
		}
		k.needLock(st, ev, "r", "the table")
		key := unbox(ev.Args[1])
		if key == k.curKey(st) {
			return
		}
		k.startKey(st, ev, key)
		if ev.Res[1].isBool(true) {
			st.differ(ev.Val, T.Nil())
			st.setT("cur", T.tuple(key, ev.Val))
		} else {
			st.setT("cur", T.tuple(key, T.Nil()))
		}
	case "mapset":
		if ev.Addr != k.tableT(st) {
			return
		}
		k.needLock(st, ev, "w", "the table")
		k.ob(ev, "pairing")
		key, it := unbox(ev.Args[1]), st.resolve(ev.Val)
		p := st.getT("pushed")
		if !it.alloc || p == nil || p.args[1] != key || st.heap[fAddr(st, it, r.el)] != p.args[0] {
			k.bad(st, ev, "pairing", "the entry put into the table is not tied to the list element of the same key")
		}
		if key != k.curKey(st) || k.curItem(st) != nil && st.getT("delkey") == nil {
			k.bad(st, ev, "pairing", "overwrites a table entry: its list element would be left over")
		}
		st.setT("pushed", nil)
		st.setT("stored", it)
	case "mapdel":
		if ev.Addr == k.tableT(st) {
			k.needLock(st, ev, "w", "the table")
			k.unmapped(st, ev, st.resolve(ev.Args[1]))
		}
	case "clear":
		if ev.Addr == k.tableT(st) {
			k.bad(st, ev, "pairing", "clears the table but not the list")
		}
	case "len":
		if ev.Addr == k.tableT(st) {
			k.needLock(st, ev, "r", "the table")
		}
	case "range":
		if ev.Addr == k.tableT(st) {
			k.needLock(st, ev, "r", "the table")
		}
		if k.name == "MSet" && ev.Addr == k.ps[2] {
			k.done(st, ev)
			k.unseen(st, ev)
			st.setT("pair", T.tuple(ev.Args[0], ev.Args[1]))
		}
	case "rangeend":
		if k.name == "MSet" && ev.Addr == k.ps[2] {
			k.done(st, ev)
			k.unseen(st, ev)
			st.setT("all", T.Bool(true))
		}
	case "load":
		if ev.Addr.k == TIA && k.keysP() != nil && ev.Addr.args[0] == k.keysP() {
			st.setT("kk", T.tuple(ev.Val, ev.Addr.args[1]))
		}
		if ev.Addr.k == TFA {
			it := k.curItem(st)
			switch ev.Addr.fld {
			case r.el:
				if ev.Addr.args[0] == it {
					k.relate(st, ev.Val, k.curKey(st))
				}
			case k.elemValue():
				k.relate(st, ev.Addr.args[0], unbox(ev.Val))
			case r.exp:
				if ev.Addr.args[0] == it && st.getT("exp") == nil {
					st.setT("exp", ev.Val)
				}
			case r.val:
				if ev.Addr.args[0] == it {
					st.setT("val0", ev.Val)
				}
			case r.used:
				if ev.Addr.args[0] == it && st.getT("used0") == nil {
					st.setT("used0", ev.Val)
				}
			}
			if ev.Addr.fld == r.val || ev.Addr.fld == r.exp || ev.Addr.fld == r.used {
				if !ev.Addr.args[0].alloc {
					k.needLock(st, ev, "r", "an entry")
				}
			}
		}
	case "store":
		if ev.Addr.k == TFA {
			if ev.Addr.args[0] == k.recv {
				k.bad(st, ev, "lock", "replaces the cache's "+ev.Addr.fld.Name())
			}
			f := ev.Addr.fld
			if (f == r.val || f == r.exp || f == r.used || f == r.el) && !ev.Addr.args[0].alloc {
				k.needLock(st, ev, "w", "an entry")
				if f == r.used && ev.Addr.args[0] == k.curItem(st) {
					st.setT("used1", ev.Val)
				}
				if f == r.el {
					k.bad(st, ev, "pairing", "re-ties an entry to another list element")
				}
				if f == r.exp || f == r.val {
					k.ob(ev, "serve")
					if k.name == "Get" || k.name == "MGet" {
						k.bad(st, ev, "serve", "a read changes the "+f.Name()+" of an entry")
					}
				}
			}
		}
		if ev.Addr.k == TIA && k.name == "MGet" {
			k.sink(st, ev, ev.Addr.args[0], ev.Addr.args[1], ev.Val)
		}
	case "append":
		if k.name == "MGet" {
			if es := st.elems(ev.Args[1]); len(es) == 1 && es[0] != ev.Args[1] {
				k.sink(st, ev, ev.Addr, T.op("len", types.Typ[types.Int], ev.Addr), es[0])
			}
		}
	case "callback":
		if len(st.locks()) > 0 {
			k.bad(st, ev, "lock", "calls user code with the lock held")
		}
	case "exit":
		k.ob(ev, "lock")
		if len(st.locks()) > 0 {
			k.bad(st, ev, "lock", "returns or panics with the lock held")
		}
		if !ev.Panics {
			k.exit(st, ev)
		}
	}
}

func (k *lruCheck) keysP() *Term {
	if k.name == "MGet" || k.name == "Delete" {
		return k.ps[2]
	}
	return nil
}

func (k *lruCheck) idx(st *State, key *Term) *Term {
	if t := st.getT("kk"); t != nil && t.args[0] == key {
		return t.args[1]
	}
	return nil
}

func (k *lruCheck) unseen(st *State, ev *Ev) {
	if p := st.getT("pair"); p != nil && st.getT("pairdone") == nil {
		k.bad(st, ev, "store", "skips a key that should be set")
	}
	st.setT("pairdone", nil)
	st.setT("pair", nil)
}

func (k *lruCheck) startKey(st *State, ev *Ev, key *Term) {
	T := st.x.T
	k.done(st, ev)
	k.begin(st)
	switch k.name {
	case "Get", "Set":
		if key != k.ps[2] {
			k.bad(st, ev, "serve", "looks up another key than the one asked for")
			k.bad(st, ev, "store", "looks up another key than the one asked for")
		}
	case "MSet":
		if p := st.getT("pair"); p == nil || p.args[0] != key {
			k.bad(st, ev, "store", "looks up another key than the one to be set")
		}
		st.setT("pairdone", T.Bool(true))
	case "MGet", "Delete":
		rule := "position"
		if k.name == "Delete" {
			rule = "evict"
		}
		k.ob(ev, rule)
		i, nx := k.idx(st, key), st.getT("#next")
		if i == nil || !st.proveLE(i, nx) || !st.proveLE(nx, i) {
			k.bad(st, ev, rule, "the keys are not taken one after the other: a key is skipped or taken twice")
		}
		st.setT("#next", st.x.arith(st, "+", nx, T.Int(1), types.Typ[types.Int]))
	}
}

// sink: an element of a result slice is written
func (k *lruCheck) sink(st *State, ev *Ev, base, idx, v *Term) {
	et := base.typ
	sl, ok := et.Underlying().(*types.Slice)
	if !ok || base == k.keysP() {
		return
	}
	isB := isBoolT(sl.Elem())
	_, isV := types.Unalias(sl.Elem()).(*types.TypeParam)
	if !isB && !isV {
		return
	}
	k.ob(ev, "position")
	i := k.idx(st, k.curKey(st))
	if st.getT("cur") == nil || i == nil || !st.proveLE(i, idx) || !st.proveLE(idx, i) {
		k.bad(st, ev, "position", "a result is written to a position other than that of its key")
		return
	}
	if isB {
		st.setT("po", st.resolve(v))
	} else {
		st.setT("pv", st.resolve(v))
	}
}

// finish is reached when the critical section ends normally
func (k *lruCheck) finish(st *State, ev *Ev) {
	switch k.name {
	case "Get":
		// judged at the exit, where the answer is known
	default:
		k.done(st, ev)
	}
}

func (k *lruCheck) exit(st *State, ev *Ev) {
	res := func(i int) *Term { return st.resolve(ev.Res[i]) }
	switch k.name {
	case "Get":
		st.cases(res(1), func(s *State, ok bool) {
			if ok {
				k.hit(s, ev, s.resolve(ev.Res[0]))
			} else {
				k.miss(s, ev, s.resolve(ev.Res[0]))
			}
		})
		if !res(2).isNil() {
			k.bad(st, ev, "serve", "returns an error")
		}
	case "MGet":
		k.ob(ev, "position")
		n := linTerm(st.x.T.op("len", types.Typ[types.Int], k.ps[2]))
		nk := st.x.T.op("len", types.Typ[types.Int], k.ps[2])
		for i := 0; i < 2; i++ {
			l := n.add(st.linOf(st.x.T.op("len", types.Typ[types.Int], res(i))), -1)
			if res(i).isNil() {
				l = n
			}
			if !st.prove(l) || !st.prove(l.scale(-1)) {
				k.bad(st, ev, "position", "the number of results differs from the number of keys")
			}
		}
		nx := st.getT("#next")
		if !st.proveLE(nk, nx) {
			k.bad(st, ev, "position", "not all keys are looked up")
		}
		if !res(2).isNil() {
			k.bad(st, ev, "position", "returns an error")
		}
	case "Delete":
		nk := st.x.T.op("len", types.Typ[types.Int], k.ps[2])
		if !st.proveLE(nk, st.getT("#next")) {
			k.bad(st, ev, "evict", "not all keys are deleted")
		}
	case "Set":
		if st.getT("did") == nil {
			k.bad(st, ev, "store", "returns without having set the key")
		}
	case "MSet":
		if st.getT("all") == nil && !st.prove(st.linOf(st.x.T.op("len", types.Typ[types.Int], k.ps[2])).scale(-1)) {
			k.bad(st, ev, "store", "returns before every key was set")
		}
	}
}

func (k *lruCheck) run(name string) {
	c, r := k.c, k.r
	f := c.Fn(cachePkg, "LRUCacheV2."+name)
	if f == nil {
		return
	}
	k.name = name
	cfg := &Config{CallbackPanics: true, Model: k.model, Keep: func(st *State, a *Term) bool {
		if a.k == TFA && a.args[0] == k.recv && (a.fld == r.capF || a.fld == r.maxF || a.fld == r.table || a.fld == r.list) {
			return true
		}
		// the caller's keys do not change during the call
		return a.k == TIA && k.keysP() != nil && a.args[0] == k.keysP()
	}}
	cfg.Event = func(st *State, ev *Ev) {
		k.event(st, ev)
		if name == "Set" && ev.Kind == "lookup" && ev.Addr == k.tableT(st) {
			st.setT("did", st.x.T.Bool(true))
		}
	}
	c.Run(f, cfg, func(st *State, ps []*Term) {
		T := st.x.T
		k.x = st.x
		k.ps = ps
		k.recv = ps[0]
		k.recv.nonnil = true
		for _, v := range []*types.Var{r.capF, r.maxF, r.table, r.list} {
			t := T.root(v.Name(), v.Type())
			t.nonnil = true
			st.heap[fAddr(st, k.recv, v)] = t
		}
		st.addLin(st.linOf(k.capT(st)).addk(-1))
		if k.keysP() != nil {
			st.setT("#next", T.Int(0))
			st.atomFacts(T.op("len", types.Typ[types.Int], k.keysP()))
		}
	})
}

var lruOps = []string{"Get", "MGet", "Set", "MSet", "Delete"}

func lruProp(id string, ops []string, rules map[string]string, min map[string]int, expl string) {
	register(&Property{ID: id, Expl: expl, Run: func(c *Ctx) {
		r := findLRU(c)
		if r == nil {
			return
		}
		k := &lruCheck{c: c, r: r, on: map[string]bool{}}
		for n, t := range rules {
			k.on[n] = true
			c.rules[n] = t
		}
		k.constructor()
		if r.capF == nil || r.maxF == nil {
			return
		}
		for _, o := range ops {
			k.run(o)
		}
		for n, m := range min {
			c.Min(n, m)
		}
	}, Assum: []string{"container/list keeps its order: PushFront and MoveToFront put an element in front, Back is the last one", "a caller does not change the keys it passes during the call"}})
}

var _ = token.NoPos
var _ ssa.Value

func init() {
	lruProp("C05", lruOps, map[string]string{
		"lock": "the mutex is held, exclusively for writes, at every use of the table, the recency list and the entries; it is not taken twice and released on every exit",
	}, map[string]int{"lock": 20}, "A lockset is carried along every path of every operation; each use of the table, the list or an entry is an obligation.")
	lruProp("C06", lruOps, map[string]string{
		"pairing":  "every key enters and leaves the table together with its list element",
		"capacity": "the constructor refuses a capacity below one; a counter for the list's length stays at most the capacity at the end of every critical section (linear invariants, widened over loops)",
	}, map[string]int{"pairing": 8, "capacity": 6}, "Insertions and removals of the table and the list are matched up on every path, and the list's length is tracked by a linear invariant.")
	lruProp("C07", lruOps, map[string]string{
		"order": "a hit and a write move the key's element to the front; nothing else changes the order",
		"evict": "an entry goes only if it was asked for, expired, used up, or is the last of a list longer than the capacity; Delete removes each key that is present",
	}, map[string]int{"order": 4, "evict": 6}, "Every removal on every path needs a reason the path has established; every hit and write must end with the element in front.")
	lruProp("C08", lruOps, map[string]string{
		"serve":    "a hit is the entry's value, not expired and below its usage limit as compared on the path, and counted once; a miss has the key absent, expired or used up",
		"store":    "a write leaves the key with the given value, expiry now+ttl and no uses",
		"position": "the i-th result of MGet is that of the i-th key, for every i",
	}, map[string]int{"serve": 4, "store": 3, "position": 4}, "The answer of every path is compared with what the path established about the entry, using linear facts about instants and usage counts.")
}
