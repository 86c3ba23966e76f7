package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const mapPkg = "gogenerics/gconcurrent/sync"

// mapRoles are the parts of the concurrent map, found by their types.
type mapRoles struct {
	mu, dirty, read, rom, roa, ep *types.Var
	plain                         []*types.Var // fields that need the lock
	exp                           *ssa.Global
}

func namedIs(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func atomicPtrElem(t types.Type) types.Type {
	if namedIs(t, "sync/atomic", "Pointer") {
		return types.Unalias(t).(*types.Named).TypeArgs().At(0)
	}
	return nil
}

func findMapRoles(c *Ctx) *mapRoles {
	n := c.P.named(mapPkg, "Map")
	r := &mapRoles{}
	if n != nil {
		st, _ := n.Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			f := st.Field(i).Origin()
			switch {
			case namedIs(f.Type(), "sync", "Mutex"):
				r.mu = f
			case atomicPtrElem(f.Type()) != nil:
				r.read = f
				if ro, ok := atomicPtrElem(f.Type()).Underlying().(*types.Struct); ok {
					for j := 0; j < ro.NumFields(); j++ {
						g := ro.Field(j).Origin()
						if _, ok := g.Type().Underlying().(*types.Map); ok {
							r.rom = g
						} else if isBoolT(g.Type()) {
							r.roa = g
						}
					}
				}
			default:
				r.plain = append(r.plain, f)
				if m, ok := f.Type().Underlying().(*types.Map); ok {
					r.dirty = f
					if es := coreStruct(derefT(m.Elem())); es != nil {
						for j := 0; j < es.NumFields(); j++ {
							if atomicPtrElem(es.Field(j).Type()) != nil {
								r.ep = es.Field(j).Origin()
							}
						}
					}
				}
			}
		}
	}
	if sp := c.P.SPkg[mapPkg]; sp != nil {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && isUnsafe(derefT(g.Type())) {
				r.exp = g
			}
		}
	}
	if r.mu == nil || r.dirty == nil || r.read == nil || r.rom == nil || r.roa == nil || r.ep == nil || r.exp == nil {
		c.Bad(nil, "anchor", mapPkg+".Map", 0, "the parts of the map (mutex, published snapshot, dirty map, entries, expunged mark) could not be identified")
		return nil
	}
	return r
}

type mapCheck struct {
	c *Ctx
	r *mapRoles
	// the rules this property reports
	on   map[string]bool
	recv *Term
	key  *Term
	name string
	par  map[string]*Term
}

func (k *mapCheck) bad(st *State, ev *Ev, rule, msg string) {
	if k.on[rule] {
		k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
	}
}
func (k *mapCheck) ob(ev *Ev, rule string) {
	if k.on[rule] {
		k.c.Ob(rule, where(ev)+" in "+k.name)
		k.c.N(rule)
	}
}

func (k *mapCheck) f(st *State, base *Term, v *types.Var) *Term {
	return st.x.T.fa(base, v, types.NewPointer(v.Type()))
}
func (k *mapCheck) expT(st *State) *Term {
	if t, ok := st.heap[st.x.T.global(k.r.exp)]; ok {
		return t
	}
	return st.x.T.root("global "+mapPkg+"."+k.r.exp.Name(), derefT(k.r.exp.Type()))
}
func (k *mapCheck) isExp(st *State, p *Term) bool { return st.resolve(p) == k.expT(st) }
func (k *mapCheck) notExp(st *State, p *Term) bool {
	p = st.resolve(p)
	return p.isNil() || p.alloc || st.distinct(p, k.expT(st))
}
func (k *mapCheck) live(st *State, p *Term) bool {
	return p != nil && st.notNil(p) && k.notExp(st, p)
}
func (k *mapCheck) locked(st *State) bool { return st.holds(k.f(st, k.recv, k.r.mu)) == "w" }
func (k *mapCheck) dirtyNow(st *State) *Term {
	return st.heap[k.f(st, k.recv, k.r.dirty)]
}

// snapshot facts
func (k *mapCheck) romap(st *State, p *Term) *Term {
	p = st.resolve(p)
	if p.isNil() {
		return p
	}
	return st.heap[k.f(st, p, k.r.rom)]
}
func (k *mapCheck) amended(st *State, p *Term) (v, known bool) {
	p = st.resolve(p)
	if p.isNil() {
		return false, true
	}
	if a := st.heap[k.f(st, p, k.r.roa)]; a != nil {
		return st.truth(a)
	}
	return false, false
}
func (k *mapCheck) absentRead(st *State, p *Term) bool {
	p = st.resolve(p)
	if p.isNil() {
		return true
	}
	m := k.romap(st, p)
	if m == nil {
		return false
	}
	if m.isNil() {
		return true
	}
	if h := st.heap[st.x.T.has(m, k.key)]; h != nil {
		v, known := st.truth(h)
		return known && !v
	}
	return false
}

// notThere: the path has evidence that the key was absent at some moment of the call
func (k *mapCheck) notThere(st *State) bool {
	for _, n := range []string{"snapU", "snapL"} {
		if p := st.getT(n); p != nil {
			if a, known := k.amended(st, p); known && !a && k.absentRead(st, p) {
				return true
			}
			if n == "snapL" && k.absentRead(st, p) && st.getT("dmiss") != nil {
				return true
			}
		}
	}
	if lp := st.getT("lastp"); lp != nil {
		if st.isNilT(lp.args[1]) || k.isExp(st, lp.args[1]) {
			return true
		}
	}
	return false
}

func (k *mapCheck) kindOf(st *State, m *Term) string {
	if m == nil {
		return ""
	}
	if m == st.getT("prom") {
		return "read"
	}
	t := st.taintOf(m)
	if m == k.dirtyNow(st) || hasTaint(t, "dirty") {
		return "dirty"
	}
	if hasTaint(t, "read") {
		return "read"
	}
	if m.alloc {
		return "fresh"
	}
	return ""
}

func (k *mapCheck) entryOf(addr *Term) *Term {
	if addr != nil && addr.k == TFA && addr.fld == k.r.ep {
		return addr.args[0]
	}
	return nil
}

func (k *mapCheck) model(st *State, c *Call) ([]Out, bool) {
	// while the lock is held nobody else replaces the published snapshot
	if c.Callee == "sync/atomic.Pointer.Load" && len(c.Args) == 1 && c.Args[0] == k.f(st, k.recv, k.r.read) && k.locked(st) {
		if p := st.getT("cur"); p != nil {
			st.setT("snapL", p)
			return []Out{{Res: []*Term{p}}}, true
		}
	}
	return nil, false
}

// unexpunged: the entry cannot be expunged as long as the lock is held
func (k *mapCheck) unexpunged(st *State, e *Term) bool {
	return k.locked(st) && (hasTaint(st.taintOf(e), "edirty") || st.getT("notexp") == e || st.getT("unexp") == e || st.getT("unexped") == e)
}

func (k *mapCheck) event(st *State, ev *Ev) {
	T := st.x.T
	r := k.r
	muA := k.f(st, k.recv, r.mu)
	switch ev.Kind {
	case "lock":
		k.ob(ev, "lock")
		if st.holds(ev.Addr) != "" {
			k.bad(st, ev, "lock", "locks a mutex this call already holds: deadlock")
		}
	case "unlock":
		if ev.Detail == "notheld" {
			k.bad(st, ev, "lock", "unlocks a mutex that is not held")
		}
		if ev.Addr == muA {
			k.atUnlock(st, ev)
			for _, n := range []string{"cur", "dnil", "dnew", "built", "amend", "unexp", "notexp", "dhit", "unexped"} {
				st.setT(n, nil)
			}
		}
	case "locked":
		if ev.Addr == muA {
			for _, n := range []string{"dmiss", "dhit", "snapL", "prom"} {
				st.setT(n, nil)
			}
		}
	case "callback":
		k.ob(ev, "lock")
		if len(st.locks()) > 0 {
			k.bad(st, ev, "lock", "calls user code while the lock is held")
		}
		if k.name == "Range" && !ev.Panics {
			k.rangeCall(st, ev)
		}
	case "load", "store":
		if ev.Addr.k == TFA && ev.Addr.args[0] == k.recv {
			for _, f := range r.plain {
				if ev.Addr.fld == f {
					k.ob(ev, "guarded")
					if !k.locked(st) {
						k.bad(st, ev, "guarded", ev.Kind+" of the field "+f.Name()+" without the lock: data race")
					}
				}
			}
			if ev.Kind == "load" && ev.Addr.fld == r.dirty {
				st.addTaint(ev.Val, "dirty")
			}
		}
		if ev.Kind == "store" && ev.Addr.k == TFA {
			if ev.Addr.args[0] == k.recv && ev.Addr.fld == r.dirty {
				k.setDirty(st, ev)
			}
			if (ev.Addr.fld == r.rom || ev.Addr.fld == r.roa) && !(ev.Addr.args[0].alloc && !st.esc[ev.Addr.args[0]]) {
				k.bad(st, ev, "guarded", "writes to a published snapshot")
			}
		}
	case "lookup", "mapset", "mapdel", "clear":
		kind := k.kindOf(st, ev.Addr)
		if kind == "dirty" {
			k.ob(ev, "guarded")
			if !k.locked(st) {
				k.bad(st, ev, "guarded", ev.Kind+" on the dirty map without the lock: data race")
			}
		}
		if kind == "read" && ev.Kind != "lookup" {
			k.bad(st, ev, "guarded", ev.Kind+" on the published map, which other goroutines read without a lock")
			return
		}
		switch ev.Kind {
		case "lookup":
			if ev.Args[1] != k.key {
				return
			}
			present := ev.Res[1].isBool(true)
			if kind == "dirty" {
				if present {
					st.setT("dhit", ev.Val)
				} else {
					st.setT("dmiss", T.Bool(true))
				}
			}
			if present {
				l := "eread"
				if kind == "dirty" {
					l = "edirty"
				}
				st.addTaint(ev.Val, l)
				if kind != "" {
					// no nil entry is ever put into a table (rule tables)
					st.differ(ev.Val, T.Nil())
				}
			}
		case "mapset":
			if kind == "dirty" || kind == "fresh" {
				k.insert(st, ev)
			}
		case "mapdel":
			if kind == "dirty" {
				k.ob(ev, "tables")
				p := st.getT("cur")
				if d := st.getT("dhit"); d != nil {
					st.setT("ddel", d)
				} else if st.getT("dmiss") == nil {
					k.bad(st, ev, "tables", "removes a key from the dirty map without having looked at its entry")
				}
				if ev.Args[1] != k.key || p == nil || !k.absentRead(st, p) {
					k.bad(st, ev, "tables", "removes a key from the dirty map without having seen, under the lock, that the published map lacks it: a live entry would be lost at the next promotion")
				}
			}
		case "clear":
			if kind == "dirty" {
				k.bad(st, ev, "tables", "clears the dirty map")
			}
		}
	case "aload":
		if ev.Addr == k.f(st, k.recv, r.read) {
			st.addTaint(ev.Val, "read")
			if k.locked(st) {
				st.setT("cur", ev.Val)
				st.setT("snapL", ev.Val)
			} else {
				st.setT("snapU", ev.Val)
			}
		}
		if e := k.entryOf(ev.Addr); e != nil {
			st.setT("lastp", T.tuple(e, ev.Val))
			st.addTaint(ev.Val, "pval")
			if k.unexpunged(st, e) {
				// expunging needs the lock, which this call holds
				st.differ(ev.Val, k.expT(st))
			}
		}
	case "astore":
		if ev.Addr == k.f(st, k.recv, r.read) {
			k.publish(st, ev)
		}
		if e := k.entryOf(ev.Addr); e != nil {
			k.ob(ev, "entries")
			if !(e.alloc && !st.esc[e]) {
				k.bad(st, ev, "entries", "overwrites the value of a shared entry without compare-and-swap or swap: concurrent updates are lost")
			}
		}
	case "aswap":
		if ev.Addr == k.f(st, k.recv, r.read) {
			k.publish(st, ev)
		}
		if e := k.entryOf(ev.Addr); e != nil {
			k.ob(ev, "entries")
			v := ev.Res[0]
			st.addTaint(v, "pval")
			if !k.unexpunged(st, e) {
				k.bad(st, ev, "entries", "swaps a value into an entry that may be expunged: later lookups through the dirty map would miss it")
			}
			// under the invariant the previous value is live or nil
			st.differ(v, k.expT(st))
			st.setT("took", v)
			st.setT("took.e", e)
			k.wrote(st, ev, ev.Val)
		}
	case "acas":
		if ev.Addr == k.f(st, k.recv, r.read) {
			k.bad(st, ev, "tables", "replaces the published snapshot by compare-and-swap")
		}
		if e := k.entryOf(ev.Addr); e != nil {
			k.cas(st, ev, e)
		}
	case "range":
		if k.kindOf(st, ev.Addr) == "read" {
			st.addTaint(ev.Args[1], "eread")
			if k.locked(st) {
				k.pending(st, ev)
				st.setT("pend", T.tuple(ev.Args[0], ev.Args[1]))
			} else if k.name == "Range" {
				k.rangeNext(st, ev)
				st.setT("rpend", T.tuple(ev.Args[0], ev.Args[1]))
			}
		} else if k.kindOf(st, ev.Addr) == "dirty" && k.name == "Range" {
			k.bad(st, ev, "range", "iterates over the dirty map")
		}
	case "rangeend":
		if k.locked(st) {
			k.pending(st, ev)
			st.setT("pend", nil)
			cur := st.getT("cur")
			if cur != nil && (ev.Addr.isNil() || ev.Addr == k.romap(st, cur)) {
				st.setT("built", T.Bool(true))
			}
		} else if k.name == "Range" {
			k.rangeNext(st, ev)
			st.setT("rpend", nil)
			st.setT("rdone", T.Bool(true))
			k.rangeMap(st, ev)
		}
	case "exit":
		k.ob(ev, "lock")
		if len(st.locks()) > 0 {
			k.bad(st, ev, "lock", "returns or panics with the lock held: every later slow path blocks forever")
		}
		if !ev.Panics {
			k.atExit(st, ev)
		}
	}
}

// a value published by a writer must be the caller's
func (k *mapCheck) wrote(st *State, ev *Ev, p *Term) {
	st.setT("wrote", st.x.T.Bool(true))
	want := k.par["value"]
	if k.name == "CompareAndSwap" {
		want = k.par["new"]
	}
	k.ob(ev, "values")
	if want == nil {
		k.bad(st, ev, "values", "stores a value in an operation that stores none")
		return
	}
	if got := st.heap[st.resolve(p)]; got != want {
		k.bad(st, ev, "values", "stores something other than the caller's value")
	}
}

func (k *mapCheck) cas(st *State, ev *Ev, e *Term) {
	T := st.x.T
	old, nw := st.resolve(ev.Args[0]), st.resolve(ev.Args[1])
	k.ob(ev, "entries")
	if k.isExp(st, old) {
		// unexpunging
		if !k.locked(st) {
			k.bad(st, ev, "entries", "revives an expunged entry without the lock")
		}
		if ev.Detail == "ok" {
			if !nw.isNil() {
				k.bad(st, ev, "entries", "puts a value into an expunged entry before it is in the dirty map")
			}
			st.setT("unexp", e)
		} else {
			st.setT("notexp", e)
		}
		return
	}
	if ev.Detail != "ok" {
		return
	}
	if k.isExp(st, nw) {
		if !k.locked(st) {
			k.bad(st, ev, "entries", "expunges an entry without the lock")
		}
		if !old.isNil() {
			k.bad(st, ev, "entries", "expunges an entry that still holds a value: the key is lost")
		}
		if p := st.getT("pend"); p != nil && p.args[1] == e {
			st.setT("pend", nil)
		} else {
			k.bad(st, ev, "entries", "expunges an entry although no new dirty map is being built")
		}
		return
	}
	if !k.notExp(st, old) {
		k.bad(st, ev, "entries", "replaces the value of an entry that may be expunged: later lookups through the dirty map would miss it")
	}
	st.setT("took", old)
	st.setT("took.e", e)
	if nw.isNil() {
		if !st.notNil(old) {
			k.bad(st, ev, "entries", "deletes a value that may not be there")
		}
		st.setT("deleted", T.Bool(true))
		return
	}
	k.wrote(st, ev, nw)
}

func (k *mapCheck) pending(st *State, ev *Ev) {
	p := st.getT("pend")
	if p == nil {
		return
	}
	k.ob(ev, "tables")
	if lp := st.getT("lastp"); lp != nil && lp.args[0] == p.args[1] && k.isExp(st, lp.args[1]) {
		return
	}
	k.bad(st, ev, "tables", "an entry of the published map that is not expunged is left out of the new dirty map: it is lost at the next promotion")
}

func (k *mapCheck) setDirty(st *State, ev *Ev) {
	T := st.x.T
	v := st.resolve(ev.Val)
	k.ob(ev, "tables")
	old := k.dirtyNow(st)
	if v.isNil() {
		st.setT("dnil", T.Bool(true))
		if old != nil && !old.isNil() {
			st.setT("dold", old)
		}
		return
	}
	if !v.alloc {
		k.bad(st, ev, "tables", "installs a dirty map that was not built by this call")
		return
	}
	if old == nil || !old.isNil() {
		k.bad(st, ev, "tables", "replaces a dirty map that may exist: its keys are lost")
	}
	st.setT("dnew", T.Bool(true))
}

func (k *mapCheck) publish(st *State, ev *Ev) {
	T := st.x.T
	q := st.resolve(ev.Val)
	k.ob(ev, "tables")
	if !k.locked(st) {
		k.bad(st, ev, "guarded", "publishes a snapshot without the lock")
		return
	}
	var m *Term
	var am, known bool
	if q.isNil() {
		m, am, known = q, false, true
	} else {
		m = st.heap[k.f(st, q, k.r.rom)]
		if a := st.heap[k.f(st, q, k.r.roa)]; a != nil {
			am, known = st.truth(a)
		}
	}
	cur := st.getT("cur")
	st.addTaint(q, "read")
	switch {
	case m == nil || !known:
		k.bad(st, ev, "tables", "publishes a snapshot whose contents are not known")
	case am:
		if cur == nil || k.romap(st, cur) != m {
			k.bad(st, ev, "tables", "marks the snapshot as incomplete but does not keep the published entries")
		}
		st.setT("amend", T.Bool(true))
	default:
		if k.kindOf(st, m) != "dirty" || m.isNil() {
			k.bad(st, ev, "tables", "publishes as complete a map that is not the dirty map")
			break
		}
		// the dirty map exists: keys were seen in it, or the snapshot said so
		ok := st.getT("dhit") != nil || st.distinct(m, T.Nil())
		if cur != nil {
			if a, kn := k.amended(st, cur); kn && a {
				ok = true
			}
		}
		if st.getT("amend") != nil {
			ok = true
		}
		if !ok && k.name == "Range" {
			k.bad(st, ev, "range", "promotes the dirty map although it may not exist: no key would be visited")
		}
		if !ok {
			k.bad(st, ev, "tables", "promotes the dirty map although it may not exist: every key would disappear")
		}
		st.setT("prom", m)
	}
	st.setT("cur", q)
}

func (k *mapCheck) atUnlock(st *State, ev *Ev) {
	prom, dnil := st.getT("prom"), st.getT("dnil")
	if dnil != nil {
		k.ob(ev, "tables")
		if prom == nil || (st.getT("dold") != nil && st.getT("dold") != prom) {
			k.bad(st, ev, "tables", "drops the dirty map without having published it: its keys are lost")
		}
	} else if prom != nil {
		k.bad(st, ev, "tables", "publishes the dirty map but keeps writing to it: readers race with writers")
	}
	if st.getT("dnew") != nil {
		k.ob(ev, "tables")
		if st.getT("built") == nil {
			k.bad(st, ev, "tables", "a new dirty map is installed without going through all published entries")
		}
	}
	if st.getT("amend") != nil && prom == nil {
		k.ob(ev, "tables")
		d := k.dirtyNow(st)
		if d == nil || !st.distinct(d, st.x.T.Nil()) {
			k.bad(st, ev, "tables", "marks the snapshot as incomplete without a dirty map that holds the published entries")
		}
	}
	if st.getT("unexp") != nil {
		k.bad(st, ev, "tables", "revives an expunged entry without putting it into the dirty map: it is lost at the next promotion")
	}
	k.pending(st, ev)
	st.setT("pend", nil)
}

// insert: dirty[key] = entry
func (k *mapCheck) insert(st *State, ev *Ev) {
	T := st.x.T
	e := st.resolve(ev.Val)
	key := ev.Args[1]
	k.ob(ev, "tables")
	if e.alloc {
		cur := st.getT("cur")
		if key != k.key {
			k.bad(st, ev, "values", "stores the new entry under another key")
		}
		if cur == nil {
			k.bad(st, ev, "tables", "adds an entry without looking at the published map under the lock: an existing entry of the key may be shadowed")
			return
		}
		snap := st.getT("snapL")
		am, known := k.amended(st, cur)
		am0, known0 := k.amended(st, snap)
		if !k.absentRead(st, cur) && !k.absentRead(st, snap) || !(st.getT("dmiss") != nil || known0 && !am0) {
			k.bad(st, ev, "tables", "adds an entry although the key may already have one")
		}
		if !(known && am) {
			k.bad(st, ev, "tables", "adds a key to the dirty map while the snapshot claims to be complete: lookups do not find the key")
		}
		// value
		p := st.heap[T.me(k.f(st, e, k.r.ep), T.Str("atomic"))]
		if p == nil {
			k.bad(st, ev, "values", "the new entry holds no value")
		} else {
			k.wrote(st, ev, p)
		}
		st.setT("inserted", T.Bool(true))
		return
	}
	if u := st.getT("unexp"); u != nil && u == e {
		if key != k.key {
			k.bad(st, ev, "tables", "puts a revived entry under another key")
		}
		st.setT("unexp", nil)
		st.setT("unexped", e)
		return
	}
	if p := st.getT("pend"); p != nil && p.args[1] == e {
		if p.args[0] != key {
			k.bad(st, ev, "tables", "copies an entry under another key")
		}
		lp := st.getT("lastp")
		if lp == nil || lp.args[0] != e || !k.notExp(st, lp.args[1]) {
			k.bad(st, ev, "tables", "copies an entry that may be expunged into the dirty map")
		}
		st.setT("pend", nil)
		return
	}
	k.bad(st, ev, "tables", "puts an entry into the dirty map that is neither new, nor just revived, nor copied from the published map")
}

// ---- results

func (k *mapCheck) valueOf(st *State, p *Term) *Term { return st.heap[st.resolve(p)] }

func (k *mapCheck) zeroRes(st *State, ev *Ev, v *Term) {
	if v != st.x.T.zero(v.typ) && !(v.k == TConst && v.op == "zero") && !v.isNil() {
		k.bad(st, ev, "values", "returns a value together with the report that there is none")
	}
}

func (k *mapCheck) atExit(st *State, ev *Ev) {
	res := func(i int) *Term { return st.resolve(ev.Res[i]) }
	wrote, deleted := st.getT("wrote") != nil, st.getT("deleted") != nil
	if e := st.getT("ddel"); e != nil {
		k.ob(ev, "tables")
		te, lp := st.getT("took.e"), st.getT("lastp")
		if !(deleted && te == e) && !(lp != nil && lp.args[0] == e && (st.isNilT(lp.args[1]) || k.isExp(st, lp.args[1]))) {
			k.bad(st, ev, "tables", "the entry was taken out of the dirty map but still holds its value: the key is lost")
		}
	}
	switch k.name {
	case "Load":
		st.cases(res(1), func(s *State, ok bool) { k.loaded(s, ev, ok, s.resolve(ev.Res[0]), false) })
	case "LoadOrStore":
		st.cases(res(1), func(s *State, loaded bool) {
			v := s.resolve(ev.Res[0])
			if loaded {
				if wrote {
					k.bad(s, ev, "values", "reports a loaded value after storing one")
				}
				k.loaded(s, ev, true, v, false)
				return
			}
			k.ob(ev, "values")
			if !wrote {
				k.bad(s, ev, "absent", "reports a store that did not happen")
			}
			if t := s.getT("took"); t != nil && !s.isNilT(t) {
				k.bad(s, ev, "values", "overwrites an existing value")
			}
			if v != k.par["value"] {
				k.bad(s, ev, "values", "does not return the stored value")
			}
		})
	case "LoadAndDelete":
		st.cases(res(1), func(s *State, loaded bool) { k.deletedRes(s, ev, loaded, s.resolve(ev.Res[0])) })
	case "Delete":
		k.ob(ev, "absent")
		if !deleted && !k.notThere(st) {
			k.bad(st, ev, "absent", "returns without deleting a key that may be present")
		}
	case "Store":
		k.ob(ev, "values")
		if !wrote {
			k.bad(st, ev, "values", "returns without storing")
		}
	case "Swap":
		k.ob(ev, "values")
		if !wrote {
			k.bad(st, ev, "values", "returns without storing")
		}
		st.cases(res(1), func(s *State, loaded bool) {
			v := s.resolve(ev.Res[0])
			t := s.getT("took")
			if loaded {
				if t == nil || !k.live(s, t) || k.valueOf(s, t) != v {
					k.bad(s, ev, "values", "the previous value it reports is not the one it replaced")
				}
			} else {
				if !(s.getT("inserted") != nil || t != nil && s.isNilT(t)) {
					k.bad(s, ev, "absent", "reports no previous value although it may have replaced one")
				}
				k.zeroRes(s, ev, v)
			}
		})
	case "CompareAndSwap", "CompareAndDelete":
		st.cases(res(0), func(s *State, ok bool) {
			k.ob(ev, "match")
			t := s.getT("took")
			if ok {
				if t == nil || !(wrote || deleted) {
					k.bad(s, ev, "match", "reports success without having changed the entry")
					return
				}
				if !k.live(s, t) || !k.matches(s, t, true) {
					k.bad(s, ev, "match", "succeeds although the current value was not found equal to the expected one")
				}
				return
			}
			if wrote || deleted {
				k.bad(s, ev, "match", "reports failure after changing the entry")
			}
			lp := s.getT("lastp")
			if !(lp != nil && k.live(s, lp.args[1]) && k.matches(s, lp.args[1], false)) && !k.notThere(s) {
				k.bad(s, ev, "absent", "fails although the key may be present with the expected value")
			}
		})
	case "Range":
		k.ob(ev, "range")
		if st.getT("rdone") == nil && st.getT("rstop") == nil {
			k.bad(st, ev, "range", "returns before every key was visited although the callback did not ask to stop")
		}
	}
}

// matches: the value p points to is known equal (or known unequal) to old
func (k *mapCheck) matches(st *State, p *Term, want bool) bool {
	v := k.valueOf(st, p)
	if v == nil {
		return false
	}
	r, known := st.truth(st.mkEq(v, k.par["old"]))
	return known && r == want
}

func (k *mapCheck) loaded(st *State, ev *Ev, ok bool, v *Term, del bool) {
	k.ob(ev, "values")
	if ok {
		lp := st.getT("lastp")
		if lp == nil || !k.live(st, lp.args[1]) || k.valueOf(st, lp.args[1]) != v || !k.ofKey(st, lp.args[0]) {
			k.bad(st, ev, "values", "returns a value that is not the live value of the key's entry")
		}
		return
	}
	k.ob(ev, "absent")
	if !k.notThere(st) {
		k.bad(st, ev, "absent", "reports the key as absent without having established that")
	}
	k.zeroRes(st, ev, v)
}

func (k *mapCheck) ofKey(st *State, e *Term) bool {
	t := st.taintOf(e)
	return hasTaint(t, "eread") || hasTaint(t, "edirty") || e.alloc
}

func (k *mapCheck) deletedRes(st *State, ev *Ev, ok bool, v *Term) {
	k.ob(ev, "values")
	t := st.getT("took")
	if ok {
		if st.getT("deleted") == nil || t == nil || !k.live(st, t) || k.valueOf(st, t) != v {
			k.bad(st, ev, "values", "reports a deletion that did not happen, or another value than the deleted one")
		}
		return
	}
	if st.getT("deleted") != nil {
		k.bad(st, ev, "values", "deletes the value and reports that there was none")
	}
	k.ob(ev, "absent")
	if !k.notThere(st) {
		k.bad(st, ev, "absent", "reports the key as absent without having established that: it stays in the map")
	}
	k.zeroRes(st, ev, v)
}

// ---- Range

func (k *mapCheck) rangeMap(st *State, ev *Ev) {
	k.ob(ev, "range")
	m := ev.Addr
	if m.isNil() {
		// an empty snapshot: complete only if it says so
		for _, n := range []string{"snapU", "snapL"} {
			if p := st.getT(n); p != nil {
				if a, known := k.amended(st, p); known && !a {
					return
				}
			}
		}
		k.bad(st, ev, "range", "iterates over an incomplete snapshot")
		return
	}
	if m == st.getT("prom") {
		return
	}
	for _, n := range []string{"snapU", "snapL"} {
		if p := st.getT(n); p != nil && k.romap(st, p) == m {
			if a, known := k.amended(st, p); known && !a {
				return
			}
		}
	}
	k.bad(st, ev, "range", "iterates over a snapshot that may lack keys added since: keys present before the call are not visited")
}

func (k *mapCheck) rangeNext(st *State, ev *Ev) {
	k.ob(ev, "range")
	if st.getT("rstop") != nil {
		k.bad(st, ev, "range", "goes on after the callback returned false")
	}
	p := st.getT("rpend")
	if p == nil {
		return
	}
	if lp := st.getT("lastp"); lp != nil && lp.args[0] == p.args[1] && (st.isNilT(lp.args[1]) || k.isExp(st, lp.args[1])) {
		return
	}
	// the callback's answer decides whether going on is right
	k.bad(st, ev, "range", "skips a key whose entry may hold a value")
}

func (k *mapCheck) rangeCall(st *State, ev *Ev) {
	k.ob(ev, "range")
	p := st.getT("rpend")
	lp := st.getT("lastp")
	if p == nil || lp == nil || lp.args[0] != p.args[1] || !k.live(st, lp.args[1]) || len(ev.Args) != 2 || ev.Args[0] != p.args[0] || ev.Args[1] != k.valueOf(st, lp.args[1]) {
		k.bad(st, ev, "range", "the callback is not given the key being visited and its live value (or is given it twice)")
	}
	st.setT("rpend", nil)
	if len(ev.Res) == 1 {
		st.setT("rres", ev.Res[0])
	}
}

func (k *mapCheck) run(name string) {
	c := k.c
	f := c.Fn(mapPkg, "Map."+name)
	if f == nil {
		return
	}
	k.name = name
	cfg := &Config{CallbackPanics: true, Model: k.model, Keep: func(st *State, a *Term) bool {
		if a.k == TFA && (a.fld == k.r.rom || a.fld == k.r.roa) {
			return true
		}
		if a.k == TME && (hasTaint(st.taintOf(a.args[0]), "read") || a.args[0] == st.getT("prom")) {
			return true
		}
		return a.k == TSym && (hasTaint(st.taintOf(a), "pval") || a.alloc)
	}}
	cfg.Event = func(st *State, ev *Ev) {
		// remember a false answer of the callback
		if ev.Kind == "branch" {
			if r := st.getT("rres"); r != nil && k.name == "Range" {
				if v, known := st.truth(st.resolve(r)); known {
					if !v {
						st.setT("rstop", st.x.T.Bool(true))
					}
					st.setT("rres", nil)
				}
			}
			return
		}
		k.event(st, ev)
	}
	c.Run(f, cfg, func(st *State, ps []*Term) {
		k.recv = ps[0]
		k.recv.nonnil = true
		k.par = map[string]*Term{}
		k.key = nil
		sig := f.Signature.Params()
		switch name {
		case "Range":
		default:
			k.key = ps[1]
		}
		// parameters by position
		switch name {
		case "Store", "LoadOrStore", "Swap":
			k.par["value"] = ps[2]
		case "CompareAndSwap":
			k.par["old"], k.par["new"] = ps[2], ps[3]
		case "CompareAndDelete":
			k.par["old"] = ps[2]
		}
		_ = sig
	})
}

var mapOps = []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete", "Range"}

func mapProp(id string, ops []string, rules map[string]string, min map[string]int, expl string) {
	register(&Property{ID: id, Expl: expl, Run: func(c *Ctx) {
		r := findMapRoles(c)
		if r == nil {
			return
		}
		k := &mapCheck{c: c, r: r, on: map[string]bool{}}
		for n, t := range rules {
			k.on[n] = true
			c.rules[n] = t
		}
		for _, o := range ops {
			k.run(o)
		}
		for n, m := range min {
			c.Min(n, m)
		}
	}, Assum: []string{"the map's documented invariants are the induction hypothesis at the start of each call; the rules check that every step of every call keeps them"}})
}

func init() {
	match := "success is reported exactly when an atomic compare-and-swap replaced a live value this path compared equal to the expected one"
	absent := "a negative answer needs evidence: the key's entry seen nil or expunged, or the key missing from a complete snapshot, or from both tables under one hold of the lock"
	entries := "a shared entry changes only by compare-and-swap from a value known not to be expunged, or by a swap while it cannot be expunged; only the copier of the table expunges, and only nil entries; reviving needs the lock"
	values := "what is stored is the caller's value; what is returned is the live value of the key's entry, or the one just replaced"
	mapProp("C01", []string{"CompareAndSwap", "CompareAndDelete"}, map[string]string{
		"match": match, "absent": absent, "entries": entries, "values": values,
	}, map[string]int{"match": 4}, "Each path of both operations is followed to its return, every loop to a fixpoint; at each return the answer is compared with what the path did to the entry and with what it had seen.")
	mapProp("C02", mapOps, map[string]string{
		"lock":    "the mutex is not re-locked, not held over user code, and released on every exit, panics included",
		"guarded": "unsynchronised fields and the dirty map are used only with the mutex held; published maps and snapshots are never written",
	}, map[string]int{"lock": 10, "guarded": 10}, "A lockset is carried along every path of every operation of the map; each access to a plain field of the map, to the dirty table, and each write to a snapshot is an obligation.")
	mapProp("C03", mapOps, map[string]string{
		"absent":  absent,
		"entries": entries,
		"tables":  "keys enter the dirty map only as new (absent from both tables, snapshot marked incomplete), revived, or copied entries; a copy covers every entry that is not expunged; the dirty map is dropped only when published as the complete snapshot; a key is removed from it only together with its value",
		"values":  values,
	}, map[string]int{"absent": 4, "entries": 4, "tables": 10, "values": 8}, "Each operation starts in an arbitrary state that satisfies the map's invariants; every change of an entry or table on every path must keep them, and every answer must rest on what the path has seen.")
	mapProp("C04", []string{"Range"}, map[string]string{"range": "the table iterated over is complete; each visited entry is either passed to the callback with its live value once or seen absent; iteration ends early only after the callback returned false, and then always"},
		map[string]int{"range": 4}, "Every path of Range, with the callback returning either answer or panicking, the iteration taken to a fixpoint.")
}
