package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Map-reduce. Every goroutine that an entry starts is analysed as a thread of
// its own, from the state its go statement leaves; so is what the caller's
// functions may call back (the cancel function, the writer). A first pass
// collects who sends on, receives from and closes which channel and which
// thread runs which of the caller's functions; the second pass checks.

const mrPkg = "gogenerics/gconcurrent/mr"

// constCaptured: the cell of a captured variable that is assigned once
func constCaptured(a *Term) bool {
	if a.k != TSym || a.instr == nil {
		return false
	}
	al, ok := a.instr.(*ssa.Alloc)
	return ok && allocConst(al, nil)
}

// allocConst: the variable is stored to once, before it is shared, and only
// read afterwards; reads says whether a field of it may be read through f.
func allocConst(al *ssa.Alloc, f *types.Var) bool {
	n := 0
	var uses func(v ssa.Value) bool
	uses = func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != v {
					return false
				}
				n++
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				for _, q := range *r.Referrers() {
					switch q.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v && !uses(r.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return uses(al) && n <= 1
}

type mrChan struct {
	key                            string
	size                           *Term
	sends, recvs, closes, cb, cbrv map[string]bool // threads
	alts                           map[string]bool // channels that every send has as an alternative
	plain                          bool            // read other than in a select
	guarded                        bool            // every send follows a won compare-and-swap
	pos                            token.Pos
}

type mrCheck struct {
	c      *Ctx
	on     map[string]bool
	name   string
	ps     []*Term
	pass   int
	keys   map[*Term]string
	ch     map[string]*mrChan
	role   map[string]map[string]bool // thread -> roles of the functions it runs
	parent map[string]string
	wg     bool
	slot   map[string]bool // channels that bound the number of mapper goroutines
	pans   map[string]bool // channels on which recovered panics are sent
	flags  map[string]bool // cells (sites) set when a mapper panicked
	casC   map[string]bool
	waits  map[string][]*mrChan
	outK   map[string]bool // channels written by the reducer's writer
	wrK    map[string]map[string]bool
	sets   int
	workF  *types.Var
	drainV map[string]map[string]func() // channel -> thread -> report
	drainT map[string]map[string]bool   // channel -> threads that reached an exit
	consts map[*types.Var]bool
}

func (k *mrCheck) bad(st *State, ev *Ev, rule, msg string) {
	if k.pass == 2 && k.on[rule] {
		k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
	}
}
func (k *mrCheck) undecided(why string) {
	if k.pass == 2 {
		k.c.Undecided(k.name, why)
	}
}
func (k *mrCheck) ob(ev *Ev, rule string) {
	if k.pass == 2 && k.on[rule] {
		k.c.Ob(rule, where(ev)+" in "+k.name)
		k.c.N(rule)
	}
}

// constField: the field is set where its struct is built and nowhere else
func (k *mrCheck) constField(v *types.Var) bool {
	if r, ok := k.consts[v]; ok {
		return r
	}
	r := true
	for _, f := range k.c.P.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s := coreStruct(derefT(fa.X.Type()))
				if s == nil || s.Field(fa.Field).Origin() != v.Origin() {
					continue
				}
				for _, q := range *fa.Referrers() {
					switch q := q.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if _, ok := fa.X.(*ssa.Alloc); !ok || q.Addr != fa {
							r = false
						}
					default:
						r = false
					}
				}
			}
		}
	}
	k.consts[v] = r
	return r
}

func (k *mrCheck) keep(st *State, a *Term) bool {
	if constCaptured(a) {
		return true
	}
	if a.k == TFA && k.constField(a.fld) {
		b := a.args[0]
		if al, ok := b.instr.(*ssa.Alloc); ok && b.k == TSym {
			n := 0
			if al.Referrers() != nil {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al {
						n++
					}
				}
			}
			return n <= 1
		}
		return true
	}
	return false
}

// ---- threads and sites

func (k *mrCheck) chain(st *State, in ssa.Instruction) string {
	var b strings.Builder
	b.WriteString(st.getS("thr"))
	for i, f := range st.frames {
		if i == len(st.frames)-1 {
			break
		}
		if f.pc < len(f.blk.Instrs) {
			fmt.Fprintf(&b, "|%s", k.c.P.pos(instrPos(f.blk.Instrs[f.pc])))
		}
	}
	fmt.Fprintf(&b, "|%s", k.c.P.pos(instrPos(in)))
	return b.String()
}

func (k *mrCheck) chanOf(st *State, t *Term) *mrChan {
	t = st.resolve(t)
	key := ""
	switch {
	case t.k == TOp && t.op == "ctxdone":
		key = "ctx"
	case k.keys[t] != "":
		key = k.keys[t]
	case t.named:
		key = "param " + t.label
	default:
		return nil
	}
	c := k.ch[key]
	if c == nil {
		c = &mrChan{key: key, sends: map[string]bool{}, recvs: map[string]bool{}, closes: map[string]bool{}, cb: map[string]bool{}, cbrv: map[string]bool{}, guarded: true}
		k.ch[key] = c
	}
	return c
}

func base(thr string) string { // the goroutine in which a call-back runs
	if i := strings.LastIndexByte(thr, '@'); i >= 0 {
		return thr[i+1:]
	}
	return thr
}
func pseudo(thr string) string {
	if i := strings.LastIndexByte(thr, '@'); i >= 0 {
		return thr[:i]
	}
	return ""
}

func (k *mrCheck) thrRoles(thr, role string) bool { return k.role[thr][role] }

func (k *mrCheck) roleOf(st *State, ev *Ev) string {
	f := st.resolve(ev.Addr)
	if k.name == "Finish" || k.name == "FinishVoid" {
		return "map"
	}
	if f.typ != nil {
		if n, ok := types.Unalias(f.typ).(*types.Named); ok {
			switch n.Obj().Name() {
			case "GenerateFunc":
				return "gen"
			case "ForEachFunc", "MapperFunc", "MapFunc":
				return "map"
			case "ReducerFunc", "VoidReducerFunc":
				return "red"
			case "Option":
				return "opt"
			}
		}
		if _, ok := f.typ.Underlying().(*types.Signature); ok {
			return "map"
		}
	}
	return ""
}

func (k *mrCheck) thread(st *State, name string) {
	st.clearMon("t.")
	st.clearMon("#")
	st.setS("thr", name)
}

func isSig(t types.Type) (*types.Signature, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Signature)
	return s, ok
}

// spawn analyses a function of ours that the caller's function may call
func (k *mrCheck) spawn(st *State, kind string, f *ssa.Function, recv []*Term, bind []*Term) {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Blocks == nil || !inRepo(f) {
		return
	}
	x := st.x
	ch := st.clone()
	ch.dropShared(k.keep)
	k.thread(ch, kind+"@"+st.getS("thr"))
	ch.frames = nil
	args := append([]*Term(nil), recv...)
	sig := f.Signature
	n := len(f.Params) - len(args)
	for i := 0; i < n; i++ {
		p := sig.Params().At(sig.Params().Len() - n + i)
		s := x.T.sym("caller:"+p.Name(), p.Type())
		args = append(args, s)
		if kind == "cancel" || kind == "write" {
			ch.setT("t.arg", s)
		}
	}
	x.pushFrame(ch, f, args, bind, retInfo{mode: mRoot})
	x.work = append(x.work, ch)
}

func (k *mrCheck) goStmt(p, ch *State, ev *Ev) bool {
	thr := k.chain(p, ev.Instr)
	k.parent[thr] = p.getS("thr")
	item := p.getT("t.given")
	p.setT("t.given", nil)
	k.thread(ch, thr)
	if k.name == "Finish" || k.name == "FinishVoid" {
		ch.setT("#sent", ch.x.T.Int(0))
	}
	if item != nil {
		ch.setT("t.my", item)
	}
	ch.setT("t.add", ch.x.T.Int(0))
	return true
}

func (k *mrCheck) model(st *State, c *Call) ([]Out, bool) {
	T := st.x.T
	switch {
	case c.Callee == "iface:context.Context.Done":
		return []Out{{Res: []*Term{T.op("ctxdone", c.ResTypes()[0], c.Args[0])}}}, true
	case strings.HasPrefix(c.Callee, "iface:context.Context."):
		return []Out{{Res: st.x.freshResults(st, c, "ctx")}}, true
	case c.Callee == "errors.Is" && len(c.Args) == 2:
		a, b := st.resolve(c.Args[0]), st.resolve(c.Args[1])
		if a == b {
			return []Out{{Res: []*Term{T.Bool(true)}}}, true
		}
		if a.isNil() {
			return []Out{{Res: []*Term{T.Bool(false)}}}, true
		}
		if a.k == TSym && b.k == TSym && a.named && b.named && strings.HasPrefix(a.label, "global ") && strings.HasPrefix(b.label, "global ") {
			return []Out{{Res: []*Term{T.Bool(false)}}}, true // two sentinel errors
		}
		if t := st.getT("is"); t != nil && t.args[0] == a && t.args[1] == b {
			return []Out{{Res: []*Term{t.args[2]}}}, true
		}
		r := T.sym("errors.Is", types.Typ[types.Bool])
		return []Out{{Res: []*Term{r}, Do: func(s *State) {
			s.setT("is", T.tuple(a, b, r))
		}}}, true
	case c.Callee == "gogenerics/gconstraints.AtomicError.Set":
		k.sets++
		v := st.resolve(c.Args[1])
		return []Out{{Do: func(s *State) {
			if !s.isNilT(v) {
				s.setT("t.set", v)
			}
		}}}, true
	case c.Callee == "gogenerics/gconstraints.AtomicError.Load":
		r := T.sym("recorded", c.ResTypes()[0])
		// who was released by a cancel finds what it recorded
		for _, m := range st.monKeys("t.rv.") {
			if ch := k.ch[strings.TrimPrefix(m, "t.rv.")]; ch != nil && k.reason(ch) {
				r.nonnil = true
			}
		}
		return []Out{{Res: []*Term{r}, Do: func(s *State) { s.setT("t.load", r) }}}, true
	case !c.Common.IsInvoke() && c.Static == nil && c.FnT != nil && namedIs(c.FnT.typ, modPath+"/"+mrPkg, "Option"):
		// an option may set the options to anything the With functions set
		for _, a := range c.Args {
			st.escape(a)
		}
		return []Out{{Do: func(s *State) {
			s.dropShared(k.keep)
			if e := s.getT("oel"); e != nil && s.getT("#opt") != nil {
				if e.args[0] != s.resolve(c.FnT) || !same(s, e.args[1], s.getT("#opt")) {
					if e.args[0] == s.resolve(c.FnT) && len(k.ps) > 1 && e.args[2] == k.ps[len(k.ps)-1] {
						s.setT("optbad", T.Bool(true))
					}
					s.setT("#opt", nil)
				} else {
					inc(s, "#opt")
					s.setT("obase", e.args[2])
				}
			}
		}}}, true
	}
	return nil, false
}

func (k *mrCheck) unknown(st *State, ev *Ev, what string) {
	k.undecided(fmt.Sprintf("%s at %s is on a channel that is not known", what, k.c.P.pos(ev.Pos)))
}

func (k *mrCheck) drained(st *State, key string) bool {
	ok := st.getT("t.ok." + key)
	if ok == nil {
		return false
	}
	v, known := st.truth(st.resolve(ok))
	return known && !v
}

// stopping: this thread has seen that the work is over or failed
func (k *mrCheck) stopping(st *State) bool {
	if st.getT("t.stop") != nil {
		return true
	}
	if f := st.getT("t.flagv"); f != nil {
		f = st.resolve(f)
		if v, known := st.truth(f); known && v {
			return true
		}
		if v, known := st.truth(st.mkEq(f, st.x.T.Int(0))); known && !v {
			return true
		}
		if st.proveLT(st.x.T.Int(0), f) {
			return true
		}
	}
	for _, m := range st.monKeys("t.ok.") {
		c := k.ch[strings.TrimPrefix(m, "t.ok.")]
		if c != nil && k.drained(st, c.key) {
			return true
		}
	}
	return false
}

// reason: a signal that a cancel gives
func (k *mrCheck) reason(c *mrChan) bool {
	if !k.signal(c) {
		return false
	}
	for t := range c.closes {
		if t == "" || pseudo(t) == "cancel" || k.thrRoles(t, "map") {
			return true
		}
	}
	return false
}

// signal: a channel that is only ever closed
func (k *mrCheck) signal(c *mrChan) bool {
	return c.key == "ctx" || len(c.sends) == 0 && len(c.cb) == 0
}

func (k *mrCheck) pinned(st *State, n string) int {
	t := st.getT(n)
	if t == nil {
		return 0
	}
	for i := 0; i < 4; i++ {
		if t == st.x.T.Int(int64(i)) {
			return i
		}
	}
	return 3
}
func (k *mrCheck) add(st *State, n string, d int) {
	v := k.pinned(st, n) + d
	if v > 3 {
		v = 3
	}
	if v < 0 {
		v = 0
	}
	st.setT(n, st.x.T.Int(int64(v)))
}

// ---- events

func (k *mrCheck) event(st *State, ev *Ev) {
	T := st.x.T
	thr := st.getS("thr")
	yes := T.Bool(true)
	switch ev.Kind {
	case "make":
		if ev.Detail != "chan" {
			return
		}
		key := k.chain(st, ev.Instr)
		k.keys[ev.Val] = key
		c := k.chanOf(st, ev.Val)
		c.size, c.pos = ev.Args[0], ev.Pos
		st.setT("made."+key, yes)
		if k.pass == 2 && k.slot[key] {
			k.capacity(st, ev)
		}
	case "load":
		a := ev.Addr
		if a.k == TFA && a.fld.Origin() == k.workF {
			st.setT("workers", ev.Val)
			k.applied(st, ev)
		}
		if a.k == TIA && namedIs(ev.Val.typ, modPath+"/"+mrPkg, "Option") {
			st.setT("oel", T.tuple(ev.Val, a.args[1], a.args[0]))
		}
		if a.k == TIA && len(k.ps) == 1 && a.args[0] == k.ps[0] {
			st.setT("t.el", T.tuple(ev.Val, a.args[1]))
		}
	case "inline":
		if ev.Callee == mrPkg+".WithWorkers" {
			st.setT("ww", ev.Args[0])
		}
	case "select":
		k.sel(st, ev, thr)
	case "send":
		k.send(st, ev, thr, ev.Addr, ev.Val, nil)
	case "recv":
		if c := k.chanOf(st, ev.Addr); c != nil {
			c.plain = true
		}
		k.recv(st, ev, thr, ev.Addr, ev.Val, ev.Res[0])
	case "close":
		k.closeEv(st, ev, thr)
	case "callback":
		k.callback(st, ev, thr)
	case "recover":
		if ev.Val != nil && !ev.Val.isNil() {
			st.setT("t.pv", ev.Val)
		}
	case "acas":
		if st.getT("t.pv") != nil || k.casC[k.cell(st, ev.Addr)] {
			if ev.Detail == "ok" {
				st.setT("t.cas", yes)
				k.casC[k.cell(st, ev.Addr)] = true
			} else if k.casC[k.cell(st, ev.Addr)] || k.pass == 1 {
				st.setT("t.delivered", yes)
			}
		}
		k.flagEv(st, ev, thr)
	case "aadd", "astore", "aswap":
		k.flagEv(st, ev, thr)
	case "aload":
		st.setT("t.flag", T.Str(k.cell(st, ev.Addr)))
		st.setT("t.flagv", ev.Val)
	case "call":
		k.call(st, ev, thr)
	case "once":
		if ev.Detail == "run" {
			f := ev.Val
			if f.fn != nil {
				st.setS("t.oncefn", fname(f.fn))
				st.setT("t.oncerun", yes)
			}
			if st.getT("t.pv") != nil {
				st.setT("t.cas", yes)
				k.casC[k.cell(st, ev.Addr)] = true
			}
		} else {
			st.setT("t.onceskip", yes)
			if st.getT("t.pv") != nil && (k.casC[k.cell(st, ev.Addr)] || k.pass == 1) {
				st.setT("t.delivered", yes)
			}
		}
	case "go":
		k.goEv(st, ev, thr)
	case "store":
		if p := st.getT("t.pv"); p != nil && unbox(st.resolve(ev.Val)) == p && ev.Addr.k == TFA && !ev.Addr.base().alloc {
			k.undecided("a recovered panic is handed over through memory, which is not followed")
		}
	case "exit":
		k.exit(st, ev, thr)
	}
}

func (k *mrCheck) cell(st *State, a *Term) string {
	a = st.resolve(a)
	b := a.base()
	s := ""
	if b.instr != nil {
		s = k.c.P.pos(instrPos(b.instr))
	} else {
		s = b.label
	}
	if a.k == TFA {
		s += "." + a.fld.Name()
	}
	return s
}

func (k *mrCheck) flagEv(st *State, ev *Ev, thr string) {
	if st.getT("t.panicking") != nil && k.thrRoles(thr, "map") {
		k.flags[k.cell(st, ev.Addr)] = true
		st.setT("t.flagged", st.x.T.Bool(true))
	}
}

func (k *mrCheck) sel(st *State, ev *Ev, thr string) {
	T := st.x.T
	var cs []*mrChan
	for _, a := range ev.Args {
		if a.isNil() {
			cs = append(cs, nil)
			continue
		}
		c := k.chanOf(st, a)
		if c == nil {
			k.unknown(st, ev, "a select")
			return
		}
		cs = append(cs, c)
	}
	in := ev.Instr.(*ssa.Select)
	alts := map[string]bool{}
	for i, c := range cs {
		if c != nil && in.States[i].Dir == types.RecvOnly {
			alts[c.key] = true
			c.recvs[thr] = true
		}
	}
	for c := range alts {
		st.setT("t.chk."+c, T.Bool(true))
	}
	if in.Blocking {
		k.waits[k.c.P.pos(ev.Pos)+thr] = cs
	}
	switch ev.Detail {
	case "send":
		k.send(st, ev, thr, ev.Addr, ev.Val, alts)
	case "recv":
		var ok *Term
		if ev.Res != nil {
			ok = ev.Res[1]
		}
		k.recv(st, ev, thr, ev.Addr, ev.Val, ok)
	case "default":
		// there is no room: somebody else has handed over a panic
		for i, c := range cs {
			if c == nil || in.States[i].Dir != types.SendOnly || st.getT("t.pv") == nil {
				continue
			}
			c.sends[base(thr)] = true
			if c.size != nil && st.proveLT(T.Int(0), c.size) && (k.pass == 1 || k.pans[c.key]) {
				st.setT("t.delivered", T.Bool(true))
			}
		}
		for c := range alts {
			if k.pans[c] && k.complete(st) {
				st.setT("t.polled", T.Bool(true))
			}
		}
	}
}

// complete: the main thread has seen the end of the work
func (k *mrCheck) complete(st *State) bool { return st.getT("t.done") != nil || k.sawEnd(st) }
func (k *mrCheck) sawEnd(st *State) bool {
	for _, m := range st.monKeys("t.ok.") {
		if k.drained(st, strings.TrimPrefix(m, "t.ok.")) {
			return true
		}
	}
	return false
}

func (k *mrCheck) send(st *State, ev *Ev, thr string, ch, v *Term, alts map[string]bool) {
	T := st.x.T
	c := k.chanOf(st, ch)
	if c == nil {
		k.unknown(st, ev, "a send")
		return
	}
	v = st.resolve(v)
	c.sends[base(thr)] = true
	if c.alts == nil {
		c.alts = map[string]bool{}
		for a := range alts {
			c.alts[a] = true
		}
	}
	for a := range c.alts {
		if !alts[a] {
			delete(c.alts, a)
		}
	}
	if in, ok := ev.Instr.(*ssa.Select); st.getT("t.cas") == nil && !(ok && !in.Blocking) {
		c.guarded = false
	}
	if st.getT("t.closed."+c.key) != nil {
		k.bad(st, ev, "close", "a send on a channel that is closed already")
	}
	if p := st.getT("t.pv"); p != nil && unbox(v) == unbox(p) {
		k.pans[c.key] = true
		st.setT("t.delivered", T.Bool(true))
		k.ob(ev, "panic")
		if k.pass == 2 {
			if !(c.guarded && c.size != nil && st.proveLT(T.Int(0), c.size)) {
				k.bad(st, ev, "block", "a goroutine that hands over a panic can wait for ever: there is no room for it and the reader may have gone")
			}
		}
	} else if k.pans[c.key] {
		k.bad(st, ev, "panic", "what is sent to be panicked with is not the value that was recovered")
	}
	if pseudo(thr) == "write" {
		if k.wrK[base(thr)] == nil {
			k.wrK[base(thr)] = map[string]bool{}
		}
		k.wrK[base(thr)][c.key] = true
		k.ob(ev, "writer")
		if a := st.getT("t.arg"); a == nil || st.resolve(a) != v {
			k.bad(st, ev, "writer", "what is sent is not the value that was written")
		}
		k.add(st, "t.nsend", 1)
	}
	if k.slot[c.key] {
		if k.pinned(st, "t.slots") > 0 && k.pass == 2 {
			k.bad(st, ev, "slots", "the slot taken before is neither used by a goroutine nor given back")
		}
		k.add(st, "t.slots", 1)
	}
	if k.name == "Finish" || k.name == "FinishVoid" {
		if _, ok := isSig(v.typ); ok && st.getT("#sent") != nil {
			e := st.getT("t.el")
			k.ob(ev, "all")
			if e == nil || e.args[0] != v || !same(st, e.args[1], st.getT("#sent")) {
				k.bad(st, ev, "all", "the function that is sent is not the next one given")
			}
			inc(st, "#sent")
		}
	}
}

func (k *mrCheck) recv(st *State, ev *Ev, thr string, ch, v, ok *Term) {
	T := st.x.T
	c := k.chanOf(st, ch)
	if c == nil {
		k.unknown(st, ev, "a receive")
		return
	}
	c.recvs[thr] = true
	if k.drained(st, c.key) && ok != nil && ok.k != TConst {
		st.assume(ok, false) // it is at its end already
	}
	if ok != nil && ok.k != TConst {
		st.setT("t.ok."+c.key, ok)
	}
	st.setT("t.chk."+c.key, T.Bool(true))
	if k.pass != 2 {
		return
	}
	if k.signal(c) {
		st.setT("t.rv."+c.key, T.Bool(true))
		st.setT("t.stop", T.Bool(true))
		if st.getT("t.done") == nil && st.getT("t.val") == nil {
			st.setT("t.load", nil)
		}
		st.setT("t.done", T.Bool(true))
	}
	if k.slot[c.key] {
		if k.pinned(st, "t.slots") > 0 {
			k.add(st, "t.slots", -1)
		} else {
			k.add(st, "t.freed", 1)
			if k.thrRoles(thr, "map") && k.pinned(st, "t.cb") == 0 {
				k.bad(st, ev, "bound", "the slot is given back before the mapper has run")
			}
		}
	}
	if k.pans[c.key] && thr == "" {
		st.setT("t.gotp", v)
	}
	if k.outK[c.key] && thr == "" && st.getT("t.val") == nil && ok != nil {
		if st.getT("t.done") == nil {
			st.setT("t.load", nil)
		}
		st.setT("t.val", T.tuple(v, ok, T.Str(c.key)))
	}
	// the thread that starts the mappers takes an item
	if k.isDispatcher(thr) && k.itemSource(c) {
		k.item(st, ev)
		st.setT("t.item", v)
		st.setT("t.itemok", orNil(T, ok))
	}
}

// item: the item taken before has to be in the hands of a mapper
func (k *mrCheck) item(st *State, ev *Ev) {
	it := st.getT("t.item")
	if it == nil {
		return
	}
	k.ob(ev, "items")
	ok := st.getT("t.itemok")
	if v, known := st.truth(st.resolve(ok)); (known && !v) || k.stopping(st) {
		return
	}
	k.bad(st, ev, "items", "an item that was generated is dropped: it was received and no mapper is started for it")
}

func (k *mrCheck) isDispatcher(thr string) bool {
	for t, r := range k.role {
		if r["map"] && k.parent[t] == thr && t != "" && pseudo(t) == "" {
			return true
		}
	}
	return false
}

// itemSource: the channel that the generator writes or that the caller gave
func (k *mrCheck) itemSource(c *mrChan) bool {
	if strings.HasPrefix(c.key, "param ") {
		return true
	}
	for t := range c.sends {
		if k.role[t]["gen"] {
			return true
		}
	}
	for t := range c.cb {
		if k.role[t]["gen"] {
			return true
		}
	}
	// Finish: the goroutine that sends the functions
	if k.name == "Finish" || k.name == "FinishVoid" {
		return len(c.sends) > 0 && !k.slot[c.key] && !k.pans[c.key]
	}
	return false
}

func (k *mrCheck) inOnce(st *State) bool {
	n := st.getS("t.oncefn")
	if n == "" {
		return false
	}
	for _, f := range st.frames {
		if fname(f.fn) == n {
			return true
		}
	}
	return false
}

func (k *mrCheck) completion(st *State, ev *Ev, what string) {
	if st.getT("t.panicking") != nil && st.getT("t.delivered") == nil {
		k.bad(st, ev, "panic", what+" before the panic of the caller's function is handed over: the waiting call can return without it")
	}
}

func (k *mrCheck) closeEv(st *State, ev *Ev, thr string) {
	c := k.chanOf(st, ev.Addr)
	if c == nil {
		k.unknown(st, ev, "a close")
		return
	}
	c.closes[thr] = true
	if k.pass == 1 {
		st.setT("t.closed."+c.key, st.x.T.Bool(true))
		return
	}
	k.ob(ev, "close")
	k.completion(st, ev, "the end is signalled")
	if st.getT("t.closed."+c.key) != nil {
		k.bad(st, ev, "close", "the channel is closed twice")
	}
	st.setT("t.closed."+c.key, st.x.T.Bool(true))
	multi := pseudo(thr) != "" || k.thrRoles(thr, "map") || len(c.closes) > 1
	if multi && !k.inOnce(st) {
		k.bad(st, ev, "close", "several goroutines can close this channel and nothing makes it happen once")
	}
	senders := map[string]bool{}
	for t := range c.sends {
		senders[t] = true
	}
	for t := range c.cb {
		senders[t] = true
	}
	for t := range senders {
		if t == thr && !k.thrRoles(thr, "map") {
			if k.pinned(st, "t.cb") == 0 && len(c.cb) > 0 && c.cb[thr] {
				k.bad(st, ev, "close", "the channel is closed before the caller's function has run")
			}
			continue
		}
		if k.parent[t] == thr && k.thrRoles(t, "map") && pseudo(thr) == "" {
			if st.getT("t.waited") == nil {
				k.bad(st, ev, "close", "the channel is closed while mappers may still write to it")
			}
			continue
		}
		k.bad(st, ev, "close", "the channel is closed by a goroutine other than the one that writes to it, which may be writing")
	}
	// a cancel records why before it releases the waiters
	if k.reason(c) {
		k.ob(ev, "cancel")
		if st.getT("t.set") == nil && k.sets > 0 {
			k.bad(st, ev, "cancel", "the call is released before the reason is recorded")
		}
	}
}

func (k *mrCheck) callback(st *State, ev *Ev, thr string) {
	T := st.x.T
	role := k.roleOf(st, ev)
	if role == "" || role == "opt" {
		return
	}
	if k.role[thr] == nil {
		k.role[thr] = map[string]bool{}
	}
	k.role[thr][role] = true
	k.add(st, "t.cb", 1)
	if ev.Panics {
		st.setT("t.panicking", T.Bool(true))
	}
	k.ob(ev, "run")
	if thr == "" {
		k.bad(st, ev, "run", "the caller's function runs in the calling goroutine, which has to serve the others")
	}
	if role == "map" && !ev.Panics {
		my := st.getT("t.my")
		k.ob(ev, "items")
		fn := k.name == "Finish" || k.name == "FinishVoid"
		switch {
		case my == nil:
			if k.pass == 2 {
				k.undecided("the item a mapper is given is not received by the goroutine that starts it")
			}
		case fn && st.resolve(ev.Addr) != my:
			k.bad(st, ev, "items", "the function that runs is not the one that was received")
		case !fn && (len(ev.Args) == 0 || st.resolve(ev.Args[0]) != my):
			k.bad(st, ev, "items", "the mapper is not given the item that was received")
		}
		if fn && len(ev.Res) == 1 {
			st.setT("t.res", ev.Res[0])
		}
	}
	sig, _ := isSig(st.resolve(ev.Addr).typ)
	for i, a := range ev.Args {
		a = st.resolve(a)
		var pt types.Type
		if sig != nil && i < sig.Params().Len() {
			pt = sig.Params().At(i).Type()
		}
		if pt != nil {
			if ct, ok := pt.Underlying().(*types.Chan); ok {
				c := k.chanOf(st, a)
				if c == nil {
					k.unknown(st, ev, "a function of the caller")
					continue
				}
				if ct.Dir() != types.RecvOnly {
					c.cb[thr] = true
					c.alts = map[string]bool{}
				}
				if ct.Dir() != types.SendOnly {
					c.cbrv[thr] = true
					c.recvs[thr] = true
				}
				continue
			}
		}
		if ev.Panics {
			continue
		}
		switch {
		case a.k == TClosure:
			k.spawn(st, "cancel", a.fn, nil, a.args)
		case a.k == TOp && a.op == "iface":
			r := a.args[0]
			if n, ok := types.Unalias(derefT(r.typ)).(*types.Named); ok && n.Obj().Pkg() != nil {
				if m := k.method(n, "Write"); m != nil {
					k.spawn(st, "write", m, []*Term{r}, nil)
				}
			}
		}
	}
	if !ev.Panics && (role == "map" || role == "red") {
		k.seesWriter(st, ev, thr, role)
	}
}

func (k *mrCheck) method(n *types.Named, name string) *ssa.Function {
	for _, f := range k.c.P.Fns {
		if f.Name() != name || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		if m, ok := types.Unalias(derefT(f.Signature.Recv().Type())).(*types.Named); ok && m.Origin() == n.Origin() {
			return f
		}
	}
	return nil
}

func (k *mrCheck) seesWriter(st *State, ev *Ev, thr, role string) {
	if role != "red" || k.pass != 2 {
		return
	}
	// what the mappers write is what the reducer reads
	k.ob(ev, "writer")
	for m, r := range k.role {
		if !r["map"] || pseudo(m) != "" {
			continue
		}
		for ck := range k.wrK[m] {
			if !k.ch[ck].cbrv[thr] {
				k.bad(st, ev, "writer", "the reducer does not read the channel that the mappers' writer sends to")
			}
		}
	}
}

func (k *mrCheck) call(st *State, ev *Ev, thr string) {
	T := st.x.T
	switch ev.Callee {
	case "sync.WaitGroup.Add":
		k.wg = true
		n := 0
		if len(ev.Args) > 1 && ev.Args[1] == T.Int(1) {
			n = 1
		} else if len(ev.Args) > 1 {
			k.undecided("WaitGroup.Add of another number than 1")
		}
		k.add(st, "t.add", n)
	case "sync.WaitGroup.Done":
		k.wg = true
		k.completion(st, ev, "a mapper reports that it is done")
		k.add(st, "t.wgdone", 1)
		if k.thrRoles(thr, "map") && k.pinned(st, "t.cb") == 0 {
			k.bad(st, ev, "close", "a mapper reports that it is done before it has run")
		}
	case "sync.WaitGroup.Wait":
		k.wg = true
		st.setT("t.waited", T.Bool(true))
	}
}

func (k *mrCheck) goEv(st *State, ev *Ev, thr string) {
	T := st.x.T
	ch := k.chain(st, ev.Instr)
	if k.pass != 2 || !k.role[ch]["map"] {
		return
	}
	k.ob(ev, "bound")
	if len(k.slot) == 0 {
		if st.getT("t.item") != nil {
			k.bad(st, ev, "bound", "a goroutine is started for every item and nothing limits how many run")
		} else {
			k.undecided("how the mapper goroutines are limited is not recognised")
		}
	} else if k.pinned(st, "t.slots") == 0 {
		k.bad(st, ev, "bound", "a mapper is started without a slot: more than the chosen number can run at once")
	}
	k.add(st, "t.slots", -1)
	k.ob(ev, "wait")
	if k.wg && k.pinned(st, "t.add") != 1 {
		k.bad(st, ev, "close", "the WaitGroup is not told about this mapper before it starts")
	}
	st.setT("t.add", T.Int(0))
	// the item
	ok := st.getT("t.itemok")
	if st.getT("t.item") != nil && ok != nil {
		if v, known := st.truth(st.resolve(ok)); !known || !v {
			if !ok.isNil() {
				k.bad(st, ev, "items", "a mapper is started although no item was received")
			}
		}
	}
	st.setT("t.given", st.getT("t.item"))
	st.setT("t.item", nil)
	st.setT("t.itemok", nil)
	// stop conditions were looked at since the last mapper was started
	k.ob(ev, "stop")
	if k.name != "ForEach" || true {
		for key, c := range k.ch {
			byCancel := false
			for t := range c.closes {
				if pseudo(t) == "cancel" {
					byCancel = true
				}
			}
			if (key == "ctx" || byCancel && k.signal(c)) && st.getT("t.chk."+key) == nil {
				k.bad(st, ev, "stop", "mapping goes on without a look at whether the call was cancelled or its context is done")
			}
		}
		if st.getT("t.chk.ctx") == nil && k.ch["ctx"] == nil {
			k.bad(st, ev, "stop", "mapping goes on without a look at whether the context is done")
		}
	}
	if len(k.flags) == 0 {
		k.bad(st, ev, "stop", "a mapper's panic leaves no mark for the goroutine that starts mappers: mapping goes on after it")
	} else {
		fl, fv := st.getT("t.flag"), st.getT("t.flagv")
		looked := false
		if fl != nil && fv != nil {
			n, _ := fl.strVal()
			v, known := st.truth(st.mkEq(st.resolve(fv), T.Int(0)))
			fvb, fknown := st.truth(st.resolve(fv))
			looked = k.flags[n] && (known && v || fknown && !fvb)
		}
		if !looked {
			k.bad(st, ev, "stop", "a mapper is started without a look at whether one panicked")
		}
	}
	st.clearMon("t.chk.")
	st.setT("t.flag", nil)
	st.setT("t.flagv", nil)
}

// applied: every option that was given has been applied
func (k *mrCheck) applied(st *State, ev *Ev) {
	if st.getS("thr") != "" {
		return
	}
	k.ob(ev, "option")
	n := st.getT("#opt")
	b := st.getT("obase")
	if b == nil && len(k.ps) > 1 {
		b = k.ps[len(k.ps)-1]
	}
	if st.getT("optbad") != nil {
		k.bad(st, ev, "option", "the options that were given are not all applied in their order")
		return
	}
	if n == nil || b == nil {
		k.undecided("how the options are applied is not recognised")
		return
	}
	if !same(st, n, st.x.T.op("len", types.Typ[types.Int], b)) {
		k.bad(st, ev, "option", "not every option that was given is applied")
	}
}

// capacity: the room for slots is the number of workers
func (k *mrCheck) capacity(st *State, ev *Ev) {
	k.ob(ev, "bound")
	size := ev.Args[0]
	w := st.getT("workers")
	if w == nil {
		k.undecided("the number of workers that was chosen is not recognised")
		return
	}
	if !st.proveLE(size, w) {
		k.bad(st, ev, "bound", "there are more slots than workers were asked for")
	}
	if !st.proveLT(st.x.T.Int(0), size) {
		k.bad(st, ev, "slots", "there may be no slot at all: no mapper would ever start")
	}
	ww := st.getT("ww")
	if (k.name == "Finish" || k.name == "FinishVoid") && (ww == nil || !st.proveLE(st.x.T.op("len", types.Typ[types.Int], k.ps[0]), ww)) {
		k.bad(st, ev, "all", "not all functions can run at the same time")
	}
}

// ---- ends of threads

func (k *mrCheck) exit(st *State, ev *Ev, thr string) {
	if k.pass != 2 {
		return
	}
	T := st.x.T
	p := pseudo(thr)
	if thr != "" && ev.Panics && p == "" {
		k.bad(st, ev, "panic", "a panic leaves the goroutine: the whole program dies")
	}
	if p == "" {
		k.ob(ev, "panic")
		if st.getT("t.panicking") != nil && st.getT("t.delivered") == nil && !ev.Panics {
			k.bad(st, ev, "panic", "a panic of the caller's function is swallowed")
		}
	}
	roles := k.role[thr]
	// channels this thread has to close
	if thr != "" && p == "" {
		for _, c := range k.chans() {
			if len(c.closes) == 1 && c.closes[thr] {
				k.ob(ev, "closed")
				if st.getT("t.closed."+c.key) == nil {
					k.bad(st, ev, "closed", "the goroutine ends without closing a channel that others wait for")
				}
			}
		}
	}
	if roles["map"] && p == "" {
		k.ob(ev, "slots")
		if len(k.slot) > 0 && k.pinned(st, "t.freed") != 1 {
			k.bad(st, ev, "slots", "the goroutine does not give back its slot exactly once")
		}
		if k.wg && k.pinned(st, "t.wgdone") != 1 {
			k.bad(st, ev, "closed", "the goroutine does not report exactly once that it is done")
		}
		if k.pinned(st, "t.cb") != 1 {
			k.bad(st, ev, "items", "the mapper does not run exactly once for the item")
		}
		if st.getT("t.panicking") != nil && len(k.flags) > 0 && st.getT("t.flagged") == nil {
			k.bad(st, ev, "stop", "a mapper's panic leaves no mark: mapping goes on after it")
		}
		if r := st.getT("t.res"); r != nil && isErrorType(r.typ) {
			k.ob(ev, "cancel")
			r = st.resolve(r)
			set := st.getT("t.set")
			if !st.isNilT(r) && !st.knownEq(r, T.Nil()) && st.getT("t.onceskip") == nil && (set == nil || st.resolve(set) != r) && k.sets > 0 {
				k.bad(st, ev, "cancel", "the error a function returned is not recorded")
			}
			if set != nil && st.getT("t.oncerun") != nil {
				k.closedSignal(st, ev)
			}
		}
	}
	if k.isDispatcher(thr) && st.getT("t.item") != nil {
		k.item(st, ev)
	}
	if p == "cancel" && st.getT("t.onceskip") == nil {
		k.ob(ev, "cancel")
		k.closedSignal(st, ev)
		a := st.getT("t.arg")
		set := st.getT("t.set")
		if set != nil && a != nil {
			set, a = st.resolve(set), st.resolve(a)
			isNil := st.isNilT(a) || st.knownEq(a, T.Nil())
			switch {
			case isNil && !globalIs(set, "ErrCancelWithNil"):
				k.bad(st, ev, "cancel", "a cancel without a reason does not record ErrCancelWithNil")
			case !isNil && set != a:
				k.bad(st, ev, "cancel", "what a cancel records is not the error it was given")
			}
		}
	}
	if p == "write" {
		k.ob(ev, "writer")
		if !ev.Panics && k.pinned(st, "t.nsend") != 1 && !(k.stopping(st) && k.pinned(st, "t.nsend") == 0) {
			k.bad(st, ev, "writer", "a written value is not passed on exactly once")
		}
	}
	if p == "" {
		k.drains(st, ev, thr)
	}
	if thr == "" {
		k.result(st, ev)
	}
	if (k.name == "Finish" || k.name == "FinishVoid") && thr != "" && p == "" && st.getT("#sent") != nil && !ev.Panics {
		if len(k.sendsFns(thr)) > 0 {
			k.ob(ev, "all")
			if !same(st, st.getT("#sent"), T.op("len", types.Typ[types.Int], k.ps[0])) {
				k.bad(st, ev, "all", "not every function is handed to a worker")
			}
		}
	}
}

func (k *mrCheck) sendsFns(thr string) []string {
	var out []string
	for key, c := range k.ch {
		if c.sends[thr] && !k.pans[key] && !k.slot[key] {
			out = append(out, key)
		}
	}
	return out
}

func (k *mrCheck) closedSignal(st *State, ev *Ev) {
	for _, c := range k.chans() {
		if k.signal(c) && st.getT("t.closed."+c.key) != nil {
			return
		}
	}
	k.bad(st, ev, "cancel", "a cancel does not release those who wait")
}

func globalIs(t *Term, name string) bool {
	return t.k == TSym && t.named && strings.HasPrefix(t.label, "global ") && strings.HasSuffix(t.label, "."+name)
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func (k *mrCheck) chans() []*mrChan {
	var keys []string
	for n := range k.ch {
		keys = append(keys, n)
	}
	sort.Strings(keys)
	var out []*mrChan
	for _, n := range keys {
		out = append(out, k.ch[n])
	}
	return out
}

// drains: those who write to a channel must not wait for ever. Some reader
// reads it to its end, or to a signal that every writer watches, on every exit.
func (k *mrCheck) drains(st *State, ev *Ev, thr string) {
	for _, c := range k.chans() {
		if len(c.sends)+len(c.cb) == 0 || k.slot[c.key] || k.pans[c.key] || !c.recvs[thr] {
			continue
		}
		if thr == "" && st.getT("made."+c.key) == nil {
			continue
		}
		if k.drainT[c.key] == nil {
			k.drainT[c.key] = map[string]bool{}
			k.drainV[c.key] = map[string]func(){}
		}
		k.drainT[c.key][thr] = true
		ok := k.drained(st, c.key)
		for a := range c.alts {
			if a != "ctx" && (st.getT("t.rv."+a) != nil || st.getT("t.closed."+a) != nil) {
				ok = true
			}
		}
		k.ob(ev, "drain")
		if !ok && k.drainV[c.key][thr] == nil {
			s, e := st.clone(), *ev
			k.drainV[c.key][thr] = func() {
				k.bad(s, &e, "drain", "the last reader of a channel leaves while others may still write to it: they wait for ever")
			}
		}
	}
}

func (k *mrCheck) result(st *State, ev *Ev) {
	T := st.x.T
	if g := st.getT("t.gotp"); g != nil {
		k.ob(ev, "panic")
		if !ev.Panics || unbox(st.resolve(ev.Val)) != unbox(st.resolve(g)) {
			if !ev.Panics {
				k.bad(st, ev, "panic", "the call returns although a panic of the caller's function was handed to it")
			} else {
				k.bad(st, ev, "panic", "the call panics with another value than the caller's function")
			}
		}
		return
	}
	if ev.Panics {
		return
	}
	made := false
	for _, c := range k.chans() {
		if k.pans[c.key] && st.getT("made."+c.key) != nil {
			made = true
		}
	}
	if !made {
		// returns before anything was started
		if len(ev.Res) == 0 || st.isNilT(ev.Res[len(ev.Res)-1]) {
			n := T.op("len", types.Typ[types.Int], k.ps[0])
			if !(len(k.ps) == 1 && st.proveLE(n, T.Int(0))) {
				k.bad(st, ev, "result", "returns without having done anything")
			}
		}
		return
	}
	var e, v *Term
	if n := len(ev.Res); n > 0 {
		e = st.resolve(ev.Res[n-1])
		if n > 1 {
			v = st.resolve(ev.Res[0])
		}
	}
	ld := st.getT("t.load")
	nilT := func(t *Term) bool { return t != nil && (st.isNilT(t) || st.knownEq(t, T.Nil())) }
	nonNil := func(t *Term) bool { return t != nil && st.notNil(st.resolve(t)) }
	if e == nil || nilT(e) || globalIs(e, "ErrReduceNoOutput") || !nonNil(e) && !(ld != nil && st.resolve(ld) == e) {
		k.ob(ev, "panic")
		if st.getT("t.polled") == nil {
			k.bad(st, ev, "panic", "the call can return normally although a function of the caller panicked: nobody looks after the work has ended")
		}
	}
	if e == nil {
		k.ob(ev, "result")
		if !k.sawEnd(st) {
			k.bad(st, ev, "result", "the call returns before all items have been handled")
		}
		return
	}
	k.ob(ev, "result")
	if k.sets == 0 {
		k.undecided("how a cancel records its error is not recognised")
		return
	}
	var got, ok *Term
	outK := ""
	if o := st.getT("t.val"); o != nil {
		got, ok = st.resolve(o.args[0]), st.resolve(o.args[1])
		outK, _ = o.args[2].strVal()
	}
	okV, okKnown := false, false
	if ok != nil {
		okV, okKnown = st.truth(ok)
	}
	ctxDone := st.getT("t.rv.ctx") != nil
	recorded := ld != nil && nonNil(ld)
	end := outK != "" && okKnown && !okV
	// the recorded error may be ErrReduceNoOutput itself
	sameAsNone := false
	if is := st.getT("is"); is != nil && v == nil && ld != nil && st.resolve(is.args[0]) == st.resolve(ld) {
		b, known := st.truth(st.resolve(is.args[2]))
		sameAsNone = known && b && globalIs(st.resolve(is.args[1]), "ErrReduceNoOutput")
	}
	switch {
	case nilT(e) && sameAsNone:
		return
	case nilT(e):
		if ld == nil || !nilT(st.resolve(ld)) {
			k.bad(st, ev, "result", "succeeds without a look at whether the call was cancelled")
		}
		switch {
		case v != nil && !(okKnown && okV && v == got):
			k.bad(st, ev, "result", "succeeds with a value that is not the reducer's")
		case v == nil && !(outK != "" && okKnown):
			k.bad(st, ev, "result", "succeeds before the reducer has ended")
		}
	case globalIs(e, "DeadlineExceeded"):
		if !ctxDone {
			k.bad(st, ev, "result", "reports DeadlineExceeded although the context is not done")
		}
	case globalIs(e, "ErrReduceNoOutput"):
		if v == nil {
			k.bad(st, ev, "result", "no output is not an error of this call")
		}
		if !end || ld == nil || !nilT(st.resolve(ld)) {
			k.bad(st, ev, "result", "reports that there was no output although there was, or the call was cancelled")
		}
	case ld != nil && e == st.resolve(ld):
	default:
		if recorded && !ctxDone {
			k.bad(st, ev, "result", "the call was cancelled and returns another error than the recorded one")
		} else {
			k.undecided("an error of unknown origin is returned")
		}
	}
	if recorded && !ctxDone && e != st.resolve(ld) {
		k.bad(st, ev, "result", "the call was cancelled and the recorded error is not returned")
	}
}

// ---- options

// options finds the field that holds the number of workers and checks what
// the With functions store.
func (k *mrCheck) options() {
	c := k.c
	for _, n := range []string{"WithWorkers", "WithContext"} {
		f := c.Fn(mrPkg, n)
		if f == nil {
			continue
		}
		k.name = n
		ran := false
		var arg *Term
		cfg := &Config{Event: func(st *State, ev *Ev) {
			switch ev.Kind {
			case "exit":
				if st.getS("thr") != "option" {
					r := st.resolve(ev.Res[0])
					if r.k != TClosure && r.k != TFunc || r.fn.Blocks == nil {
						c.Undecided(n, "the option is not a function literal")
						return
					}
					ch := st.clone()
					ch.frames = nil
					ch.setS("thr", "option")
					fn := r.fn
					if o := fn.Origin(); o != nil {
						fn = o
					}
					p := st.x.T.sym("opts", fn.Signature.Params().At(0).Type())
					p.nonnil = true
					ch.setT("opts", p)
					var b []*Term
					if r.k == TClosure {
						b = r.args
					}
					st.x.pushFrame(ch, fn, []*Term{p}, b, retInfo{mode: mRoot})
					st.x.work = append(st.x.work, ch)
					return
				}
				ran = true
				k.pass = 2
				k.ob(ev, "option")
				o := st.getT("opts")
				for a, v := range st.heap {
					if a.k != TFA || a.args[0] != o {
						continue
					}
					v = st.resolve(v)
					if n == "WithWorkers" && isInt(v.typ) {
						k.workF = a.fld.Origin()
						if !st.proveLE(st.x.T.Int(1), v) {
							k.bad(st, ev, "option", "fewer than one worker can be chosen: nothing would ever run")
						}
						if !same(st, v, arg) && !(st.proveLE(arg, v) && st.proveLE(v, st.x.T.Int(1))) {
							k.bad(st, ev, "option", "the number of workers is not the one asked for")
						}
						st.setT("stored", v)
					}
					if n == "WithContext" && namedIs(a.fld.Type(), "context", "Context") {
						if v != arg {
							k.bad(st, ev, "option", "the context is not the one given")
						}
						st.setT("stored", v)
					}
				}
				if st.getT("stored") == nil {
					k.bad(st, ev, "option", "the option stores nothing")
				}
			}
		}}
		c.Run(f, cfg, func(st *State, ps []*Term) {
			arg = ps[0]
			st.setT("arg", arg)
		})
		if !ran {
			c.Undecided(n, "the option was not analysed")
		}
	}
}

func (k *mrCheck) entry(n string) {
	c := k.c
	f := c.Fn(mrPkg, n)
	if f == nil {
		return
	}
	k.name = n
	k.keys, k.ch, k.role = map[*Term]string{}, map[string]*mrChan{}, map[string]map[string]bool{}
	k.parent, k.slot, k.pans = map[string]string{}, map[string]bool{}, map[string]bool{}
	k.flags, k.casC, k.outK, k.wrK = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]map[string]bool{}
	k.drainV, k.drainT = map[string]map[string]func(){}, map[string]map[string]bool{}
	k.wg, k.sets = false, 0
	k.waits = map[string][]*mrChan{}
	for k.pass = 1; k.pass <= 2; k.pass++ {
		c.Run(f, &Config{CallbackPanics: true, KeepInLoops: true, Event: k.event, Keep: k.keep, Model: k.model, Go: k.goStmt, OnFresh: func(st *State, a, s *Term) {
			if a.k == TFA && k.workF != nil && a.fld.Origin() == k.workF {
				st.addLin(st.linOf(s).addk(-1))
			}
		}}, func(st *State, ps []*Term) {
			k.ps = ps
			st.setT("#opt", st.x.T.Int(0))
			if n == "Finish" || n == "FinishVoid" {
				st.setT("#sent", st.x.T.Int(0))
			}
		})
		if k.pass == 1 {
			k.facts()
		}
	}
	k.pass = 2
	k.global()
}

func (k *mrCheck) facts() {
	for _, c := range k.chans() {
		for t, r := range k.role {
			if r["map"] && pseudo(t) == "" && c.recvs[t] && c.sends[k.parent[t]] {
				k.slot[c.key] = true
			}
		}
	}
	for t, m := range k.wrK {
		if k.role[t]["red"] {
			for c := range m {
				k.outK[c] = true
			}
		}
	}
	// without a writer: a channel that the call waits for and one goroutine closes
	if len(k.outK) == 0 {
		for _, c := range k.chans() {
			for t := range c.closes {
				if t != "" && pseudo(t) == "" && !k.role[t]["map"] && len(c.closes) == 1 && c.recvs[""] && !k.itemSource(c) {
					k.outK[c.key] = true
				}
			}
		}
	}
	if dbg {
		for _, c := range k.chans() {
			fmt.Println(k.name, "chan", c.key, "size", c.size, "sends", c.sends, "recvs", c.recvs, "closes", c.closes, "cb", c.cb, c.cbrv, "alts", c.alts, c.guarded, "slot", k.slot[c.key], "pan", k.pans[c.key], "out", k.outK[c.key])
		}
		fmt.Println("roles", k.role, "parents", k.parent, "flags", k.flags, "cas", k.casC)
	}
}

func (k *mrCheck) global() {
	k.selects()
	ev := &Ev{Fn: k.c.Fn(mrPkg, k.name)}
	for _, c := range k.chans() {
		ev.Pos = c.pos
		if strings.HasPrefix(c.key, "param ") || c.key == "ctx" {
			continue
		}
		// somebody waits for its end
		if c.plain && len(c.closes) == 0 && !k.slot[c.key] && !k.pans[c.key] {
			k.bad(nil, ev, "closed", "a channel that is read until it is closed is never closed: its readers wait for ever")
		}
		if len(c.sends)+len(c.cb) > 0 && !k.slot[c.key] && !k.pans[c.key] {
			ok := false
			for t := range k.drainT[c.key] {
				if k.drainV[c.key][t] == nil {
					ok = true
				}
			}
			if !ok {
				if len(k.drainV[c.key]) == 0 {
					k.bad(nil, ev, "drain", "nobody reads what is written to this channel")
				}
				for _, f := range k.drainV[c.key] {
					f()
				}
			}
		}
	}
}

// selects: one of the channels that a select waits for is closed in the end
func (k *mrCheck) selects() {
	for _, cs := range k.waits {
		ok := false
		var last *mrChan
		for _, c := range cs {
			if c == nil {
				continue
			}
			last = c
			if len(c.closes) > 0 || k.slot[c.key] {
				ok = true
			}
		}
		if !ok && last != nil {
			k.bad(nil, &Ev{Fn: k.c.Fn(mrPkg, k.name), Pos: last.pos}, "closed", "nothing that a select waits for is certain to happen")
		}
	}
}

var mrEntries = []string{"ForEach", "MapReduce", "MapReduceChan", "MapReduceVoid", "Finish", "FinishVoid"}

func mrProp(id string, rules map[string]string, min map[string]int, expl string) {
	register(&Property{ID: id, Expl: expl, Run: func(c *Ctx) {
		k := &mrCheck{c: c, on: map[string]bool{}, consts: map[*types.Var]bool{}}
		for n, t := range rules {
			k.on[n] = true
			c.rules[n] = t
		}
		k.options()
		for _, n := range mrEntries {
			k.entry(n)
		}
		for n, m := range min {
			c.Min(n, m)
		}
	}})
}

func init() {
	mrProp("C20", map[string]string{
		"panic": "no panic leaves a goroutine; a recovered panic is handed over before the goroutine reports its end; the waiting call re-panics with exactly that value and looks for one after the work has ended",
		"run":   "the caller's functions run in goroutines of their own",
		"stop":  "no mapper is started without a look at whether one panicked, the call was cancelled or its context is done",
	}, map[string]int{"panic": 40, "run": 10, "stop": 6}, "Every goroutine is analysed as a thread of its own, with the caller's functions returning or panicking.")
	mrProp("C21", map[string]string{
		"bound":  "a mapper starts only with a slot that it gives back after it has run; there are as many slots as workers",
		"slots":  "a slot is given back exactly once",
		"items":  "every item received goes to exactly one mapper run",
		"all":    "Finish and FinishVoid hand over every function, all of them at once",
		"option": "WithWorkers stores the number given, at least 1; all options are applied, in their order",
	}, map[string]int{"bound": 6, "slots": 6, "items": 6, "all": 4, "option": 2}, "")
	mrProp("C22", map[string]string{
		"close":  "a channel is closed once, by the goroutine that writes to it or after all who do have ended",
		"closed": "every goroutine closes, on every exit, the channels that others wait for",
		"drain":  "some reader of every channel reads to its end, or to a signal all writers watch, on every exit",
		"block":  "handing over a panic never waits",
		"slots":  "a slot is given back exactly once",
	}, map[string]int{"close": 10, "closed": 10, "drain": 10, "slots": 6}, "")
	mrProp("C23", map[string]string{
		"result": "what is returned is the reducer's value, the recorded error, DeadlineExceeded or ErrReduceNoOutput, each exactly in its case",
		"cancel": "a cancel records its error, or ErrCancelWithNil, before it releases those who wait",
		"writer": "what is written is passed on exactly once, mappers to reducer to result",
		"option": "WithContext stores the context given; all options are applied, in their order",
	}, map[string]int{"result": 8, "cancel": 4, "writer": 4, "option": 2}, "")
}
