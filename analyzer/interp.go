package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ev is what the checks are told about while a function is interpreted.
type Ev struct {
	Kind   string // load store lookup mapset mapdel call enter leave send recv close select go panic index slice exit callback branch
	Fn     *ssa.Function
	Instr  ssa.Instruction
	Pos    token.Pos
	Callee string
	Addr   *Term
	Val    *Term
	Args   []*Term
	Res    []*Term
	Idx    int
	Panics bool
	Detail string
}

type Out struct {
	Res    []*Term
	Assume []cval
	Do     func(st *State)
	Panic  *Term
}
type cval struct {
	c *Term
	v bool
}

type Config struct {
	// Model may give the outcomes of a call instead of the default treatment.
	Model func(st *State, c *Call) ([]Out, bool)
	Event func(st *State, ev *Ev)
	// OnFresh is told about a symbol made for a read of unknown memory.
	OnFresh func(st *State, addr, sym *Term)
	// Fork may name a condition that has to be decided before memory at addr is
	// read or written, or (addr nil) before the head of a loop is reached.
	Fork func(st *State, addr *Term) *Term
	// NoInline names repository functions that are treated as opaque.
	NoInline func(f *ssa.Function) bool
	// CallbackPanics: function values of unknown origin may panic.
	CallbackPanics bool
	// Go is told about a spawned goroutine; the child is analysed if it returns true.
	Go func(parent, child *State, ev *Ev) bool
	// KeepOnCall: cells that unknown calls and lock operations leave alone.
	Keep func(st *State, addr *Term) bool
	// KeepInLoops: loops do not forget what Keep keeps
	KeepInLoops bool
	// NoTemplates: the check itself says which relations a loop may keep
	NoTemplates bool
	// ForkAt: Fork is also asked at reads of the bytes of strings
	ForkAt bool
	// KeepConst: integers that no loop counts up or down stay constants
	KeepConst bool
	// EqTemplates: only equations between ghosts and what the loop counts
	EqTemplates bool
	// SplitBools: truth values kept by a loop are told apart
	SplitBools bool
	MaxSteps   int
	MaxDepth   int
	// Cut ends a path at a panic instruction of the library's own argument checks
	Bounds bool // report index/slice events
}

type Call struct {
	Instr  ssa.Instruction
	Common *ssa.CallCommon
	Callee string
	Static *ssa.Function
	FnT    *Term
	Args   []*Term
	ret    retInfo
	Fn     *ssa.Function // caller
}

func (c *Call) ResTypes() []types.Type {
	r := c.Common.Signature().Results()
	var out []types.Type
	for i := 0; i < r.Len(); i++ {
		out = append(out, r.At(i).Type())
	}
	return out
}

type Exec struct {
	begun   time.Time
	T       *Terms
	P       *Program
	cfg     *Config
	work    []*State
	seen    map[string]bool
	widen   map[string][]cLin
	nvis    map[string]int
	States  int
	Steps   int
	Exits   int
	Fns     map[string]bool
	Calls   int
	Over    bool
	Err     string
	gconst  map[*ssa.Global]bool
	live    map[*ssa.Function]*liveness
	root    *ssa.Function
	curExit *State
}

type cLin struct {
	c map[string]int64
	k int64
	w int64 // by how much it was weakened
}

func newExec(p *Program, cfg *Config) *Exec {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 4000000
	}
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 14
	}
	return &Exec{T: newTerms(), P: p, cfg: cfg, seen: map[string]bool{}, widen: map[string][]cLin{}, nvis: map[string]int{},
		Fns: map[string]bool{}, gconst: map[*ssa.Global]bool{}, live: map[*ssa.Function]*liveness{}}
}

func (x *Exec) newState() *State {
	return &State{x: x, heap: map[*Term]*Term{}, rel: map[[2]*Term]uint8{}, cond: map[*Term]bool{}, mon: map[string]*Term{},
		esc: map[*Term]bool{}, taint: map[*Term]string{}, sub: map[*Term]*Term{}}
}

// Run interprets f from a state in which nothing is known about its parameters.
func (x *Exec) Run(f *ssa.Function, init func(st *State, params []*Term)) {
	x.root = f
	st := x.newState()
	var params []*Term
	for _, p := range f.Params {
		params = append(params, x.T.root(p.Name(), p.Type()))
	}
	for _, t := range params {
		if isInt(t.typ) {
			st.atomFacts(t)
		}
	}
	if init != nil {
		init(st, params)
		for i := range params {
			params[i] = st.resolve(params[i])
		}
	}
	x.Start(st, f, params, nil)
}

func (x *Exec) Start(st *State, f *ssa.Function, params []*Term, bindings []*Term) {
	st.frames = nil
	x.pushFrame(st, f, params, bindings, retInfo{mode: mRoot})
	x.work = append(x.work, st)
	x.loop()
}

// No check may run for ever: what is not analysed in time is undecided.
var (
	processStart         = time.Now()
	entryTime, totalTime = 150 * time.Second, 700 * time.Second
)

func (x *Exec) loop() {
	if x.begun.IsZero() {
		x.begun = time.Now()
	}
	for len(x.work) > 0 {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.States++
		for !st.dead && len(st.frames) > 0 {
			x.Steps++
			if x.Steps > x.cfg.MaxSteps || x.Steps%64 == 0 && (time.Since(x.begun) > entryTime || time.Since(processStart) > totalTime) {
				x.Over = true
				return
			}
			x.step(st)
		}
	}
}

func (x *Exec) pushFrame(st *State, f *ssa.Function, args, bindings []*Term, ret retInfo) {
	if o := f.Origin(); o != nil && (f.Blocks == nil || o != f) && o.Blocks != nil {
		f = o
	}
	x.Fns[fname(f)] = true
	fr := &Frame{fn: f, env: map[ssa.Value]*Term{}, blk: f.Blocks[0], ret: ret}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = x.T.sym(p.Name(), p.Type())
		}
	}
	for i, v := range f.FreeVars {
		if i < len(bindings) {
			fr.env[v] = bindings[i]
		} else {
			fr.env[v] = x.T.sym(v.Name(), v.Type())
		}
	}
	st.frames = append(st.frames, fr)
	x.event(st, &Ev{Kind: "enter", Fn: f, Args: args, Pos: f.Pos(), Callee: fname(f)})
}

func (x *Exec) event(st *State, ev *Ev) {
	if x.cfg.Event != nil && !st.dead {
		if ev.Fn == nil && len(st.frames) > 0 {
			ev.Fn = st.top().fn
		}
		if ev.Instr != nil && !ev.Pos.IsValid() {
			ev.Pos = instrPos(ev.Instr)
		}
		x.cfg.Event(st, ev)
	}
}

func instrPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	if v, ok := i.(ssa.Value); ok {
		for _, o := range i.Operands(nil) {
			if *o != nil && (*o).Pos().IsValid() {
				return (*o).Pos()
			}
		}
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					return r.Pos()
				}
			}
		}
	}
	// nearest position in the block
	b := i.Block()
	if b != nil {
		idx := -1
		for j, in := range b.Instrs {
			if in == i {
				idx = j
			}
		}
		for d := 1; d < len(b.Instrs); d++ {
			if idx-d >= 0 && b.Instrs[idx-d].Pos().IsValid() {
				return b.Instrs[idx-d].Pos()
			}
			if idx+d < len(b.Instrs) && b.Instrs[idx+d].Pos().IsValid() {
				return b.Instrs[idx+d].Pos()
			}
		}
	}
	if i.Parent() != nil {
		return i.Parent().Pos()
	}
	return token.NoPos
}

func (x *Exec) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return x.T.zero(v.Type())
		}
		return x.T.constant(v.Value, v.Type())
	case *ssa.Global:
		return x.T.global(v)
	case *ssa.Function:
		return x.T.function(v)
	case *ssa.Builtin:
		return x.T.op("builtin:"+v.Name(), v.Type())
	}
	if t, ok := st.top().env[v]; ok {
		return t
	}
	// only for values whose definition was not executed
	t := x.T.sym("undef:"+v.Name(), v.Type())
	st.top().env[v] = t
	return t
}

// globalConst: the package variable is never written outside package initialisation
func (x *Exec) globalConst(g *ssa.Global) bool {
	if v, ok := x.gconst[g]; ok {
		return v
	}
	ok := true
	for _, f := range x.P.Fns {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, is := in.(*ssa.Store); is && s.Addr == ssa.Value(g) {
					ok = false
				}
			}
		}
	}
	x.gconst[g] = ok
	return ok
}

// errorVar: the package variable holds an error made when the package was initialised
func (x *Exec) errorVar(g *ssa.Global) bool {
	if pt := pointee(g.Type()); pt == nil || pt.String() != "error" {
		return false
	}
	init := g.Pkg.Func("init")
	if init == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/") {
		return true // error variables of the standard library
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(g) {
				continue
			}
			v := s.Val
			if m, ok := v.(*ssa.MakeInterface); ok {
				v = m.X
			}
			switch v := v.(type) {
			case *ssa.Call:
				if f := v.Call.StaticCallee(); f != nil && (fname(f) == "errors.New" || fname(f) == "fmt.Errorf") {
					return true
				}
			case *ssa.Alloc:
				return true
			}
		}
	}
	return false
}

func (x *Exec) step(st *State) {
	f := st.top()
	if f.unwinding {
		x.unwind(st)
		return
	}
	if f.pc >= len(f.blk.Instrs) {
		st.dead = true
		return
	}
	in := f.blk.Instrs[f.pc]
	T := x.T
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Phi:
		// handled on block entry; reached only in the entry state of a block
		f.pc++
	case *ssa.Alloc:
		t := T.sym(allocLabel(in), in.Type())
		t.alloc, t.nonnil, t.instr = true, true, in
		f.env[in] = t
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if _, isArr := et.Underlying().(*types.Array); !isArr {
			if s := coreStruct(et); s == nil || expandable(et) {
				st.storeInit(t, T.zero(et), et)
			}
		}
		x.event(st, &Ev{Kind: "alloc", Instr: in, Val: t})
		f.pc++
	case *ssa.BinOp:
		if x.cfg.CallbackPanics && (in.Op == token.EQL || in.Op == token.NEQ) {
			x.comparePanics(st, in)
		}
		f.env[in] = x.binop(st, in.Op, x.val(st, in.X), x.val(st, in.Y), in.Type(), in)
		f.pc++
	case *ssa.UnOp:
		x.unop(st, in)
	case *ssa.ChangeType:
		f.env[in] = x.val(st, in.X)
		f.pc++
	case *ssa.ChangeInterface:
		f.env[in] = x.val(st, in.X)
		f.pc++
	case *ssa.Convert:
		f.env[in] = x.convert(st, x.val(st, in.X), in.X.Type(), in.Type(), in)
		f.pc++
	case *ssa.MultiConvert:
		f.env[in] = T.op("conv:"+typeKey(in.Type()), in.Type(), x.val(st, in.X))
		f.pc++
	case *ssa.SliceToArrayPointer:
		f.env[in] = x.val(st, in.X)
		f.pc++
	case *ssa.MakeInterface:
		v := x.val(st, in.X)
		t := T.op("iface", in.X.Type(), v)
		f.env[in] = t
		f.pc++
	case *ssa.MakeClosure:
		var b []*Term
		for _, y := range in.Bindings {
			b = append(b, x.val(st, y))
		}
		f.env[in] = T.closure(in.Fn.(*ssa.Function), b)
		f.pc++
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		v := in.(ssa.Value)
		label := "make"
		var prov []*Term
		switch m := in.(type) {
		case *ssa.MakeMap:
			label = "map"
		case *ssa.MakeChan:
			label = "chan"
			prov = []*Term{x.val(st, m.Size)}
		case *ssa.MakeSlice:
			label = "slice"
			prov = []*Term{x.val(st, m.Len), x.val(st, m.Cap)}
		}
		t := T.sym(label, v.Type())
		t.alloc, t.nonnil, t.instr, t.prov = true, true, in, prov
		f.env[v] = t
		if m, ok := in.(*ssa.MakeSlice); ok {
			l := st.linOf(T.op("len", types.Typ[types.Int], t)).add(st.linOf(x.val(st, m.Len)), -1)
			st.addLin(l)
			st.addLin(l.scale(-1))
		}
		x.event(st, &Ev{Kind: "make", Instr: in, Val: t, Args: prov, Detail: label})
		f.pc++
	case *ssa.FieldAddr:
		base := x.val(st, in.X)
		fl := fieldOf(in.X.Type(), in.Field)
		f.env[in] = T.fa(base, fl, in.Type())
		x.event(st, &Ev{Kind: "deref", Instr: in, Addr: base})
		f.pc++
	case *ssa.Field:
		f.env[in] = T.field(x.val(st, in.X), in.Field, in.Type())
		f.pc++
	case *ssa.IndexAddr:
		base, idx := x.val(st, in.X), x.val(st, in.Index)
		x.event(st, &Ev{Kind: "index", Instr: in, Addr: base, Val: idx, Args: []*Term{T.op("len", types.Typ[types.Int], base)}})
		f.env[in] = x.elemAddr(st, base, idx, in.Type())
		x.boundsHold(st, idx, base)
		f.pc++
	case *ssa.Index:
		base, idx := x.val(st, in.X), x.val(st, in.Index)
		if x.cfg.ForkAt && x.forked(st, x.indexVal(st, base, idx, in.Type())) {
			return
		}
		x.event(st, &Ev{Kind: "index", Instr: in, Addr: base, Val: idx, Args: []*Term{T.op("len", types.Typ[types.Int], base)}})
		f.env[in] = st.resolve(x.indexVal(st, base, idx, in.Type()))
		x.boundsHold(st, idx, base)
		f.pc++
	case *ssa.Slice:
		x.slice(st, in)
	case *ssa.Store:
		addr, v := x.val(st, in.Addr), x.val(st, in.Val)
		if x.forked(st, addr) {
			return
		}
		x.event(st, &Ev{Kind: "store", Instr: in, Addr: addr, Val: v})
		if v.typ == nil && !v.isNil() {
			// keep the static type for struct expansion
		}
		st.storeTyped(addr, v, in.Val.Type())
		x.event(st, &Ev{Kind: "stored", Instr: in, Addr: addr, Val: v})
		f.pc++
	case *ssa.MapUpdate:
		m, k, v := x.val(st, in.Map), x.val(st, in.Key), x.val(st, in.Value)
		x.event(st, &Ev{Kind: "mapset", Instr: in, Addr: m, Args: []*Term{m, k, v}, Val: v})
		st.store(T.has(m, k), T.Bool(true))
		st.storeMapVal(m, k, v)
		f.pc++
	case *ssa.Lookup:
		x.lookup(st, in)
	case *ssa.Extract:
		t := x.val(st, in.Tuple)
		if t.k == TTuple && in.Index < len(t.args) {
			f.env[in] = t.args[in.Index]
		} else {
			f.env[in] = T.op(fmt.Sprintf("extract%d", in.Index), in.Type(), t)
		}
		f.pc++
	case *ssa.TypeAssert:
		x.typeAssert(st, in)
	case *ssa.Range:
		t := T.sym("iter", in.Type())
		t.instr, t.prov = in, []*Term{x.val(st, in.X)}
		f.env[in] = t
		st.setT(fmt.Sprintf("~iter%d", t.id), x.val(st, in.X))
		f.pc++
	case *ssa.Next:
		x.next(st, in)
	case *ssa.Call:
		x.call(st, &in.Call, in, retInfo{mode: mCall, instr: in})
	case *ssa.Go:
		x.goStmt(st, in)
	case *ssa.Defer:
		fnT, args := x.operands(st, &in.Call)
		f.defers = append(f.defers, deferred{in, fnT, args})
		x.event(st, &Ev{Kind: "defer", Instr: in, Args: args, Callee: x.calleeName(&in.Call, fnT)})
		f.pc++
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		x.callWith(st, &d.instr.Call, d.instr, d.fnT, d.args, retInfo{mode: mDefer})
	case *ssa.Send:
		x.event(st, &Ev{Kind: "send", Instr: in, Addr: x.val(st, in.Chan), Val: x.val(st, in.X)})
		st.escape(x.val(st, in.X))
		st.dropShared(x.cfg.Keep)
		f.pc++
	case *ssa.Select:
		x.sel(st, in)
	case *ssa.Panic:
		v := x.val(st, in.X)
		x.event(st, &Ev{Kind: "panic", Instr: in, Val: v})
		if !st.dead {
			x.startPanic(st, v)
		}
	case *ssa.Return:
		var res []*Term
		for _, r := range in.Results {
			res = append(res, x.val(st, r))
		}
		x.ret(st, res, in)
	case *ssa.If:
		c := x.val(st, in.Cond)
		x.event(st, &Ev{Kind: "cond", Instr: in, Val: c})
		if v, known := st.truth(c); known {
			x.event(st, &Ev{Kind: "branch", Instr: in, Val: c, Detail: fmt.Sprint(v)})
			if st.dead {
				return
			}
			if v {
				x.jump(st, f.blk.Succs[0])
			} else {
				x.jump(st, f.blk.Succs[1])
			}
			return
		}
		o := st.clone()
		pos := instrPos(in)
		if o.assume(c, false) {
			o.note(pos, "not %s", condStr(in.Cond))
			x.event(o, &Ev{Kind: "branch", Instr: in, Val: c, Detail: "false"})
			if !o.dead {
				x.jump(o, o.top().blk.Succs[1])
			}
			if !o.dead {
				x.work = append(x.work, o)
			}
		}
		if st.assume(c, true) {
			st.note(pos, "%s", condStr(in.Cond))
			x.event(st, &Ev{Kind: "branch", Instr: in, Val: c, Detail: "true"})
			if !st.dead {
				x.jump(st, f.blk.Succs[0])
			}
		}
	case *ssa.Jump:
		x.jump(st, f.blk.Succs[0])
	default:
		x.Err = fmt.Sprintf("unhandled instruction %T in %s", in, fname(f.fn))
		st.dead = true
	}
}

func condStr(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.BinOp:
		return opnd(v.X) + " " + v.Op.String() + " " + opnd(v.Y)
	case *ssa.UnOp:
		return v.Op.String() + opnd(v.X)
	}
	return opnd(v)
}

func opnd(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Name()
	case *ssa.Call:
		return v.Call.Value.Name() + "(...)"
	case *ssa.Extract:
		return opnd(v.Tuple) + fmt.Sprintf("#%d", v.Index)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return opnd(v.X)
		}
		return v.Op.String() + opnd(v.X)
	case *ssa.FieldAddr:
		fl := fieldOf(v.X.Type(), v.Field)
		if fl != nil {
			return opnd(v.X) + "." + fl.Name()
		}
	case *ssa.Lookup:
		return opnd(v.X) + "[" + opnd(v.Index) + "]"
	case *ssa.Phi:
		if v.Comment != "" {
			return v.Comment
		}
	case *ssa.Alloc:
		if v.Comment != "" {
			return v.Comment
		}
	case *ssa.Convert:
		return opnd(v.X)
	case *ssa.MakeInterface:
		return opnd(v.X)
	}
	return v.Name()
}

func allocLabel(a *ssa.Alloc) string {
	if a.Comment != "" {
		return a.Comment
	}
	return "new"
}

func (st *State) storeTyped(addr, v *Term, typ types.Type) {
	if expandable(typ) {
		T := st.x.T
		s := coreStruct(typ)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			st.storeTyped(T.fa(addr, f.Origin(), types.NewPointer(f.Type())), T.field(v, i, f.Type()), f.Type())
		}
		return
	}
	st.store(addr, v)
}

func (st *State) storeInit(addr, v *Term, typ types.Type) {
	if expandable(typ) {
		T := st.x.T
		s := coreStruct(typ)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if _, isArr := f.Type().Underlying().(*types.Array); isArr {
				continue
			}
			if cs := coreStruct(f.Type()); cs != nil && !expandable(f.Type()) {
				continue
			}
			st.storeInit(T.fa(addr, f.Origin(), types.NewPointer(f.Type())), T.field(v, i, f.Type()), f.Type())
		}
		return
	}
	st.heap[addr] = v
}

func (st *State) storeMapVal(m, k, v *Term) {
	st.store(st.x.T.me(m, k), wrapStruct(v))
}

// wrapStruct keeps struct values whole inside map entries
func wrapStruct(v *Term) *Term {
	return v
}

func (x *Exec) elemAddr(st *State, base, idx *Term, typ types.Type) *Term {
	T := x.T
	// &s[lo:][i] is &s[lo+i]
	for base.k == TOp && base.op == "slice" {
		lo := base.args[1]
		if v, ok := lo.intVal(); ok && v == 0 {
			base = base.args[0]
			continue
		}
		if lo.isNil() {
			base = base.args[0]
			continue
		}
		idx = x.arith(st, "+", lo, idx, types.Typ[types.Int])
		base = base.args[0]
	}
	return T.ia(base, idx, typ)
}

func (x *Exec) indexVal(st *State, base, idx *Term, typ types.Type) *Term {
	T := x.T
	if s, ok := base.strVal(); ok {
		if i, ok := idx.intVal(); ok && i >= 0 && int(i) < len(s) {
			return T.Int(int64(s[i]))
		}
	}
	for base.k == TOp && base.op == "slice" {
		lo := base.args[1]
		idx = x.arith(st, "+", lo, idx, types.Typ[types.Int])
		base = base.args[0]
	}
	t := T.op("at", typ, base, idx)
	if isInt(typ) {
		st.atomFacts(t)
	}
	return t
}

// boundsHold: past an index expression the index was in range
func (x *Exec) boundsHold(st *State, idx, base *Term) {
	if !x.cfg.Bounds {
		return
	}
	l := st.linOf(idx)
	st.addLin(l)
	st.addLin(st.linOf(x.T.op("len", types.Typ[types.Int], base)).add(l, -1).addk(-1))
}

func (x *Exec) slice(st *State, in *ssa.Slice) {
	f := st.top()
	T := x.T
	base := x.val(st, in.X)
	lo, hi, mx := T.Int(0), T.Nil(), T.Nil()
	if in.Low != nil {
		lo = x.val(st, in.Low)
	}
	if in.High != nil {
		hi = x.val(st, in.High)
	}
	if in.Max != nil {
		mx = x.val(st, in.Max)
	}
	x.event(st, &Ev{Kind: "slice", Instr: in, Addr: base, Args: []*Term{lo, hi, mx}})
	if v, ok := lo.intVal(); ok && v == 0 && hi.isNil() && mx.isNil() && arrPtr(in.X.Type()) == nil {
		f.env[in] = base // s[:] is s
		f.pc++
		return
	}
	if s, ok := base.strVal(); ok {
		a, ok1 := lo.intVal()
		b, ok2 := hi.intVal()
		if hi.isNil() {
			b, ok2 = int64(len(s)), true
		}
		if ok1 && ok2 && a >= 0 && a <= b && b <= int64(len(s)) {
			f.env[in] = T.Str(s[a:b])
			f.pc++
			return
		}
	}
	args := []*Term{base, lo, hi}
	if !mx.isNil() {
		args = append(args, mx)
	}
	r := T.op("slice", in.Type(), args...)
	f.env[in] = r
	if x.cfg.Bounds {
		st.addLin(st.linOf(lo))
		st.addLin(st.linOf(T.op("len", types.Typ[types.Int], r)))
	}
	x.event(st, &Ev{Kind: "sliced", Instr: in, Addr: base, Val: r, Args: []*Term{lo, hi, mx}})
	f.pc++
}

func arrPtr(t types.Type) *types.Array {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return a
		}
	}
	return nil
}

func (x *Exec) arith(st *State, op string, a, b *Term, typ types.Type) *Term {
	T := x.T
	av, aok := a.intVal()
	bv, bok := b.intVal()
	if aok && bok {
		switch op {
		case "+":
			return T.Int(av + bv)
		case "-":
			return T.Int(av - bv)
		case "*":
			return T.Int(av * bv)
		}
	}
	if op == "+" {
		if aok && av == 0 {
			return b
		}
		if bok && bv == 0 {
			return a
		}
	}
	if op == "-" && bok && bv == 0 {
		return a
	}
	if op == "*" && bok && bv == 1 {
		return a
	}
	// x-y+y and the like: a linear form that is a single atom or a constant
	r := T.op(op, typ, a, b)
	l := st.linOf(r)
	if len(l.c) == 0 {
		return T.Int(l.k)
	}
	if len(l.c) == 1 && l.k == 0 {
		for t, c := range l.c {
			if c == 1 {
				return t
			}
		}
	}
	return r
}

// canonInt gives linear expressions one spelling
func (x *Exec) canonInt(st *State, t *Term, typ types.Type) *Term {
	return x.termOf(st.linOf(t), typ)
}

// termOf spells a linear expression.
func (x *Exec) termOf(l Lin, typ types.Type) *Term {
	type tc struct {
		t *Term
		c int64
	}
	var ts []tc
	for a, c := range l.c {
		ts = append(ts, tc{a, c})
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].t.id < ts[j].t.id })
	T := x.T
	var r *Term
	for _, e := range ts {
		a := e.t
		if e.c < 0 {
			continue
		}
		if e.c != 1 {
			a = T.op("*", typ, a, T.Int(e.c))
		}
		if r == nil {
			r = a
		} else {
			r = T.op("+", typ, r, a)
		}
	}
	if r == nil && len(ts) > 0 {
		r = T.Int(l.k)
		l.k = 0
	}
	for _, e := range ts {
		if e.c >= 0 {
			continue
		}
		a := e.t
		if e.c != -1 {
			a = T.op("*", typ, a, T.Int(-e.c))
		}
		r = T.op("-", typ, r, a)
	}
	if r == nil {
		return T.Int(l.k)
	}
	if l.k > 0 {
		r = T.op("+", typ, r, T.Int(l.k))
	} else if l.k < 0 {
		r = T.op("-", typ, r, T.Int(-l.k))
	}
	return r
}

// divmod: quotient and remainder by a positive constant
func (x *Exec) divmod(st *State, a *Term, c int64, typ types.Type) (q, r *Term) {
	T := x.T
	b := T.Int(c)
	if n, ok := a.intVal(); ok {
		return T.Int(n / c), T.Int(n % c)
	}
	q = T.op("/", typ, a, b)
	r = T.op("%", typ, a, b)
	la := st.linOf(a)
	lq, lr := linTerm(q), linTerm(r)
	if st.prove(la) {
		// a = c*q + r, 0 <= r < c, q >= 0
		st.addLin(lr)
		st.addLin(lq)
	} else {
		st.addLin(lr.addk(c - 1))
	}
	st.addLin(lr.scale(-1).addk(c - 1))
	e := la.add(lq, -c).add(lr, -1)
	st.addLin(e)
	st.addLin(e.scale(-1))
	return q, r
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term, typ types.Type, in *ssa.BinOp) *Term {
	T := x.T
	xt := in.X.Type()
	switch op {
	case token.EQL:
		return st.mkEq(a, b)
	case token.NEQ:
		return st.mkNot(st.mkEq(a, b))
	case token.LSS:
		return x.cmp(st, "lt", a, b)
	case token.GTR:
		return x.cmp(st, "lt", b, a)
	case token.LEQ:
		return x.cmp(st, "le", a, b)
	case token.GEQ:
		return x.cmp(st, "le", b, a)
	}
	if a.k == TConst && b.k == TConst && a.cv != nil && b.cv != nil {
		if v := foldConst(op, a.cv, b.cv, typ); v != nil {
			return T.constant(v, typ)
		}
	}
	if op == token.ADD && isString(typ) {
		t := T.op("concat", typ, a, b)
		l := st.linOf(T.op("len", types.Typ[types.Int], t)).add(st.linOf(T.op("len", types.Typ[types.Int], a)), -1).
			add(st.linOf(T.op("len", types.Typ[types.Int], b)), -1)
		st.addLin(l)
		st.addLin(l.scale(-1))
		return t
	}
	if !isInt(xt) {
		return T.op(op.String(), typ, a, b)
	}
	uns := isUnsigned(typ)
	wrapSafe := func(t *Term) *Term {
		if !uns {
			return x.canonInt(st, t, typ)
		}
		l := st.linOf(t)
		if !st.prove(l) {
			return T.op("wrap"+t.op, typ, t.args...)
		}
		if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			if !st.prove(l.scale(-1).addk(255)) {
				return T.op("wrap"+t.op, typ, t.args...)
			}
		}
		return x.canonInt(st, t, typ)
	}
	switch op {
	case token.ADD:
		return wrapSafe(T.op("+", typ, a, b))
	case token.SUB:
		return wrapSafe(T.op("-", typ, a, b))
	case token.MUL:
		return wrapSafe(T.op("*", typ, a, b))
	case token.QUO, token.REM:
		if c, ok := b.intVal(); ok && c > 0 {
			q, r := x.divmod(st, a, c, typ)
			if op == token.QUO {
				return q
			}
			return r
		}
		t := T.op(op.String(), typ, a, b)
		if op == token.REM && st.prove(st.linOf(a)) && st.prove(st.linOf(b).addk(-1)) {
			st.addLin(linTerm(t))
			st.addLin(st.linOf(b).add(linTerm(t), -1).addk(-1))
			// a multiple stays a multiple: recorded for divisibility queries
		}
		return t
	case token.SHL:
		if c, ok := b.intVal(); ok && c >= 0 && c < 62 {
			return wrapSafe(T.op("*", typ, a, T.Int(1<<uint(c))))
		}
	case token.SHR:
		if c, ok := b.intVal(); ok && c >= 0 && c < 62 && st.prove(st.linOf(a)) {
			return x.binop(st, token.QUO, a, T.Int(1<<uint(c)), typ, in)
		}
	case token.AND:
		for i := 0; i < 2; i++ {
			p, m := a, b
			if i == 1 {
				p, m = b, a
			}
			if c, ok := m.intVal(); ok && c >= 0 {
				if c&(c+1) == 0 && c < 1<<60 && st.prove(st.linOf(p)) {
					return x.binop(st, token.REM, p, T.Int(c+1), typ, in)
				}
				t := T.op("&", typ, p, m)
				st.addLin(linTerm(t))
				st.addLin(linTerm(t).scale(-1).addk(c))
				return t
			}
		}
	}
	t := T.op(op.String(), typ, a, b)
	st.atomFacts(t)
	return t
}

func foldConst(op token.Token, a, b constant.Value, typ types.Type) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
		v = constant.BinaryOp(a, op, b)
	case token.QUO:
		if a.Kind() == constant.Int && b.Kind() == constant.Int {
			if constant.Sign(b) == 0 {
				return nil
			}
			v = constant.BinaryOp(a, token.QUO_ASSIGN, b)
		} else {
			v = constant.BinaryOp(a, op, b)
		}
	case token.REM:
		if constant.Sign(b) == 0 {
			return nil
		}
		v = constant.BinaryOp(a, op, b)
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(b)
		if !ok || n > 200 {
			return nil
		}
		v = constant.Shift(a, op, uint(n))
	default:
		return nil
	}
	if b, ok := typ.Underlying().(*types.Basic); ok && v.Kind() == constant.Int {
		// wrap to the type's size
		bits := map[types.BasicKind]uint{types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Uintptr: 64,
			types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64}[b.Kind()]
		if bits > 0 {
			m := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
			mask := constant.BinaryOp(m, token.SUB, constant.MakeInt64(1))
			v = constant.BinaryOp(v, token.AND, mask)
			if b.Info()&types.IsUnsigned == 0 {
				half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)
				if constant.Compare(v, token.GEQ, half) {
					v = constant.BinaryOp(v, token.SUB, m)
				}
			}
		}
	}
	return v
}

func (x *Exec) cmp(st *State, op string, a, b *Term) *Term {
	t := x.T.op(op, types.Typ[types.Bool], a, b)
	if v, known := st.truth(t); known {
		return x.T.Bool(v)
	}
	return t
}

func (x *Exec) unop(st *State, in *ssa.UnOp) {
	f := st.top()
	T := x.T
	v := x.val(st, in.X)
	switch in.Op {
	case token.MUL:
		if x.forked(st, v) {
			return
		}
		x.event(st, &Ev{Kind: "deref", Instr: in, Addr: v})
		label := "load"
		switch v.k {
		case TFA:
			label = v.fld.Name()
		case TGlobal:
			label = v.gl.Name()
		case TIA:
			label = "elem"
		}
		if v.k == TGlobal && x.globalConst(v.gl) {
			t := T.root("global "+rel(v.gl.Pkg.Pkg.Path())+"."+v.gl.Name(), in.Type())
			if x.errorVar(v.gl) {
				t.nonnil = true
			}
			if _, ok := st.heap[v]; !ok {
				st.heap[v] = t
			}
			if _, isArr := in.Type().Underlying().(*types.Array); isArr {
				st.heap[v] = t
			}
		}
		t := st.load(v, in.Type(), label, in)
		if isInt(in.Type()) {
			st.atomFacts(t)
		}
		f.env[in] = t
		x.event(st, &Ev{Kind: "load", Instr: in, Addr: v, Val: t})
		f.pc++
	case token.NOT:
		f.env[in] = st.mkNot(v)
		f.pc++
	case token.SUB:
		if c, ok := v.intVal(); ok {
			f.env[in] = T.Int(-c)
		} else if isInt(in.Type()) && !isUnsigned(in.Type()) {
			f.env[in] = T.op("neg", in.Type(), v)
		} else {
			f.env[in] = T.op("fneg", in.Type(), v)
		}
		f.pc++
	case token.ARROW:
		r := T.sym("recv", chanElem(in.X.Type()))
		r.instr, r.prov = in, []*Term{v}
		var ok *Term
		if in.CommaOk {
			ok = T.sym("recvok", types.Typ[types.Bool])
			ok.prov = []*Term{v}
			f.env[in] = T.tuple(r, ok)
		} else {
			f.env[in] = r
		}
		st.dropShared(x.cfg.Keep)
		x.event(st, &Ev{Kind: "recv", Instr: in, Addr: v, Val: r, Res: []*Term{ok}})
		f.pc++
	default:
		f.env[in] = T.op("u"+in.Op.String(), in.Type(), v)
		st.atomFacts(f.env[in])
		f.pc++
	}
}

func chanElem(t types.Type) types.Type {
	if c, ok := t.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type, in *ssa.Convert) *Term {
	T := x.T
	if isUnsafe(to) || isUnsafe(from) {
		return v
	}
	if isInt(from) && isInt(to) {
		if c, ok := v.intVal(); ok {
			if r := foldConst(token.ADD, constant.MakeInt64(c), constant.MakeInt64(0), to); r != nil {
				return T.constant(r, to)
			}
		}
		// value preserving?
		l := st.linOf(v)
		lo, hi, known := intRange(to)
		if known && st.prove(l.addk(-lo)) && (hi < 0 || st.prove(l.scale(-1).addk(hi))) {
			return v
		}
		if !isUnsigned(to) && sizeOf(to) >= 8 && (!isUnsigned(from) || sizeOf(from) < 8) {
			return v
		}
		if isUnsigned(to) && sizeOf(to) >= 8 && st.prove(l) {
			return v
		}
		t := T.op("conv:"+to.Underlying().String(), to, v)
		st.atomFacts(t)
		if known {
			st.addLin(linTerm(t).addk(-lo))
			if hi >= 0 {
				st.addLin(linTerm(t).scale(-1).addk(hi))
			}
		}
		return t
	}
	if c := v; c.k == TConst && c.cv != nil {
		if isString(to) && isString(from) {
			return v
		}
	}
	r := T.sym("conv", to)
	r.instr, r.prov = in, []*Term{v}
	if l := st.taintOf(v); l != "" {
		st.addTaint(r, l)
	}
	if (isString(from) || isString(to)) && !isInt(from) {
		if sl := sliceElem(from, to); sl == "byte" {
			r.alloc = isString(from)
			r.nonnil = r.alloc
			e := st.linOf(T.op("len", types.Typ[types.Int], r)).add(st.linOf(T.op("len", types.Typ[types.Int], v)), -1)
			st.addLin(e)
			st.addLin(e.scale(-1))
		} else if sl == "rune" && isString(from) {
			r.alloc, r.nonnil = true, true
		}
	}
	x.event(st, &Ev{Kind: "convert", Instr: in, Val: r, Args: []*Term{v}})
	return r
}

func sliceElem(a, b types.Type) string {
	for _, t := range []types.Type{a, b} {
		if s, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok {
				switch b.Kind() {
				case types.Uint8:
					return "byte"
				case types.Int32:
					return "rune"
				}
			}
		}
	}
	return ""
}

func sizeOf(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func intRange(t types.Type) (lo, hi int64, known bool) {
	n := sizeOf(t)
	if n == 0 {
		return 0, 0, false
	}
	if isUnsigned(t) {
		if n == 8 {
			return 0, -1, false
		}
		return 0, 1<<(8*uint(n)) - 1, true
	}
	if n == 8 {
		return 0, -1, false
	}
	return -(1 << (8*uint(n) - 1)), 1<<(8*uint(n)-1) - 1, true
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) {
	f := st.top()
	T := x.T
	m, k := x.val(st, in.X), x.val(st, in.Index)
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
		if x.cfg.ForkAt && x.forked(st, x.indexVal(st, m, k, in.Type())) {
			return
		}
		x.event(st, &Ev{Kind: "index", Instr: in, Addr: m, Val: k, Args: []*Term{T.op("len", types.Typ[types.Int], m)}})
		f.env[in] = st.resolve(x.indexVal(st, m, k, in.Type()))
		x.boundsHold(st, k, m)
		f.pc++
		return
	}
	mt := in.X.Type().Underlying().(*types.Map)
	var ok *Term
	if m.isNil() {
		ok = T.Bool(false)
	} else if h, have := st.heap[T.has(m, k)]; have {
		ok = h
	} else {
		ok = T.sym("has", types.Typ[types.Bool])
		ok.instr, ok.prov = in, []*Term{m, k}
		if m.alloc && !st.esc[m] && !st.mapTouched(m) {
			ok = T.Bool(false)
		}
		st.heap[T.has(m, k)] = ok
	}
	fin := func(s *State, present bool) {
		fr := s.top()
		var v *Term
		if present {
			v = s.heap[T.me(m, k)]
			if v == nil {
				v = T.sym("mapval", mt.Elem())
				v.instr, v.prov = in, []*Term{m, k}
				s.heap[T.me(m, k)] = v
				if l := s.taintOf(m); l != "" {
					s.addTaint(v, l)
				}
			}
		} else {
			v = T.zero(mt.Elem())
		}
		if in.CommaOk {
			fr.env[in] = T.tuple(v, T.Bool(present))
		} else {
			fr.env[in] = v
		}
		x.event(s, &Ev{Kind: "lookup", Instr: in, Addr: m, Args: []*Term{m, k}, Val: v, Res: []*Term{v, T.Bool(present)}})
		fr.pc++
	}
	if v, known := st.truth(ok); known {
		fin(st, v)
		return
	}
	o := st.clone()
	m, k = st.resolve(m), st.resolve(k)
	if o.assume(ok, false) {
		o.note(instrPos(in), "%s absent", opnd(in))
		fin(o, false)
		if !o.dead {
			x.work = append(x.work, o)
		}
	}
	if st.assume(ok, true) {
		st.note(instrPos(in), "%s present", opnd(in))
		fin(st, true)
	}
}

// mapTouched: something may have been added to the fresh map
func (st *State) mapTouched(m *Term) bool {
	if st.getT("~looped") != nil {
		return true
	}
	for a := range st.heap {
		if a.k == TME && a.args[0] == m {
			return true
		}
	}
	return false
}

// concrete: the type is neither an interface nor made of type parameters
func concrete(t types.Type) bool {
	switch u := types.Unalias(t).(type) {
	case nil, *types.TypeParam:
		return false
	case *types.Pointer:
		return concrete(u.Elem())
	case *types.Basic:
		return true
	case *types.Named:
		return u.TypeArgs().Len() == 0 && !types.IsInterface(u)
	}
	return false
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) {
	f := st.top()
	T := x.T
	v := x.val(st, in.X)
	if v.k == TOp && v.op == "iface" && v.args[0].typ != nil {
		if types.Identical(v.args[0].typ, in.AssertedType) {
			if in.CommaOk {
				f.env[in] = T.tuple(v.args[0], T.Bool(true))
			} else {
				f.env[in] = v.args[0]
			}
			f.pc++
			return
		}
	}
	if in.CommaOk && (v.isNil() || v.k == TOp && v.op == "iface" && concrete(v.args[0].typ) && concrete(in.AssertedType)) {
		f.env[in] = T.tuple(T.zero(in.AssertedType), T.Bool(false))
		f.pc++
		return
	}
	r := T.op("assert:"+typeKey(in.AssertedType), in.AssertedType, v)
	x.event(st, &Ev{Kind: "assert", Instr: in, Addr: v, Val: r})
	if in.CommaOk {
		ok := T.op("isa:"+typeKey(in.AssertedType), types.Typ[types.Bool], v)
		f.env[in] = T.tuple(r, ok)
	} else {
		f.env[in] = r
	}
	f.pc++
}

func (x *Exec) next(st *State, in *ssa.Next) {
	f := st.top()
	T := x.T
	it := x.val(st, in.Iter)
	m := st.getT(fmt.Sprintf("~iter%d", it.id))
	if m == nil && len(it.prov) > 0 {
		m = st.resolve(it.prov[0])
	}
	tup := in.Type().(*types.Tuple)
	o := st.clone()
	o.top().env[in] = T.tuple(T.Bool(false), T.zero(tup.At(1).Type()), T.zero(tup.At(2).Type()))
	o.top().pc++
	o.note(instrPos(in), "iteration ends")
	x.event(o, &Ev{Kind: "rangeend", Instr: in, Addr: m})
	if m.isNil() {
		*st = *o
		return
	}
	if !o.dead {
		x.work = append(x.work, o)
	}
	kt, vt := tup.At(1).Type(), tup.At(2).Type()
	if in.IsString {
		k := T.sym("runeidx", types.Typ[types.Int])
		r := T.sym("rune", types.Typ[types.Int32])
		st.addLin(linTerm(k))
		st.addLin(st.linOf(T.op("len", types.Typ[types.Int], m)).add(linTerm(k), -1).addk(-1))
		st.addLin(linTerm(r))
		r.prov = []*Term{m}
		f.env[in] = T.tuple(T.Bool(true), k, r)
		x.event(st, &Ev{Kind: "range", Instr: in, Addr: m, Args: []*Term{k, r}})
		f.pc++
		return
	}
	if rg, ok := in.Iter.(*ssa.Range); ok {
		if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
			kt, vt = mt.Key(), mt.Elem()
		}
	}
	k := T.sym("rangekey", kt)
	k.instr, k.prov = in, []*Term{m}
	v := T.sym("rangeval", vt)
	v.instr, v.prov = in, []*Term{m, k}
	if l := st.taintOf(m); l != "" {
		st.addTaint(k, l)
		st.addTaint(v, l)
	}
	st.heap[T.has(m, k)] = T.Bool(true)
	st.heap[T.me(m, k)] = v
	f.env[in] = T.tuple(T.Bool(true), k, v)
	x.event(st, &Ev{Kind: "range", Instr: in, Addr: m, Args: []*Term{k, v}})
	f.pc++
}

func (x *Exec) sel(st *State, in *ssa.Select) {
	T := x.T
	n := len(in.States)
	mk := func(s *State, idx int) {
		f := s.top()
		res := []*Term{T.Int(int64(idx))}
		okT := T.Bool(false)
		var recvs []*Term
		var chosen *ssa.SelectState
		for i, sc := range in.States {
			if sc.Dir != types.RecvOnly {
				continue
			}
			if i == idx {
				r := T.sym("recv", chanElem(sc.Chan.Type()))
				r.instr, r.prov = in, []*Term{x.val(s, sc.Chan)}
				recvs = append(recvs, r)
				okT = T.sym("recvok", types.Typ[types.Bool])
				okT.prov = []*Term{x.val(s, sc.Chan)}
			} else {
				recvs = append(recvs, T.zero(chanElem(sc.Chan.Type())))
			}
		}
		res = append(res, okT)
		res = append(res, recvs...)
		f.env[in] = T.tuple(res...)
		var chans []*Term
		for _, sc := range in.States {
			chans = append(chans, x.val(s, sc.Chan))
		}
		s.dropShared(x.cfg.Keep)
		ev := &Ev{Kind: "select", Instr: in, Idx: idx, Args: chans, Res: res}
		if idx >= 0 {
			chosen = in.States[idx]
			ev.Addr = x.val(s, chosen.Chan)
			if chosen.Dir == types.SendOnly {
				ev.Val = x.val(s, chosen.Send)
				ev.Detail = "send"
				s.escape(ev.Val)
			} else {
				ev.Detail = "recv"
				for i, sc := range in.States {
					_ = sc
					if i == idx {
						ev.Val = res[2+recvIndex(in, idx)]
					}
				}
			}
			ev.Pos = chosen.Pos
		} else {
			ev.Detail = "default"
		}
		s.note(ev.Pos, "select: %s", ev.Detail)
		x.event(s, ev)
		f.pc++
	}
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	for i := lo; i < n-1; i++ {
		o := st.clone()
		mk(o, i)
		if !o.dead {
			x.work = append(x.work, o)
		}
	}
	if n-1 >= lo {
		mk(st, n-1)
	} else {
		st.dead = true
	}
}

func recvIndex(in *ssa.Select, idx int) int {
	n := 0
	for i, s := range in.States {
		if i == idx {
			return n
		}
		if s.Dir == types.RecvOnly {
			n++
		}
	}
	return n
}

// ---- calls

func (x *Exec) operands(st *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	fnT := x.val(st, c.Value)
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	return fnT, args
}

func (x *Exec) calleeName(c *ssa.CallCommon, fnT *Term) string {
	if c.IsInvoke() {
		return "iface:" + objName(c.Method)
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return fname(f)
	case *ssa.Builtin:
		return "builtin:" + f.Name()
	}
	switch fnT.k {
	case TFunc, TClosure:
		return fname(fnT.fn)
	}
	return "dyn"
}

func (x *Exec) call(st *State, c *ssa.CallCommon, in ssa.Instruction, ret retInfo) {
	fnT, args := x.operands(st, c)
	x.callWith(st, c, in, fnT, args, ret)
}

func (x *Exec) callWith(st *State, c *ssa.CallCommon, in ssa.Instruction, fnT *Term, args []*Term, ret retInfo) {
	x.Calls++
	cl := &Call{Instr: in, Common: c, FnT: fnT, Args: args, ret: ret, Fn: st.top().fn}
	cl.Callee = x.calleeName(c, fnT)
	if !c.IsInvoke() {
		switch f := c.Value.(type) {
		case *ssa.Function:
			cl.Static = f
		default:
			if fnT.k == TFunc || fnT.k == TClosure {
				cl.Static = fnT.fn
			}
		}
	} else {
		// a method of a value whose dynamic type is known
		r := fnT
		if r.k == TOp && r.op == "iface" {
			if m := x.P.SSA.LookupMethod(r.args[0].typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				cl.Static = m
				cl.Args = append([]*Term{r.args[0]}, args...)
				cl.Callee = fname(m)
			}
		} else {
			cl.Args = append([]*Term{r}, args...)
		}
	}
	if x.cfg.Model != nil {
		if outs, ok := x.cfg.Model(st, cl); ok {
			x.outcomes(st, cl, outs)
			return
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(st, cl, b.Name())
		return
	}
	if cl.Static != nil && x.inlinable(st, cl.Static) {
		f := cl.Static
		if o := f.Origin(); o != nil {
			f = o
		}
		var b []*Term
		if fnT.k == TClosure {
			b = fnT.args
		}
		x.event(st, &Ev{Kind: "inline", Instr: in, Callee: cl.Callee, Args: cl.Args})
		x.pushFrame(st, f, cl.Args, b, ret)
		return
	}
	if cl.Callee == "sync.Once.Do" {
		x.onceDo(st, cl)
		return
	}
	if outs, ok := x.stdModel(st, cl); ok {
		x.outcomes(st, cl, outs)
		return
	}
	x.opaque(st, cl)
}

func (x *Exec) inlinable(st *State, f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Blocks == nil || !inRepo(f) {
		// synthetic wrappers (bound methods, thunks) of repository methods
		if f.Blocks == nil || f.Synthetic == "" {
			return false
		}
	}
	if x.cfg.NoInline != nil && x.cfg.NoInline(f) {
		return false
	}
	if len(st.frames) >= x.cfg.MaxDepth {
		return false
	}
	for _, fr := range st.frames {
		if fr.fn == f {
			return false
		}
	}
	return true
}

// outcomes continues the path once per outcome.
func (x *Exec) outcomes(st *State, c *Call, outs []Out) {
	for i, o := range outs {
		s := st
		if i < len(outs)-1 {
			s = st.clone()
		}
		for _, a := range o.Assume {
			if !s.assume(s.resolve(a.c), a.v) {
				break
			}
		}
		if !s.dead && o.Do != nil {
			o.Do(s)
		}
		if !s.dead {
			if o.Panic != nil {
				x.startPanic(s, o.Panic)
			} else {
				res := make([]*Term, len(o.Res))
				for j, r := range o.Res {
					res[j] = s.resolve(r)
				}
				x.complete(s, c.ret, res)
			}
		}
		if s != st && !s.dead {
			x.work = append(x.work, s)
		}
	}
	if len(outs) == 0 {
		st.dead = true
	}
}

// complete hands the results of a finished call to whoever waits for them.
func (x *Exec) complete(st *State, ri retInfo, res []*Term) {
	switch ri.mode {
	case mCall:
		f := st.top()
		v := ri.instr.(ssa.Value)
		switch {
		case len(res) == 1:
			f.env[v] = res[0]
		case len(res) > 1:
			f.env[v] = x.T.tuple(res...)
		}
		f.pc++
	case mDefer, mUnwind:
	case mCallback:
		ri.cont(st, res)
	}
}

func (x *Exec) freshResults(st *State, c *Call, label string) []*Term {
	var res []*Term
	taint := ""
	for _, a := range c.Args {
		taint = joinTaint(taint, st.taintOf(a))
	}
	for i, t := range c.ResTypes() {
		s := x.T.sym(fmt.Sprintf("%s.%d", label, i), t)
		s.instr, s.prov = c.Instr, c.Args
		if taint != "" {
			st.addTaint(s, taint)
		}
		if isInt(t) {
			st.atomFacts(s)
		}
		res = append(res, s)
	}
	return res
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// opaque treats a call as unknown code: it may do anything to escaped memory,
// and function values among the arguments may be called.
func (x *Exec) opaque(st *State, c *Call) {
	dyn := c.Static == nil
	recursive := c.Static != nil && inRepo(c.Static)
	kind := "call"
	if dyn || recursive {
		kind = "callback"
	}
	for _, a := range c.Args {
		if pointerish(a) {
			st.escape(a)
		}
	}
	for _, b := range c.FnT.args {
		st.escape(b)
	}
	if dyn && x.cfg.CallbackPanics {
		o := st.clone()
		pv := x.T.sym("panicval", types.NewInterfaceType(nil, nil))
		pv.nonnil = true
		o.note(instrPos(c.Instr), "%s panics", shortName(c.Callee))
		o.dropShared(x.cfg.Keep)
		x.event(o, &Ev{Kind: kind, Instr: c.Instr, Callee: c.Callee, Args: c.Args, Addr: c.FnT, Panics: true, Fn: c.Fn})
		if !o.dead {
			x.startPanic(o, pv)
			x.work = append(x.work, o)
		}
	}
	if dyn || recursive || touchesMemory(c) {
		if dyn || recursive {
			st.dropShared(x.cfg.Keep)
		} else {
			for _, a := range c.Args {
				x.havocArg(st, a)
			}
		}
	}
	// call function literals passed to library code: zero times or once
	// from a state in which earlier calls may have changed what it writes
	if !dyn && !recursive {
		for _, a := range c.Args {
			if a.k == TClosure && a.fn.Blocks != nil && inRepo(a.fn) {
				x.withCallback(st, c, a)
				return
			}
		}
	}
	res := x.freshResults(st, c, shortName(c.Callee))
	x.event(st, &Ev{Kind: kind, Instr: c.Instr, Callee: c.Callee, Args: c.Args, Res: res, Addr: c.FnT, Fn: c.Fn})
	if !st.dead {
		x.complete(st, c.ret, res)
	}
}

func pointerish(t *Term) bool {
	return t.k != TConst
}

func (x *Exec) havocArg(st *State, a *Term) {
	switch a.k {
	case TOp:
		if a.op == "iface" || a.op == "slice" {
			x.havocArg(st, a.args[0])
		}
	case TClosure:
		for _, b := range a.args {
			x.havocArg(st, b)
		}
	case TSym, TFA:
		if a.typ == nil {
			return
		}
		switch a.typ.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map:
		default:
			return
		}
		if n, ok := types.Unalias(derefT(a.typ)).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return // an object of another package does not reach ours
		}
		for c := range st.heap {
			if c != a && c.contains(a) || c == a {
				delete(st.heap, c)
			}
		}
	}
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func touchesMemory(c *Call) bool { return true }

func (x *Exec) withCallback(st *State, c *Call, cb *Term) {
	// no call at all
	o := st.clone()
	res := x.freshResults(o, c, shortName(c.Callee))
	x.event(o, &Ev{Kind: "call", Instr: c.Instr, Callee: c.Callee, Args: c.Args, Res: res, Addr: c.FnT, Fn: c.Fn})
	if !o.dead {
		x.complete(o, c.ret, res)
		x.work = append(x.work, o)
	}
	var args []*Term
	for i := 0; i < cb.fn.Signature.Params().Len(); i++ {
		p := cb.fn.Signature.Params().At(i)
		s := x.T.sym(p.Name(), p.Type())
		s.prov = c.Args
		args = append(args, s)
	}
	st.dropShared(x.cfg.Keep)
	x.event(st, &Ev{Kind: "cbargs", Instr: c.Instr, Callee: c.Callee, Args: args, Fn: c.Fn})
	cc := *c
	x.pushFrame(st, cb.fn, args, cb.args, retInfo{mode: mCallback, cont: func(s *State, cres []*Term) {
		x.event(s, &Ev{Kind: "cbret", Instr: cc.Instr, Callee: cc.Callee, Res: cres, Fn: cc.Fn})
		s.dropShared(x.cfg.Keep)
		res := x.freshResults(s, &cc, shortName(cc.Callee))
		x.event(s, &Ev{Kind: "call", Instr: cc.Instr, Callee: cc.Callee, Args: cc.Args, Res: res, Addr: cc.FnT, Fn: cc.Fn})
		if !s.dead {
			x.complete(s, cc.ret, res)
		}
	}})
}

func (x *Exec) builtin(st *State, c *Call, name string) {
	T := x.T
	one := func(t *Term) { x.complete(st, c.ret, []*Term{t}) }
	arg := func(i int) *Term { return c.Args[i] }
	intT := types.Typ[types.Int]
	switch name {
	case "len", "cap":
		a := arg(0)
		x.event(st, &Ev{Kind: name, Instr: c.Instr, Addr: a})
		if name == "len" {
			if s, ok := a.strVal(); ok {
				one(T.Int(int64(len(s))))
				return
			}
			l := st.linOf(T.op("len", intT, a))
			if len(l.c) == 0 {
				one(T.Int(l.k))
				return
			}
			t := T.op("len", intT, a)
			st.atomFacts(t)
			for at := range l.c {
				st.atomFacts(at)
			}
			one(x.canonInt(st, t, intT))
			return
		}
		t := T.op("cap", intT, a)
		st.addLin(linTerm(t).add(st.linOf(T.op("len", intT, a)), -1))
		one(t)
	case "append":
		s := arg(0)
		r := T.sym("append", c.ResTypes()[0])
		r.instr, r.prov = c.Instr, c.Args
		r.nonnil = false
		l := joinTaint(st.taintOf(s), "")
		ln := st.linOf(T.op("len", intT, s))
		if len(c.Args) > 1 {
			l = joinTaint(l, st.taintOf(arg(1)))
			ln = ln.add(st.linOf(T.op("len", intT, arg(1))), 1)
		}
		e := linTerm(T.op("len", intT, r)).add(ln, -1)
		st.addLin(e)
		st.addLin(e.scale(-1))
		if l != "" {
			st.addTaint(r, l)
		}
		x.event(st, &Ev{Kind: "append", Instr: c.Instr, Addr: s, Args: c.Args, Val: r})
		one(r)
	case "copy":
		x.event(st, &Ev{Kind: "copy", Instr: c.Instr, Addr: arg(0), Val: arg(1), Args: c.Args})
		for a := range st.heap {
			if a.k == TIA && st.mayAliasAddr(T.ia(arg(0), T.sym("anyidx", intT), a.typ), a) {
				delete(st.heap, a)
			}
		}
		if l := st.taintOf(arg(1)); l != "" {
			st.addTaint(arg(0).base(), l)
		}
		n := T.sym("copied", intT)
		st.addLin(linTerm(n))
		for i := 0; i < 2; i++ {
			st.addLin(st.linOf(T.op("len", intT, arg(i))).add(linTerm(n), -1))
		}
		// the number is the lesser of the two lengths
		for i := 0; i < 2; i++ {
			a, b := st.linOf(T.op("len", intT, arg(i))), st.linOf(T.op("len", intT, arg(1-i)))
			if st.prove(b.add(a, -1)) {
				st.addLin(linTerm(n).add(a, -1))
			}
		}
		one(n)
	case "delete":
		m, k := arg(0), arg(1)
		x.event(st, &Ev{Kind: "mapdel", Instr: c.Instr, Addr: m, Args: c.Args})
		st.store(T.has(m, k), T.Bool(false))
		delete(st.heap, T.me(m, k))
		x.complete(st, c.ret, nil)
	case "close":
		x.event(st, &Ev{Kind: "close", Instr: c.Instr, Addr: arg(0)})
		if !st.dead {
			st.dropShared(x.cfg.Keep)
			x.complete(st, c.ret, nil)
		}
	case "panic":
		x.event(st, &Ev{Kind: "panic", Instr: c.Instr, Val: arg(0)})
		x.startPanic(st, arg(0))
	case "recover":
		n := len(st.frames)
		g := st.top()
		var res *Term = T.Nil()
		if n >= 2 && (g.ret.mode == mUnwind) {
			p := st.frames[n-2]
			if p.panicVal != nil && !p.recovered {
				res = p.panicVal
				p.recovered = true
			}
		} else if c.ret.mode == mUnwind || c.ret.mode == mDefer {
			// defer recover() directly does not stop a panic
		}
		x.event(st, &Ev{Kind: "recover", Instr: c.Instr, Val: res})
		one(res)
	case "clear":
		x.event(st, &Ev{Kind: "clear", Instr: c.Instr, Addr: arg(0)})
		for a := range st.heap {
			if a.base() == arg(0).base() {
				delete(st.heap, a)
			}
		}
		x.complete(st, c.ret, nil)
	case "print", "println":
		x.complete(st, c.ret, nil)
	case "String": // unsafe.String
		r := T.op("unsafe.String", c.ResTypes()[0], c.Args...)
		e := linTerm(T.op("len", intT, r)).add(st.linOf(arg(1)), -1)
		st.addLin(e)
		st.addLin(e.scale(-1))
		one(r)
	case "StringData", "SliceData":
		one(T.op("unsafe."+name, c.ResTypes()[0], c.Args...))
	case "Slice":
		r := T.op("unsafe.Slice", c.ResTypes()[0], c.Args...)
		e := linTerm(T.op("len", intT, r)).add(st.linOf(arg(1)), -1)
		st.addLin(e)
		st.addLin(e.scale(-1))
		one(r)
	case "min", "max":
		r := T.sym(name, c.ResTypes()[0])
		for _, a := range c.Args {
			if isInt(a.typ) {
				d := st.linOf(a).add(linTerm(r), -1)
				if name == "max" {
					d = d.scale(-1)
				}
				st.addLin(d)
			}
		}
		one(r)
	case "ssa:wrapnilchk":
		one(arg(0))
	default:
		if len(c.ResTypes()) > 0 {
			one(T.op("builtin:"+name, c.ResTypes()[0], c.Args...))
		} else {
			x.complete(st, c.ret, nil)
		}
	}
}

func (x *Exec) goStmt(st *State, in *ssa.Go) {
	fnT, args := x.operands(st, &in.Call)
	for _, a := range args {
		st.escape(a)
	}
	for _, b := range fnT.args {
		st.escape(b)
	}
	ev := &Ev{Kind: "go", Instr: in, Callee: x.calleeName(&in.Call, fnT), Args: args, Addr: fnT}
	x.event(st, ev)
	if x.cfg.Go != nil && !st.dead {
		var f *ssa.Function
		if s, ok := in.Call.Value.(*ssa.Function); ok {
			f = s
		} else if fnT.k == TFunc || fnT.k == TClosure {
			f = fnT.fn
		}
		if f != nil {
			if o := f.Origin(); o != nil {
				f = o
			}
			if f.Blocks != nil {
				ch := st.clone()
				ch.note(instrPos(in), "in goroutine %s", fname(f))
				ch.dropShared(x.cfg.Keep)
				if x.cfg.Go(st, ch, ev) {
					var b []*Term
					if fnT.k == TClosure {
						b = fnT.args
					}
					ch.frames = nil
					x.pushFrame(ch, f, args, b, retInfo{mode: mRoot})
					x.work = append(x.work, ch)
				}
			}
		}
	}
	st.top().pc++
}

// ---- panics and returns

func (x *Exec) startPanic(st *State, v *Term) {
	f := st.top()
	f.panicVal = v
	f.recovered = false
	f.unwinding = true
}

func (x *Exec) unwind(st *State) {
	f := st.top()
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		mode := mUnwind
		if f.recovered {
			mode = mDefer
		}
		// while a deferred call runs the frame below it stays in unwinding mode
		x.callWith(st, &d.instr.Call, d.instr, d.fnT, d.args, retInfo{mode: mode})
		return
	}
	if f.recovered {
		f.unwinding = false
		f.panicVal = nil
		f.recovered = false
		if f.fn.Recover != nil {
			f.prev = f.blk
			f.blk = f.fn.Recover
			f.pc = 0
			return
		}
		var res []*Term
		r := f.fn.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			res = append(res, x.T.zero(r.At(i).Type()))
		}
		x.ret(st, res, nil)
		return
	}
	// continue in the caller
	v := f.panicVal
	x.event(st, &Ev{Kind: "unwound", Fn: f.fn, Val: v})
	if len(st.frames) == 1 {
		x.Exits++
		x.event(st, &Ev{Kind: "exit", Fn: f.fn, Panics: true, Val: v, Pos: f.fn.Pos()})
		st.frames = nil
		return
	}
	st.frames = st.frames[:len(st.frames)-1]
	p := st.top()
	p.panicVal = v
	p.recovered = false
	p.unwinding = true
}

func (x *Exec) ret(st *State, res []*Term, in *ssa.Return) {
	f := st.top()
	pos := f.fn.Pos()
	if in != nil {
		pos = instrPos(in)
	}
	var ri ssa.Instruction
	if in != nil {
		ri = in
	}
	x.event(st, &Ev{Kind: "leave", Fn: f.fn, Res: res, Pos: pos, Instr: ri, Callee: fname(f.fn)})
	if st.dead {
		return
	}
	if len(st.frames) == 1 {
		x.Exits++
		x.event(st, &Ev{Kind: "exit", Fn: f.fn, Res: res, Pos: pos, Instr: ri})
		st.frames = nil
		return
	}
	st.frames = st.frames[:len(st.frames)-1]
	x.complete(st, f.ret, res)
}

// comparePanics: comparing two interfaces panics when they hold the same type and it is not comparable
func (x *Exec) comparePanics(st *State, in *ssa.BinOp) {
	if !types.IsInterface(in.X.Type()) || !types.IsInterface(in.Y.Type()) {
		return
	}
	if _, ok := types.Unalias(in.X.Type()).(*types.TypeParam); ok {
		return
	}
	maybe := func(v ssa.Value) bool {
		t := x.val(st, v)
		if t.isNil() {
			return false
		}
		if t.k == TOp && t.op == "iface" && t.args[0].typ != nil {
			a := t.args[0].typ
			if tp, ok := types.Unalias(a).(*types.TypeParam); ok {
				return !types.Comparable(tp) && !tp.Underlying().(*types.Interface).IsComparable()
			}
			return !types.IsInterface(a) && !types.Comparable(a)
		}
		// errors and other method interfaces hold comparable values by convention
		i, ok := in.X.Type().Underlying().(*types.Interface)
		return ok && i.NumMethods() == 0
	}
	if !maybe(in.X) || !maybe(in.Y) {
		return
	}
	o := st.clone()
	o.note(instrPos(in), "the comparison panics: the values are not comparable")
	pv := x.T.sym("panicval", types.NewInterfaceType(nil, nil))
	pv.nonnil = true
	x.startPanic(o, pv)
	x.work = append(x.work, o)
}

// forked splits on what the check wants decided first; the instruction is
// executed again for each of the outcomes.
func (x *Exec) forked(st *State, addr *Term) bool {
	if x.cfg.Fork == nil {
		return false
	}
	c := x.cfg.Fork(st, addr)
	if c == nil {
		return st.dead
	}
	if _, known := st.truth(c); known {
		return st.dead
	}
	o := st.clone()
	if o.assume(c, false) {
		x.work = append(x.work, o)
	}
	if !st.assume(c, true) {
		st.dead = true
	}
	return true
}
