package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the standard library: locks, atomics, sync.Once, and functions
// whose result depends on their arguments alone. Everything else is opaque.

type held struct {
	addr *Term
	mode string // "w" or "r"
}

func (st *State) locks() []held {
	var out []held
	for _, k := range st.monKeys("lk") {
		t := st.mon[k]
		m, _ := t.args[1].strVal()
		out = append(out, held{t.args[0], m})
	}
	return out
}

func (st *State) setLocks(hs []held) {
	st.clearMon("lk")
	for i, h := range hs {
		st.mon[fmt.Sprintf("lk%02d", i)] = st.x.T.tuple(h.addr, st.x.T.Str(h.mode))
	}
}

func (st *State) holds(addr *Term) string {
	for _, h := range st.locks() {
		if h.addr == addr {
			return h.mode
		}
	}
	return ""
}

// pure functions: equal arguments give equal results
var pureFns = map[string]bool{
	"strings.HasSuffix": true, "strings.HasPrefix": true, "strings.Contains": true, "strings.ToUpper": true, "strings.ToLower": true,
	"strings.TrimSpace": true, "strings.Index": true, "strings.TrimSuffix": true, "strings.TrimPrefix": true, "strings.EqualFold": true,
	"path/filepath.Join": true, "path/filepath.Dir": true, "path/filepath.Ext": true, "path/filepath.Base": true, "path.Ext": true,
	"os.IsNotExist": true, "os.IsExist": true, "errors.Is": true,
	"math/bits.OnesCount8": true, "math/bits.TrailingZeros64": true, "math/bits.Len64": true,
	"encoding/hex.EncodedLen": true, "encoding/hex.DecodedLen": true, "encoding/base64.Encoding.EncodedLen": true, "encoding/base64.Encoding.DecodedLen": true,
	"time.Time.IsZero": true,
	"unicode.IsDigit":  true, "unicode.IsLower": true, "unicode.IsUpper": true, "unicode.ToUpper": true, "unicode.ToLower": true,
	"bytes.Equal": true,
}

func (x *Exec) stdModel(st *State, c *Call) ([]Out, bool) {
	T := x.T
	ev := func(s *State, kind, detail string, addr, val *Term, res []*Term) {
		x.event(s, &Ev{Kind: kind, Instr: c.Instr, Callee: c.Callee, Args: c.Args, Addr: addr, Val: val, Res: res, Detail: detail, Fn: c.Fn})
	}
	boolT := types.Typ[types.Bool]
	lockOp := func(s *State, mode string) {
		a := s.resolve(c.Args[0])
		ev(s, "lock", mode, a, nil, nil)
		s.dropShared(x.cfg.Keep)
		s.setLocks(append(s.locks(), held{a, mode}))
		ev(s, "locked", mode, a, nil, nil)
	}
	switch c.Callee {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock":
		lockOp(st, "w")
		return []Out{{}}, true
	case "sync.RWMutex.RLock":
		lockOp(st, "r")
		return []Out{{}}, true
	case "sync.Mutex.TryLock", "sync.RWMutex.TryLock":
		return []Out{{Res: []*Term{T.Bool(false)}}, {Res: []*Term{T.Bool(true)}, Do: func(s *State) { lockOp(s, "w") }}}, true
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock":
		a := st.resolve(c.Args[0])
		mode := "w"
		if strings.HasSuffix(c.Callee, "RUnlock") {
			mode = "r"
		}
		var rest []held
		found := false
		hs := st.locks()
		for i := len(hs) - 1; i >= 0; i-- {
			if !found && hs[i].addr == a && hs[i].mode == mode {
				found = true
				continue
			}
			rest = append([]held{hs[i]}, rest...)
		}
		d := mode
		if !found {
			d = "notheld"
		}
		ev(st, "unlock", d, a, nil, nil)
		st.setLocks(rest)
		st.dropShared(x.cfg.Keep)
		return []Out{{}}, true
	}
	if strings.HasPrefix(c.Callee, "sync/atomic.") {
		return x.atomicModel(st, c, ev, boolT)
	}
	if strings.HasPrefix(c.Callee, "time.") {
		if outs, ok := x.timeModel(st, c, ev); ok {
			return outs, ok
		}
	}
	switch c.Callee {
	case "errors.New", "fmt.Errorf":
		s := T.sym(shortName(c.Callee), c.ResTypes()[0])
		s.nonnil, s.instr, s.prov = true, c.Instr, c.Args
		for _, a := range c.Args {
			st.addTaint(s, st.taintOf(a))
		}
		ev(st, "call", "", nil, nil, []*Term{s})
		return []Out{{Res: []*Term{s}}}, true
	case "errors.Join":
		es := st.elems(c.Args[0])
		all := true
		s := T.sym("Join", c.ResTypes()[0])
		s.instr, s.prov = c.Instr, es
		for _, e := range es {
			e = st.resolve(e)
			all = all && e.isNil()
			if _, isSlice := e.typ.Underlying().(*types.Slice); !isSlice && st.notNil(e) {
				s.nonnil = true
			}
			st.addTaint(s, st.taintOf(e))
		}
		if all {
			s = T.Nil()
		}
		x.event(st, &Ev{Kind: "call", Instr: c.Instr, Callee: c.Callee, Args: es, Res: []*Term{s}, Fn: c.Fn})
		return []Out{{Res: []*Term{s}}}, true
	case "container/list.New", "crypto/md5.New", "crypto/sha1.New", "crypto/sha256.New", "crypto/sha512.New", "context.Background":
		s := T.sym(shortName(c.Callee), c.ResTypes()[0])
		s.nonnil, s.instr = true, c.Instr
		ev(st, "call", "", nil, nil, []*Term{s})
		return []Out{{Res: []*Term{s}}}, true
	case "runtime.Gosched":
		st.dropShared(x.cfg.Keep)
		ev(st, "call", "", nil, nil, nil)
		return []Out{{}}, true
	}
	if pureFns[c.Callee] && len(c.ResTypes()) == 1 {
		args := c.Args
		if sig := c.Common.Signature(); sig.Variadic() && len(args) > 0 {
			args = append(append([]*Term{}, args[:len(args)-1]...), st.elems(args[len(args)-1])...)
		}
		t := T.op("call:"+c.Callee, c.ResTypes()[0], args...)
		if isInt(t.typ) {
			st.atomFacts(t)
			if strings.HasPrefix(c.Callee, "math/bits.") {
				st.addLin(linTerm(t))
				st.addLin(linTerm(t).scale(-1).addk(64))
			}
			if strings.HasSuffix(c.Callee, "Len") {
				st.addLin(linTerm(t))
			}
		}
		ev(st, "call", "", nil, nil, []*Term{t})
		return []Out{{Res: []*Term{t}}}, true
	}
	return nil, false
}

// nanos is the instant of a time.Time on one number line
func (st *State) nanos(t *Term) *Term {
	return st.x.T.op("nanos", types.Typ[types.Int64], t)
}

// timeModel gives the methods of time.Time a meaning: instants are integers.
func (x *Exec) timeModel(st *State, c *Call, ev func(*State, string, string, *Term, *Term, []*Term)) ([]Out, bool) {
	T := x.T
	i64 := types.Typ[types.Int64]
	eqLin := func(a *Term, l Lin) {
		e := linTerm(a).add(l, -1)
		st.addLin(e)
		st.addLin(e.scale(-1))
	}
	now := func(t types.Type) *Term {
		s := T.sym("now", t)
		s.instr = c.Instr
		ev(st, "now", "", nil, s, []*Term{s})
		return s
	}
	ret := func(t *Term) ([]Out, bool) {
		ev(st, "call", "", nil, nil, []*Term{t})
		return []Out{{Res: []*Term{t}}}, true
	}
	var n0, n1 *Term
	if len(c.Args) > 0 {
		n0 = st.nanos(c.Args[0])
	}
	if len(c.Args) > 1 {
		n1 = st.nanos(c.Args[1])
	}
	timeT := func() types.Type {
		if len(c.Args) > 0 {
			return c.Args[0].typ
		}
		return c.ResTypes()[0]
	}
	switch c.Callee {
	case "time.Now":
		return ret(now(c.ResTypes()[0]))
	case "time.Unix":
		if n, ok := c.Args[0].intVal(); ok && n == 0 {
			t := T.op("call:"+c.Callee, c.ResTypes()[0], c.Args...)
			eqLin(st.nanos(t), st.linOf(c.Args[1]))
			return ret(t)
		}
		return nil, false
	case "time.Time.Before":
		return ret(x.cmp(st, "lt", n0, n1))
	case "time.Time.After":
		return ret(x.cmp(st, "lt", n1, n0))
	case "time.Time.Equal":
		return ret(st.mkEq(n0, n1))
	case "time.Time.Compare":
		r := T.op("call:"+c.Callee, types.Typ[types.Int], c.Args...)
		ev(st, "call", "", nil, nil, []*Term{r})
		one := func(v int64) []*Term { return []*Term{T.Int(v)} }
		return []Out{
			{Res: one(-1), Assume: []cval{{x.cmp(st, "lt", n0, n1), true}}},
			{Res: one(0), Assume: []cval{{st.mkEq(n0, n1), true}}},
			{Res: one(1), Assume: []cval{{x.cmp(st, "lt", n1, n0), true}}},
		}, true
	case "time.Time.UnixNano":
		return ret(n0)
	case "time.Time.Unix", "time.Time.UnixMilli", "time.Time.UnixMicro":
		return ret(T.op("call:"+c.Callee, i64, c.Args...))
	case "time.Time.UTC", "time.Time.Local", "time.Time.Round":
		if c.Callee == "time.Time.Round" {
			return nil, false
		}
		return ret(c.Args[0])
	case "time.Time.Add":
		t := T.op("timeadd", c.Args[0].typ, c.Args[0], c.Args[1])
		eqLin(st.nanos(t), linTerm(n0).add(st.linOf(c.Args[1]), 1))
		return ret(t)
	case "time.Time.Sub":
		d := T.op("timesub", c.ResTypes()[0], c.Args[0], c.Args[1])
		eqLin(d, linTerm(n0).add(linTerm(n1), -1))
		return ret(d)
	case "time.Since", "time.Until":
		w := st.nanos(now(timeT()))
		d := T.sym(shortName(c.Callee), c.ResTypes()[0])
		l := linTerm(w).add(linTerm(n0), -1)
		if c.Callee == "time.Until" {
			l = l.scale(-1)
		}
		eqLin(d, l)
		return ret(d)
	}
	return nil, false
}

// elems lists the elements of a slice built for a variadic call
func (st *State) elems(s *Term) []*Term {
	if s.isNil() {
		return nil
	}
	b := s
	if b.k == TOp && b.op == "slice" {
		b = b.args[0]
	}
	if n, ok := arrayLen(b.typ); ok && b.alloc {
		var out []*Term
		et := types.NewPointer(derefT(b.typ).Underlying().(*types.Array).Elem())
		for i := int64(0); i < n; i++ {
			v := st.heap[st.x.T.ia(b, st.x.T.Int(i), et)]
			if v == nil {
				return []*Term{s}
			}
			out = append(out, v)
		}
		return out
	}
	return []*Term{s}
}

// onceDo treats sync.Once.Do: somebody else may have run the function already,
// a second call on the same path runs nothing.
func (x *Exec) onceDo(st *State, c *Call) {
	T := x.T
	a := st.resolve(c.Args[0])
	f := c.Args[1]
	done := false
	n := 0
	for _, k := range st.monKeys("once") {
		n++
		if st.mon[k] == a {
			done = true
		}
	}
	fire := func(s *State, d string) {
		x.event(s, &Ev{Kind: "once", Instr: c.Instr, Callee: c.Callee, Addr: a, Val: f, Detail: d, Fn: c.Fn})
	}
	if done {
		fire(st, "skip")
		x.complete(st, c.ret, nil)
		return
	}
	st.setT(fmt.Sprintf("once%02d", n), a)
	fresh := a.base().alloc && !st.esc[a.base()]
	if !fresh {
		o := st.clone()
		o.dropShared(x.cfg.Keep)
		fire(o, "skip")
		if !o.dead {
			x.complete(o, c.ret, nil)
			x.work = append(x.work, o)
		}
	}
	fire(st, "run")
	if st.dead {
		return
	}
	if (f.k == TClosure || f.k == TFunc) && f.fn.Blocks != nil && x.inlinable(st, f.fn) {
		ret := c.ret
		x.pushFrame(st, f.fn, nil, f.args, retInfo{mode: mCallback, cont: func(s *State, res []*Term) {
			x.complete(s, ret, nil)
		}})
		return
	}
	cc := *c
	cc.Common = c.Common
	cc.Static = nil
	cc.Callee = "dyn"
	cc.FnT = f
	cc.Args = nil
	_ = T
	x.opaque(st, &cc)
}

func (x *Exec) atomicModel(st *State, c *Call, ev func(*State, string, string, *Term, *Term, []*Term), boolT types.Type) ([]Out, bool) {
	T := x.T
	name := c.Callee[strings.LastIndexByte(c.Callee, '.')+1:]
	if len(c.Args) == 0 {
		return nil, false
	}
	a := st.resolve(c.Args[0])
	op := ""
	for _, p := range []string{"CompareAndSwap", "Load", "Store", "Swap", "Add", "And", "Or"} {
		if strings.HasPrefix(name, p) {
			op = p
			break
		}
	}
	priv := a.base().alloc && !st.esc[a.base()]
	cell := T.me(a, T.Str("atomic"))
	for _, v := range c.Args[1:] {
		if !priv {
			st.escape(v)
		}
	}
	switch op {
	case "Load":
		var v *Term
		if priv {
			v = st.heap[cell]
		}
		if v == nil {
			v = T.sym("atomic", c.ResTypes()[0])
			v.instr, v.prov = c.Instr, []*Term{a}
			if isInt(v.typ) {
				st.atomFacts(v)
			}
			if l := st.taintOf(a); l != "" {
				st.addTaint(v, l)
			}
		}
		ev(st, "aload", "", a, v, []*Term{v})
		return []Out{{Res: []*Term{v}}}, true
	case "Store":
		ev(st, "astore", "", a, c.Args[1], nil)
		if priv {
			st.heap[cell] = c.Args[1]
		}
		return []Out{{}}, true
	case "Swap":
		v := T.sym("swapped", c.ResTypes()[0])
		v.instr, v.prov = c.Instr, []*Term{a}
		ev(st, "aswap", "", a, c.Args[1], []*Term{v})
		if priv {
			delete(st.heap, cell)
		}
		return []Out{{Res: []*Term{v}}}, true
	case "Add", "And", "Or":
		v := T.sym("added", c.ResTypes()[0])
		v.instr, v.prov = c.Instr, []*Term{a}
		ev(st, "aadd", op, a, c.Args[1], []*Term{v})
		delete(st.heap, cell)
		return []Out{{Res: []*Term{v}}}, true
	case "CompareAndSwap":
		old, nw := c.Args[1], c.Args[2]
		return []Out{
			{Res: []*Term{T.Bool(false)}, Do: func(s *State) {
				s.note(instrPos(c.Instr), "CompareAndSwap fails")
				x.event(s, &Ev{Kind: "acas", Instr: c.Instr, Callee: c.Callee, Addr: a, Args: []*Term{old, nw}, Detail: "fail", Fn: c.Fn})
			}},
			{Res: []*Term{T.Bool(true)}, Do: func(s *State) {
				s.note(instrPos(c.Instr), "CompareAndSwap succeeds")
				x.event(s, &Ev{Kind: "acas", Instr: c.Instr, Callee: c.Callee, Addr: a, Args: []*Term{old, nw}, Val: nw, Detail: "ok", Fn: c.Fn})
			}},
		}, true
	}
	return nil, false
}

var _ ssa.Instruction
