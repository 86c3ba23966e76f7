package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The FIFO queue. Its linked list is taken for what package glist documents;
// elements are known by their place counted from the front.

const queuePkg = "gogenerics/gcontainers/gqueue"
const listPkg = "gogenerics/gcontainers/glist"

type queueCheck struct {
	c        *Ctx
	name     string
	ps       []*Term
	lst, cnt *types.Var // the fields of Queue that hold the list and the number
	n0       *Term      // elements on entry
	arg      *Term      // the queue the function is about
	isGen    bool
}

func (k *queueCheck) bad(st *State, ev *Ev, rule, msg string) {
	k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
}
func (k *queueCheck) ob(ev *Ev, rule string) {
	k.c.Ob(rule, where(ev)+" in "+k.name)
	k.c.N(rule)
}

func (k *queueCheck) fields() bool {
	n := k.c.P.named(queuePkg, "Queue")
	if n == nil {
		k.c.Bad(nil, "anchor", queuePkg+".Queue", 0, "type not found")
		return false
	}
	s, _ := n.Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i).Origin()
		if p := pointee(f.Type()); p != nil && namedIs(p, modPath+"/"+listPkg, "List") {
			k.lst = f
		} else if isInt(f.Type()) {
			k.cnt = f
		}
	}
	return k.lst != nil
}

func listOp(c *Call) string {
	if strings.HasPrefix(c.Callee, listPkg+".") {
		return strings.TrimPrefix(c.Callee, listPkg+".")
	}
	return ""
}

func (k *queueCheck) cur(st *State, l *Term) bool {
	t := st.getT("lst")
	return t != nil && st.resolve(t) == st.resolve(l)
}

func (k *queueCheck) value(st *State, e *Term, et types.Type) *Term {
	s := coreStruct(derefT(e.typ))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Value" {
			f := s.Field(i)
			return st.load(st.x.T.fa(e, f.Origin(), types.NewPointer(f.Type())), f.Type(), "Value", nil)
		}
	}
	return nil
}

func (k *queueCheck) model(st *State, c *Call) ([]Out, bool) {
	op := listOp(c)
	if op == "" {
		return nil, false
	}
	T := st.x.T
	intT := types.Typ[types.Int]
	rt := c.ResTypes()
	if op == "New" {
		l := T.sym("list", rt[0])
		l.nonnil = true
		return []Out{{Res: []*Term{l}, Do: func(s *State) {
			s.setT("lst", l)
			s.setT("#len", T.Int(0))
			s.clearMon("front")
			s.clearMon("elt")
			s.setT("new", l)
		}}}, true
	}
	if op == "Element.Next" {
		e := st.getT("elt")
		if e == nil || st.resolve(e) != st.resolve(c.Args[0]) {
			k.c.Undecided(k.name, "walks the list in a way that is not followed")
			return nil, false
		}
		n := T.sym("element", rt[0])
		n.nonnil = true
		last := T.op("le", types.Typ[types.Bool], st.getT("#len"), st.x.arith(st, "+", st.getT("#pos"), T.Int(1), intT))
		return []Out{
			{Res: []*Term{T.Nil()}, Assume: []cval{{last, true}}, Do: func(s *State) { s.setT("elt", nil); s.setT("passed", T.Bool(true)) }},
			{Res: []*Term{n}, Assume: []cval{{last, false}}, Do: func(s *State) {
				s.setT("elt", n)
				inc(s, "#pos")
			}},
		}, true
	}
	if !strings.HasPrefix(op, "List.") || len(c.Args) == 0 {
		return nil, false
	}
	if !k.cur(st, c.Args[0]) {
		k.c.Undecided(k.name, "uses a list that is not the queue's")
		return nil, false
	}
	empty := T.op("le", types.Typ[types.Bool], st.getT("#len"), T.Int(0))
	switch strings.TrimPrefix(op, "List.") {
	case "Len":
		return []Out{{Res: []*Term{st.getT("#len")}}}, true
	case "PushBack":
		e := T.sym("element", rt[0])
		e.nonnil = true
		v := c.Args[1]
		return []Out{{Res: []*Term{e}, Do: func(s *State) {
			k.pushed(s, c, v)
			inc(s, "#len")
		}}}, true
	case "PushFront":
		return []Out{{Res: []*Term{T.sym("element", rt[0])}, Do: func(s *State) {
			k.c.Bad(s, "fifo", c.Callee+" in "+k.name, c.Instr.Pos(), "puts an element at the head of the queue")
			inc(s, "#len")
			s.clearMon("front")
		}}}, true
	case "Init":
		return []Out{{Res: []*Term{c.Args[0]}, Do: func(s *State) {
			s.setT("#len", T.Int(0))
			s.clearMon("front")
			s.clearMon("elt")
		}}}, true
	case "Front":
		f := st.getT("front")
		if f == nil {
			f = T.sym("element", rt[0])
			f.nonnil = true
		}
		return []Out{
			{Res: []*Term{T.Nil()}, Assume: []cval{{empty, true}}, Do: func(s *State) { s.setT("passed", T.Bool(true)) }},
			{Res: []*Term{f}, Assume: []cval{{empty, false}}, Do: func(s *State) {
				s.setT("front", f)
				s.setT("elt", f)
				s.setT("#pos", T.Int(0))
			}},
		}, true
	case "Back":
		b := T.sym("element", rt[0])
		b.nonnil = true
		return []Out{
			{Res: []*Term{T.Nil()}, Assume: []cval{{empty, true}}},
			{Res: []*Term{b}, Assume: []cval{{empty, false}}},
		}, true
	case "Remove":
		e := st.resolve(c.Args[1])
		f := st.getT("front")
		k.c.Ob("fifo", c.Callee+" in "+k.name)
		k.c.N("fifo")
		if e.isNil() {
			k.c.Bad(st, "fifo", c.Callee+" in "+k.name, c.Instr.Pos(), "takes an element out of a queue that may be empty")
			st.dead = true
			return nil, true
		}
		v := k.value(st, e, nil)
		if f == nil || st.resolve(f) != e {
			k.c.Bad(st, "fifo", c.Callee+" in "+k.name, c.Instr.Pos(), "removes an element that is not the head of the queue")
		}
		return []Out{{Res: []*Term{T.op("iface", rt[0], v)}, Do: func(s *State) {
			dec(s, "#len")
			s.setT("front", nil)
			s.setT("elt", nil)
			s.setT("took", orNil(T, v))
		}}}, true
	case "Range":
		return nil, false
	}
	k.c.Undecided(k.name, "uses "+op+" of the list")
	return nil, false
}

// pushed: v goes to the end of the list
func (k *queueCheck) pushed(st *State, c *Call, v *Term) {
	T := st.x.T
	at := c.Callee + " in " + k.name
	k.c.Ob("fifo", at)
	k.c.N("fifo")
	switch k.name {
	case "Queue.Push":
		if st.resolve(v) != k.ps[1] {
			k.c.Bad(st, "fifo", at, c.Instr.Pos(), "puts something else than the element given into the queue")
		}
		if st.getT("put") != nil {
			k.c.Bad(st, "fifo", at, c.Instr.Pos(), "puts the element into the queue twice")
		}
		st.setT("put", T.Bool(true))
	case "Gen":
		ok := false
		for _, r := range cellsOf(st, v) {
			if r.base == k.ps[0] && r.fld < 0 && eqLin(st, st.linOf(r.idx), st.linOf(st.getT("#len"))) {
				ok = true
			}
		}
		if !ok {
			k.c.Bad(st, "fifo", at, c.Instr.Pos(), "what is put into the queue is not the next element of the slice")
		}
	default:
		k.c.Bad(st, "fifo", at, c.Instr.Pos(), "puts an element into the queue")
	}
}

func (k *queueCheck) event(st *State, ev *Ev) {
	T := st.x.T
	switch ev.Kind {
	case "load":
		if ev.Addr.k == TIA {
			recCell(st, ev.Val, ev.Addr.args[0], ev.Addr.args[1], 4)
		}
		if e := st.getT("elt"); e != nil && ev.Addr.k == TFA && ev.Addr.args[0] == st.resolve(e) && ev.Addr.fld.Name() == "Value" {
			st.setT("at", T.tuple(ev.Val, st.getT("#pos")))
		}
	case "store":
		if ev.Addr.k == TIA && st.resolve(ev.Addr.args[0]).alloc && k.name == "PeekAll" {
			if _, arr := arrayLen(ev.Addr.args[0].typ); arr {
				return
			}
			k.write(st, ev, st.linOf(ev.Addr.args[1]), ev.Val)
			st.setT("bld", st.resolve(ev.Addr.args[0]))
		}
	case "append":
		if k.name == "PeekAll" && len(ev.Args) > 1 {
			if vs, ok := varargs(st, ev.Args[1]); ok {
				pos := lenOf(st, st.resolve(ev.Addr))
				for i, v := range vs {
					k.write(st, ev, pos.addk(int64(i)), v)
				}
				st.setT("bld", ev.Val)
			}
		}
	case "index":
		k.ob(ev, "bounds")
		i, n := st.linOf(ev.Val), st.linOf(ev.Args[0])
		if !st.prove(i) || !st.prove(n.add(i, -1).addk(-1)) {
			k.bad(st, ev, "bounds", "the index may be out of range")
		}
	case "send":
		if k.name != "Iterator" {
			return
		}
		k.ob(ev, "fifo")
		ch := st.getT("chan")
		t := st.getT("took")
		if ch == nil || st.resolve(ch) != st.resolve(ev.Addr) {
			k.c.Undecided(k.name, "sends on a channel that is not its own")
			return
		}
		if st.getT("closed") != nil {
			k.bad(st, ev, "fifo", "sends on a closed channel")
		}
		if t == nil || st.resolve(t) != st.resolve(ev.Val) {
			k.bad(st, ev, "fifo", "what is sent is not the element taken out last")
		}
		st.setT("took", nil)
		if cp := st.getT("room"); cp != nil && !st.prove(st.linOf(cp).add(st.linOf(st.getT("#sent")), -1).addk(-1)) {
			k.bad(st, ev, "fifo", "there may be no room in the channel, and nobody who receives")
		}
		inc(st, "#sent")
	case "make":
		if k.name == "Iterator" && ev.Val.typ != nil {
			if _, ok := ev.Val.typ.Underlying().(*types.Chan); ok {
				st.setT("chan", ev.Val)
				n := T.Int(0)
				if len(ev.Args) > 0 {
					n = ev.Args[0]
				}
				st.setT("room", n)
			}
		}
	case "close":
		if ch := st.getT("chan"); ch != nil && st.resolve(ch) == st.resolve(ev.Addr) {
			if st.getT("closed") != nil {
				k.bad(st, ev, "fifo", "closes the channel twice")
			}
			st.setT("closed", T.Bool(true))
		}
	case "now", "go":
		if ev.Kind == "go" {
			k.c.Undecided(k.name, "starts a goroutine")
		}
	case "backedge":
		dropCells(st, ev)
		st.setT("at", nil)
	case "exit":
		k.exit(st, ev)
	}
}

func (k *queueCheck) write(st *State, ev *Ev, pos Lin, v *Term) {
	k.ob(ev, "fifo")
	at := st.getT("at")
	if at == nil || at.args[0] != st.resolve(v) || !eqLin(st, pos, st.linOf(at.args[1])) || !eqLin(st, pos, st.linOf(st.getT("#n"))) {
		k.bad(st, ev, "fifo", "what is written is not the element with the same place in the queue")
	}
	inc(st, "#n")
}

func (k *queueCheck) exit(st *State, ev *Ev) {
	if ev.Panics {
		return
	}
	T := st.x.T
	bool_ := types.Typ[types.Bool]
	var r []*Term
	for _, v := range ev.Res {
		r = append(r, st.resolve(v))
	}
	q := k.arg
	if k.name == "New" || k.name == "Gen" {
		q = r[0]
	}
	// the list and the number
	k.ob(ev, "count")
	ln := st.linOf(st.getT("#len"))
	l := st.load(fAddr(st, q, k.lst), k.lst.Type(), "list", nil)
	if !k.cur(st, l) {
		k.bad(st, ev, "count", "the list of the queue is not the one with its elements")
		return
	}
	if k.cnt != nil {
		n := st.heap[fAddr(st, q, k.cnt)]
		if n == nil || !eqLin(st, st.linOf(n), ln) {
			k.bad(st, ev, "count", "the number kept by the queue is not that of its elements")
		}
	}
	n0 := linConst(0)
	if k.n0 != nil {
		n0 = st.linOf(st.resolve(k.n0))
	}
	delta := func(d int64) {
		if !eqLin(st, ln, n0.addk(d)) {
			k.bad(st, ev, "count", "the number of elements afterwards is wrong")
		}
	}
	k.ob(ev, "answer")
	empty := func(s *State) *Term {
		if k.n0 == nil {
			return T.Bool(true)
		}
		return T.op("le", bool_, s.resolve(k.n0), T.Int(0))
	}
	switch k.name {
	case "New":
		delta(0)
	case "Clear":
		if !eqLin(st, ln, linConst(0)) {
			k.bad(st, ev, "count", "the queue is not empty afterwards")
		}
	case "Gen":
		if !eqLin(st, ln, lenOf(st, k.ps[0])) {
			k.bad(st, ev, "count", "the queue does not hold all elements of the slice")
		}
	case "Queue.Len":
		delta(0)
		if !eqLin(st, st.linOf(r[0]), n0) {
			k.bad(st, ev, "answer", "the length is not the number of elements")
		}
	case "IsEmpty":
		delta(0)
		st.cases(r[0], func(s *State, v bool) {
			e, known := s.truth(empty(s))
			if !known || e != v {
				k.bad(s, ev, "answer", "the answer is not whether there are no elements")
			}
		})
	case "Queue.Push":
		delta(1)
		if st.getT("put") == nil {
			k.bad(st, ev, "fifo", "the element is not put into the queue")
		}
		if !st.isNilT(r[0]) {
			k.bad(st, ev, "answer", "reports an error")
		}
	case "Queue.Pop", "Peek":
		pop := k.name == "Queue.Pop"
		st.cases(empty(st), func(s *State, e bool) {
			if e {
				if !isZero(s, r[0]) || !s.notNil(r[1]) && !globalIs(r[1], "ErrorEmptyQueue") {
					k.bad(s, ev, "answer", "an empty queue has to give the zero value and an error")
				}
				return
			}
			if !s.isNilT(r[1]) {
				k.bad(s, ev, "answer", "reports an error although there are elements")
			}
			var want *Term
			if pop {
				want = s.getT("took")
			} else if f := s.getT("front"); f != nil {
				want = k.value(s, s.resolve(f), nil)
			}
			if want == nil || s.resolve(want) != unbox(s.resolve(r[0])) && s.resolve(want) != s.resolve(r[0]) {
				k.bad(s, ev, "answer", "the result is not the head of the queue")
			}
		})
		if pop {
			split(st, n0.addk(-1), func(s *State, some bool) {
				d := int64(0)
				if some {
					d = -1
				}
				if !eqLin(s, ln, n0.addk(d)) {
					k.bad(s, ev, "count", "the number of elements afterwards is wrong")
				}
			})
		} else {
			delta(0)
		}
	case "PeekAll":
		delta(0)
		if !eqLin(st, lenOf(st, r[0]), n0) || !eqLin(st, st.linOf(st.getT("#n")), n0) {
			k.bad(st, ev, "answer", "the result does not hold all elements")
		}
		if b := st.getT("bld"); b != nil && rootOf(st, st.resolve(b)) != rootOf(st, r[0]) {
			k.bad(st, ev, "answer", "returns another slice than the one that was filled")
		}
	case "Iterator":
		if !eqLin(st, ln, linConst(0)) || !eqLin(st, st.linOf(st.getT("#sent")), n0) {
			k.bad(st, ev, "answer", "not all elements are moved to the channel")
		}
		if st.getT("closed") == nil {
			k.bad(st, ev, "answer", "the channel is not closed")
		}
		if ch := st.getT("chan"); ch == nil || st.resolve(ch) != r[0] {
			k.bad(st, ev, "answer", "returns another channel than the one that was filled")
		}
	}
}

func (k *queueCheck) run(name string) {
	fn := k.c.Fn(queuePkg, name)
	if fn == nil {
		return
	}
	k.name = name
	k.c.Run(fn, &Config{Bounds: true, Event: k.event, Model: k.model, NoInline: func(g *ssa.Function) bool { return false },
		Keep: func(st *State, a *Term) bool { return a.k == TFA && (a.fld == k.lst || a.fld == k.cnt) }},
		func(st *State, ps []*Term) {
			k.ps = ps
			T := st.x.T
			k.n0, k.arg = nil, nil
			st.setT("#len", T.Int(0))
			if len(ps) > 0 && name != "Gen" {
				k.arg = ps[0]
				l := T.root("queue's list", k.lst.Type())
				l.nonnil = true
				k.n0 = T.root("elements", types.Typ[types.Int])
				st.addLin(linTerm(k.n0))
				st.heap[fAddr(st, k.arg, k.lst)] = l
				if k.cnt != nil {
					st.heap[fAddr(st, k.arg, k.cnt)] = k.n0
				}
				st.setT("lst", l)
				st.setT("#len", k.n0)
			}
			st.setT("#pos", T.Int(0))
			switch name {
			case "PeekAll":
				st.setT("#n", T.Int(0))
			case "Iterator":
				st.setT("#sent", T.Int(0))
			}
		})
}

func init() {
	register(&Property{ID: "C27", Run: func(c *Ctx) {
		c.rules["fifo"] = "elements enter at the end of the list and leave at its front; copies keep the order"
		c.rules["count"] = "the number kept by the queue is the number of elements in its list, changed as the operation says"
		c.rules["answer"] = "every result is what the state of the queue says it is"
		c.rules["bounds"] = "every index is within its slice"
		k := &queueCheck{c: c}
		if !k.fields() {
			if len(c.viol) == 0 {
				c.Undecided("gqueue.Queue", "is not built on a linked list")
			}
			return
		}
		for _, n := range []string{"New", "Queue.Len", "Queue.Push", "Queue.Pop", "Peek", "PeekAll", "IsEmpty", "Clear", "Iterator", "Gen"} {
			k.run(n)
		}
		c.Min("count", 10)
		c.Min("fifo", 4)
	}})
}
