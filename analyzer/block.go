package main

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type liveness struct {
	in    map[*ssa.BasicBlock]map[ssa.Value]bool
	order map[ssa.Value]int
	back  map[[2]*ssa.BasicBlock]bool
	head  map[*ssa.BasicBlock]bool
}

func (x *Exec) liveOf(f *ssa.Function) *liveness {
	if l, ok := x.live[f]; ok {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, order: map[ssa.Value]int{}, back: map[[2]*ssa.BasicBlock]bool{}, head: map[*ssa.BasicBlock]bool{}}
	n := 0
	for _, p := range f.Params {
		n++
		l.order[p] = n
	}
	for _, p := range f.FreeVars {
		n++
		l.order[p] = n
	}
	for _, b := range f.Blocks {
		l.in[b] = map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				n++
				l.order[v] = n
			}
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l.back[[2]*ssa.BasicBlock{b, s}] = true
				l.head[s] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s] {
					live[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, ph)
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for j, p := range s.Preds {
						if p == b {
							live[ph.Edges[j]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, o := range in.Operands(nil) {
					if *o != nil {
						live[*o] = true
					}
				}
			}
			// phis are defined on entry
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					live[ph] = true
				}
			}
			for v := range live {
				if _, ok := l.order[v]; !ok {
					continue
				}
				if !l.in[b][v] {
					l.in[b][v] = true
					ch = true
				}
			}
		}
	}
	// phis that nothing reads are not live
	x.live[f] = l
	return l
}

// liveAt: values needed from instruction pc of block b on
func (l *liveness) liveAt(f *Frame) []ssa.Value {
	live := map[ssa.Value]bool{}
	b := f.blk
	for _, s := range b.Succs {
		for v := range l.in[s] {
			live[v] = true
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(live, ph)
			for j, p := range s.Preds {
				if p == b {
					live[ph.Edges[j]] = true
				}
			}
		}
	}
	for j := len(b.Instrs) - 1; j >= f.pc; j-- {
		in := b.Instrs[j]
		for _, o := range in.Operands(nil) {
			if *o != nil {
				live[*o] = true
			}
		}
	}
	if f.fn.Recover != nil {
		for v := range l.in[f.fn.Recover] {
			live[v] = true
		}
	}
	var out []ssa.Value
	for v := range live {
		if _, ok := l.order[v]; ok {
			if _, have := f.env[v]; have {
				out = append(out, v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return l.order[out[i]] < l.order[out[j]] })
	return out
}

func (x *Exec) jump(st *State, to *ssa.BasicBlock) {
	f := st.top()
	from := f.blk
	lv := x.liveOf(f.fn)
	back := lv.back[[2]*ssa.BasicBlock{from, to}]
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	// phis are assigned in parallel
	type asg struct {
		p *ssa.Phi
		t *Term
	}
	var as []asg
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		as = append(as, asg{ph, x.val(st, ph.Edges[idx])})
	}
	head := lv.head[to]
	if head && x.cfg.SplitBools {
		for _, a := range as {
			b, ok := a.p.Type().Underlying().(*types.Basic)
			if !ok || b.Kind() != types.Bool || a.t.k != TOp {
				continue
			}
			in := a.p.Edges[idx]
			x.event(st, &Ev{Kind: "cond", Fn: f.fn, Instr: a.p, Val: a.t})
			decide := func(s *State, v bool) {
				x.event(s, &Ev{Kind: "branch", Fn: f.fn, Instr: a.p, Val: a.t, Detail: fmt.Sprint(v)})
				s.top().env[in] = x.T.Bool(v)
				if !s.dead {
					x.jump(s, to)
				}
			}
			if v, known := st.truth(a.t); known {
				decide(st, v)
				return
			}
			o := st.clone()
			if o.assume(a.t, false) {
				decide(o, false)
				if !o.dead {
					x.work = append(x.work, o)
				}
			}
			if st.assume(a.t, true) {
				decide(st, true)
			}
			return
		}
	}
	if head && x.forked(st, nil) {
		return
	}
	if head {
		// about to reach the head of a loop: values by phi
		ev := &Ev{Kind: "edge", Fn: f.fn, Instr: to.Instrs[0]}
		for _, a := range as {
			ev.Args = append(ev.Args, a.t)
		}
		x.event(st, ev)
		if st.dead {
			return
		}
		for i := range as {
			as[i].t = st.resolve(as[i].t)
		}
	}
	f.prev, f.blk, f.pc = from, to, n
	for _, a := range as {
		t := a.t
		if head {
			t = x.headPhi(st, a.p, t, back)
		}
		f.env[a.p] = t
	}
	entry := map[*Term]Lin{} // integer variables of the loop, as they are on entry
	if head {
		for _, a := range as {
			if isInt(a.p.Type()) {
				entry[f.env[a.p]] = st.linOf(a.t)
			}
		}
		// ghost counters behave like integer variables of the loop
		for _, k := range st.monKeys("#") {
			t := st.mon[k]
			g := x.T.sym("ghost:"+k, types.Typ[types.Int])
			st.restate(st.linOf(t), g)
			l := linTerm(g).add(st.linOf(t), -1)
			st.addLin(l)
			st.addLin(l.scale(-1))
			entry[g] = st.linOf(t)
			st.setT(k, g)
		}
	}
	if st.dead {
		return
	}
	if head && back && x.cfg.EqTemplates {
		st.pairs(entry)
	}
	if head && back {
		st.setT("~looped", x.T.Bool(true))
		x.generalise(st, to)
		x.event(st, &Ev{Kind: "backedge", Fn: f.fn, Instr: to.Instrs[0]})
	}
	if head && !back {
		x.event(st, &Ev{Kind: "loopentry", Fn: f.fn, Instr: to.Instrs[0]})
		if !x.cfg.NoTemplates && (x.cfg.Bounds || len(st.monKeys("#")) > 0) {
			x.phiTemplates(st, to)
			for t, e := range entry {
				entry[t] = st.settle(e)
			}
			// a ghost counter that goes along with a variable
			for _, k := range st.monKeys("#") {
				for _, a := range as {
					g, p := st.mon[k], f.env[a.p]
					lg, ok := entry[g]
					lp, ok2 := entry[p]
					if !ok || !ok2 {
						continue
					}
					if d := lg.add(lp, -1); len(d.c) == 1 {
						l := linTerm(g).add(linTerm(p), -1).add(d, -1)
						st.addLinForce(l)
						st.addLinForce(l.scale(-1))
					}
				}
			}
			if !x.cfg.EqTemplates {
				multiples(st, entry)
			}
			// two variables that run towards each other
			var run []*Term
			for t := range entry {
				run = append(run, t)
			}
			sort.Slice(run, func(i, j int) bool { return run[i].id < run[j].id })
			for i, p := range run {
				for _, q := range run[:i] {
					e := entry[p].add(entry[q], 1)
					if x.cfg.EqTemplates || len(run) > 5 || len(entry[p].c) > 2 || len(entry[q].c) > 2 || len(e.c) == 0 || len(e.c) > 2 {
						continue
					}
					l := linTerm(p).add(linTerm(q), 1).add(e, -1)
					st.addLinForce(l)
					st.addLinForce(l.scale(-1))
				}
			}
		}
	}
	if st.dead {
		return
	}
	if head && x.cfg.EqTemplates {
		st.zones()
	}
	if len(to.Preds) > 1 {
		key, names := x.canon(st, head)
		if !head {
			if x.seen[key] {
				st.dead = true
			}
			x.seen[key] = true
			return
		}
		if _, known := x.widen[key]; !known && back && !x.cfg.NoTemplates && (x.cfg.Bounds || len(st.monKeys("#")) > 0) {
			x.phiTemplates(st, to)
			if !x.cfg.EqTemplates {
				multiples(st, entry)
			}
			key, names = x.canon(st, head)
		}
		x.widenAt(st, key, names)
	}
}

// counted: a loop adds to the variable or takes from it
func counted(p *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, added bool) bool
	walk = func(v ssa.Value, added bool) bool {
		if v == p {
			return added
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				if walk(e, added) {
					return true
				}
			}
		case *ssa.BinOp:
			add := added || v.Op == token.ADD || v.Op == token.SUB || v.Op == token.MUL
			return walk(v.X, add) || walk(v.Y, add)
		case *ssa.Convert:
			return walk(v.X, added)
		case *ssa.ChangeType:
			return walk(v.X, added)
		case *ssa.Extract:
			return walk(v.Tuple, true)
		case *ssa.Call:
			for _, a := range v.Call.Args {
				if walk(a, true) {
					return true
				}
			}
		}
		return false
	}
	if b, ok := p.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8) {
		return false
	}
	for _, e := range p.Edges {
		if e != p && walk(e, false) {
			return true
		}
	}
	return false
}

// headPhi: at a loop head integer and compound values become symbols, so that
// the states of the loop are finitely many.
func (x *Exec) headPhi(st *State, p *ssa.Phi, t *Term, back bool) *Term {
	T := x.T
	if x.cfg.KeepConst && t.k == TConst && isInt(p.Type()) && !counted(p) {
		return t
	}
	if isInt(p.Type()) {
		if !back && t.k != TConst && t.k == TSym {
			// keep symbols; constants and expressions are generalised below
		}
		s := T.sym("phi:"+phiName(p), p.Type())
		s.instr = p
		st.atomFacts(s)
		l := linTerm(s).add(st.linOf(t), -1)
		st.addLin(l)
		st.addLin(l.scale(-1))
		if tn := st.taintOf(t); tn != "" {
			st.addTaint(s, tn)
		}
		x.event(st, &Ev{Kind: "phi", Instr: p, Val: s, Addr: t})
		return s
	}
	if !back {
		return t
	}
	if t.k == TOp || t.k == TField || t.k == TStruct || t.k == TIA {
		if t.k == TOp && (t.op == "iface" || strings.HasPrefix(t.op, "builtin")) && t.args[0].k == TSym {
			return t
		}
		s := T.sym("phi:"+phiName(p), p.Type())
		s.instr = p
		s.prov = []*Term{t}
		if tn := st.taintOf(t); tn != "" {
			st.addTaint(s, tn)
		}
		switch p.Type().Underlying().(type) {
		case *types.Slice:
			l := linTerm(T.op("len", types.Typ[types.Int], s)).add(st.linOf(T.op("len", types.Typ[types.Int], t)), -1)
			st.addLin(l)
			st.addLin(l.scale(-1))
		case *types.Basic:
			if isString(p.Type()) {
				l := linTerm(T.op("len", types.Typ[types.Int], s)).add(st.linOf(T.op("len", types.Typ[types.Int], t)), -1)
				st.addLin(l)
				st.addLin(l.scale(-1))
			}
		}
		x.event(st, &Ev{Kind: "phi", Instr: p, Val: s, Addr: t})
		return s
	}
	return t
}

// generalise forgets, from the second round of a loop on, what is known of
// memory that no live variable points to directly, and how the contents of
// cells were computed. Both only lose information.
func (x *Exec) generalise(st *State, head *ssa.BasicBlock) {
	T := x.T
	vk := fmt.Sprintf("~visit%p", head)
	n := int64(0)
	if t := st.getT(vk); t != nil {
		n, _ = t.intVal()
	}
	n++
	if n < 100 {
		st.setT(vk, T.Int(n))
	}
	if n < 2 {
		return
	}
	keep := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || keep[t] {
			return
		}
		keep[t] = true
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, f := range st.frames {
		for _, v := range x.liveOf(f.fn).liveAt(f) {
			mark(f.env[v])
		}
		for _, d := range f.defers {
			mark(d.fnT)
			for _, a := range d.args {
				mark(a)
			}
		}
		mark(f.panicVal)
	}
	for k, t := range st.mon {
		if !strings.HasPrefix(k, "~visit") {
			mark(t)
		}
	}
	// cells that live variables point into hold further variables of the function
	for a, v := range st.heap {
		if b := a.base(); b.alloc && keep[b] && a == b {
			mark(v)
		}
	}
	var drop []*Term
	for a := range st.heap {
		b := a.base()
		if keep[b] || b.k == TGlobal || (b.k == TSym && b.named) {
			continue
		}
		if x.cfg.KeepInLoops && x.cfg.Keep(st, a) {
			continue
		}
		drop = append(drop, a)
	}
	sort.Slice(drop, func(i, j int) bool { return drop[i].id < drop[j].id })
	for _, a := range drop {
		st.escape(st.heap[a])
		delete(st.heap, a)
	}
	var cells []*Term
	for a, v := range st.heap {
		if (v.k == TOp || v.k == TConst) && isInt(v.typ) || termDepth(v) > 6 {
			cells = append(cells, a)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, a := range cells {
		v := st.heap[a]
		s := T.sym("cell", v.typ)
		if isInt(v.typ) {
			st.atomFacts(s)
			l := linTerm(s).add(st.linOf(v), -1)
			st.addLin(l)
			st.addLin(l.scale(-1))
		}
		if tn := st.taintOf(v); tn != "" {
			st.addTaint(s, tn)
		}
		st.escape(v)
		st.heap[a] = s
	}
	for t := range st.cond {
		if termDepth(t) > 8 {
			delete(st.cond, t)
		}
	}
}

func termDepth(t *Term) int {
	d := 0
	for _, a := range t.args {
		if a != nil {
			if n := termDepth(a); n > d {
				d = n
			}
		}
	}
	return d + 1
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// multiples relates a variable of a loop to a multiple of another that it starts with.
func multiples(st *State, entry map[*Term]Lin) {
	var run []*Term
	for t := range entry {
		run = append(run, t)
	}
	sort.Slice(run, func(i, j int) bool { return run[i].id < run[j].id })
	for _, p := range run {
		for _, q := range run {
			var m int64
			for t, c := range entry[q].c {
				if n := entry[p].c[t]; n != 0 && n%c == 0 {
					m = n / c
				}
			}
			if m < 2 || m > 8 {
				continue
			}
			if d := entry[p].add(entry[q], -m); len(d.c) == 0 {
				l := linTerm(p).add(linTerm(q), -m).addk(-d.k)
				st.addLinForce(l)
				st.addLinForce(l.scale(-1))
			}
		}
	}
}

// phiTemplates adds differences between the integer variables of a loop as
// candidate invariants; widening drops those the loop does not keep.
func (x *Exec) phiTemplates(st *State, b *ssa.BasicBlock) {
	f := st.top()
	var ts []*Term
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isInt(ph.Type()) {
			ts = append(ts, f.env[ph])
		} else if _, ok := ph.Type().Underlying().(*types.Slice); ok {
			ts = append(ts, x.T.op("len", types.Typ[types.Int], f.env[ph]))
		}
	}
	gs := st.monKeys("#")
	if x.cfg.EqTemplates {
		for _, k := range gs {
			g := st.mon[k]
			for _, t := range ts {
				if d := st.linOf(g).add(st.linOf(t), -1); len(d.c) > 0 {
					for n := int64(-2); n <= 2; n++ {
						if l := d.addk(n); st.prove(l) && st.prove(l.scale(-1)) {
							st.addLinForce(l)
							st.addLinForce(l.scale(-1))
							break
						}
					}
				}
			}
			if g.k == TSym && st.prove(linTerm(g)) {
				st.addLinForce(linTerm(g))
			}
		}
		for _, t := range ts {
			if t.k == TSym && st.prove(linTerm(t).addk(1)) {
				st.addLinForce(linTerm(t).addk(1))
			}
		}
		return
	}
	for _, k := range gs {
		ts = append(ts, st.mon[k])
	}
	if len(gs) > 0 {
		// numbers kept in memory
		var cs []*Term
		for a, v := range st.heap {
			if v.k == TSym && v.label == "cell" && v.typ != nil && isInt(v.typ) && (a.k == TFA || a.k == TSym) {
				cs = append(cs, v)
			}
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		if len(cs) > 3 {
			cs = cs[:3]
		}
		ts = append(ts, cs...)
	}
	if x.cfg.Bounds {
		// what indices are compared with
		var ls []*Term
		seen := map[*Term]bool{}
		for _, l := range st.lin {
			for t := range l.c {
				if t.k == TOp && t.op == "len" && !seen[t] {
					seen[t] = true
					ls = append(ls, t)
				}
			}
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		if len(ls) > 2 {
			ls = ls[:2]
		}
		for _, n := range ls {
			for _, a := range ts {
				if l := linTerm(n).add(linTerm(a), -1).addk(-1); a.k == TSym && st.prove(l) {
					st.addLinForce(l)
				}
			}
		}
	}
	for i, a := range ts {
		if a.k == TSym {
			for d := int64(-1); d <= 0; d++ {
				if l := st.linOf(a).addk(d); st.prove(l) {
					st.addLinForce(l)
					break
				}
			}
		}
		for j, b := range ts {
			if i == j {
				continue
			}
			// the tightest d in -2..2 with a-b <= d
			for d := int64(-2); d <= 2; d++ {
				l := linConst(d).add(st.linOf(b), 1).add(st.linOf(a), -1)
				if st.prove(l) {
					st.addLinForce(l)
					break
				}
			}
		}
	}
}

// zones keeps small bounds of single terms and of differences between two.
// Of a ghost with another term only equations are kept, and that it is not
// below a length.
// pairs states how the variables of a loop relate to each other and to
// lengths, where they were counted up by amounts that are not constants.
func (st *State) pairs(entry map[*Term]Lin) {
	var vs, rest []*Term
	for v, e := range entry {
		if len(e.c) > 1 {
			vs = append(vs, v)
		} else {
			rest = append(rest, v)
		}
	}
	if len(vs) == 0 {
		return
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
	lens := map[*Term]bool{}
	for _, l := range st.lin {
		for t := range l.c {
			if t.k == TOp && t.op == "len" {
				lens[t] = true
			}
		}
	}
	var ls []*Term
	for t := range lens {
		ls = append(ls, t)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	var add []Lin
	for i, v := range vs {
		for _, w := range vs[:i] {
			d := entry[v].add(entry[w], -1)
			for k := int64(-2); k <= 2; k++ {
				if e := d.addk(k); st.prove(e) && st.prove(e.scale(-1)) {
					l := linTerm(v).add(linTerm(w), -1).addk(k)
					add = append(add, l, l.scale(-1))
					break
				}
			}
		}
		for _, t := range ls {
			if st.prove(linTerm(t).add(entry[v], -1)) {
				add = append(add, linTerm(t).add(linTerm(v), -1))
			}
		}
		for k := int64(1); k >= 0; k-- {
			if st.prove(entry[v].addk(-k)) {
				add = append(add, linTerm(v).addk(-k))
				break
			}
		}
		for _, w := range rest {
			if d := entry[v].add(entry[w], -1); st.prove(d) {
				k := int64(0)
				if st.prove(d.addk(-1)) {
					k = 1
				}
				add = append(add, linTerm(v).add(linTerm(w), -1).addk(-k))
			}
		}
	}
	for _, l := range add {
		st.addLinForce(l)
	}
}

func (st *State) zones() {
	best := map[string]int64{}
	form := func(l Lin) string { l.k = 0; return linKey(l) }
	simple := func(l Lin) bool {
		var s int64
		for _, c := range l.c {
			if c != 1 && c != -1 {
				return false
			}
			s += c
		}
		return len(l.c) == 1 || len(l.c) == 2 && s == 0
	}
	var in, out []Lin
	for _, l := range st.lin {
		if !simple(l) {
			continue
		}
		low := int64(-2)
		if len(l.c) == 1 {
			low = -1
		}
		for _, c := range l.c {
			if c < 0 && len(l.c) == 1 {
				low = -4
			}
		}
		if l.k > 4 || l.k < -4 {
			if l.k > 0 {
				continue
			}
		}
		if l.k < low && !st.prove(l.scale(-1)) {
			l.k = low
		}
		f := form(l)
		if b, ok := best[f]; !ok || l.k < b {
			best[f] = l.k
		}
		in = append(in, l)
	}
	seen := map[string]bool{}
	for _, l := range in {
		f := form(l)
		if best[f] != l.k || seen[f] {
			continue
		}
		ghost := false
		for t := range l.c {
			ghost = ghost || t.k == TSym && strings.HasPrefix(t.label, "ghost:")
		}
		for t, c := range l.c {
			if c < 0 && l.k == 0 && t.k == TOp && t.op == "len" {
				ghost = false // a count that is complete
			}
		}
		if ghost && len(l.c) == 2 {
			if b, ok := best[form(l.scale(-1))]; !ok || b != -l.k {
				continue
			}
		}
		seen[f] = true
		out = append(out, l)
	}
	st.lin = out
}

// settle says what a variable of an earlier loop has come to, as a length.
func (st *State) settle(e Lin) Lin {
	for a, c := range e.c {
		if a.k != TSym || !variant(a) && !strings.HasPrefix(a.label, "ghost:") {
			continue
		}
		seen := map[*Term]bool{}
		for _, l := range st.lin {
			for t := range l.c {
				if t.k != TOp || t.op != "len" || variant(t) || seen[t] {
					continue
				}
				seen[t] = true
			}
		}
		var ts []*Term
		for t := range seen {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		for _, t := range ts {
			if d := linTerm(a).add(linTerm(t), -1); st.prove(d) && st.prove(d.scale(-1)) {
				return e.add(linTerm(a), -c).add(linTerm(t), c)
			}
		}
	}
	return e
}

func (st *State) addLinForce(l Lin) {
	l = l.norm()
	k := linKey(l)
	for _, o := range st.lin {
		if linKey(o) == k {
			return
		}
	}
	st.lin = append(st.lin, l)
}

// canon names the symbols of the state by how they are reached, drops what is
// unreachable, and renders the rest as a key.
func (x *Exec) canon(st *State, head bool) (string, map[*Term]string) {
	names := map[*Term]string{}
	count := map[*Term]int{}
	var render func(t *Term, assign bool) (string, bool)
	render = func(t *Term, assign bool) (string, bool) {
		if t == nil {
			return "_", true
		}
		switch t.k {
		case TSym:
			if t.named {
				return t.label, true
			}
			if n, ok := names[t]; ok {
				if assign {
					count[t]++
				}
				return n, true
			}
			if !assign {
				return "", false
			}
			fl := ""
			if t.alloc {
				fl = "!"
				if st.esc[t] {
					fl = "!e"
				}
			} else if t.nonnil {
				fl = "+"
			}
			names[t] = fmt.Sprintf("s%d%s:%s", len(names), fl, t.label)
			count[t] = 1
			return names[t], true
		case TConst, TFunc, TGlobal:
			return t.String(), true
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d%s", t.k, t.op)
		if t.fld != nil {
			sb.WriteString(t.fld.Name())
		}
		if t.fn != nil {
			sb.WriteString(fname(t.fn))
		}
		sb.WriteByte('(')
		for _, a := range t.args {
			s, ok := render(a, assign)
			if !ok {
				return "", false
			}
			sb.WriteString(s)
			sb.WriteByte(',')
		}
		sb.WriteByte(')')
		return sb.String(), true
	}
	var b strings.Builder
	nf := len(st.frames)
	for i, f := range st.frames {
		l := x.liveOf(f.fn)
		live := l.liveAt(f)
		if i == nf-1 {
			// drop dead values of the current frame
			keep := map[ssa.Value]bool{}
			for _, v := range live {
				keep[v] = true
			}
			for v := range f.env {
				if !keep[v] {
					delete(f.env, v)
				}
			}
		}
		fmt.Fprintf(&b, "F%s/%d/%d/%d/%v%v{", fname(f.fn), f.blk.Index, f.pc, f.ret.mode, f.unwinding, f.recovered)
		for _, v := range live {
			s, _ := render(f.env[v], true)
			fmt.Fprintf(&b, "%s=%s;", v.Name(), s)
		}
		for _, d := range f.defers {
			s, _ := render(d.fnT, true)
			fmt.Fprintf(&b, "D%d%s(", d.instr.Pos(), s)
			for _, a := range d.args {
				s, _ := render(a, true)
				b.WriteString(s + ",")
			}
			b.WriteString(")")
		}
		if f.panicVal != nil {
			s, _ := render(f.panicVal, true)
			b.WriteString("P" + s)
		}
		b.WriteString("}")
	}
	for _, k := range st.monKeys("") {
		if strings.HasPrefix(k, "~iter") || strings.HasPrefix(k, "~visit") {
			continue
		}
		s, _ := render(st.mon[k], true)
		fmt.Fprintf(&b, "M%s=%s;", k, s)
	}
	// iterators still in use
	for _, k := range st.monKeys("~iter") {
		id := 0
		fmt.Sscanf(k, "~iter%d", &id)
		var it *Term
		for t := range names {
			if t.id == id {
				it = t
			}
		}
		if it == nil {
			delete(st.mon, k)
			continue
		}
		s, _ := render(st.mon[k], true)
		fmt.Fprintf(&b, "I%s=%s;", names[it], s)
	}
	pending := make([]*Term, 0, len(st.heap))
	for a := range st.heap {
		pending = append(pending, a)
	}
	type ent struct {
		a  *Term
		as string
	}
	var ents []ent
	for len(pending) > 0 {
		var ready []ent
		var rest []*Term
		for _, a := range pending {
			if s, ok := render(a, false); ok {
				ready = append(ready, ent{a, s})
			} else {
				rest = append(rest, a)
			}
		}
		if len(ready) == 0 {
			break
		}
		sort.Slice(ready, func(i, j int) bool { return ready[i].as < ready[j].as })
		for _, e := range ready {
			render(e.a, true)
			render(st.heap[e.a], true)
			ents = append(ents, e)
		}
		pending = rest
	}
	for _, a := range pending {
		delete(st.heap, a)
	}
	// facts about reachable symbols only
	var facts []string
	for k, m := range st.rel {
		s0, ok0 := render(k[0], false)
		s1, ok1 := render(k[1], false)
		if !ok0 || !ok1 {
			delete(st.rel, k)
			continue
		}
		render(k[0], true)
		render(k[1], true)
		if s0 > s1 {
			s0, s1, m = s1, s0, flip(m)
		}
		facts = append(facts, fmt.Sprintf("R%s|%s|%d", s0, s1, m))
	}
	for t, v := range st.cond {
		s, ok := render(t, false)
		if !ok {
			delete(st.cond, t)
			continue
		}
		render(t, true)
		facts = append(facts, fmt.Sprintf("C%s=%v", s, v))
	}
	for t, l := range st.taint {
		s, ok := render(t, false)
		if !ok {
			delete(st.taint, t)
			continue
		}
		render(t, true)
		facts = append(facts, fmt.Sprintf("T%s=%s", s, l))
	}
	st.lin = eliminate(st.lin, func(t *Term) bool { _, ok := render(t, false); return !ok })
	for _, l := range st.lin {
		for t := range l.c {
			if t.k == TSym {
				count[t] += 2
			} else {
				render(t, true)
			}
		}
	}
	sort.Strings(facts)
	for _, e := range ents {
		v := st.heap[e.a]
		if v.k == TSym && !v.named && !v.alloc && count[v] == 1 {
			delete(st.heap, e.a) // only says that the cell holds something
			continue
		}
		s, _ := render(v, false)
		fmt.Fprintf(&b, "H%s=%s;", e.as, s)
	}
	for t := range st.esc {
		if _, ok := names[t]; !ok {
			delete(st.esc, t)
		}
	}
	for _, s := range facts {
		b.WriteString(s)
		b.WriteByte(';')
	}
	if !head {
		var ls []string
		for _, l := range st.lin {
			ls = append(ls, l.key(func(t *Term) string { s, _ := render(t, false); return s }))
		}
		sort.Strings(ls)
		b.WriteString(strings.Join(ls, ";"))
	}
	// names of every atom, for widening
	atom := map[*Term]string{}
	for _, l := range st.lin {
		for t := range l.c {
			s, _ := render(t, false)
			atom[t] = s
		}
	}
	return b.String(), atom
}

// widenAt joins the linear facts of all states that reach a loop head with the
// same shape, keeping the inequalities of the first that later ones imply.
func (x *Exec) widenAt(st *State, key string, atom map[*Term]string) {
	inv := map[string]*Term{}
	for t, n := range atom {
		inv[n] = t
	}
	old, ok := x.widen[key]
	if !ok {
		var cs []cLin
		for _, l := range st.lin {
			c := cLin{map[string]int64{}, l.k, 0}
			for t, v := range l.c {
				c.c[atom[t]] = v
			}
			cs = append(cs, c)
		}
		x.widen[key] = cs
		if os.Getenv("GOSBDBG") == "2" {
			fmt.Printf("=== first %x\n", hash(key))
			st.dump("arrives")
		}
		return
	}
	var kept []cLin
	var lins []Lin
	weaker := false
	for _, c := range old {
		l := linConst(c.k)
		ok := true
		for n, v := range c.c {
			t := inv[n]
			if t == nil {
				ok = false
				break
			}
			l.c[t] = v
		}
		if !ok {
			continue
		}
		if st.prove(l) {
			kept = append(kept, c)
			lins = append(lins, l)
			continue
		}
		// a little weaker
		for d := int64(1); c.w+d <= 2; d++ {
			if st.prove(l.addk(d)) {
				kept = append(kept, cLin{c.c, c.k + d, c.w + d})
				lins = append(lins, l.addk(d))
				weaker = true
				break
			}
		}
	}
	if os.Getenv("GOSBDBG") == "2" {
		fmt.Printf("=== widen %x\n", hash(key))
		st.dump("arrives")
		for t, n := range atom {
			fmt.Println("   atom", n, t)
		}
		for _, c := range old {
			fmt.Println("   old", c.c, c.k)
		}
		for _, c := range kept {
			fmt.Println("   kept", c.c, c.k)
		}
	}
	if len(kept) == len(old) && !weaker {
		st.dead = true // nothing new
		return
	}
	x.widen[key] = kept
	st.lin = lins
}

// restate repeats what is known of the only variable of l in terms of g = l,
// so that it survives when the variable is forgotten.
func (st *State) restate(l Lin, g *Term) {
	if len(l.c) != 1 {
		return
	}
	for a, c := range l.c {
		if c != 1 || a.k != TSym {
			return
		}
		for _, o := range append([]Lin{}, st.lin...) {
			n := o.c[a]
			if n == 0 {
				continue
			}
			// a = g - l.k
			st.addLinForce(o.add(linTerm(a), -n).add(linTerm(g).addk(-l.k), n))
		}
	}
}

func hash(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() }
