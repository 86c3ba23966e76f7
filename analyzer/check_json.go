package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// StringMarshalJSON: every character of the string gets into the output
// exactly once, in order, as it is or by an escape that stands for it.
//
// Ghosts: all bytes before #o are in the output; the character at hand is at
// #c and ends at #n; everything in #o..#c may be copied as it is. "ch" is the
// character at hand: a byte below 128, or one of the kinds of longer ones.

const strPkg = "library/stringx"

type jsonCheck struct {
	c    *Ctx
	ps   []*Term
	html bool
	tabs map[*ssa.Global]map[int64]constant.Value // tables, as they are initialised
}

func (k *jsonCheck) bad(st *State, ev *Ev, msg string) {
	k.c.Bad(st, "escape", where(ev)+" in StringMarshalJSON", ev.Pos, msg)
	st.dead = true
}

func (k *jsonCheck) undecided(st *State, why string) {
	k.c.Undecided("StringMarshalJSON", why)
	st.dead = true
}

// tables reads what the package variables are initialised with, as far as
// nothing else may write to them
func jsonTables(p *Program, pkg string) (map[*ssa.Global]map[int64]constant.Value, map[*ssa.Global]constant.Value) {
	tabs, vals := map[*ssa.Global]map[int64]constant.Value{}, map[*ssa.Global]constant.Value{}
	sp := p.SPkg[pkg]
	if sp == nil {
		return tabs, vals
	}
	for _, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok || g.Object() == nil {
			continue
		}
		ok = true
		var tab map[int64]constant.Value
		var val constant.Value
		use := func(f *ssa.Function, in ssa.Instruction) {
			isInit := f == sp.Func("init")
			switch in := in.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				t, v, is := jsonTable(in.Val)
				if in.Addr != ssa.Value(g) || !isInit || !is || tab != nil || val != nil {
					ok = false
				}
				tab, val = t, v
			case *ssa.IndexAddr:
				for _, r := range *in.Referrers() {
					i, isI := in.Index.(*ssa.Const)
					switch r := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						c, isC := r.Val.(*ssa.Const)
						if !isI || !isC || !isInit || r.Addr != ssa.Value(in) {
							ok = false
							continue
						}
						if tab == nil {
							tab = map[int64]constant.Value{}
						}
						tab[i.Int64()] = c.Value
					default:
						ok = false
					}
				}
			default:
				ok = false
			}
		}
		fns := append([]*ssa.Function{}, p.Fns...)
		if f := sp.Func("init"); f != nil {
			fns = append(fns, f)
		}
		seen := map[*ssa.Function]bool{}
		for _, f := range fns {
			if f.Pkg != nil && f.Pkg != sp && !g.Object().Exported() || seen[f] {
				continue
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						if *o == ssa.Value(g) {
							use(f, in)
							break
						}
					}
				}
			}
		}
		if ok && tab != nil {
			tabs[g] = tab
		}
		if ok && val != nil {
			vals[g] = val
		}
	}
	return tabs, vals
}

// jsonTable: the elements of an array literal, or a constant
func jsonTable(v ssa.Value) (map[int64]constant.Value, constant.Value, bool) {
	if c, ok := v.(*ssa.Const); ok {
		if _, isArr := c.Type().Underlying().(*types.Array); isArr {
			return map[int64]constant.Value{}, nil, true
		}
		return nil, c.Value, c.Value != nil
	}
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return nil, nil, false
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return nil, nil, false
	}
	tab := map[int64]constant.Value{}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r != ld {
				return nil, nil, false
			}
		case *ssa.IndexAddr:
			i, ok := r.Index.(*ssa.Const)
			if !ok || len(*r.Referrers()) != 1 {
				return nil, nil, false
			}
			s, ok := (*r.Referrers())[0].(*ssa.Store)
			if !ok || s.Addr != ssa.Value(r) {
				return nil, nil, false
			}
			c, ok := s.Val.(*ssa.Const)
			if !ok {
				return nil, nil, false
			}
			tab[i.Int64()] = c.Value
		default:
			return nil, nil, false
		}
	}
	return tab, nil, true
}

// src: t is the string, or its bytes, from a certain place on
func (k *jsonCheck) src(st *State, t *Term) (lo, hi Lin, ok bool) {
	T := st.x.T
	t = st.resolve(t)
	whole := lenOf(st, k.ps[0])
	if k.is(st, t) {
		return st.linOf(T.Int(0)), whole, true
	}
	if t.k == TOp && (strings.HasPrefix(t.op, "conv") || t.op == "unsafe.String" || t.op == "unsafe.Slice") && len(t.args) > 0 {
		return k.src(st, t.args[0])
	}
	if t.k == TOp && t.op == "slice" && len(t.args) >= 3 {
		lo, hi, ok = k.src(st, t.args[0])
		if !ok {
			return
		}
		if h := st.resolve(t.args[2]); !h.isNil() {
			hi = lo.add(st.linOf(h), 1)
		}
		return lo.add(st.linOf(t.args[1]), 1), hi, true
	}
	return
}

func (k *jsonCheck) is(st *State, t *Term) bool {
	t = st.resolve(t)
	for t.k == TOp && strings.HasPrefix(t.op, "conv") && len(t.args) > 0 {
		t = t.args[0]
	}
	if a := st.getT("src"); a != nil && st.resolve(a) == t {
		return true
	}
	return t == st.resolve(k.ps[0])
}

// reads: the byte of the string that is read here, by its position
func (k *jsonCheck) reads(st *State, a *Term) *Term {
	if a == nil {
		return nil
	}
	if (a.k == TIA || a.k == TOp && a.op == "at") && k.is(st, a.args[0]) {
		return a.args[1]
	}
	return nil
}

// current: 1 for the position of the character at hand, 2 for that of the next
func (k *jsonCheck) current(st *State, i *Term) int {
	switch l := st.linOf(i); {
	case k.seen(st) && eqLin(st, l, st.linOf(st.getT("#c"))):
		return 3
	case st.getT("ch") != nil && eqLin(st, l, st.linOf(st.getT("#c"))):
		return 1
	case k.done(st) && eqLin(st, l, st.linOf(st.getT("#n"))):
		return 2
	}
	return 0
}

// seen: the character at hand was looked at in an earlier round of a loop and
// may be copied as it is
func (k *jsonCheck) seen(st *State) bool {
	ch := st.getT("ch")
	if ch == nil {
		return false
	}
	s, ok := ch.strVal()
	return ok && strings.HasPrefix(s, "seen")
}

// done: the character at hand needs nothing more
func (k *jsonCheck) done(st *State) bool {
	return st.getT("ch") == nil || k.safe(st) || eqLin(st, st.linOf(st.getT("#o")), st.linOf(st.getT("#n")))
}

// safe: the character at hand may be copied as it is
func (k *jsonCheck) safe(st *State) bool {
	ch := st.getT("ch")
	if ch == nil {
		return false
	}
	if b, ok := ch.intVal(); ok {
		return k.plain(b)
	}
	s, _ := ch.strVal()
	return s == "rune" || k.seen(st)
}

func (k *jsonCheck) plain(b int64) bool {
	if b < 0x20 || b >= 0x80 || b == '"' || b == '\\' {
		return false
	}
	return !k.html || b != '<' && b != '>' && b != '&'
}

// forms: what may stand for the character at hand
func (k *jsonCheck) forms(st *State) []string {
	ch := st.getT("ch")
	if ch == nil {
		return nil
	}
	if b, ok := ch.intVal(); ok {
		fs := []string{fmt.Sprintf(`\u%04x`, b), fmt.Sprintf(`\u%04X`, b)}
		if k.plain(b) {
			fs = append(fs, string(rune(b)))
		}
		if i := strings.IndexByte("\"\\/\b\f\n\r\t", byte(b)); i >= 0 {
			fs = append(fs, `\`+`"\/bfnrt`[i:i+1])
		}
		return fs
	}
	switch s, _ := ch.strVal(); s {
	case "invalid":
		return []string{`\ufffd`, `\uFFFD`, "\ufffd"}
	case "ls":
		return []string{`\u2028`}
	case "ps":
		return []string{`\u2029`}
	case "rune":
		if r, ok := st.getT("rune").intVal(); ok {
			return []string{fmt.Sprintf(`\u%04x`, r), fmt.Sprintf(`\u%04X`, r), string(rune(r))}
		}
	}
	return nil
}

func (k *jsonCheck) fork(st *State, a *Term) *Term {
	i := k.reads(st, a)
	if i == nil {
		return nil
	}
	switch k.current(st, i) {
	case 0:
		// a character that is in the output already?
		t := st.x.T.op("lt", types.Typ[types.Bool], i, st.getT("#o"))
		if _, known := st.truth(t); !known && st.getT("ch") == nil {
			return t
		}
		return nil
	case 1:
		return nil
	}
	v := k.byteAt(st, a)
	lo, hi := int64(0), int64(256)
	for hi-lo > 1 && lo < 128 {
		mid := (lo + hi) / 2
		t := st.x.T.op("lt", types.Typ[types.Bool], v, st.x.T.Int(mid))
		b, known := st.truth(t)
		if !known {
			return t
		}
		if b {
			hi = mid
		} else {
			lo = mid
		}
	}
	return nil
}

func (k *jsonCheck) byteAt(st *State, a *Term) *Term {
	if a.k == TIA {
		return st.resolve(st.load(a, types.Typ[types.Uint8], "elem", nil))
	}
	return st.resolve(a)
}

// read: the byte at position i is looked at
func (k *jsonCheck) read(st *State, a *Term) {
	i := k.reads(st, a)
	if i == nil {
		if a != nil && a.k == TIA && a.args[0].typ != nil && isBytes(a.args[0].typ) && !freshArray(st, a.args[0]) && a.args[0].k != TGlobal {
			k.undecided(st, "looks at bytes that are not known")
		}
		return
	}
	if !k.inv(st) {
		return
	}
	T := st.x.T
	v := k.byteAt(st, a)
	again := false
	switch k.current(st, i) {
	case 0:
		if st.prove(st.linOf(st.getT("#o")).add(st.linOf(i), -1).addk(-1)) {
			return // it is in the output already
		}
		k.undecided(st, "looks at characters in another order")
		return
	case 1:
		ch := st.getT("ch")
		if _, ok := ch.intVal(); !ok {
			st.assume(T.op("lt", types.Typ[types.Bool], v, T.Int(128)), false)
		} else if _, ok := v.intVal(); !ok {
			st.assume(st.mkEq(v, ch), true)
			st.substitute(v, ch)
		}
		return
	case 3:
		if s, _ := st.getT("ch").strVal(); s != "seen" {
			k.undecided(st, "looks at characters again")
			return
		}
		again = true
	}
	lo, hi := int64(0), int64(256)
	for hi-lo > 1 && lo < 128 {
		mid := (lo + hi) / 2
		b, known := st.truth(T.op("lt", types.Typ[types.Bool], v, T.Int(mid)))
		if !known {
			k.undecided(st, "a character is looked at in another way")
			return
		}
		if b {
			hi = mid
		} else {
			lo = mid
		}
	}
	if again {
		if !k.plain(lo) {
			st.dead = true
			return
		}
		st.setT("#n", st.getT("#c"))
	}
	st.setT("#c", st.getT("#n"))
	st.setT("lit", nil)
	if !st.assume(T.op("lt", types.Typ[types.Bool], i, T.op("len", types.Typ[types.Int], st.resolve(k.ps[0]))), true) {
		st.dead = true
		return
	}
	if lo >= 128 {
		st.setT("ch", T.Str("long"))
		return
	}
	st.assume(st.mkEq(v, T.Int(lo)), true)
	st.substitute(v, T.Int(lo))
	st.setT("ch", T.Int(lo))
	inc(st, "#n")
}

// inv: what holds of the ghosts at all times
func (k *jsonCheck) inv(st *State) bool {
	T := st.x.T
	o, c, n := st.getT("#o"), st.getT("#c"), st.getT("#n")
	le := func(a, b *Term) {
		if !st.dead && !st.assume(T.op("le", types.Typ[types.Bool], a, b), true) {
			st.dead = true
		}
	}
	le(T.Int(0), o)
	le(o, n)
	le(c, n)
	le(n, T.op("len", types.Typ[types.Int], st.resolve(k.ps[0])))
	if ch := st.getT("ch"); ch != nil {
		if _, ok := ch.intVal(); ok || ch == T.Str("seen") {
			le(n, st.x.arith(st, "+", c, T.Int(1), types.Typ[types.Int]))
			le(st.x.arith(st, "+", c, T.Int(1), types.Typ[types.Int]), n)
		}
	}
	return !st.dead
}

// literal: the output goes on with these bytes
func (k *jsonCheck) literal(st *State, ev *Ev, t *Term) {
	T := st.x.T
	k.c.Ob("escape", where(ev))
	k.c.N("escape")
	if !k.inv(st) {
		return
	}
	t = st.resolve(t)
	s, ok := t.strVal()
	if !ok {
		if b, is := t.intVal(); is {
			s, ok = string([]byte{byte(b)}), true
			if b >= 128 && ev.Detail == "rune" {
				s = string(rune(b))
			}
		}
	}
	if lo, hi, is := k.src(st, t); !ok && is {
		k.verbatim(st, ev, lo, hi)
		return
	}
	if !ok {
		k.undecided(st, "writes bytes that are not known")
		return
	}
	for s != "" && !st.dead {
		if st.getT("open") == nil {
			if s[0] != '"' {
				k.bad(st, ev, "the output does not begin with a quotation mark")
				return
			}
			st.setT("open", T.Bool(true))
			s = s[1:]
			continue
		}
		if st.getT("close") != nil {
			k.bad(st, ev, "the output goes on behind its end")
			return
		}
		o := st.linOf(st.getT("#o"))
		if st.getT("ch") == nil || k.seen(st) || eqLin(st, o, st.linOf(st.getT("#n"))) {
			// no character is at hand
			if !st.prove(o.add(lenOf(st, k.ps[0]), -1)) {
				k.bad(st, ev, "writes "+fmt.Sprintf("%q", s)+" that stands for no character of the string, or ends before its end")
				return
			}
			if s != `"` {
				k.bad(st, ev, "the output does not end with a quotation mark")
				return
			}
			st.setT("close", T.Bool(true))
			return
		}
		if !eqLin(st, o, st.linOf(st.getT("#c"))) {
			k.bad(st, ev, "an escape is written before all characters in front of it")
			return
		}
		have := ""
		if l := st.getT("lit"); l != nil {
			have, _ = l.strVal()
		}
		match, full := 0, false
		for _, f := range k.forms(st) {
			if !strings.HasPrefix(f, have) {
				continue
			}
			n := len(have)
			j := 0
			for n < len(f) && j < len(s) && f[n] == s[j] {
				n++
				j++
			}
			if n == len(f) {
				match, full = j, true
				break
			}
			if j == len(s) && j > match {
				match = j
			}
		}
		switch {
		case full:
			st.setT("#o", st.getT("#n"))
			st.setT("lit", nil)
			if match == 0 {
				k.undecided(st, "an escape without any bytes")
				return
			}
			s = s[match:]
		case match == len(s):
			st.setT("lit", T.Str(have+s))
			return
		case k.forms(st) == nil:
			k.undecided(st, "an escape for a character that needs none")
			return
		default:
			k.bad(st, ev, fmt.Sprintf("%q does not stand for the character %s", have+s, k.show(st)))
			return
		}
	}
}

func (k *jsonCheck) show(st *State) string {
	ch := st.getT("ch")
	if b, ok := ch.intVal(); ok {
		return fmt.Sprintf("%q", rune(b))
	}
	s, _ := ch.strVal()
	return "(" + s + ")"
}

// verbatim: the bytes lo..hi of the string are copied
func (k *jsonCheck) verbatim(st *State, ev *Ev, lo, hi Lin) {
	T := st.x.T
	k.c.Ob("copy", where(ev))
	k.c.N("copy")
	if !k.inv(st) {
		return
	}
	if st.prove(lo.add(hi, -1)) {
		return
	}
	if st.getT("open") == nil {
		k.bad(st, ev, "the output does not begin with a quotation mark")
		return
	}
	if st.getT("lit") != nil {
		k.bad(st, ev, "an escape is not written to its end")
		return
	}
	if !eqLin(st, lo, st.linOf(st.getT("#o"))) {
		k.bad(st, ev, "a part of the string is left out or gets into the output twice")
		return
	}
	end := st.linOf(st.getT("#c"))
	if k.safe(st) {
		end = st.linOf(st.getT("#n"))
	}
	if !st.prove(end.add(hi, -1)) {
		if ch := st.getT("ch"); ch != nil {
			if s, _ := ch.strVal(); s == "long" {
				k.undecided(st, "a longer character is copied in another way")
				return
			}
		}
		k.bad(st, ev, "copies characters that have not been looked at or have to be escaped")
		return
	}
	o := T.sym("upto", types.Typ[types.Int])
	d := linTerm(o).add(hi, -1)
	st.addLin(d)
	st.addLin(d.scale(-1))
	st.setT("#o", o)
}

var jsonBuf = map[string]string{
	"WriteByte": "byte", "WriteString": "string", "Write": "string", "WriteRune": "rune",
	"Bytes": "bytes", "String": "bytes", "Grow": "", "Len": "", "Cap": "",
}

func (k *jsonCheck) model(st *State, c *Call) ([]Out, bool) {
	T := st.x.T
	ev := &Ev{Kind: "call", Instr: c.Instr, Fn: c.Fn, Callee: c.Callee, Pos: c.Instr.Pos()}
	one := func(rs ...*Term) ([]Out, bool) { return []Out{{Res: rs}}, true }
	rt := c.ResTypes()
	fresh := func() []*Term {
		var rs []*Term
		for _, t := range rt {
			s := T.sym("res", t)
			st.atomFacts(s)
			rs = append(rs, s)
		}
		return rs
	}
	switch {
	case strings.HasPrefix(c.Callee, "bytes.Buffer.") || strings.HasPrefix(c.Callee, "strings.Builder."):
		m := c.Callee[strings.LastIndexByte(c.Callee, '.')+1:]
		kind, ok := jsonBuf[m]
		if !ok {
			k.undecided(st, "builds the output with "+c.Callee)
			return nil, true
		}
		buf := st.resolve(c.Args[0])
		if b := st.getT("buf"); b == nil {
			st.setT("buf", buf)
		} else if st.resolve(b) != buf {
			k.undecided(st, "builds the output in more than one buffer")
			return nil, true
		}
		switch kind {
		case "byte", "string":
			k.literal(st, ev, c.Args[1])
		case "rune":
			ev.Detail = "rune"
			if r := st.getT("rune"); r != nil && st.resolve(r) == st.resolve(c.Args[1]) && st.getT("ch") != nil && k.safe(st) {
				k.verbatim(st, ev, st.linOf(st.getT("#c")), st.linOf(st.getT("#n")))
			} else {
				k.literal(st, ev, c.Args[1])
			}
		case "bytes":
			r := T.sym("output", rt[0])
			st.setT("res", r)
			return one(r)
		}
		return one(fresh()...)
	case c.Callee == "bytes.NewBuffer" || c.Callee == "bytes.NewBufferString":
		b := T.sym("buffer", rt[0])
		b.nonnil = true
		if b0 := st.getT("buf"); b0 != nil {
			k.undecided(st, "builds the output in more than one buffer")
			return nil, true
		}
		st.setT("buf", b)
		if s, ok := st.resolve(c.Args[0]).strVal(); ok {
			k.literal(st, ev, T.Str(s))
		} else if !st.prove(lenOf(st, c.Args[0]).scale(-1)) {
			k.undecided(st, "the buffer may not be empty")
			return nil, true
		}
		return one(b)
	case strings.HasSuffix(c.Callee, "unsafex.StringToSlice"):
		if st.resolve(c.Args[0]) != st.resolve(k.ps[0]) {
			return nil, false
		}
		a := T.sym("bytes", rt[0])
		d := lenOf(st, a).add(lenOf(st, k.ps[0]), -1)
		st.addLin(d)
		st.addLin(d.scale(-1))
		st.setT("src", a)
		return one(a)
	case c.Callee == "unicode/utf8.DecodeRune" || c.Callee == "unicode/utf8.DecodeRuneInString":
		lo, hi, ok := k.src(st, c.Args[0])
		if !ok || st.getT("ch") != T.Str("long") || !eqLin(st, lo, st.linOf(st.getT("#c"))) || !eqLin(st, hi, lenOf(st, k.ps[0])) {
			k.undecided(st, "characters are decoded in another way")
			return nil, true
		}
		var outs []Out
		add := func(kind string, r, n *Term, from, to int64) {
			outs = append(outs, Out{Res: []*Term{r, n}, Do: func(s *State) {
				if to > 0 {
					s.addLin(s.linOf(r).addk(-from))
					s.addLin(s.linOf(r).scale(-1).addk(to))
					s.addLin(s.linOf(n).addk(-2))
					s.addLin(s.linOf(n).scale(-1).addk(4))
				}
				s.setT("ch", T.Str(kind))
				s.setT("rune", r)
				s.setT("#n", s.x.arith(s, "+", s.getT("#c"), n, types.Typ[types.Int]))
				s.addLin(lenOf(s, k.ps[0]).add(s.linOf(s.getT("#n")), -1))
			}})
		}
		add("invalid", T.Int(0xfffd), T.Int(1), 0, 0)
		add("ls", T.Int(0x2028), T.Int(3), 0, 0)
		add("ps", T.Int(0x2029), T.Int(3), 0, 0)
		add("rune", T.Int(0xfffd), T.Int(3), 0, 0)
		for _, r := range [][2]int64{{0x80, 0x2027}, {0x202a, 0xfffc}, {0xfffe, 0x10ffff}} {
			add("rune", T.sym("rune", rt[0]), T.sym("size", rt[1]), r[0], r[1])
		}
		return outs, true
	case c.Static == nil || c.Static.Blocks == nil || !inRepo(c.Static):
		if _, ok := c.Common.Value.(*ssa.Builtin); ok {
			return nil, false
		}
		k.undecided(st, "calls "+c.Callee)
		return nil, true
	}
	return nil, false
}

func (k *jsonCheck) event(st *State, ev *Ev) {
	T := st.x.T
	switch ev.Kind {
	case "edge":
		if st.getT("ch") != nil && k.done(st) {
			// nothing is at hand
			switch {
			case eqLin(st, st.linOf(st.getT("#o")), st.linOf(st.getT("#n"))):
				st.setT("#c", st.getT("#n"))
				st.setT("ch", nil)
			case eqLin(st, st.linOf(st.getT("#c")).addk(1), st.linOf(st.getT("#n"))):
				st.setT("ch", T.Str("seen"))
			default:
				st.setT("ch", T.Str("seen-long"))
			}
			st.setT("rune", nil)
			st.setT("lit", nil)
			for a := range st.heap {
				if a.k == TIA && (a.args[0].k == TGlobal && k.tabs[a.args[0].gl] != nil || k.is(st, a.args[0])) {
					delete(st.heap, a)
				}
			}
		}
	case "convert":
		if st.resolve(ev.Args[0]) == st.resolve(k.ps[0]) && isBytes(ev.Val.typ) && st.getT("src") == nil {
			st.setT("src", ev.Val)
			st.setT("copy", T.Bool(true))
		}
	case "load":
		k.read(st, ev.Addr)
	case "index":
		if k.is(st, ev.Addr) && isString(st.resolve(ev.Addr).typ) {
			k.read(st, T.op("at", types.Typ[types.Uint8], st.resolve(ev.Addr), ev.Val))
		}
	case "range":
		if k.is(st, ev.Addr) {
			k.undecided(st, "goes over the characters in another way")
		}
	case "store":
		if ev.Addr.k == TIA && rootOf(st, ev.Addr.args[0]) != nil && k.is(st, rootOf(st, ev.Addr.args[0])) {
			if st.getT("copy") != nil {
				k.undecided(st, "changes its copy of the string")
				return
			}
			k.bad(st, ev, "writes to the memory of the string")
		} else if ev.Addr.k == TIA && !freshArray(st, ev.Addr.args[0]) {
			k.undecided(st, "builds the output in another way")
		}
	case "phi":
		if ev.Addr == nil {
			return
		}
		if o := st.getT("out"); o != nil && st.resolve(o) == st.resolve(ev.Addr) {
			st.setT("out", ev.Val)
		}
	case "append":
		if !isBytes(ev.Val.typ) {
			return
		}
		b := st.resolve(orNil(T, ev.Addr))
		if o := st.getT("out"); o == nil {
			if !b.isNil() && !st.prove(lenOf(st, b).scale(-1)) {
				k.undecided(st, "the output may not be empty at first")
				return
			}
		} else if st.resolve(o) != b {
			k.undecided(st, "builds the output in more than one slice")
			return
		}
		if vs, ok := varargs(st, ev.Args[1]); ok {
			for _, v := range vs {
				if !st.dead {
					k.literal(st, ev, v)
				}
			}
		} else {
			k.literal(st, ev, ev.Args[1])
		}
		st.setT("out", ev.Val)
	case "exit":
		if ev.Panics {
			return
		}
		k.c.Ob("whole", where(ev))
		if !k.inv(st) {
			return
		}
		r := st.resolve(ev.Res[0])
		res, out := st.getT("res"), st.getT("out")
		switch {
		case st.getT("open") == nil || st.getT("close") == nil:
			if res == nil && out == nil {
				k.undecided(st, "the output is built in another way")
				return
			}
			k.bad(st, ev, "the output is not closed by a quotation mark")
		case res != nil && st.resolve(res) == r, out != nil && st.resolve(out) == r:
		default:
			k.undecided(st, "what is returned is built in another way")
		}
	}
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func freshArray(st *State, b *Term) bool {
	b = st.resolve(b)
	if _, ok := arrayLen(b.typ); ok && b.alloc {
		return true
	}
	return false
}

func (k *jsonCheck) fresh(st *State, a, s *Term) {
	if a.k != TIA || a.args[0].k != TGlobal {
		return
	}
	tab := k.tabs[a.args[0].gl]
	i, ok := st.resolve(a.args[1]).intVal()
	n, isArr := arrayLen(a.args[0].typ)
	if tab == nil || !ok || !isArr || i < 0 || i >= n {
		return
	}
	if v := tab[i]; v != nil {
		st.heap[a] = st.x.T.constant(v, s.typ)
	} else {
		st.heap[a] = st.x.T.zero(s.typ)
	}
}

func init() {
	register(&Property{ID: "C39", Run: func(c *Ctx) {
		c.rules["escape"] = "what is written stands for the character at hand"
		c.rules["copy"] = "what is copied from the string are the characters not written before that need no escape"
		c.rules["whole"] = "the output stands for the whole string, between quotation marks"
		f := c.Fn(strPkg, "StringMarshalJSON")
		if f == nil {
			return
		}
		if len(f.Params) != 2 {
			c.Undecided("StringMarshalJSON", "other parameters")
			return
		}
		tabs, vals := jsonTables(c.P, strPkg)
		for _, html := range []bool{false, true} {
			k := &jsonCheck{c: c, html: html, tabs: tabs}
			c.Run(f, &Config{Event: k.event, Model: k.model, Fork: k.fork, ForkAt: true, OnFresh: k.fresh, EqTemplates: true}, func(st *State, ps []*Term) {
				k.ps = ps
				for _, m := range []string{"#o", "#c", "#n"} {
					st.setT(m, st.x.T.Int(0))
				}
				for g, v := range vals {
					st.heap[st.x.T.global(g)] = st.x.T.constant(v, derefT(g.Type()))
				}
				if !st.assume(st.mkEq(ps[1], st.x.T.Bool(html)), true) {
					st.dead = true
				}
			})
		}
		c.Min("copy", 1)
		c.Min("escape", 1)
	}})
}
