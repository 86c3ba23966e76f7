package main

import (
	"go/types"
	"strings"
)

// CheckPassword: which classes of characters have been seen, for every value
// of the flag; the answer is compared with what the flag asks for.

const pwPkg = "library/password"

// the classes of characters begin and end at these
var pwEdges = []int64{'!', '0', ':', 'A', '[', 'a', '{', 0x7f}
var pwClass = []string{"bad", "S", "N", "S", "U", "S", "L", "S", "bad"}

const pwFlags = 256 // all values of the flag

type pwCheck struct {
	c    *Ctx
	ps   []*Term
	flag int64
}

func (k *pwCheck) undecided(st *State, why string) {
	k.c.Undecided("CheckPassword", why)
	st.dead = true
}

// next: the condition that tells the class of the character at hand
func (k *pwCheck) next(st *State) *Term {
	c := st.getT("c")
	if c == nil {
		return nil
	}
	for _, e := range pwEdges {
		t := st.x.T.op("lt", types.Typ[types.Bool], c, st.x.T.Int(e))
		if _, known := st.truth(t); !known {
			return t
		}
	}
	return nil
}

func (k *pwCheck) absorb(st *State) {
	c := st.getT("c")
	if c == nil {
		return
	}
	n := 0
	for _, e := range pwEdges {
		t := st.x.T.op("lt", types.Typ[types.Bool], c, st.x.T.Int(e))
		if v, known := st.truth(t); known && !v {
			n++
		}
	}
	st.setT("saw"+pwClass[n], st.x.T.Bool(true))
	st.setT("c", nil)
}

// split goes through the classes that the character at hand may have
func (k *pwCheck) split(st *State, f func(st *State)) {
	t := k.next(st)
	if t == nil {
		k.absorb(st)
		f(st)
		return
	}
	st.cases(t, func(s *State, _ bool) { k.split(s, f) })
}

func (k *pwCheck) char(st *State, ev *Ev, c *Term) {
	if st.getT("c") != nil {
		k.undecided(st, "two characters are looked at in one turn")
		return
	}
	st.setT("c", c)
}

func (k *pwCheck) event(st *State, ev *Ev) {
	T := st.x.T
	pw := func(t *Term) bool {
		t = st.resolve(t)
		for t != nil && t.k == TOp && strings.HasPrefix(t.op, "conv") {
			t = st.resolve(t.args[0])
		}
		return t == st.resolve(k.ps[0])
	}
	switch ev.Kind {
	case "edge":
		k.absorb(st)
	case "range":
		if pw(ev.Addr) {
			if st.getT("all") != nil || !eqLin(st, st.linOf(st.getT("#i")), st.linOf(T.Int(0))) {
				k.undecided(st, "the password is gone through more than once")
				return
			}
			k.char(st, ev, ev.Args[1])
		}
	case "rangeend":
		if pw(ev.Addr) {
			if st.getT("all") != nil {
				k.undecided(st, "the password is gone through more than once")
				return
			}
			st.setT("all", T.Bool(true))
		}
	case "index":
		if !pw(ev.Addr) {
			return
		}
		i := st.linOf(ev.Val)
		switch {
		case eqLin(st, i, st.linOf(st.getT("#i"))):
			k.char(st, ev, st.x.indexVal(st, st.resolve(ev.Addr), ev.Val, types.Typ[types.Uint8]))
			inc(st, "#i")
		case st.getT("c") != nil && eqLin(st, i.addk(1), st.linOf(st.getT("#i"))):
		default:
			k.undecided(st, "the characters are not looked at in their order")
		}
	case "call":
		for _, a := range ev.Args {
			if c := st.getT("c"); pw(a) || c != nil && a != nil && mentions(st.resolve(a), st.resolve(c)) {
				k.undecided(st, "a character is judged by "+ev.Callee)
				return
			}
		}
	case "convert":
		if len(ev.Args) > 0 && pw(ev.Args[0]) && !pw(ev.Val) {
			k.undecided(st, "the password is converted")
		}
	case "exit":
		if ev.Panics {
			return
		}
		if st.prove(st.linOf(st.getT("#i")).add(lenOf(st, k.ps[0]), -1)) {
			st.setT("all", T.Bool(true))
		}
		res := st.resolve(ev.Res[0])
		k.split(st, func(s *State) { k.judge(s, ev, res) })
	}
}

func mentions(t, u *Term) bool {
	if t == u {
		return true
	}
	for _, a := range t.args {
		if a != nil && mentions(a, u) {
			return true
		}
	}
	return false
}

func (k *pwCheck) judge(st *State, ev *Ev, res *Term) {
	T := st.x.T
	k.c.Ob("classes", where(ev))
	k.c.N("classes")
	v, known := st.truth(st.resolve(res))
	if !known {
		k.undecided(st, "the answer is computed in another way")
		return
	}
	bad := func(rule, msg string) {
		k.c.Bad(st, rule, where(ev), ev.Pos, msg)
	}
	n := lenOf(st, k.ps[0])
	max := st.resolve(st.load(T.ia(st.resolve(k.ps[3]), T.Int(0), types.NewPointer(types.Typ[types.Int])), types.Typ[types.Int], "elem", nil))
	none := lenOf(st, k.ps[3])
	short := st.linOf(k.ps[2]).add(n, -1).addk(-1)
	long := n.add(st.linOf(max), -1).addk(-1)
	saw := func(c string) bool { return st.getT("saw"+c) != nil }
	flag := k.flag
	const N, LorU, L, U, S = 1, 2, 4, 8, 16
	letters := flag&(LorU|L|U) != 0
	// what no further character changes
	no := saw("bad") || saw("N") && flag&N == 0 || saw("S") && flag&S == 0 || (saw("L") || saw("U")) && !letters
	// what a further character may mend
	lacks := !saw("N") && flag&N != 0 || !saw("S") && flag&S != 0 || !saw("L") && !saw("U") && letters ||
		!saw("L") && flag&L != 0 || !saw("U") && flag&U != 0
	all := st.getT("all") != nil
	if v {
		switch {
		case saw("bad"):
			bad("classes", "a password with a character that is not printable, a space or not ASCII passes")
		case no:
			bad("classes", "a password with characters that the flag does not ask for passes")
		case lacks && all:
			bad("classes", "a password without characters that the flag asks for passes")
		case lacks || !all:
			bad("classes", "a password passes before all of its characters were looked at")
		}
		if !st.prove(short.scale(-1).addk(-1)) {
			bad("length", "a password shorter than the least length may pass")
		}
		if !st.prove(none.scale(-1)) && !st.prove(long.scale(-1).addk(-1)) {
			bad("length", "a password longer than the greatest length may pass")
		}
		return
	}
	if no || all && lacks || st.prove(short) || st.prove(none.addk(-1)) && st.prove(long) {
		return
	}
	bad("classes", "a password of the length and with the characters asked for may be rejected")
}

func init() {
	register(&Property{ID: "C38", Run: func(c *Ctx) {
		c.rules["classes"] = "the answer for every set of classes of characters seen is what the flag asks for"
		c.rules["length"] = "a password that passes has a length between the limits"
		f := c.Fn(pwPkg, "CheckPassword")
		if f == nil {
			return
		}
		if len(f.Params) != 4 {
			c.Undecided("CheckPassword", "other parameters")
			return
		}
		for flag := int64(0); flag < pwFlags; flag++ {
			k := &pwCheck{c: c, flag: flag}
			c.Run(f, &Config{Event: k.event, KeepConst: true, EqTemplates: true, Fork: func(st *State, a *Term) *Term {
				if a != nil {
					return nil
				}
				return k.next(st)
			}}, func(st *State, ps []*Term) {
				k.ps = ps
				st.setT("#i", st.x.T.Int(0))
				if !st.assume(st.mkEq(ps[1], st.x.T.Int(flag)), true) {
					st.dead = true
				}
			})
		}
		c.Min("classes", 256)
	}})
}
