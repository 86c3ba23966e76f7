package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cache files: which file belongs to a key, what is written to it, what a
// read makes of it, and who may remove it.

type fileCheck struct {
	c          *Ctx
	on         map[string]bool
	name       string
	recv       *Term
	ps         []*Term
	acc        errAcc
	keyT, valT types.Type
	dirF       *types.Var
	dirT       *Term
	data, exp  *types.Var // of the stored item
	key        *types.Var
	paths      map[string]bool // canonical path expressions of a key's file
	writers    map[*ssa.Function]bool
	cycleF     *types.Var
	lastF, stF *types.Var
}

func (k *fileCheck) bad(st *State, ev *Ev, rule, msg string) {
	if k.on[rule] {
		k.c.Bad(st, rule, where(ev)+" in "+k.name, ev.Pos, msg)
	}
}
func (k *fileCheck) ob(ev *Ev, rule string) {
	if k.on[rule] {
		k.c.Ob(rule, where(ev)+" in "+k.name)
		k.c.N(rule)
	}
}

// pure library functions a path may be computed with
var pathFns = map[string]bool{
	"fmt.Sprint": true, "fmt.Sprintf": true, "encoding/hex.EncodeToString": true, "path/filepath.Clean": true, "path.Join": true, "path.Dir": true,
	"crypto/md5.Sum": true, "crypto/sha1.Sum": true, "crypto/sha256.Sum256": true, "strings.Join": true, "strings.Repeat": true,
	"encoding/base64.Encoding.EncodeToString": true, "strconv.Itoa": true, "strconv.Quote": true, "path/filepath.FromSlash": true,
	"path/filepath.Split": false,
}

func hashFn(n string) bool {
	return strings.HasPrefix(n, "crypto/md5.") || strings.HasPrefix(n, "crypto/sha")
}

func (k *fileCheck) model(st *State, c *Call) ([]Out, bool) {
	T := st.x.T
	ev := func(args []*Term, res ...*Term) {
		st.x.event(st, &Ev{Kind: "call", Instr: c.Instr, Callee: c.Callee, Args: args, Res: res, Fn: c.Fn})
	}
	if pathFns[c.Callee] {
		args := c.Args
		if c.Common.Signature().Variadic() && len(args) > 0 {
			args = append(append([]*Term{}, args[:len(args)-1]...), st.elems(args[len(args)-1])...)
		}
		for i := range args {
			args[i] = k.deref(st, args[i])
		}
		t := T.op("call:"+c.Callee, c.ResTypes()[0], args...)
		ev(args, t)
		return []Out{{Res: []*Term{t}}}, true
	}
	if strings.HasPrefix(c.Callee, "iface:") && len(c.Args) > 0 {
		recv := c.Args[0]
		m := c.Callee[strings.LastIndexByte(c.Callee, '.')+1:]
		switch i, ok := recv.instr.(*ssa.Call); {
		case !ok || i.Call.StaticCallee() == nil || !hashFn(fname(i.Call.StaticCallee())):
		case m == "Write":
			st.setT("hw", T.tuple(recv, k.deref(st, c.Args[1]), orNil(T, st.getT("hw"))))
			return []Out{{Res: []*Term{T.op("len", types.Typ[types.Int], c.Args[1]), T.Nil()}}}, true
		case m == "Sum":
			var ws []*Term
			for w := st.getT("hw"); w != nil && !w.isNil(); w = w.args[2] {
				if w.args[0] == recv {
					ws = append([]*Term{w.args[1]}, ws...)
				}
			}
			t := T.op("call:"+fname(i.Call.StaticCallee())+".Sum", c.ResTypes()[0], append(ws, c.Args[1])...)
			return []Out{{Res: []*Term{t}}}, true
		}
	}
	if c.Callee == "io.WriteString" && len(c.Args) == 2 {
		r := unbox(c.Args[0])
		if i, ok := r.instr.(*ssa.Call); ok && i.Call.StaticCallee() != nil && hashFn(fname(i.Call.StaticCallee())) {
			st.setT("hw", T.tuple(r, c.Args[1], orNil(T, st.getT("hw"))))
			return []Out{{Res: []*Term{T.op("len", types.Typ[types.Int], c.Args[1]), T.Nil()}}}, true
		}
	}
	// MSet: whatever stores one pair
	if k.name == "MSet" && c.Static != nil && inRepo(c.Static) {
		kk, vv := st.getT("rk"), st.getT("rv")
		hk, hv := false, false
		for _, a := range c.Args {
			hk = hk || (kk != nil && a == kk)
			hv = hv || (vv != nil && a == vv)
		}
		if rt := c.ResTypes(); hk && hv && len(rt) == 1 && rt[0].String() == "error" {
			f := c.Static
			if o := f.Origin(); o != nil {
				f = o
			}
			k.writers[f] = true
			e := T.sym("err", rt[0])
			e.instr = c.Instr
			x := &Ev{Kind: "writer", Instr: c.Instr, Callee: c.Callee, Args: c.Args, Res: []*Term{e}, Fn: c.Fn}
			st.x.event(st, x)
			return []Out{{Res: []*Term{e}}}, true
		}
	}
	return nil, false
}

func orNil(T *Terms, t *Term) *Term {
	if t == nil {
		return T.Nil()
	}
	return t
}

// deref: the value of a local array that a slice covers
func (k *fileCheck) deref(st *State, t *Term) *Term {
	t = st.resolve(t)
	if t.k == TOp && t.op == "slice" && t.args[0].alloc && arrPtrT(t.args[0].typ) {
		if v, ok := st.heap[t.args[0]]; ok {
			return st.x.T.op("slice", t.typ, append([]*Term{v}, t.args[1:]...)...)
		}
	}
	return t
}

func arrPtrT(t types.Type) bool { return t != nil && arrPtr(t) != nil }

// pathInfo is a canonical rendering of a path term.
type pathInfo struct {
	s    string
	keys []*Term // the keys it was computed from
	bad  string  // the key reaches the path other than through a hash
	enc  []string
	cov  map[int]bool // digits of the hash that are part of it
	dir  bool
}

func (k *fileCheck) isKey(t *Term) bool {
	t = unbox(t)
	return t.k == TSym && t.typ != nil && types.Identical(t.typ, k.keyT) || t.k == TSym && t.typ != nil && isTP(t.typ) && t.typ.String() == k.keyT.String()
}

func isTP(t types.Type) bool { _, ok := types.Unalias(t).(*types.TypeParam); return ok }

func (k *fileCheck) path(st *State, t *Term) *pathInfo {
	p := &pathInfo{cov: map[int]bool{}}
	p.s = k.render(st, p, st.resolve(t), false, 0, 32)
	return p
}

func (k *fileCheck) render(st *State, p *pathInfo, t *Term, hashed bool, lo, hi int64) string {
	t = st.resolve(t)
	if t.k == TOp && t.op == "iface" {
		return k.render(st, p, t.args[0], hashed, lo, hi)
	}
	if k.isKey(t) {
		known := false
		for _, o := range p.keys {
			known = known || o == unbox(t)
		}
		if !known {
			p.keys = append(p.keys, unbox(t))
		}
		if !hashed {
			p.bad = "the key itself is part of the path"
		}
		return "KEY"
	}
	if s, ok := t.strVal(); ok {
		return fmt.Sprintf("%q", s)
	}
	if n, ok := t.intVal(); ok {
		return fmt.Sprint(n)
	}
	if k.recv != nil && t == st.getT("dir") {
		p.dir = true
		return "DIR"
	}
	sub := func(args []*Term, h bool, lo, hi int64) string {
		var ss []string
		for _, a := range args {
			ss = append(ss, k.render(st, p, a, h, lo, hi))
		}
		return strings.Join(ss, ",")
	}
	switch {
	case t.k == TOp && t.op == "slice":
		l, ok1 := t.args[1].intVal()
		h, ok2 := t.args[2].intVal()
		if t.args[2].isNil() {
			h, ok2 = hi-lo, true
		}
		if !ok1 || !ok2 {
			return "slice(" + sub(t.args[:1], hashed, 0, 0) + ")"
		}
		nl, nh := lo+l, lo+h
		if nh > hi {
			nh = hi
		}
		return k.render(st, p, t.args[0], hashed, nl, nh) + fmt.Sprintf("[%d:%d]", l, h)
	case t.k == TOp && strings.HasPrefix(t.op, "call:"):
		n := t.op[5:]
		switch {
		case hashFn(n):
			return n + "(" + sub(t.args, true, 0, 32) + ")"
		case strings.HasPrefix(n, "encoding/hex."):
			r := n + "(" + sub(t.args, hashed, 0, 32) + ")"
			if strings.Contains(r, "crypto/") {
				for i := lo; i < hi; i++ {
					p.cov[int(i)] = true
				}
			}
			return r
		case n == "fmt.Sprint" || n == "fmt.Sprintf" || n == "encoding/json.Marshal":
			r := n + "(" + sub(t.args, hashed, 0, 32) + ")"
			if strings.Contains(r, "KEY") && !strings.Contains(r, "crypto/") {
				p.enc = append(p.enc, n)
				if n == "fmt.Sprintf" && strings.Contains(r, "%T") && (strings.Contains(r, "%#v") || strings.Contains(r, "%q")) {
					p.enc = nil
				}
			}
			return r
		case strings.HasSuffix(n, ".Join"), strings.HasSuffix(n, ".Clean"), strings.HasSuffix(n, ".FromSlash"):
			return "path(" + sub(t.args, hashed, 0, 32) + ")"
		}
		return n + "(" + sub(t.args, hashed, 0, 32) + ")"
	case t.k == TOp && t.op == "concat":
		// nested concatenations are flattened
		return k.render(st, p, t.args[0], hashed, 0, 32) + "+" + k.render(st, p, t.args[1], hashed, 0, 32)
	case t.k == TOp:
		return t.op + "(" + sub(t.args, hashed, 0, 32) + ")"
	case t.k == TSym && len(t.prov) == 1 && t.label == "conv":
		return k.render(st, p, t.prov[0], hashed, lo, hi)
	case t.k == TSym && t.instr != nil:
		if i, ok := t.instr.(*ssa.Call); ok && i.Call.StaticCallee() != nil {
			return fname(i.Call.StaticCallee()) + "()"
		}
	}
	return t.String()
}

// own reports whether p is the file of the key key.
func (k *fileCheck) ownPath(p *pathInfo) bool { return len(p.keys) == 1 }

// judgePath applies the rules about the file of a key.
func (k *fileCheck) judgePath(st *State, ev *Ev, p *pathInfo) {
	k.ob(ev, "path")
	k.paths[p.s] = true
	if p.bad != "" {
		k.bad(st, ev, "hashed", p.bad+": a key may name a file outside the directory of the cache")
	}
	if !strings.HasPrefix(p.s, "path(DIR,") && !strings.HasPrefix(p.s, "DIR+") {
		k.bad(st, ev, "path", "the file of a key is not under Dir: "+p.s)
	}
	if !strings.HasSuffix(p.s, `.cache"`) && !strings.HasSuffix(p.s, `.cache")`) {
		k.bad(st, ev, "path", "the file of a key does not end in .cache, so that cleaning and Purge pass over it: "+p.s)
	}
	if p.bad == "" && len(p.cov) < 24 {
		k.bad(st, ev, "path", fmt.Sprintf("the name of a key's file holds only %d digits of the hash: different keys share files", len(p.cov)))
	}
	for _, e := range p.enc {
		if k.on["isolation"] {
			k.c.Ob("isolation", cachePkg+".FileStore "+e)
			k.c.Bad(st, "isolation", cachePkg+".FileStore "+e, ev.Pos, "what is hashed is the text "+e+" prints for the key, which is the same for different keys of some types; the key stored in the file is never compared")
		}
	}
}

func (k *fileCheck) find() bool {
	c := k.c
	nm := c.P.named(cachePkg, "FileStore")
	if nm != nil {
		s, _ := nm.Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			f := s.Field(i).Origin()
			switch {
			case f.Name() == "Dir":
				k.dirF = f
			case f.Name() == "GCCycle":
				k.cycleF = f
			case namedIs(f.Type(), "sync/atomic", "Int64"):
				k.lastF = f
			case namedIs(f.Type(), "sync/atomic", "Bool"):
				k.stF = f
			}
		}
	}
	if k.dirF == nil || k.cycleF == nil {
		c.Bad(nil, "anchor", cachePkg+".FileStore", 0, "FileStore or its fields Dir, GCCycle are gone")
		return false
	}
	return true
}

func (k *fileCheck) init(st *State, ps []*Term) {
	k.recv, k.ps = ps[0], ps
	ps[0].nonnil = true
	k.dirT = st.x.T.root("Dir", types.Typ[types.String])
	st.heap[fAddr(st, ps[0], k.dirF)] = k.dirT
	st.setT("dir", k.dirT)
}

func (k *fileCheck) keep(st *State, a *Term) bool {
	if a.k == TSym && a.alloc && k.recv != nil && st.heap[a] == k.recv {
		return true // the receiver, captured by a function literal
	}
	if a.k == TFA && k.recv != nil && a.args[0] == k.recv && (a.fld == k.dirF || a.fld == k.cycleF) {
		return true
	}
	if a.k == TIA {
		for _, p := range k.ps {
			if a.args[0] == p {
				return true
			}
		}
	}
	return false
}

// isNotExist: the error is known to mean that the file is not there
func (k *fileCheck) notExist(st *State, e *Term) (val, known bool) {
	T := st.x.T
	e = st.resolve(e)
	if k.acc.nilT(st, e) {
		return false, true
	}
	for _, o := range []*Term{T.op("call:os.IsNotExist", types.Typ[types.Bool], e)} {
		if v, kn := st.truth(o); kn {
			return v, true
		}
	}
	for o := range st.cond {
		if o.k == TOp && o.op == "call:errors.Is" && len(o.args) == 2 && st.resolve(o.args[0]) == e && strings.Contains(o.args[1].String(), "ErrNotExist") {
			if v, kn := st.truth(o); kn {
				return v, true
			}
		}
	}
	return false, false
}

func (k *fileCheck) dirChecked(st *State, ev *Ev) {
	d := st.getT("dir")
	k.ob(ev, "emptydir")
	if v, known := st.truth(st.mkEq(d, st.x.T.Str(""))); known && !v {
		return
	}
	if st.prove(st.linOf(st.x.T.op("len", types.Typ[types.Int], d)).addk(-1)) {
		return
	}
	k.bad(st, ev, "emptydir", "works on files although Dir may be empty, that is in the working directory")
}

// ---- events shared by all operations

var writeFlags = int64(1 | 2)

func (k *fileCheck) event(st *State, ev *Ev) {
	T := st.x.T
	if ev.Kind == "exit" || ev.Kind == "range" {
		return
	}
	k.notes(st, ev)
	if ev.Panics {
		return
	}
	if ev.Kind == "call" {
		switch ev.Callee {
		case "os.ReadFile", "os.Open", "os.Remove", "os.RemoveAll", "os.WriteFile", "os.Create", "os.OpenFile", "os.Rename", "os.Truncate":
			if k.name != "gc" {
				k.dirChecked(st, ev)
			}
		}
		switch ev.Callee {
		case "time.Now":
			for i := 3; i > 0; i-- {
				st.setT(fmt.Sprint("now", i), st.getT(fmt.Sprint("now", i-1)))
			}
			st.setT("now0", ev.Res[0])
		case "crypto/md5.New", "crypto/sha1.New", "crypto/sha256.New", "crypto/sha512.New":
			st.setT("hw", nil)
		case "os.ReadFile":
			st.setT("rp", ev.Args[0])
			st.setT("rc", ev.Res[0])
			st.setT("re", ev.Res[1])
			for _, n := range []string{"item", "ue", "xe", "xd", "verdict"} {
				st.setT(n, nil)
			}
			p := k.path(st, ev.Args[0])
			switch {
			case len(p.keys) == 1:
				k.judgePath(st, ev, p)
				st.setT("rkey", p.keys[0])
			case k.walked(st, ev.Args[0]):
			default:
				k.bad(st, ev, "path", "reads a file that is not that of a key: "+p.s)
			}
		case "encoding/json.Unmarshal":
			st.setT("ue", ev.Res[0])
			st.setT("item", unbox(st.resolve(ev.Args[1])))
			if ev.Args[0] != st.getT("rc") {
				st.setT("item", nil)
			}
			it := unbox(st.resolve(ev.Args[1]))
			if _, ok := derefT(it.typ).Underlying().(*types.Pointer); ok {
				k.bad(st, ev, "answer", "decodes into a pointer, which the file content null sets to nil")
			}
		case "os.Remove":
			k.removed(st, ev)
		case "os.RemoveAll":
			k.bad(st, ev, "remove", "removes a whole tree, which may hold files of others")
		case "os.WriteFile", "os.Create", "os.OpenFile":
			if ev.Callee == "os.OpenFile" {
				if fl, ok := ev.Args[1].intVal(); ok && fl&writeFlags == 0 {
					return
				}
			}
			p := k.path(st, ev.Args[0])
			k.ob(ev, "atomic")
			if strings.HasSuffix(p.s, `.cache"`) || strings.HasSuffix(p.s, `.cache")`) {
				k.bad(st, ev, "atomic", "writes to the cache file in place: a read at the same time, or after a crash, finds half an entry")
			}
			st.setT("tmp", ev.Args[0])
			if ev.Callee == "os.WriteFile" {
				st.setT("wd", ev.Args[1])
				st.setT("we", ev.Res[0])
				st.setT("oe", ev.Res[0])
			} else {
				st.setT("tf", ev.Res[0])
				st.setT("oe", ev.Res[1])
			}
		case "os.CreateTemp":
			k.ob(ev, "atomic")
			st.setT("tf", ev.Res[0])
			st.setT("oe", ev.Res[1])
			st.setT("tmp", nil)
		case "os.File.Write", "os.File.WriteString":
			if ev.Args[0] == st.getT("tf") {
				st.setT("wd", ev.Args[1])
				st.setT("we", ev.Res[1])
			}
		case "os.File.Close":
			if ev.Args[0] == st.getT("tf") {
				st.setT("ce", ev.Res[0])
			}
		case "os.File.Name":
			st.setT("tname", ev.Res[0])
		case "encoding/json.MarshalIndent", "encoding/json.Marshal":
			st.setT("mi", unbox(st.resolve(ev.Args[0])))
			st.setT("md", ev.Res[0])
			st.setT("me", ev.Res[1])
		case "os.Rename":
			k.renamed(st, ev)
		}
	}
	if ev.Kind == "callback" && len(ev.Res) > 0 && ifaceMethod(ev) == "IsDir" || ev.Kind == "call" && strings.HasSuffix(ev.Callee, ".IsDir") {
		st.setT("isdir", ev.Res[0])
	}
	if ev.Kind == "callback" && ifaceMethod(ev) == "Type" {
		st.setT("isdir", T.Bool(false))
	}
	if ev.Kind == "cbargs" && strings.HasPrefix(ev.Callee, "path/filepath.Walk") {
		st.setT("walk", ev.Args[0])
		st.setT("walkerr", ev.Args[2])
		st.setT("isdir", nil)
	}
	if ev.Kind == "call" && strings.HasPrefix(ev.Callee, "path/filepath.Walk") {
		p := k.path(st, ev.Args[0])
		if p.s != "DIR" {
			k.bad(st, ev, "path", "scans something else than Dir")
		}
	}
}

// walked: the path was met by a scan of Dir, is not a directory and ends in .cache
func (k *fileCheck) walked(st *State, p *Term) bool {
	w := st.getT("walk")
	if w == nil || st.resolve(p) != w {
		return false
	}
	T := st.x.T
	suf := false
	for _, s := range []string{".cache"} {
		if v, kn := st.truth(T.op("call:strings.HasSuffix", types.Typ[types.Bool], w, T.Str(s))); kn && v {
			suf = true
		}
		for _, f := range []string{"path/filepath.Ext", "path.Ext"} {
			if v, kn := st.truth(st.mkEq(T.op("call:"+f, types.Typ[types.String], w), T.Str(s))); kn && v {
				suf = true
			}
		}
	}
	if !suf {
		return false
	}
	if d := st.getT("isdir"); d != nil {
		v, kn := st.truth(d)
		return kn && !v
	}
	return false
}

func (k *fileCheck) removed(st *State, ev *Ev) {
	T := st.x.T
	k.ob(ev, "remove")
	a := st.resolve(ev.Args[0])
	p := k.path(st, a)
	st.setT("rme", ev.Res[0])
	switch {
	case st.getT("tf") != nil && (a == st.getT("tname") || st.getT("tmp") != nil && a == st.resolve(st.getT("tmp"))),
		st.getT("tmp") != nil && a == st.resolve(st.getT("tmp")):
		return // the temporary file
	case k.name == "Delete" && len(p.keys) == 1:
		k.judgePath(st, ev, p)
		return
	case k.name == "Purge":
		if !k.walked(st, a) {
			k.bad(st, ev, "remove", "Purge removes a file that is not known to be a cache file")
		}
		return
	}
	if rp := st.getT("rp"); rp == nil || a != st.resolve(rp) && p.s != k.path(st, rp).s {
		k.bad(st, ev, "remove", "removes a file that it has not read")
		return
	}
	if k.name == "gc" && !k.walked(st, a) {
		k.bad(st, ev, "remove", "cleaning removes a file that is not known to be a cache file")
	}
	if e := st.getT("ue"); e != nil && st.notNil(e) {
		return
	}
	if k.expired(st) {
		return
	}
	_ = T
	k.bad(st, ev, "remove", "removes a file that was not found to be expired or undecodable")
}

func (k *fileCheck) decoded(st *State) bool {
	re, ue := st.getT("re"), st.getT("ue")
	return re != nil && k.acc.nilT(st, re) && ue != nil && k.acc.nilT(st, ue) && st.getT("item") != nil
}

// note the fields of the decoded item as they are read, and what is found out
// about the expiry as soon as it is known
func (k *fileCheck) notes(st *State, ev *Ev) {
	switch ev.Kind {
	case "load":
		it := st.getT("item")
		if it == nil || ev.Addr.k != TFA || ev.Addr.args[0] != it {
			return
		}
		if ev.Addr.fld == k.exp {
			st.setT("xe", ev.Val)
		}
		if ev.Addr.fld == k.data {
			st.setT("xd", ev.Val)
		}
	case "branch":
		e := st.getT("xe")
		if e == nil || st.getT("verdict") != nil || !k.decoded(st) {
			return
		}
		for _, n := range st.monKeys("now") {
			t := st.nanos(st.getT(n))
			if st.proveLE(t, e) {
				st.setT("verdict", st.x.T.Bool(true))
				st.clearMon("now")
				return
			}
			if st.proveLE(e, t) {
				st.setT("verdict", st.x.T.Bool(false))
				st.clearMon("now")
				return
			}
		}
	}
}
func (k *fileCheck) expired(st *State) bool {
	v := st.getT("verdict")
	return v != nil && v.isBool(false)
}
func (k *fileCheck) alive(st *State) bool {
	v := st.getT("verdict")
	return v != nil && v.isBool(true)
}

func (k *fileCheck) renamed(st *State, ev *Ev) {
	k.ob(ev, "atomic")
	st.setT("ne", ev.Res[0])
	p := k.path(st, ev.Args[1])
	if len(p.keys) != 1 {
		k.bad(st, ev, "path", "renames to a file that is not that of a key: "+p.s)
	} else {
		k.judgePath(st, ev, p)
		if p.keys[0] != st.getT("wkey") {
			k.bad(st, ev, "stored", "writes the file of another key")
		}
	}
	for _, n := range []string{"oe", "we"} {
		if e := st.getT(n); e == nil || !k.acc.nilT(st, e) {
			k.bad(st, ev, "atomic", "puts a file in place that may not have been written completely")
		}
	}
	k.stored(st, ev)
	st.setT("placed", st.x.T.Bool(true))
}

// stored: what is written is the encoded item of the given key, value and ttl
func (k *fileCheck) stored(st *State, ev *Ev) {
	T := st.x.T
	k.ob(ev, "stored")
	if d := st.getT("wd"); d == nil || d != st.getT("md") || !k.acc.nilT(st, st.getT("me")) {
		k.bad(st, ev, "stored", "what is written is not the encoded item")
		return
	}
	it := st.getT("mi")
	get := func(f *types.Var) *Term {
		if f == nil {
			return nil
		}
		if it.k == TStruct {
			s := coreStruct(it.typ)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Origin() == f {
					return it.args[i]
				}
			}
		}
		return st.heap[fAddr(st, it, f)]
	}
	// roles of the fields, from what a write puts there
	if s := coreStruct(derefT(it.typ)); s != nil && k.data == nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i).Origin()
			v := get(f)
			switch {
			case v == nil:
			case v == k.value():
				k.data = f
			case v == st.getT("wkey"):
				k.key = f
			case isInt(f.Type()) && k.isExpiry(st, v):
				k.exp = f
			}
		}
	}
	if v := get(k.data); k.data == nil || v != k.value() {
		k.bad(st, ev, "stored", "the value given is not stored")
	}
	if v := get(k.exp); k.exp == nil || v == nil || !k.isExpiry(st, v) {
		k.bad(st, ev, "stored", "the expiry stored is not the current time plus the ttl")
	}
	_ = T
}

func (k *fileCheck) value() *Term { return k.ps[len(k.ps)-2] }

func (k *fileCheck) isExpiry(st *State, v *Term) bool {
	for _, n := range st.monKeys("now") {
		l := st.linOf(v).add(st.linOf(st.nanos(st.getT(n))), -1).add(st.linOf(k.ps[len(k.ps)-1]), -1)
		if st.prove(l) && st.prove(l.scale(-1)) {
			return true
		}
	}
	return false
}

// ---- one write

func (k *fileCheck) set(st *State, ev *Ev) {
	k.event(st, ev)
	if ev.Kind != "exit" || ev.Panics {
		return
	}
	k.ob(ev, "errors")
	res := st.resolve(ev.Res[0])
	if k.acc.nilT(st, res) {
		if st.getT("placed") == nil {
			k.bad(st, ev, "errors", "reports success without having written the file")
		}
		for _, n := range []string{"me", "oe", "we", "ce", "ne"} {
			if e := st.getT(n); e != nil && !k.acc.nilT(st, e) {
				k.bad(st, ev, "errors", "reports success although a step may have failed")
			}
		}
		return
	}
	if st.notNil(res) {
		if st.getT("placed") != nil && k.acc.nilT(st, st.getT("ne")) && (st.getT("ce") == nil || k.acc.nilT(st, st.getT("ce"))) {
			k.bad(st, ev, "errors", "reports an error although every step succeeded")
		}
		return
	}
	// the result is the error of one step and may be nil: then all must be
	e := st.clone()
	if e.assume(e.mkEq(res, e.x.T.Nil()), true) {
		for _, n := range []string{"me", "oe", "we", "ce", "ne"} {
			if t := e.getT(n); t != nil && !k.acc.nilT(e, t) {
				k.bad(st, ev, "errors", "reports success although a step may have failed")
			}
		}
		if e.getT("placed") == nil {
			k.bad(st, ev, "errors", "reports success without having written the file")
		}
	}
}

// ---- reads

// answer judges an answer given for key.
func (k *fileCheck) answer(st *State, ev *Ev, key, v, ok, e *Term) {
	k.ob(ev, "answer")
	hit := func(s *State) {
		if s.getT("rp") == nil || s.getT("rkey") != key {
			k.bad(s, ev, "answer", "a hit does not come from the file of the key asked for")
			return
		}
		if !k.decoded(s) {
			k.bad(s, ev, "answer", "a hit although the file was not read and decoded")
			return
		}
		if !k.alive(s) {
			k.bad(s, ev, "answer", "a hit although the entry may have expired")
		}
		if d := s.getT("xd"); v != nil && (d == nil || s.resolve(v) != d) {
			k.bad(s, ev, "answer", "the value is not the one stored")
		}
	}
	miss := func(s *State) {
		if re := s.getT("re"); re != nil && s.getT("rkey") == key {
			if ne, kn := k.notExist(s, re); kn && ne {
				return
			}
			if k.expired(s) {
				return
			}
		}
		k.bad(s, ev, "answer", "a miss although the file may hold a live entry, or reading it may have failed")
	}
	st.cases(ok, func(s *State, h bool) {
		if e == nil {
			if h {
				hit(s)
			} else {
				miss(s)
			}
			return
		}
		s.cases(s.mkEq(s.resolve(e), s.x.T.Nil()), func(s *State, isNil bool) {
			switch {
			case h && isNil:
				hit(s)
			case h:
				k.bad(s, ev, "answer", "a hit together with an error")
			case isNil:
				miss(s)
			default:
				if d := s.getT("dir"); s.getT("re") == nil {
					if v, kn := s.truth(s.mkEq(d, s.x.T.Str(""))); kn && v {
						return
					}
				}
				if re := s.getT("re"); re != nil && s.notNil(re) {
					if ne, kn := k.notExist(s, re); kn && !ne {
						return
					}
				}
				if ue := s.getT("ue"); ue != nil && s.notNil(ue) {
					return
				}
				k.bad(s, ev, "answer", "an error although nothing failed")
			}
		})
	})
}

func (k *fileCheck) get(st *State, ev *Ev) {
	k.event(st, ev)
	if ev.Kind == "exit" && !ev.Panics {
		k.answer(st, ev, k.ps[2], st.resolve(ev.Res[0]), st.resolve(ev.Res[1]), st.resolve(ev.Res[2]))
	}
}

// ---- Delete, MSet

func (k *fileCheck) del(st *State, ev *Ev) {
	T := st.x.T
	k.event(st, ev)
	k.acc.event(st, ev)
	switch {
	case ev.Kind == "load":
		if ev.Addr.k == TIA && ev.Addr.args[0] == k.ps[2] {
			st.setT("el", T.tuple(ev.Val, ev.Addr.args[1]))
		}
	case ev.Kind == "call" && ev.Callee == "os.Remove":
		k.ob(ev, "errors")
		p := k.path(st, ev.Args[0])
		el := st.getT("el")
		if len(p.keys) != 1 || el == nil || el.args[0] != p.keys[0] || !same(st, el.args[1], st.getT("#n")) {
			k.bad(st, ev, "errors", "a key is passed over or removed twice")
		}
		inc(st, "#n")
		k.acc.add(st, ev, ev.Res[0])
	case ev.Kind == "exit" && !ev.Panics:
		if d := st.getT("dir"); d != nil {
			if v, kn := st.truth(st.mkEq(d, T.Str(""))); kn && v {
				k.ob(ev, "errors")
				if !st.notNil(ev.Res[0]) {
					k.bad(st, ev, "emptydir", "an empty Dir is not refused")
				}
				return
			}
		}
		k.acc.exit(st, ev, ev.Res[0])
		if !st.proveLE(T.op("len", types.Typ[types.Int], k.ps[2]), st.getT("#n")) {
			k.bad(st, ev, "errors", "returns before every key was deleted")
		}
	}
}

func (k *fileCheck) mset(st *State, ev *Ev) {
	T := st.x.T
	k.event(st, ev)
	k.acc.event(st, ev)
	switch ev.Kind {
	case "range":
		if ev.Addr == k.ps[2] {
			k.owed(st, ev)
			st.setT("rk", ev.Args[0])
			st.setT("rv", ev.Args[1])
			st.setT("owe", T.Bool(true))
		}
	case "rangeend":
		k.owed(st, ev)
		if ev.Addr == k.ps[2] {
			st.setT("all", T.Bool(true))
		}
	case "writer":
		k.ob(ev, "errors")
		if t := ev.Args[len(ev.Args)-1]; t != k.ps[3] {
			k.bad(st, ev, "errors", "an entry is written with another ttl than the caller's")
		}
		st.setT("owe", nil)
		k.acc.add(st, ev, ev.Res[0])
	case "exit":
		if ev.Panics {
			return
		}
		if d := st.getT("dir"); d != nil {
			if v, kn := st.truth(st.mkEq(d, T.Str(""))); kn && v {
				if !st.notNil(ev.Res[0]) {
					k.bad(st, ev, "emptydir", "an empty Dir is not refused")
				}
				return
			}
		}
		k.acc.exit(st, ev, ev.Res[0])
		if st.getT("all") == nil && !st.prove(st.linOf(T.op("len", types.Typ[types.Int], k.ps[2])).scale(-1)) {
			k.bad(st, ev, "errors", "returns before every entry was written")
		}
	}
}

func (k *fileCheck) owed(st *State, ev *Ev) {
	if st.getT("owe") != nil {
		k.bad(st, ev, "errors", "an entry is not written")
		st.setT("owe", nil)
	}
}

// ---- Purge

func (k *fileCheck) purge(st *State, ev *Ev) {
	T := st.x.T
	k.event(st, ev)
	isErr := func(t types.Type) bool { return t != nil && t.String() == "error" }
	mine := func(v *Term) bool {
		v = unbox(st.resolve(v))
		return v == st.getT("rme") || v == st.getT("walkerr") || hasTaint(st.taintOf(v), "errs")
	}
	switch {
	case ev.Kind == "cbargs":
		st.setT("incb", T.Bool(true))
		st.setT("rme", nil)
		st.setT("cell", nil)
	case ev.Kind == "append" && st.getT("incb") != nil:
		for _, e := range st.elems(ev.Args[len(ev.Args)-1]) {
			if mine(e) {
				st.addTaint(ev.Val, "errs")
			}
		}
	case ev.Kind == "call" && (ev.Callee == "errors.Join" || ev.Callee == "fmt.Errorf"):
		for _, a := range ev.Args {
			for _, e := range st.elems(a) {
				if mine(e) {
					st.addTaint(ev.Res[0], "errs")
				}
			}
		}
	case ev.Kind == "store" && st.getT("incb") != nil && ev.Addr.alloc && ev.Addr.k == TSym:
		if isErr(derefT(ev.Addr.typ)) {
			if old := st.heap[ev.Addr]; k.acc.nilT(st, ev.Val) && (old == nil || !k.acc.nilT(st, old)) {
				k.bad(st, ev, "errors", "the error of an earlier file is forgotten")
			} else if old != nil && !k.acc.nilT(st, old) || old == nil {
				st.setT("over", ev.Addr)
			}
		}
		if mine(ev.Val) {
			st.setT("cell", ev.Addr)
		}
	case ev.Kind == "cbret":
		st.setT("incb", nil)
		k.ob(ev, "errors")
		if a := st.getT("over"); a != nil {
			if v := st.heap[a]; v != nil && k.acc.nilT(st, v) {
				k.bad(st, ev, "errors", "the error of an earlier file is forgotten")
			}
			st.setT("over", nil)
		}
		kept := func() {
			if st.getT("cell") == nil {
				k.bad(st, ev, "errors", "the error of a file is dropped")
			}
		}
		we := st.getT("walkerr")
		if we != nil && !k.acc.nilT(st, we) {
			if ne, kn := k.notExist(st, we); !(kn && ne) {
				kept()
			}
			return
		}
		if len(ev.Res) == 1 && !k.acc.nilT(st, ev.Res[0]) {
			k.bad(st, ev, "errors", "the scan may end before every cache file was removed")
		}
		if e := st.getT("rme"); e != nil {
			if k.acc.nilT(st, e) {
				return
			}
			if ne, kn := k.notExist(st, e); kn && ne {
				return
			}
			kept()
		} else if k.walked(st, st.getT("walk")) {
			k.bad(st, ev, "errors", "a cache file is passed over")
		} else if !k.excused(st) {
			k.bad(st, ev, "errors", "a cache file may be passed over")
		}
	case ev.Kind == "exit" && !ev.Panics:
		k.ob(ev, "errors")
		if d := st.getT("dir"); d != nil {
			if v, kn := st.truth(st.mkEq(d, T.Str(""))); kn && v {
				if !st.notNil(ev.Res[0]) {
					k.bad(st, ev, "emptydir", "an empty Dir is not refused")
				}
				return
			}
		}
		cell := st.getT("cell")
		if cell == nil {
			return
		}
		res := st.resolve(ev.Res[0])
		v := st.heap[cell]
		if v != nil && isErr(derefT(cell.typ)) && k.acc.nilT(st, v) || st.notNil(res) {
			return
		}
		if v != nil && st.prove(st.linOf(T.op("len", types.Typ[types.Int], v)).scale(-1)) && !isErr(derefT(cell.typ)) {
			return
		}
		if !k.acc.nilT(st, res) && v != nil && derives(res, v, 4) {
			return
		}
		k.bad(st, ev, "errors", "reports success although a file could not be removed")
	}
}

func derives(t, v *Term, d int) bool {
	if t == v {
		return true
	}
	if t == nil || d == 0 {
		return false
	}
	for _, l := range [][]*Term{t.args, t.prov} {
		for _, a := range l {
			if derives(a, v, d-1) {
				return true
			}
		}
	}
	return false
}

// excused: the path met is known not to be a cache file
func (k *fileCheck) excused(st *State) bool {
	T := st.x.T
	w := st.getT("walk")
	if d := st.getT("isdir"); d != nil {
		if v, kn := st.truth(d); kn && v {
			return true
		}
	}
	if v, kn := st.truth(T.op("call:strings.HasSuffix", types.Typ[types.Bool], w, T.Str(".cache"))); kn && !v {
		return true
	}
	for _, f := range []string{"path/filepath.Ext", "path.Ext"} {
		if v, kn := st.truth(st.mkEq(T.op("call:"+f, types.Typ[types.String], w), T.Str(".cache"))); kn && !v {
			return true
		}
	}
	return false
}

// ---- MGet: position by position

func (k *fileCheck) mget(st *State, ev *Ev) {
	T := st.x.T
	if ev.Kind == "call" && ev.Callee == "os.ReadFile" {
		k.settleGet(st, ev)
	}
	k.event(st, ev)
	intT := types.Typ[types.Int]
	put := func(base, idx, v *Term) {
		el := sliceElemT(base.typ)
		if el == nil {
			return
		}
		b, isBool := el.Underlying().(*types.Basic)
		switch {
		case isBool && b.Kind() == types.Bool:
			st.setT("ss", base)
			k.ob(ev, "position")
			if ri := st.getT("ri"); ri == nil || !same(st, idx, ri) {
				k.bad(st, ev, "position", "an answer is stored at another position than that of its key")
				return
			}
			k.answer(st, ev, st.getT("rkey"), nil, v, nil)
			st.setT("os", T.Bool(true))
		case types.Identical(el, k.valT):
			st.setT("vs", base)
			if ri := st.getT("ri"); ri == nil || !same(st, idx, ri) {
				k.bad(st, ev, "position", "a value is stored at another position than that of its key")
				return
			}
			if k.alive(st) {
				if d := st.getT("xd"); d == nil || st.resolve(v) != d {
					k.bad(st, ev, "position", "the value stored is not the one in the file of the key")
				}
				st.setT("ov", T.Bool(true))
			}
		}
	}
	switch {
	case ev.Kind == "load" && ev.Addr.k == TIA && ev.Addr.args[0] == k.ps[2]:
		st.setT("el", T.tuple(ev.Val, ev.Addr.args[1]))
	case ev.Kind == "store" && ev.Addr.k == TIA && !arrPtrT(ev.Addr.args[0].typ):
		put(ev.Addr.args[0], ev.Addr.args[1], ev.Val)
	case ev.Kind == "append":
		if es := st.elems(ev.Args[len(ev.Args)-1]); len(es) == 1 {
			b := ev.Addr
			if b.isNil() {
				b = ev.Val
				put(b, T.Int(0), es[0])
			} else {
				put(b, T.op("len", intT, b), es[0])
			}
			for _, n := range []string{"ss", "vs"} {
				if st.getT(n) == b {
					st.setT(n, ev.Val)
				}
			}
		}
	case ev.Kind == "call" && ev.Callee == "os.ReadFile":
		el := st.getT("el")
		if el == nil || el.args[0] != st.getT("rkey") || !same(st, el.args[1], st.getT("#n")) {
			k.bad(st, ev, "position", "a key is passed over or asked for twice")
		} else {
			st.setT("ri", st.getT("#n"))
		}
		inc(st, "#n")
	case ev.Kind == "exit" && !ev.Panics:
		k.ob(ev, "position")
		e := st.resolve(ev.Res[2])
		if !k.acc.nilT(st, e) {
			return
		}
		k.settleGet(st, ev)
		n := T.op("len", intT, k.ps[2])
		if !st.proveLE(n, st.getT("#n")) {
			k.bad(st, ev, "position", "returns before every key was asked for")
		}
		for i, m := range []string{"vs", "ss"} {
			r := st.resolve(ev.Res[i])
			if !same(st, T.op("len", intT, r), n) && !(r.isNil() && st.prove(st.linOf(n).scale(-1))) {
				k.bad(st, ev, "position", "the results are not as many as the keys")
			}
			if t := st.getT(m); t != nil && t != r {
				k.bad(st, ev, "position", "what was stored is not what is returned")
			}
		}
	}
}

// settleGet: a live entry must have been put into the results, a failure returned
func (k *fileCheck) settleGet(st *State, ev *Ev) {
	if st.getT("ri") == nil || st.getT("re") == nil {
		return
	}
	miss := k.expired(st) && !k.alive(st)
	if ne, kn := k.notExist(st, st.getT("re")); kn && ne {
		miss = true
	}
	if !miss {
		if !k.decoded(st) {
			k.bad(st, ev, "position", "goes on although the file of a key could not be read or decoded")
		} else if st.getT("os") == nil || st.getT("ov") == nil {
			k.bad(st, ev, "position", "a live entry is missing from the results")
		}
	}
	for _, n := range []string{"ri", "os", "ov"} {
		st.setT(n, nil)
	}
}

func sliceElemT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return nil
}

// ---- background cleaning

func (k *fileCheck) gc(st *State, ev *Ev) {
	T := st.x.T
	k.name = "gc"
	status, last := fAddr(st, k.recv, k.stF), fAddr(st, k.recv, k.lastF)
	k.event(st, ev)
	unixNow := func(v *Term) bool {
		for _, n := range st.monKeys("now") {
			if v == T.op("call:unix", types.Typ[types.Int64], st.getT(n)) || derives(v, st.getT(n), 6) {
				return true
			}
		}
		return false
	}
	switch {
	case ev.Kind == "aload" && ev.Addr == last:
		st.setT("last", ev.Res[0])
		if st.getT("won") != nil {
			st.setT("fresh", T.Bool(true))
		}
	case ev.Kind == "astore" && ev.Addr == last:
		k.ob(ev, "cycle")
		if !unixNow(ev.Val) {
			k.bad(st, ev, "cycle", "the time of the last cleaning is set to something else than now")
		}
		if st.getT("won") != nil {
			st.setT("stamped", T.Bool(true))
		}
	case ev.Kind == "acas" && ev.Addr == status:
		k.ob(ev, "single")
		o, n := ev.Args[0], ev.Args[1]
		if !o.isBool(false) || !n.isBool(true) {
			k.bad(st, ev, "single", "the flag of a running cleaning is not taken from false to true")
			return
		}
		if ev.Detail == "ok" {
			st.setT("won", T.Bool(true))
			st.setT("fresh", nil)
			st.setT("stamped", nil)
		}
	case ev.Kind == "astore" && ev.Addr == status, ev.Kind == "aswap" && ev.Addr == status:
		k.ob(ev, "single")
		v := ev.Val
		switch {
		case v == nil || !v.isBool(false):
			k.bad(st, ev, "single", "the flag of a running cleaning is set without having been free")
		case st.getT("won") == nil:
			k.bad(st, ev, "single", "the flag of a running cleaning is cleared by a call that does not own it")
		default:
			if st.getT("scanned") != nil && st.getT("stamped") == nil {
				k.bad(st, ev, "cycle", "the flag is cleared before the time of this cleaning was recorded: another one starts in the same cycle")
			}
			st.setT("won", nil)
		}
	case ev.Kind == "call" && strings.HasPrefix(ev.Callee, "path/filepath.Walk"):
		st.setT("scanned", T.Bool(true))
		k.ob(ev, "single")
		if st.getT("won") == nil {
			k.bad(st, ev, "single", "cleans without owning the flag of a running cleaning")
		}
	case ev.Kind == "cbargs" && strings.HasPrefix(ev.Callee, "path/filepath.Walk"):
		st.setT("scanned", T.Bool(true))
	case ev.Kind == "go":
		k.ob(ev, "cycle")
		if st.getT("won") == nil {
			k.bad(st, ev, "single", "starts cleaning without owning the flag of a running cleaning")
		}
		if st.getT("fresh") == nil || !k.due(st, ev) {
			k.bad(st, ev, "cycle", "starts cleaning although less than a cycle may have passed since the last one (as read after the flag was taken)")
		}
		st.setT("gone", T.Bool(true))
	case ev.Kind == "exit":
		k.ob(ev, "single")
		if st.getT("won") != nil && st.getT("gone") == nil {
			k.bad(st, ev, "single", "returns with the flag of a running cleaning set: no cleaning will ever start again")
		}
		if ev.Panics && st.getT("child") != nil {
			k.bad(st, ev, "single", "a panic during cleaning ends the program")
		}
	}
}

// due: at least a cycle has passed; unknown if the comparison is of a form that is not understood
func (k *fileCheck) due(st *State, ev *Ev) bool {
	T := st.x.T
	last := st.getT("last")
	if last == nil {
		return false
	}
	cyc := st.heap[fAddr(st, k.recv, k.cycleF)]
	var qs []Lin
	if cyc == nil || st.proveLE(cyc, T.Int(0)) {
		qs = append(qs, linConst(60))
	}
	var us []*Term
	for _, l := range st.lin {
		for t := range l.c {
			if cyc != nil && t != cyc && derives(t, cyc, 5) && st.proveLE(T.Int(1), cyc) {
				qs = append(qs, linTerm(t))
			}
			for _, n := range st.monKeys("now") {
				if derives(t, st.getT(n), 5) {
					us = append(us, t)
				}
			}
		}
	}
	related := false
	for _, u := range us {
		e := linTerm(u).add(st.linOf(last), -1)
		for _, q := range qs {
			if st.prove(e.add(q, -1)) {
				return true
			}
		}
		for _, l := range st.lin {
			if l.c[u] != 0 {
				for t := range l.c {
					related = related || t == last || derives(t, last, 5)
				}
			}
		}
		for _, q := range qs {
			if st.prove(q.add(e, -1)) {
				return false // the comparison is the wrong way round
			}
		}
	}
	if related && len(qs) == 0 {
		k.c.Undecided("gc", "the comparison with the cycle is not of a form that is understood")
		return true
	}
	return false
}

// ---- running them

func (k *fileCheck) run(ops map[string]bool) {
	c := k.c
	k.paths, k.writers = map[string]bool{}, map[*ssa.Function]bool{}
	k.acc = errAcc{bad: func(st *State, ev *Ev, msg string) { k.bad(st, ev, "errors", msg) }, excuse: func(st *State, e *Term) bool {
		if k.name == "MSet" {
			return false
		}
		ne, kn := k.notExist(st, e)
		return kn && ne
	}}
	one := func(name string, f *ssa.Function, h func(*State, *Ev), pre func(st *State)) {
		if f == nil {
			return
		}
		k.name = name
		noGo := func(f *ssa.Function) bool {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Go); ok {
						return true // background work, analysed on its own
					}
				}
			}
			return false
		}
		c.Run(f, &Config{Event: h, NoInline: noGo, Model: k.model, Keep: k.keep, OnFresh: func(st *State, a, s *Term) {
			if a.k == TFA && a.fld == k.dirF && a.args[0] == k.recv {
				st.heap[a] = st.getT("dir")
			}
		}, Go: func(p, ch *State, ev *Ev) bool { return false }}, func(st *State, ps []*Term) {
			k.init(st, ps)
			if pre != nil {
				pre(st)
			}
		})
	}
	get := c.Fn(cachePkg, "FileStore.Get")
	set := c.Fn(cachePkg, "FileStore.Set")
	if get == nil || set == nil {
		return
	}
	k.keyT = set.Params[2].Type()
	wk := func(st *State) { st.setT("wkey", k.ps[2]) }
	one("Set", set, k.set, wk) // first: it tells the fields apart
	if ops["Get"] {
		k.keyT = get.Params[2].Type()
		one("Get", get, k.get, nil)
	}
	if ops["Delete"] {
		if f := c.Fn(cachePkg, "FileStore.Delete"); f != nil {
			k.keyT = f.Params[2].Type().Underlying().(*types.Slice).Elem()
			one("Delete", f, k.del, func(st *State) {
				st.setT("#n", st.x.T.Int(0))
				st.atomFacts(st.x.T.op("len", types.Typ[types.Int], k.ps[2]))
			})
		}
	}
	if ops["MSet"] {
		if f := c.Fn(cachePkg, "FileStore.MSet"); f != nil {
			k.keyT = f.Params[2].Type().Underlying().(*types.Map).Key()
			one("MSet", f, k.mset, nil)
			for w := range k.writers {
				if w != set {
					k.c.Undecided("MSet", "stores entries through "+fname(w))
				}
			}
			if len(k.writers) == 0 {
				k.c.Undecided("MSet", "no function that stores one entry was recognised")
			}
		}
	}
	if ops["MGet"] {
		if f := c.Fn(cachePkg, "FileStore.MGet"); f != nil {
			k.keyT = f.Params[2].Type().Underlying().(*types.Slice).Elem()
			k.valT = f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			one("MGet", f, k.mget, func(st *State) {
				st.setT("#n", st.x.T.Int(0))
				st.atomFacts(st.x.T.op("len", types.Typ[types.Int], k.ps[2]))
			})
		}
	}
	if ops["Purge"] {
		one("Purge", c.Fn(cachePkg, "FileStore.Purge"), k.purge, nil)
	}
	if ops["gc"] {
		ac := k.acc
		k.runGC()
		k.acc = ac
	}
	var all []string
	for p := range k.paths {
		all = append(all, p)
	}
	sort.Strings(all)
	if k.on["path"] {
		c.Ob("samepath", cachePkg+".FileStore")
		if len(all) > 1 {
			c.Bad(nil, "samepath", cachePkg+".FileStore", 0, "operations use different files for the same key: "+strings.Join(all, "  "))
		}
	}
}

// runGC analyses the functions that start background cleaning
func (k *fileCheck) runGC() int {
	c := k.c
	k.keyT, k.acc = types.Typ[types.Invalid], errAcc{bad: func(*State, *Ev, string) {}}
	// the function that starts the goroutine
	n := 0
	for _, f := range c.P.Fns {
		if f.Pkg == nil || rel(f.Pkg.Pkg.Path()) != cachePkg || f.Signature.Recv() == nil || !namedIs(derefT(f.Signature.Recv().Type()), f.Pkg.Pkg.Path(), "FileStore") {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		n++
		k.name = "gc"
		c.Run(f, &Config{Event: k.gc, Model: k.model, Keep: k.keep, CallbackPanics: true, OnFresh: func(st *State, a, s *Term) {
			if a.k == TFA && a.fld == k.dirF && a.args[0] == k.recv {
				st.heap[a] = st.getT("dir")
			}
		}, Go: func(p, ch *State, ev *Ev) bool {
			ch.setT("gone", nil)
			ch.setT("child", ch.x.T.Bool(true))
			return true
		}}, func(st *State, ps []*Term) { k.init(st, ps) })
	}
	return n
}

func init() {
	register(&Property{ID: "C14", Expl: "Every call of the cleaning function and the goroutine it starts, on every path including panics, against a typestate of the flag and of the time of the last cleaning.", Run: func(c *Ctx) {
		k := &fileCheck{c: c, on: map[string]bool{"single": true, "cycle": true}, paths: map[string]bool{}}
		c.rules["single"] = "cleaning is started and done only by the owner of the flag, which clears it on every path, also after a panic"
		c.rules["cycle"] = "cleaning starts only when a cycle has passed since the time of the last one, read after the flag was taken; that time is recorded before the flag is cleared"
		if !k.find() || k.lastF == nil || k.stF == nil {
			return
		}
		n := k.runGC()
		c.N("single")
		if n == 0 {
			c.Bad(nil, "anchor", cachePkg+".FileStore", 0, "nothing starts background cleaning")
		}
		c.Min("cycle", 2)
	}, Assum: []string{"sync/atomic", "filepath.WalkDir calls its function on the calling goroutine"}})
}

func fileProp(id string, ops []string, rules map[string]string, min map[string]int, expl string) {
	register(&Property{ID: id, Expl: expl, Run: func(c *Ctx) {
		k := &fileCheck{c: c, on: map[string]bool{}}
		for n, t := range rules {
			k.on[n] = true
			c.rules[n] = t
		}
		m := map[string]bool{}
		for _, o := range ops {
			m[o] = true
		}
		if k.find() {
			k.run(m)
		}
		for n, m := range min {
			c.Min(n, m)
		}
	}, Assum: []string{"os, path/filepath, encoding/json, crypto/md5 and encoding/hex behave as documented", "Dir is not changed during a call"}})
}

func init() {
	fileProp("C11", []string{"Get", "Delete"}, map[string]string{
		"path":      "the file of a key is Dir plus at least 24 digits of a hash of the key, ending in .cache",
		"hashed":    "the key reaches the path only under the hash",
		"samepath":  "all operations compute the same path for the same key",
		"isolation": "what is hashed tells all keys apart",
		"emptydir":  "files are touched only if Dir was found not empty",
	}, map[string]int{"path": 3}, "Paths are symbolic terms over Dir and the key, compared between operations.")
	fileProp("C12", []string{"Get"}, map[string]string{
		"answer": "a hit needs a file read, decoded and unexpired, and carries its value; a miss needs that the file does not exist or is expired; everything else is an error",
		"stored": "what is written is the encoded key, value and now plus ttl",
	}, map[string]int{"answer": 1, "stored": 1}, "Every answer is compared with what its path established about the file.")
	fileProp("C15", []string{"MGet"}, map[string]string{
		"position": "the i-th answer is that of the file of the i-th key, for every key; a failure ends the call with an error",
		"answer":   "a hit needs a file read, decoded and unexpired; a miss needs that the file does not exist or is expired",
	}, map[string]int{"position": 1}, "")
	fileProp("C13", []string{"Get", "Delete", "MSet", "Purge", "gc"}, map[string]string{
		"atomic":   "a cache file is replaced in one step by a completely written file",
		"remove":   "files are removed only if they belong to a deleted key, were found expired or undecodable, or are cache files met by Purge",
		"errors":   "every failing step is part of the error returned and does not stop the others; success means every step succeeded",
		"emptydir": "files are touched only if Dir was found not empty",
	}, map[string]int{"atomic": 2, "remove": 3, "errors": 4}, "")
}
