package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Digests: which algorithm was fed with which bytes, as a typestate of hash
// objects, and how the sum is turned into the result.

type digestCheck struct {
	c    *Ctx
	name string
	alg  string // package path + function that stands for the algorithm
	ps   []*Term
}

var digestOf = map[string]string{
	"crypto/md5.Sum": "md5", "crypto/md5.New": "md5",
	"crypto/sha1.Sum": "sha1", "crypto/sha1.New": "sha1",
	"crypto/sha256.Sum256": "sha256", "crypto/sha256.New": "sha256",
	"crypto/sha256.Sum224": "sha224", "crypto/sha256.New224": "sha224",
	"crypto/sha512.Sum512": "sha512", "crypto/sha512.New": "sha512",
	"crypto/sha512.Sum384": "sha384", "crypto/sha512.New384": "sha384",
	"crypto/sha512.Sum512_256": "sha512/256", "crypto/sha512.Sum512_224": "sha512/224",
	"hash/fnv.New32": "fnv1-32", "hash/fnv.New32a": "fnv1a-32",
	"hash/fnv.New64": "fnv1-64", "hash/fnv.New64a": "fnv1a-64",
}

// whole: t is all of the argument
func (k *digestCheck) whole(st *State, t *Term) bool {
	root, off := region(st, t)
	return root == k.ps[0] && eqLin(st, off, linConst(0)) && eqLin(st, lenOf(st, t), lenOf(st, k.ps[0]))
}

// sum tells which digest of the argument a value is, or a slice of all of it.
func (k *digestCheck) sum(st *State, t *Term) string {
	t = st.resolve(t)
	if d := st.getT("dg"); d != nil {
		if st.resolve(d.args[0]) == t {
			s, _ := d.args[1].strVal()
			return s
		}
		if t.k == TOp && t.op == "slice" && t.args[0].alloc {
			n, arr := arrayLen(t.args[0].typ)
			if arr && (t.args[1].isNil() || t.args[1] == st.x.T.Int(0)) &&
				(t.args[2].isNil() || t.args[2] == st.x.T.Int(n)) {
				if v := st.heap[t.args[0]]; v != nil {
					return k.sum(st, v)
				}
			}
		}
	}
	return ""
}

func (k *digestCheck) model(st *State, c *Call) ([]Out, bool) {
	T := st.x.T
	name := strings.TrimPrefix(c.Callee, "iface:")
	if strings.HasPrefix(name, "builtin:") || c.Static != nil && inRepo(c.Static) {
		return nil, false
	}
	giveUp := func() ([]Out, bool) {
		k.c.Undecided(k.name, "uses "+name)
		st.dead = true
		return nil, true
	}
	at := fname(c.Fn) + " in " + k.name
	bad := func(rule, msg string) { k.c.Bad(st, rule, at, c.Instr.Pos(), msg) }
	rt := c.ResTypes()
	k.c.Ob("digest", name+" "+at)
	k.c.N("digest")
	if alg := digestOf[name]; alg != "" {
		if alg != k.alg {
			bad("digest", "another algorithm than the one in the name: "+alg)
		}
		if !strings.Contains(name, ".Sum") {
			h := T.sym("hash", rt[0])
			h.nonnil = true
			return []Out{{Res: []*Term{h}, Do: func(s *State) {
				s.setT("h", T.tuple(h, T.Str(alg)))
				s.setT("#fed", T.Int(0))
			}}}, true
		}
		if !k.whole(st, c.Args[0]) {
			bad("digest", "not exactly the bytes given are hashed")
		}
		d := T.sym("digest", rt[0])
		return []Out{{Res: []*Term{d}, Do: func(s *State) { s.setT("dg", T.tuple(d, T.Str(alg))) }}}, true
	}
	switch {
	case name == "encoding/hex.EncodeToString":
		s := T.sym("text", rt[0])
		if d := k.sum(st, c.Args[0]); d != "" {
			return []Out{{Res: []*Term{s}, Do: func(t *State) { t.setT("hex", T.tuple(s, T.Str(d))) }}}, true
		}
		bad("digest", "what is encoded is not the whole digest")
		return []Out{{Res: []*Term{s}}}, true
	case name == "fmt.Sprintf":
		f, ok := c.Args[0].strVal()
		vs := st.elems(c.Args[1])
		if !ok || f != "%x" || len(vs) != 1 {
			return giveUp()
		}
		d := k.sum(st, unbox(st.resolve(vs[0])))
		s := T.sym("text", rt[0])
		if d == "" {
			bad("digest", "what is encoded is not the whole digest")
		}
		return []Out{{Res: []*Term{s}, Do: func(t *State) { t.setT("hex", T.tuple(s, T.Str(d))) }}}, true
	}
	// methods of a hash object
	h := st.getT("h")
	if h == nil || len(c.Args) == 0 || st.resolve(h.args[0]) != unbox(st.resolve(c.Args[0])) {
		return giveUp()
	}
	alg, _ := h.args[1].strVal()
	switch name[strings.LastIndexByte(name, '.')+1:] {
	case "Reset":
		return []Out{{Do: func(s *State) { s.setT("#fed", T.Int(0)) }}}, true
	case "Write":
		root, off := region(st, c.Args[1])
		if root != k.ps[0] {
			return giveUp()
		}
		n := lenOf(st, c.Args[1])
		if !eqLin(st, off, st.linOf(st.getT("#fed"))) {
			bad("digest", "what is hashed does not follow what was hashed before")
		}
		return []Out{{Res: []*Term{settled(st, n), T.Nil()}, Do: func(s *State) {
			s.setT("#fed", settled(s, s.linOf(s.getT("#fed")).add(n, 1)))
		}}}, true
	case "Sum32", "Sum64", "Sum":
		if !eqLin(st, st.linOf(st.getT("#fed")), lenOf(st, k.ps[0])) {
			bad("digest", "the sum is taken before all bytes are hashed")
		}
		if len(c.Args) > 1 && !st.prove(lenOf(st, c.Args[1]).scale(-1)) {
			return giveUp()
		}
		d := T.sym("digest", rt[0])
		return []Out{{Res: []*Term{d}, Do: func(s *State) { s.setT("dg", T.tuple(d, T.Str(alg))) }}}, true
	case "Size", "BlockSize":
		return nil, false
	}
	return giveUp()
}

func (k *digestCheck) event(st *State, ev *Ev) {
	switch ev.Kind {
	case "phi":
		phiRegion(st, ev)
	case "loopentry", "backedge":
		f := st.getT("#fed")
		if f == nil {
			return
		}
		for _, in := range ev.Instr.Block().Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := st.top().env[p]
			if v == nil {
				continue
			}
			var ls []Lin
			if lenable(p.Type()) {
				ls = append(ls, st.linOf(f).add(lenOf(st, v), 1).add(lenOf(st, k.ps[0]), -1))
			} else if isInt(p.Type()) {
				ls = append(ls, st.linOf(f).add(st.linOf(v), -1))
			}
			for _, l := range ls {
				if st.prove(l) && st.prove(l.scale(-1)) {
					st.addLinForce(l)
					st.addLinForce(l.scale(-1))
				}
			}
		}
	case "store", "copy":
		a := ev.Addr
		if ev.Kind == "store" {
			if a.k != TIA {
				return
			}
			a = a.args[0]
		}
		root, _ := region(st, a)
		k.c.Ob("arguments", where(ev)+" in "+k.name)
		k.c.N("arguments")
		if root == k.ps[0] {
			k.c.Bad(st, "arguments", where(ev)+" in "+k.name, ev.Pos, "writes to memory of the argument")
		}
	case "append":
		if root, _ := region(st, ev.Addr); root == k.ps[0] && !full(st, st.resolve(ev.Addr)) {
			k.c.Bad(st, "arguments", where(ev)+" in "+k.name, ev.Pos, "writes to memory of the argument")
		}
	case "exit":
		k.c.Ob("answer", where(ev)+" in "+k.name)
		k.c.N("answer")
		if ev.Panics {
			k.c.Bad(st, "answer", where(ev)+" in "+k.name, ev.Pos, "panics")
			return
		}
		r := st.resolve(ev.Res[0])
		what := "dg"
		if isString(r.typ) {
			what = "hex"
		}
		d := st.getT(what)
		if d == nil {
			if st.getT("h") == nil && st.getT("dg") == nil {
				k.c.Undecided(k.name, "computes the hash itself")
				return
			}
			k.c.Bad(st, "answer", where(ev)+" in "+k.name, ev.Pos, "the result is not the digest")
			return
		}
		if st.resolve(d.args[0]) != r {
			k.c.Bad(st, "answer", where(ev)+" in "+k.name, ev.Pos, "the result is not the digest")
		}
	}
}

func (k *digestCheck) run(name, alg string) {
	fn := k.c.Fn(cryptoPkg, name)
	if fn == nil {
		return
	}
	k.name, k.alg = name, alg
	k.c.Run(fn, &Config{Bounds: true, Event: k.event, Model: k.model, NoInline: func(*ssa.Function) bool { return false }}, func(st *State, ps []*Term) {
		k.ps = ps
		st.atomFacts(st.x.T.op("len", types.Typ[types.Int], ps[0]))
	})
}

func init() {
	register(&Property{ID: "C30", Run: func(c *Ctx) {
		c.rules["digest"] = "the hash object is that of the algorithm named, fed exactly once with exactly the argument before its sum is taken"
		c.rules["answer"] = "the result is the sum, the whole of it in hex where a string is returned"
		c.rules["arguments"] = "the argument is not written to"
		k := &digestCheck{c: c}
		for _, p := range [][2]string{{"Md5", "md5"}, {"Sha1", "sha1"}, {"Sha256", "sha256"}, {"Sha512", "sha512"}, {"Fnv1aToUint64", "fnv1a-64"}, {"Fnv1aToUint32", "fnv1a-32"}} {
			k.run(p[0], p[1])
		}
	}})
}
