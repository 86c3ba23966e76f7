package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Encryption: where the bytes of the input, of the padding, of the IV and of
// the result lie, followed through slicing, copying and appending. The block
// cipher, its modes and the encodings are taken for what they document.
//
// Records (monitors):
//   iv0 iv1   root, offset, length   random bytes / the head of the data decoded
//   body      root, offset           the bytes to be enciphered or deciphered
//   out0 out1 root, offset, length   the bytes enciphered or deciphered
//   raw       root, offset, length   what the decoding gave
//   text      root or string, offset, encoding, length: the encoded result
//   rep       slice, byte, count     bytes.Repeat

const cryptoPkg = "library/cryptox"

type cryptoCheck struct {
	c    *Ctx
	name string
	mode string // ecb cbc ctr
	dec  bool
	ps   []*Term
}

func (k *cryptoCheck) bad(st *State, pos *Ev, rule, msg string) {
	k.c.Bad(st, rule, where(pos)+" in "+k.name, pos.Pos, msg)
}

// fail: bad, unless memory was written in a way that is not followed
func (k *cryptoCheck) fail(st *State, c *Call, rule, msg string) {
	if st.getT("odd") != nil {
		k.c.Undecided(k.name, "fills memory in a way that is not followed")
		st.dead = true
		return
	}
	k.c.Bad(st, rule, fname(c.Fn)+" in "+k.name, c.Instr.Pos(), msg)
}

func (k *cryptoCheck) ob(c *Call, rule string) {
	k.c.Ob(rule, c.Callee+" "+fname(c.Fn)+" in "+k.name)
	k.c.N(rule)
}

// region: the memory a slice lies in and where in it the slice starts
func region(st *State, t *Term) (*Term, Lin) {
	off := linConst(0)
	for i := 0; i < 40; i++ {
		t = st.resolve(t)
		if t.k == TOp && t.op == "slice" {
			if !t.args[1].isNil() {
				off = off.add(st.linOf(t.args[1]), 1)
			}
			t = t.args[0]
			continue
		}
		hit := false
		for _, q := range st.monKeys("rg") {
			r := st.getT(q)
			if r.args[0] != t {
				continue
			}
			hit = true
			if s, ok := r.args[2].strVal(); ok && s == "suf" {
				off = off.add(st.linOf(r.args[3]), 1).add(lenOf(st, t), -1)
			} else {
				off = off.add(st.linOf(r.args[2]), 1)
			}
			t = r.args[1]
			break
		}
		if !hit {
			return t, off
		}
	}
	return t, off
}

// phiRegion keeps what is known of where a slice variable of a loop lies.
func phiRegion(st *State, ev *Ev, ends ...Lin) {
	p, ok := ev.Instr.(*ssa.Phi)
	if !ok || ev.Val == nil || ev.Addr == nil {
		return
	}
	if _, ok := p.Type().Underlying().(*types.Slice); !ok {
		return
	}
	T := st.x.T
	root, off := region(st, ev.Addr)
	for _, q := range st.monKeys("rg") {
		if st.getT(q).args[0].instr == ev.Instr {
			st.setT(q, nil)
		}
	}
	var o, e *Term
	if len(off.c) == 0 {
		o = T.Int(off.k)
	}
	for _, l := range append([]Lin{lenOf(st, root)}, ends...) {
		if eqLin(st, off.add(lenOf(st, ev.Val), 1), l) {
			o, e = T.Str("suf"), settled(st, l)
			break
		}
	}
	if o == nil || root == ev.Val {
		return
	}
	for i := 0; i < 6; i++ {
		if q := fmt.Sprintf("rg%d", i); st.getT(q) == nil {
			st.setT(q, T.tuple(ev.Val, root, o, orNil(T, e)))
			return
		}
	}
}

// settled is a term for a place in memory.
func settled(st *State, l Lin) *Term {
	for _, k := range []int64{0, 16} {
		if eqLin(st, l, linConst(k)) {
			return st.x.T.Int(k)
		}
	}
	return st.x.termOf(l, types.Typ[types.Int])
}

func (k *cryptoCheck) isParam(t *Term) bool {
	for _, p := range k.ps {
		if p == t {
			return true
		}
	}
	return false
}

func (k *cryptoCheck) key() *Term  { return k.ps[0] }
func (k *cryptoCheck) data() *Term { return k.ps[1] }

// want is the number of bytes to be added.
func (k *cryptoCheck) want(st *State) Lin {
	if k.mode == "ctr" {
		return linConst(0)
	}
	_, r := divmod(st, lenOf(st, k.data()), 16)
	return linConst(16).add(r, -1)
}

// bodyLen is the number of bytes to be processed.
func (k *cryptoCheck) bodyLen(st *State) Lin {
	if k.dec {
		if t := st.getT("raw"); t != nil {
			n := st.linOf(t.args[2])
			if k.mode != "ecb" {
				n = n.addk(-16)
			}
			return n
		}
		return linConst(-1)
	}
	return lenOf(st, k.data()).add(k.want(st), 1)
}

// padded: all bytes of the padding are in place
func (k *cryptoCheck) padded(st *State) bool {
	if k.dec || k.mode == "ctr" {
		return true
	}
	f, b := st.linOf(st.getT("#pf")), st.linOf(st.getT("#pb"))
	// #pb counts from the back
	return st.prove(f.add(b, 1).add(k.want(st), -1))
}

// at: where a slice lies relative to a record, if it is in its memory
func at(st *State, rec *Term, root *Term, off Lin) (Lin, bool) {
	if rec == nil || st.resolve(rec.args[0]) != root {
		return Lin{}, false
	}
	return off.add(st.linOf(rec.args[1]), -1), true
}

// body is the place of what is to be processed; the input itself counts.
func (k *cryptoCheck) body(st *State) *Term {
	if b := st.getT("body"); b != nil {
		return b
	}
	if !k.dec {
		return st.x.T.tuple(k.data(), st.x.T.Int(0))
	}
	return nil
}

// transfer: the bytes from src are put at dst, n of them
func (k *cryptoCheck) transfer(st *State, droot *Term, doff Lin, src *Term, n Lin) bool {
	T := st.x.T
	sroot, soff := region(st, src)
	moved := false
	for _, g := range []string{"iv", "out"} {
		for i := 0; i < 2; i++ {
			r := st.getT(fmt.Sprintf("%s%d", g, i))
			d, ok := at(st, r, sroot, soff)
			if !ok {
				continue
			}
			// the record starts -d into the source
			if !st.prove(d.scale(-1)) || !st.prove(n.add(d, 1).add(st.linOf(r.args[2]), -1)) {
				if g == "iv" && st.prove(d.scale(-1)) && st.prove(n.add(d, 1).addk(-16)) {
					// the first 16 are enough
				} else {
					continue
				}
			}
			j := fmt.Sprintf("%s%d", g, 1)
			if i == 1 {
				j = g + "0"
			}
			st.setT(j, T.tuple(droot, settled(st, doff.add(d, -1)), r.args[2]))
			moved = true
			break
		}
	}
	if b := k.body(st); b != nil {
		if d, ok := at(st, b, sroot, soff); ok && st.prove(d.scale(-1)) {
			have := lenOf(st, k.data())
			if k.dec {
				have = k.bodyLen(st)
			} else {
				have = have.add(st.linOf(st.getT("#pf")), 1)
			}
			if st.prove(n.add(d, 1).add(have, -1)) {
				st.setT("body", T.tuple(droot, settled(st, doff.add(d, -1))))
				moved = true
			}
		}
	}
	return moved
}

// pad: v is written at a place of memory
func (k *cryptoCheck) pad(st *State, ev *Ev, root *Term, off Lin, v *Term) bool {
	if k.dec || k.mode == "ctr" || v == nil {
		return false
	}
	d, ok := at(st, k.body(st), root, off)
	if !ok {
		return false
	}
	w := k.want(st)
	n := lenOf(st, k.data())
	if !eqLin(st, st.linOf(v), w) {
		if !st.prove(d.add(n, -1)) || !st.prove(n.add(w, 1).add(d, -1).addk(-1)) || v.k == TConst && v == st.x.T.Int(0) {
			return false
		}
		k.bad(st, ev, "padding", "a byte of the padding is not the number of bytes of the padding")
		return true
	}
	f, b := st.getT("#pf"), st.getT("#pb")
	switch {
	case eqLin(st, d, n.add(st.linOf(f), 1)):
		inc(st, "#pf")
	case eqLin(st, d, n.add(w, 1).add(st.linOf(b), -1).addk(-1)):
		inc(st, "#pb")
	default:
		return false
	}
	return true
}

// padMany: c bytes of the value v
func (k *cryptoCheck) padMany(st *State, root *Term, off Lin, src *Term, n Lin) bool {
	r := st.getT("rep")
	if r == nil || st.resolve(r.args[0]) != st.resolve(src) || k.dec || k.mode == "ctr" {
		return false
	}
	d, ok := at(st, k.body(st), root, off)
	w := k.want(st)
	if !ok || !eqLin(st, st.linOf(r.args[1]), w) || !eqLin(st, d, lenOf(st, k.data())) ||
		!st.prove(st.linOf(r.args[2]).add(w, -1)) || !st.prove(n.add(w, -1)) {
		return false
	}
	st.setT("#pf", settled(st, w))
	return true
}

// same16: n is a whole number of blocks
func whole(st *State, n Lin) bool {
	_, r := divmod(st, n, 16)
	return eqLin(st, r, linConst(0))
}

func (k *cryptoCheck) wrote(st *State, ev *Ev, root *Term) {
	k.c.Ob("arguments", where(ev)+" in "+k.name)
	k.c.N("arguments")
	if k.isParam(root) {
		k.bad(st, ev, "arguments", "writes to memory of an argument")
	}
}

// wroteCall: the same for a function of the library
func (k *cryptoCheck) wroteCall(st *State, c *Call, root *Term) {
	k.ob(c, "arguments")
	if k.isParam(root) {
		k.c.Bad(st, "arguments", fname(c.Fn)+" in "+k.name, c.Instr.Pos(), c.Callee+" writes to memory of an argument")
	}
}

// isFirst tells the value of the first optional argument, if it is known.
func (k *cryptoCheck) flag(st *State) (val, known bool) {
	T := st.x.T
	u := k.ps[2]
	n := lenOf(st, u)
	if st.prove(n.scale(-1)) {
		return false, true
	}
	if !st.prove(n.addk(-1)) {
		return false, false
	}
	a := T.ia(u, T.Int(0), types.NewPointer(types.Typ[types.Bool]))
	return st.truth(st.load(a, types.Typ[types.Bool], "flag", nil))
}

func (k *cryptoCheck) encoding(st *State, c *Call, kind string) {
	k.ob(c, "encoding")
	v, known := k.flag(st)
	if !known || v != (kind == "b64") {
		k.c.Bad(st, "encoding", fname(c.Fn)+" in "+k.name, c.Instr.Pos(), "the encoding is not the one that the optional argument asks for")
	}
}

func divmod(st *State, l Lin, c int64) (q, r Lin) {
	typ := types.Typ[types.Int]
	a, b := st.x.divmod(st, st.x.termOf(l, typ), c, typ)
	return st.linOf(a), st.linOf(b)
}

func encLen(st *State, kind string, n Lin) Lin {
	if kind == "hex" {
		return n.scale(2)
	}
	q, _ := divmod(st, n.scale(8).addk(5), 6)
	return q
}

func decLen(st *State, kind string, n Lin) Lin {
	if kind == "hex" {
		q, _ := divmod(st, n, 2)
		return q
	}
	q, _ := divmod(st, n.scale(6), 8)
	return q
}

// plainText: t is the whole data argument or a copy of it
func (k *cryptoCheck) isData(st *State, t *Term) bool {
	t = st.resolve(t)
	if t.k == TSym && t.label == "conv" && len(t.prov) > 0 {
		return k.isData(st, t.prov[0])
	}
	root, off := region(st, t)
	if !eqLin(st, lenOf(st, t), lenOf(st, k.data())) {
		return false
	}
	return root == k.data() && eqLin(st, off, linConst(0))
}

func (k *cryptoCheck) decoded(st *State, c *Call, kind string, dst *Term, ret func(n, err *Term, fresh *Term) []*Term, src *Term, exact bool) []Out {
	T := st.x.T
	intT := types.Typ[types.Int]
	k.encoding(st, c, kind)
	k.ob(c, "message")
	if !k.isData(st, src) {
		k.fail(st, c, "message", "what is decoded is not the whole message")
	}
	dl := decLen(st, kind, lenOf(st, k.data()))
	var root *Term
	off := linConst(0)
	if dst != nil {
		root, off = region(st, dst)
		k.wroteCall(st, c, root)
		if !st.prove(lenOf(st, dst).add(dl, -1)) {
			k.fail(st, c, "panics", "there may be no room for what is decoded")
		}
	}
	mk := func(good bool) Out {
		n := T.sym("decoded", intT)
		var err *Term = T.Nil()
		var fresh *Term
		if dst == nil {
			fresh = T.sym("decoded bytes", types.NewSlice(types.Typ[types.Byte]))
			fresh.alloc, fresh.nonnil = true, true
		}
		if !good {
			err = T.sym("decoding error", types.Universe.Lookup("error").Type())
			err.nonnil = true
		}
		return Out{Res: ret(n, err, fresh), Do: func(s *State) {
			l := linTerm(n)
			s.addLin(l)
			s.addLin(dl.add(l, -1))
			if good && kind == "hex" {
				s.addLin(l.add(dl, -1))
			}
			// base64 leaves out line ends
			r := root
			if fresh != nil {
				r = fresh
				e := lenOf(s, fresh).add(l, -1)
				s.addLin(e)
				s.addLin(e.scale(-1))
			}
			if !good {
				s.setT("why.decode", T.Bool(true))
				s.clearMon("raw")
				return
			}
			o := settled(s, off)
			s.setT("raw", T.tuple(r, o, n))
			if k.mode == "ecb" {
				s.setT("body", T.tuple(r, o))
			} else {
				s.setT("iv0", T.tuple(r, o, T.Int(16)))
				s.setT("body", T.tuple(r, settled(s, off.addk(16))))
			}
		}}
	}
	return []Out{mk(false), mk(true)}
}

func (k *cryptoCheck) encoded(st *State, c *Call, kind string, dst *Term, str *Term, src *Term) {
	T := st.x.T
	k.encoding(st, c, kind)
	root, off := region(st, src)
	k.ob(c, "message")
	n := lenOf(st, src)
	// what has to be there
	want := n
	ok := true
	if k.mode != "ecb" {
		ok = false
		for _, q := range st.monKeys("iv") {
			if d, in := at(st, st.getT(q), root, off); in && eqLin(st, d, linConst(0)) && st.getT("usediv") != nil {
				ok = true
			}
		}
		if !ok {
			k.fail(st, c, "message", "what is encoded does not start with the IV")
			return
		}
		want = n.addk(-16)
		off = off.addk(16)
	}
	ok = false
	for _, q := range st.monKeys("out") {
		r := st.getT(q)
		d, in := at(st, r, root, off)
		if in && eqLin(st, d, linConst(0)) && eqLin(st, k.outLen(st, r), want) && eqLin(st, want, k.bodyLen(st)) {
			ok = true
		}
	}
	if !ok {
		k.fail(st, c, "message", "what is encoded is not the ciphertext of the whole input")
		return
	}
	el := encLen(st, kind, n)
	if dst != nil {
		r, o := region(st, dst)
		k.wroteCall(st, c, r)
		if !st.prove(lenOf(st, dst).add(el, -1)) {
			k.fail(st, c, "panics", "there may be no room for what is encoded")
		}
		st.setT("text", T.tuple(r, settled(st, o), settled(st, el)))
		return
	}
	st.setT("text", T.tuple(str, T.Int(0), settled(st, el)))
}

func (k *cryptoCheck) outLen(st *State, r *Term) Lin {
	if k.mode == "ecb" {
		return st.linOf(st.getT("#blk")).scale(16)
	}
	return st.linOf(r.args[2])
}

func (k *cryptoCheck) why(st *State) bool { return len(st.monKeys("why.")) > 0 }

func isNilBlock(st *State, t *Term) bool { return st.resolve(t).isNil() }

func (k *cryptoCheck) model(st *State, c *Call) ([]Out, bool) {
	T := st.x.T
	intT := types.Typ[types.Int]
	name := strings.TrimPrefix(c.Callee, "iface:")
	if strings.HasPrefix(name, "builtin:") || name == "dyn" {
		return nil, false
	}
	if c.Static != nil && inRepo(c.Static) {
		return nil, false
	}
	rt := c.ResTypes()
	giveUp := func(why string) ([]Out, bool) {
		k.c.Undecided(k.name, why)
		st.dead = true
		return nil, true
	}
	if isNilBlock(st, firstOr(c.Args, T.Str(""))) && strings.HasPrefix(name, "crypto/cipher.") {
		k.fail(st, c, "panics", "uses a cipher that was not made")
		st.dead = true
		return nil, true
	}
	switch name {
	case "errors.New", "fmt.Errorf", "errors.Is", "errors.As", "errors.Join":
		return nil, false
	case "crypto/aes.NewCipher":
		k.ob(c, "cipher")
		if r, off := region(st, c.Args[0]); r != k.key() || !eqLin(st, off, linConst(0)) || !eqLin(st, lenOf(st, c.Args[0]), lenOf(st, k.key())) {
			k.fail(st, c, "cipher", "the cipher is made with something else than the key")
		}
		err := T.sym("key error", rt[1])
		err.nonnil = true
		blk := T.sym("cipher", rt[0])
		blk.nonnil = true
		return []Out{
			{Res: []*Term{T.Nil(), err}, Do: func(s *State) { s.setT("why.key", T.Bool(true)) }},
			{Res: []*Term{blk, T.Nil()}},
		}, true
	case "crypto/aes.KeySizeError.Error", "error.Error":
		return nil, false
	case "crypto/cipher.Block.BlockSize", "crypto/cipher.BlockMode.BlockSize":
		return []Out{{Res: []*Term{T.Int(16)}}}, true
	case "io.ReadFull", "crypto/rand.Read", "math/rand.Read", "io.ReadAtLeast":
		buf := c.Args[len(c.Args)-1]
		if strings.HasPrefix(name, "io.") {
			buf = c.Args[1]
		}
		root, off := region(st, buf)
		k.wroteCall(st, c, root)
		k.ob(c, "iv")
		good := name != "math/rand.Read"
		if strings.HasPrefix(name, "io.") {
			good = globalIs(unbox(st.resolve(c.Args[0])), "Reader") && strings.Contains(unbox(st.resolve(c.Args[0])).label, "crypto/rand")
		}
		if !good {
			k.fail(st, c, "iv", "the bytes read are not from the cryptographic source")
		}
		n := lenOf(st, buf)
		if name == "io.ReadAtLeast" {
			n = st.linOf(c.Args[2])
		}
		err := T.sym("random error", rt[1])
		err.nonnil = true
		return []Out{
			{Res: []*Term{T.sym("read", intT), err}, Do: func(s *State) { s.setT("why.iv", T.Bool(true)) }},
			{Res: []*Term{settled(st, n), T.Nil()}, Do: func(s *State) {
				s.setT("iv0", T.tuple(root, settled(s, off), settled(s, n)))
				s.setT("iv1", nil)
			}},
		}, true
	case "crypto/cipher.NewCBCEncrypter", "crypto/cipher.NewCBCDecrypter", "crypto/cipher.NewCTR":
		want := map[string]string{"cbcfalse": "crypto/cipher.NewCBCEncrypter", "cbctrue": "crypto/cipher.NewCBCDecrypter",
			"ctrfalse": "crypto/cipher.NewCTR", "ctrtrue": "crypto/cipher.NewCTR"}[k.mode+fmt.Sprint(k.dec)]
		k.ob(c, "cipher")
		if want != name {
			k.fail(st, c, "cipher", "works in another mode than the one it is named after")
		}
		k.ob(c, "iv")
		root, off := region(st, c.Args[1])
		if !eqLin(st, lenOf(st, c.Args[1]), linConst(16)) {
			k.fail(st, c, "panics", "the IV may not be a block long")
		}
		ok := false
		for _, q := range st.monKeys("iv") {
			r := st.getT(q)
			if d, in := at(st, r, root, off); in && eqLin(st, d, linConst(0)) && st.prove(st.linOf(r.args[2]).addk(-16)) {
				ok = true
			}
		}
		if !ok {
			if k.dec {
				k.fail(st, c, "iv", "the IV is not the head of the message")
			} else {
				k.fail(st, c, "iv", "the IV is not a block of fresh random bytes")
			}
		}
		m := T.sym("mode", rt[0])
		m.nonnil = true
		return []Out{{Res: []*Term{m}, Do: func(s *State) {
			s.setT("usediv", T.Bool(true))
			s.setT("mode", m)
		}}}, true
	case "crypto/cipher.BlockMode.CryptBlocks", "crypto/cipher.Stream.XORKeyStream":
		dst, src := c.Args[1], c.Args[2]
		droot, doff := region(st, dst)
		sroot, soff := region(st, src)
		k.wroteCall(st, c, droot)
		n := lenOf(st, src)
		if !st.prove(lenOf(st, dst).add(n, -1)) {
			k.fail(st, c, "panics", "there may be no room for the result")
		}
		if strings.HasSuffix(name, "CryptBlocks") && !whole(st, n) {
			k.fail(st, c, "panics", "the data may not consist of whole blocks")
		}
		k.ob(c, "message")
		if st.getT("out0") != nil {
			return giveUp("processes the data in several parts")
		}
		if m := st.getT("mode"); m == nil || st.resolve(m) != st.resolve(c.Args[0]) {
			return giveUp("uses a mode that is not followed")
		}
		d, in := at(st, k.body(st), sroot, soff)
		if !in || !eqLin(st, d, linConst(0)) || !eqLin(st, n, k.bodyLen(st)) {
			k.fail(st, c, "message", "what is processed is not the whole data")
		} else if !k.padded(st) {
			k.fail(st, c, "padding", "the data is not padded to whole blocks with bytes that tell their number")
		}
		if droot == sroot && !eqLin(st, doff, soff) && !st.prove(doff.add(soff, -1).add(n, -1)) && !st.prove(soff.add(doff, -1).add(n, -1)) {
			k.fail(st, c, "message", "the result overlaps the data")
		}
		return []Out{{Do: func(s *State) {
			k.clobber(s, droot, doff, n)
			s.setT("out0", T.tuple(droot, settled(s, doff), settled(s, n)))
			k.forget(s, droot)
		}}}, true
	case "crypto/cipher.Block.Encrypt", "crypto/cipher.Block.Decrypt":
		k.ob(c, "cipher")
		if k.mode != "ecb" {
			return giveUp("works on single blocks")
		}
		if strings.HasSuffix(name, "Decrypt") != k.dec {
			k.fail(st, c, "cipher", "works in the wrong direction")
		}
		dst, src := c.Args[1], c.Args[2]
		droot, doff := region(st, dst)
		sroot, soff := region(st, src)
		k.wroteCall(st, c, droot)
		if !st.prove(lenOf(st, dst).addk(-16)) || !st.prove(lenOf(st, src).addk(-16)) {
			k.fail(st, c, "panics", "the block may be shorter than the block size")
		}
		k.ob(c, "message")
		b := st.linOf(st.getT("#blk")).scale(16)
		d, in := at(st, k.body(st), sroot, soff)
		if !in || !eqLin(st, d, b) {
			if st.getT("odd") == nil && (!in || droot.k == TSym) && k.unplaced(st, sroot) {
				return giveUp("walks over the blocks in a way that is not followed")
			}
			k.fail(st, c, "message", "the block is not the next one of the data")
		} else if !k.padded(st) {
			k.fail(st, c, "padding", "the data is not padded to whole blocks with bytes that tell their number")
		}
		o := st.getT("out0")
		if o == nil {
			st.setT("out0", T.tuple(droot, settled(st, doff.add(b, -1)), T.Int(0)))
		} else if d, in := at(st, o, droot, doff); !in || !eqLin(st, d, b) {
			k.fail(st, c, "message", "the result of a block does not go to the place of the block")
		}
		return []Out{{Do: func(s *State) {
			inc(s, "#blk")
			k.forget(s, droot)
		}}}, true
	case "encoding/hex.EncodedLen":
		return []Out{{Res: []*Term{settled(st, st.linOf(c.Args[0]).scale(2))}}}, true
	case "encoding/hex.DecodedLen":
		return []Out{{Res: []*Term{settled(st, decLen(st, "hex", st.linOf(c.Args[0])))}}}, true
	case "encoding/base64.Encoding.EncodedLen":
		return []Out{{Res: []*Term{settled(st, encLen(st, "b64", st.linOf(c.Args[1])))}}}, true
	case "encoding/base64.Encoding.DecodedLen":
		return []Out{{Res: []*Term{settled(st, decLen(st, "b64", st.linOf(c.Args[1])))}}}, true
	case "encoding/hex.Encode":
		k.encoded(st, c, "hex", c.Args[0], nil, c.Args[1])
		return []Out{{Res: []*Term{settled(st, encLen(st, "hex", lenOf(st, c.Args[1])))}}}, true
	case "encoding/base64.Encoding.Encode":
		k.alphabet(st, c)
		k.encoded(st, c, "b64", c.Args[1], nil, c.Args[2])
		return []Out{{}}, true
	case "encoding/hex.EncodeToString", "encoding/base64.Encoding.EncodeToString":
		kind, src := "hex", c.Args[len(c.Args)-1]
		if strings.Contains(name, "base64") {
			kind = "b64"
			k.alphabet(st, c)
		}
		s := T.sym("text", rt[0])
		el := encLen(st, kind, lenOf(st, src))
		k.encoded(st, c, kind, nil, s, src)
		return []Out{{Res: []*Term{s}, Do: func(t *State) {
			e := lenOf(t, s).add(el, -1)
			t.addLin(e)
			t.addLin(e.scale(-1))
		}}}, true
	case "encoding/hex.Decode":
		return k.decoded(st, c, "hex", c.Args[0], func(n, err, _ *Term) []*Term { return []*Term{n, err} }, c.Args[1], true), true
	case "encoding/base64.Encoding.Decode":
		k.alphabet(st, c)
		return k.decoded(st, c, "b64", c.Args[1], func(n, err, _ *Term) []*Term { return []*Term{n, err} }, c.Args[2], false), true
	case "encoding/hex.DecodeString", "encoding/base64.Encoding.DecodeString":
		kind := "hex"
		if strings.Contains(name, "base64") {
			kind = "b64"
			k.alphabet(st, c)
		}
		return k.decoded(st, c, kind, nil, func(n, err, f *Term) []*Term { return []*Term{f, err} }, c.Args[len(c.Args)-1], false), true
	case "bytes.Repeat":
		vs, ok := varargs(st, c.Args[0])
		if !ok || len(vs) != 1 {
			return giveUp("uses bytes.Repeat in a way that is not followed")
		}
		n := st.linOf(c.Args[1])
		if !st.prove(n) {
			k.fail(st, c, "panics", "the number of repetitions may be negative")
		}
		s := T.sym("repeated", rt[0])
		s.alloc, s.nonnil = true, true
		return []Out{{Res: []*Term{s}, Do: func(t *State) {
			e := lenOf(t, s).add(n, -1)
			t.addLin(e)
			t.addLin(e.scale(-1))
			t.setT("rep", T.tuple(s, vs[0], settled(t, n)))
		}}}, true
	case "bytes.HasSuffix", "bytes.Equal":
		rep := st.getT("rep")
		a, b := st.resolve(c.Args[0]), st.resolve(c.Args[1])
		if rep != nil && name == "bytes.Equal" && st.resolve(rep.args[0]) == a {
			a, b = b, a
		}
		last := st.getT("last")
		if rep == nil || st.resolve(rep.args[0]) != b || last == nil {
			return giveUp("compares bytes in a way that is not followed")
		}
		root, off := region(st, a)
		o := st.getT("out0")
		d, in := at(st, o, root, off)
		if !in {
			return giveUp("compares bytes in a way that is not followed")
		}
		n := st.linOf(rep.args[2])
		end := d.add(lenOf(st, a), 1)
		ok := eqLin(st, end, k.bodyLen(st)) && eqLin(st, st.linOf(rep.args[1]), st.linOf(last)) && eqLin(st, n, st.linOf(last))
		if name == "bytes.Equal" && !eqLin(st, lenOf(st, a), n) {
			ok = false
		}
		return []Out{
			{Res: []*Term{T.Bool(true)}, Do: func(s *State) {
				if ok {
					s.setT("checked", T.Bool(true))
				}
			}},
			{Res: []*Term{T.Bool(false)}, Do: func(s *State) {
				if ok {
					s.setT("why.pad", T.Bool(true))
				}
			}},
		}, true
	case "bytes.Clone":
		s := T.sym("clone", rt[0])
		s.alloc = true
		n := lenOf(st, c.Args[0])
		return []Out{{Res: []*Term{s}, Do: func(t *State) {
			e := lenOf(t, s).add(n, -1)
			t.addLin(e)
			t.addLin(e.scale(-1))
			k.transfer(t, s, linConst(0), c.Args[0], n)
		}}}, true
	}
	return giveUp("uses " + name)
}

func firstOr(ts []*Term, d *Term) *Term {
	if len(ts) > 0 {
		return ts[0]
	}
	return d
}

func (k *cryptoCheck) alphabet(st *State, c *Call) {
	k.ob(c, "encoding")
	if !globalIs(st.resolve(c.Args[0]), "RawURLEncoding") {
		k.fail(st, c, "encoding", "the base64 alphabet is not the one for URLs without padding")
	}
}

// unplaced: memory that no record says anything of
func (k *cryptoCheck) unplaced(st *State, root *Term) bool {
	if k.isParam(root) {
		return false
	}
	for _, p := range []string{"iv", "out", "body", "raw"} {
		for _, q := range st.monKeys(p) {
			if t := st.getT(q); t.k == TTuple && st.resolve(t.args[0]) == root {
				return false
			}
		}
	}
	return true
}

// clobber: n bytes at a place are overwritten
func (k *cryptoCheck) clobber(st *State, root *Term, off, n Lin) {
	for _, q := range append(st.monKeys("iv"), st.monKeys("out")...) {
		r := st.getT(q)
		if r.k != TTuple {
			continue
		}
		d, in := at(st, r, root, off)
		if !in {
			continue
		}
		ln := st.linOf(r.args[2])
		if strings.HasPrefix(q, "iv") {
			ln = linConst(16)
		}
		// apart: behind it or in front of it
		if !st.prove(d.add(ln, -1)) && !st.prove(d.scale(-1).add(n, -1)) {
			st.setT(q, nil)
		}
	}
}

// forget the values read from memory that changes
func (k *cryptoCheck) forget(st *State, root *Term) {
	for a := range st.heap {
		if a.k == TIA {
			if r, _ := region(st, a.args[0]); r == root {
				delete(st.heap, a)
			}
		}
	}
	st.clearMon("cell")
}

func (k *cryptoCheck) event(st *State, ev *Ev) {
	T := st.x.T
	switch ev.Kind {
	case "phi":
		var ends []Lin
		for _, n := range []string{"raw", "out0", "body"} {
			if t := st.getT(n); t != nil {
				e := k.bodyLen(st)
				if n == "raw" {
					e = st.linOf(t.args[2])
				}
				ends = append(ends, e.add(st.linOf(t.args[1]), 1))
			}
		}
		phiRegion(st, ev, ends...)
	case "loopentry", "backedge":
		k.candidates(st, ev)
		if ev.Kind == "backedge" {
			dropCells(st, ev)
			if st.getT("untested") != nil {
				st.setT("arith", T.Bool(true))
			}
		}
	case "load":
		if ev.Addr.k != TIA {
			return
		}
		root, off := region(st, ev.Addr.args[0])
		pos := off.add(st.linOf(ev.Addr.args[1]), 1)
		o := st.getT("out0")
		if d, in := at(st, o, root, pos); in && k.dec {
			if st.getT("untested") != nil {
				st.setT("arith", T.Bool(true))
			}
			st.setT("untested", nil)
			if eqLin(st, d, k.bodyLen(st).addk(-1)) {
				if st.getT("last") == nil {
					st.setT("last", ev.Val)
				}
			} else {
				st.setT("untested", ev.Val)
			}
			recCell(st, ev.Val, ev.Addr.args[0], ev.Addr.args[1], 3)
		}
	case "store":
		if ev.Addr.k != TIA {
			return
		}
		if _, arr := arrayLen(ev.Addr.args[0].typ); arr {
			return
		}
		root, off := region(st, ev.Addr.args[0])
		pos := off.add(st.linOf(ev.Addr.args[1]), 1)
		k.wrote(st, ev, root)
		if !k.pad(st, ev, root, pos, ev.Val) {
			k.clobber(st, root, pos, linConst(1))
			st.setT("odd", T.Bool(true))
		}
	case "copy":
		root, off := region(st, ev.Addr)
		k.wrote(st, ev, root)
		n := lenOf(st, ev.Val)
		if d := lenOf(st, ev.Addr); !st.prove(d.add(n, -1)) {
			if !st.prove(n.add(d, -1)) {
				st.setT("odd", T.Bool(true))
				return
			}
			n = d
		}
		if k.padMany(st, root, off, ev.Val, n) {
			return
		}
		if sr, _ := region(st, ev.Val); st.getT("body") == nil || sr != root {
			k.clobber(st, root, off, n)
		}
		if !k.transfer(st, root, off, ev.Val, n) {
			st.setT("odd", T.Bool(true))
		}
	case "append":
		k.appended(st, ev)
	case "convert":
		// []byte(text)
		t := st.getT("text")
		if t != nil && len(ev.Args) > 0 && st.resolve(t.args[0]) == st.resolve(ev.Args[0]) && ev.Val.alloc {
			st.setT("text", T.tuple(ev.Val, T.Int(0), t.args[2]))
		}
	case "cond":
		takeTest(st, "q", ev.Val)
	case "branch":
		if t, v := heldTest(st, "q", ev.Detail == "true"); t != nil {
			k.tested(st, ev, t, v)
		}
		st.clearMon("q")
	case "index":
		k.c.Ob("panics", where(ev)+" in "+k.name)
		k.c.N("panics")
		i, n := st.linOf(ev.Val), st.linOf(ev.Args[0])
		if !st.prove(i) || !st.prove(n.add(i, -1).addk(-1)) {
			k.bad(st, ev, "panics", "the index may be out of range")
		}
	case "slice":
		k.c.Ob("panics", where(ev)+" in "+k.name)
		k.c.N("panics")
		if _, arr := arrayLen(ev.Addr.typ); arr {
			return
		}
		n := lenOf(st, ev.Addr)
		lo, hi := linConst(0), n
		if !ev.Args[0].isNil() {
			lo = st.linOf(ev.Args[0])
		}
		if !ev.Args[1].isNil() {
			hi = st.linOf(ev.Args[1])
		}
		if !st.prove(lo) || !st.prove(hi.add(lo, -1)) || !st.prove(n.add(hi, -1)) && !(st.resolve(ev.Args[1]).k == TOp && st.resolve(ev.Args[1]).op == "cap") {
			k.bad(st, ev, "panics", "the bounds of the slice may be out of range")
		}
	case "make":
		if ev.Val.typ != nil && len(ev.Args) > 0 && isInt(ev.Args[0].typ) && !st.prove(st.linOf(ev.Args[0])) {
			k.bad(st, ev, "panics", "the length may be negative")
		}
	case "exit":
		k.exit(st, ev)
	}
}

// candidates adds what ties the variables of a loop to the number of blocks
// or bytes done.
func (k *cryptoCheck) candidates(st *State, ev *Ev) {
	var fs []Lin
	get := func(n string) (Lin, bool) {
		t := st.getT(n)
		if t == nil {
			return Lin{}, false
		}
		return st.linOf(t), true
	}
	bl := k.bodyLen(st)
	if b, ok := get("#blk"); ok {
		q, _ := divmod(st, bl, 16)
		fs = append(fs, b, b.scale(16), bl.add(b.scale(16), -1), q.add(b, -1))
		if o := st.getT("out0"); o != nil {
			fs = append(fs, lenOf(st, st.resolve(o.args[0])).add(b.scale(16), -1))
		}
	}
	if f, ok := get("#pf"); ok && !k.dec {
		n := lenOf(st, k.data())
		fs = append(fs, f, n.add(f, 1), n.add(f, 1).addk(16), k.want(st).add(f, -1))
	}
	if f, ok := get("#pb"); ok {
		fs = append(fs, k.want(st).add(f, -1), bl.add(f, -1), bl.add(f, -1).addk(16))
	}
	if l := st.getT("last"); l != nil {
		n := st.linOf(st.resolve(l))
		if f, ok := get("#cf"); ok {
			fs = append(fs, f, bl.add(n, -1).add(f, 1), n.add(f, -1))
		}
		if f, ok := get("#cb"); ok {
			fs = append(fs, n.add(f, -1), bl.add(f, -1), f, bl.add(n, -1).add(f, 1))
		}
	}
	// bounds of the counters
	ge := func(l Lin) {
		if st.prove(l) {
			st.addLinForce(l)
		}
	}
	if b, ok := get("#blk"); ok {
		ge(b)
		ge(bl.add(b.scale(16), -1))
	}
	if f, ok := get("#pf"); ok && !k.dec {
		ge(f)
		if b, ok := get("#pb"); ok {
			ge(b)
			ge(k.want(st).add(f, -1).add(b, -1))
		}
	}
	if l := st.getT("last"); l != nil {
		n := st.linOf(st.resolve(l))
		for _, q := range []string{"#cf", "#cb"} {
			if f, ok := get(q); ok {
				ge(f)
				ge(n.add(f, -1))
			}
		}
	}
	add := func(x Lin) {
		for _, f := range fs {
			for d := int64(-2); d <= 1; d++ {
				l := x.add(f, -1).addk(-d)
				if st.prove(l) && st.prove(l.scale(-1)) {
					st.addLinForce(l)
					st.addLinForce(l.scale(-1))
					break
				}
			}
		}
	}
	for _, in := range ev.Instr.Block().Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := st.top().env[p]
		switch {
		case v == nil:
		case isInt(p.Type()):
			add(st.linOf(v))
		case lenable(p.Type()):
			add(lenOf(st, v))
		}
	}
}

func lenable(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// full: a slice without spare capacity, so that appending moves it
func full(st *State, t *Term) bool {
	return t.k == TOp && t.op == "slice" && len(t.args) > 3 && !t.args[3].isNil() && !t.args[2].isNil() &&
		eqLin(st, st.linOf(t.args[2]), st.linOf(t.args[3]))
}

func (k *cryptoCheck) appended(st *State, ev *Ev) {
	T := st.x.T
	base := st.resolve(ev.Addr)
	if len(ev.Args) < 2 {
		return
	}
	if q, _ := region(st, base); !base.isNil() && !full(st, base) {
		k.wrote(st, ev, q)
	}
	n := lenOf(st, base)
	if !base.isNil() {
		k.transfer(st, ev.Val, linConst(0), base, n)
	}
	if vs, ok := varargs(st, ev.Args[1]); ok {
		for i, v := range vs {
			if !k.pad(st, ev, ev.Val, n.addk(int64(i)), v) {
				st.setT("odd", T.Bool(true))
			}
		}
		return
	}
	add := st.resolve(ev.Args[1])
	if k.padMany(st, ev.Val, n, add, lenOf(st, add)) {
		return
	}
	if !k.transfer(st, ev.Val, n, add, lenOf(st, add)) && !st.prove(lenOf(st, add).scale(-1)) {
		st.setT("odd", T.Bool(true))
	}
}

// tested: a branch on a comparison
func (k *cryptoCheck) tested(st *State, ev *Ev, t *test, v bool) {
	if !k.dec || t.op != "eq" {
		return
	}
	last := st.getT("last")
	o := st.getT("out0")
	if last == nil || o == nil {
		return
	}
	last = st.resolve(last)
	n := st.linOf(last)
	side := func(x *Term, cs []cellRef, y *Term) {
		if x == nil || y == nil || !eqLin(st, st.linOf(y), n) {
			return
		}
		for _, c := range cs {
			root, off := region(st, c.base)
			d, in := at(st, o, root, off.add(st.linOf(c.idx), 1))
			if !in {
				continue
			}
			st.setT("untested", nil)
			j := d.add(k.bodyLen(st), -1).add(n, 1) // place within the padding
			if !v {
				if st.prove(j) {
					st.setT("why.pad", st.x.T.Bool(true))
				}
				return
			}
			f, b := st.linOf(st.getT("#cf")), st.linOf(st.getT("#cb"))
			switch {
			case eqLin(st, j, f):
				inc(st, "#cf")
			case eqLin(st, j, n.add(b, -1).addk(-2)):
				inc(st, "#cb") // the last byte is the number itself
			}
			return
		}
	}
	side(t.a, t.ca, t.b)
	side(t.b, t.cb, t.a)
}

func (k *cryptoCheck) exit(st *State, ev *Ev) {
	k.c.Ob("answer", where(ev)+" in "+k.name)
	k.c.N("answer")
	if ev.Panics {
		if k.dec {
			k.bad(st, ev, "panics", "panics")
		} else if !k.why(st) {
			k.bad(st, ev, "panics", "panics although there is a cipher and an IV")
		}
		return
	}
	odd := func(rule, msg string) {
		if st.getT("odd") != nil {
			k.c.Undecided(k.name, "fills memory in a way that is not followed")
			return
		}
		k.bad(st, ev, rule, msg)
	}
	r0 := st.resolve(ev.Res[0])
	root, off := region(st, r0)
	if !k.dec {
		if k.why(st) {
			k.bad(st, ev, "answer", "goes on without a cipher or without random bytes")
			return
		}
		t := st.getT("text")
		if d, in := at(st, t, root, off); !in || !eqLin(st, d, linConst(0)) || !eqLin(st, lenOf(st, r0), st.linOf(t.args[2])) {
			odd("answer", "the result is not the encoded ciphertext")
		}
		return
	}
	err := st.resolve(ev.Res[1])
	if !err.isNil() && !st.notNil(err) {
		k.c.Undecided(k.name, "whether there is an error is not followed")
		return
	}
	raw := st.getT("raw")
	blen := k.bodyLen(st)
	if !err.isNil() {
		if k.why(st) || raw == nil && k.badKey(st) {
			return
		}
		if raw == nil {
			odd("answer", "reports an error although nothing is wrong with the message")
			return
		}
		n := st.linOf(raw.args[2])
		min := int64(31) // a message needs an IV and a block of padding
		switch k.mode {
		case "ecb":
			min = 15
		case "ctr":
			min = 15
		}
		if st.prove(n.scale(-1).addk(min)) || k.badKey(st) {
			return
		}
		if k.mode != "ctr" {
			_, m := divmod(st, n, 16)
			if st.prove(m.addk(-1)) {
				return
			}
			if l := st.getT("last"); l != nil {
				v := st.linOf(st.resolve(l))
				if st.prove(v.scale(-1)) || st.prove(v.addk(-17)) || st.prove(v.add(blen, -1).addk(-1)) {
					return
				}
			}
			if st.getT("arith") != nil || st.getT("untested") != nil {
				k.c.Undecided(k.name, "the padding is tested in a way that is not followed")
				return
			}
			// one of several reasons
			if s := st.clone(); k.contradict(s, n, blen) {
				return
			}
		}
		odd("answer", "reports an error although nothing is wrong with the message")
		return
	}
	if k.why(st) {
		k.bad(st, ev, "answer", "reports no error although the message or the key is wrong")
		return
	}
	o := st.getT("out0")
	if k.mode == "ctr" && raw != nil && st.prove(blen) && st.prove(blen.scale(-1)) {
		if !st.prove(lenOf(st, r0).scale(-1)) {
			odd("answer", "the result of an empty message is not empty")
		}
		return
	}
	if o == nil || raw == nil || !eqLin(st, k.outLen(st, o), blen) {
		odd("answer", "not all of the message is deciphered")
		return
	}
	ok := false
	var end Lin
	for _, q := range st.monKeys("out") {
		d, in := at(st, st.getT(q), root, off)
		if in && eqLin(st, d, linConst(0)) {
			ok, end = true, lenOf(st, r0)
		}
	}
	if !ok {
		odd("answer", "the result is not what was deciphered")
		return
	}
	if k.mode == "ctr" {
		if !eqLin(st, end, blen) {
			odd("answer", "the result is not all of what was deciphered")
		}
		return
	}
	l := st.getT("last")
	if l == nil {
		odd("padding", "the padding is not taken off")
		return
	}
	n := st.linOf(st.resolve(l))
	if !eqLin(st, end, blen.add(n, -1)) {
		odd("padding", "not exactly the padding is taken off")
	}
	if !st.prove(n.addk(-1)) || !st.prove(n.scale(-1).addk(16)) {
		odd("padding", "a padding of no bytes or of more than a block is accepted")
	}
	f, b := st.linOf(st.getT("#cf")), st.linOf(st.getT("#cb"))
	if st.getT("checked") == nil && !st.prove(f.add(b, 1).add(n, -1).addk(1)) {
		if st.getT("arith") != nil {
			k.c.Undecided(k.name, "the padding is tested in a way that is not followed")
			return
		}
		odd("padding", "not all bytes of the padding are compared with their number")
	}
}

// contradict: that the message is fine cannot be
func (k *cryptoCheck) contradict(s *State, n, blen Lin) bool {
	_, m := divmod(s, n, 16)
	s.addLinForce(m.scale(-1))
	s.addLinForce(blen.addk(-16))
	if l := s.getT("last"); l != nil {
		v := s.linOf(s.resolve(l))
		s.addLinForce(v.addk(-1))
		s.addLinForce(v.scale(-1).addk(16))
	}
	return s.prove(linConst(-1))
}

func (k *cryptoCheck) badKey(st *State) bool {
	T := st.x.T
	n := T.op("len", types.Typ[types.Int], k.key())
	st.atomFacts(n)
	for _, v := range []int64{16, 24, 32} {
		l := st.linOf(n).addk(-v)
		if st.prove(l.addk(-1)) || st.prove(l.scale(-1).addk(-1)) {
			continue
		}
		if eq, known := st.truth(st.mkEq(n, T.Int(v))); known && !eq {
			continue
		}
		return false
	}
	return true
}

func (k *cryptoCheck) run(name, mode string, dec bool) {
	fn := k.c.Fn(cryptoPkg, name)
	if fn == nil {
		return
	}
	k.name, k.mode, k.dec = name, mode, dec
	k.c.Run(fn, &Config{Bounds: true, SplitBools: true, NoTemplates: true, Event: k.event, Model: k.model, Keep: func(*State, *Term) bool { return true }},
		func(st *State, ps []*Term) {
			k.ps = ps
			T := st.x.T
			if !dec && mode != "ctr" {
				st.setT("#pf", T.Int(0))
				st.setT("#pb", T.Int(0))
			}
			if dec && mode != "ctr" {
				st.setT("#cf", T.Int(0))
				st.setT("#cb", T.Int(0))
			}
			if mode == "ecb" {
				st.setT("#blk", T.Int(0))
			}
			if mode == "ctr" && !dec {
				st.setT("#pf", T.Int(0))
			}
		})
}

func init() {
	register(&Property{ID: "C29", Run: func(c *Ctx) {
		c.rules["arguments"] = "no function writes to memory of its arguments, spare capacity included"
		c.rules["panics"] = "decryption never panics; encryption only if there is no cipher or no random bytes"
		c.rules["cipher"] = "the cipher is made with the key and used in the mode and direction of the function's name"
		c.rules["iv"] = "an IV is a block of fresh bytes from the cryptographic source, and the head of the message on the way back"
		c.rules["message"] = "all data is processed once and in order, and the result holds the IV and all of the ciphertext"
		c.rules["padding"] = "n bytes of the value n, 1 to 16, are added up to whole blocks, and exactly these are checked and taken off"
		c.rules["encoding"] = "hex, or raw URL base64 if the first optional argument is true, the same both ways"
		c.rules["answer"] = "errors are reported exactly when the key, the encoding, the length or the padding is wrong"
		k := &cryptoCheck{c: c}
		for _, m := range []string{"", "CBC", "CTR"} {
			mode := strings.ToLower(m)
			if mode == "" {
				mode = "ecb"
			}
			k.run("AES"+m+"Encrypt", mode, false)
			k.run("AES"+m+"Decrypt", mode, true)
		}
		if len(c.undecided) == 0 {
			c.Min("answer", 12)
			c.Min("message", 12)
			c.Min("encoding", 12)
		}
	}})
}
