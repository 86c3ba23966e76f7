package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Bytes shared with a string are never written: a flow analysis over the SSA
// of the whole module, with one summary per function.
//
// A view is a value made without a copy: a []byte over the bytes of a string
// (never to be written, nor handed out), or a string over a []byte (which must
// not be written from then on, where the string is returned or kept).

type viewSum struct {
	writes  map[int]ssa.Instruction // the elements of parameter i are written here
	alias   map[int]bool            // a result shares the bytes of parameter i, kind unchanged
	strOf   map[int]bool            // a result is a string over the bytes of parameter i
	bytesOf map[int]bool            // a result is a []byte over the string parameter i
	keeps   map[int]bool            // parameter i is kept, or goes where it cannot be followed
	fresh   bool                    // the result is memory of its own
}

type viewCheck struct {
	c    *Ctx
	sums map[*ssa.Function]*viewSum
	put  bool // something is put back into a pool
	// fields and globals whose elements are written
	written map[interface{}]ssa.Instruction
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func builtinName(v ssa.Value) (string, []ssa.Value) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return "", nil
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok {
		return "", nil
	}
	return b.Name(), c.Call.Args
}

// callee gives the function called and its name with the package path
func viewCallee(cc *ssa.CallCommon) (*ssa.Function, string) {
	if cc.IsInvoke() {
		return nil, "invoke " + cc.Method.Name()
	}
	f := cc.StaticCallee()
	if f == nil {
		return nil, "?"
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if inRepo(f) {
		return f, ""
	}
	if o, ok := f.Object().(*types.Func); ok {
		return nil, o.FullName()
	}
	return nil, f.String()
}

// what functions of the standard library do with the bytes of argument i
const (
	vRead  = iota // reads them
	vAlias        // reads them; the result may share them
	vWrite        // writes them
	vApp          // appends to them, as append does
	vKeep         // keeps them
	vNone         // not known
)

var viewFreshBytes = map[string]bool{"ToUpper": true, "ToLower": true, "Map": true, "Repeat": true, "ReplaceAll": true, "Replace": true, "Clone": true, "Join": true, "ToTitle": true, "Title": true, "ToValidUTF8": true}

func viewExt(name string, i int) int {
	pkg := name
	if j := strings.LastIndex(name, "."); j >= 0 {
		pkg = name[:j]
	}
	base := name[strings.LastIndex(name, ".")+1:]
	switch {
	case name == "invoke Write" || name == "invoke WriteString":
		return vRead
	case pkg == "bytes":
		switch {
		case base == "NewBuffer" || base == "NewReader" || base == "NewBufferString":
			return vKeep
		case viewFreshBytes[base]:
			return vRead
		case i == 0:
			return vAlias
		}
		return vRead
	case pkg == "strings":
		switch {
		case base == "Clone" || base == "Join" && false:
			return vRead
		case base == "NewReplacer" || base == "NewReader":
			return vKeep
		}
		return vAlias
	case strings.HasPrefix(base, "Append") && (pkg == "strconv" || pkg == "unicode/utf8" || pkg == "encoding/hex" || pkg == "encoding/base64" || strings.HasPrefix(pkg, "(encoding/")):
		if i == 0 {
			return vApp
		}
		return vRead
	case pkg == "unicode/utf8":
		if base == "EncodeRune" && i == 0 {
			return vWrite
		}
		return vRead
	case pkg == "encoding/hex":
		if (base == "Encode" || base == "Decode") && i == 0 {
			return vWrite
		}
		return vRead
	case pkg == "strconv", pkg == "unicode", pkg == "fmt", pkg == "hash/crc32", pkg == "log", pkg == "os":
		return vRead
	case strings.HasPrefix(pkg, "crypto/") && strings.HasPrefix(base, "Sum"):
		return vRead
	case pkg == "(*bytes.Buffer)" || pkg == "(*strings.Builder)" || pkg == "(*bufio.Writer)":
		if base == "Bytes" || base == "AvailableBuffer" {
			return vAlias
		}
		if (base == "Read" || base == "ReadFrom") && i > 0 {
			return vWrite
		}
		return vRead
	case pkg == "(*strings.Replacer)", pkg == "(*regexp.Regexp)":
		return vAlias
	case pkg == "crypto/rand" && base == "Read", pkg == "io" && (base == "ReadFull" || base == "ReadAtLeast") && i == 1, name == "invoke Read", pkg == "slices" && strings.HasPrefix(base, "Sort"), pkg == "slices" && base == "Reverse", pkg == "math/rand" && base == "Read":
		return vWrite
	}
	return vNone
}

// viewOf: v is itself a view made by the builtins or by a cast of pointers
func (k *viewCheck) viewOf(v ssa.Value) (of ssa.Value, toStr, ok bool) {
	if name, args := builtinName(v); name == "String" && len(args) == 2 {
		if n, a := builtinName(stripConv(args[0])); n == "SliceData" {
			return a[0], true, true
		}
	} else if name == "Slice" && len(args) == 2 {
		if n, a := builtinName(stripConv(args[0])); n == "StringData" {
			return a[0], false, true
		}
	}
	if u, is := v.(*ssa.UnOp); is && u.Op == token.MUL {
		if from, is := castFrom(u.X); is {
			switch {
			case isStr(u.Type()) && isByteSlice(from.Type().Underlying().(*types.Pointer).Elem()):
				toStr = true
			case isByteSlice(u.Type()) && isStr(from.Type().Underlying().(*types.Pointer).Elem()):
			default:
				return nil, false, false
			}
			if al, is := from.(*ssa.Alloc); is {
				var val ssa.Value
				for _, r := range *al.Referrers() {
					if s, is := r.(*ssa.Store); is && s.Addr == ssa.Value(al) {
						if val != nil {
							return nil, false, false
						}
						val = s.Val
					}
				}
				if val != nil {
					return val, toStr, true
				}
			}
		}
	}
	return nil, false, false
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch c := v.(type) {
		case *ssa.Convert:
			v = c.X
		case *ssa.ChangeType:
			v = c.X
		default:
			return v
		}
	}
}

// castFrom: v is a pointer that was cast from one of another type
func castFrom(v ssa.Value) (ssa.Value, bool) {
	c, ok := v.(*ssa.Convert)
	if !ok {
		return nil, false
	}
	if b, is := c.X.Type().Underlying().(*types.Basic); !is || b.Kind() != types.UnsafePointer {
		return nil, false
	}
	c2, ok := c.X.(*ssa.Convert)
	if !ok {
		return nil, false
	}
	if _, is := c2.X.Type().Underlying().(*types.Pointer); !is {
		return nil, false
	}
	return c2.X, true
}

// uses of the bytes that v shares, found by following v forward
type viewUse struct {
	write, ret, keep bool
	why              string
	in               ssa.Instruction
	deferred         bool
}

// follow visits every use of the bytes of v in its function and its closures
func (k *viewCheck) follow(v ssa.Value, spare bool, report func(viewUse)) {
	type item struct {
		v     ssa.Value
		spare bool // there may be shared bytes behind its end
		box   bool // an array or slice that holds it
	}
	seen := map[item]bool{}
	var work []item
	push := func(v ssa.Value, spare, box bool) {
		it := item{v, spare, box}
		if v != nil && !seen[it] {
			seen[it] = true
			work = append(work, it)
		}
	}
	push(v, spare, false)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.v.Referrers() == nil {
			continue
		}
		for _, r := range *it.v.Referrers() {
			u := viewUse{in: r}
			switch r := r.(type) {
			case *ssa.Slice:
				if r.X == it.v {
					sp := it.spare
					if r.High != nil && r.Max == nil && !isStr(r.Type()) {
						if n, a := builtinName(r.High); !(n == "len" && a[0] == it.v) {
							sp = true
						}
					}
					push(r, sp, it.box)
				}
			case *ssa.IndexAddr:
				if r.X == it.v {
					push(r, it.spare, it.box)
				}
			case *ssa.Phi:
				push(r, it.spare, it.box)
			case *ssa.ChangeType:
				push(r, it.spare, it.box)
			case *ssa.MakeInterface:
				push(r, it.spare, it.box)
			case *ssa.ChangeInterface:
				push(r, it.spare, it.box)
			case *ssa.TypeAssert:
				push(r, it.spare, it.box)
			case *ssa.Extract:
				push(r, it.spare, it.box)
			case *ssa.BinOp:
				if r.Op == token.ADD && isStr(r.Type()) {
					push(r, false, false)
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == it.v {
						push(fn.FreeVars[i], it.spare, it.box)
					}
				}
			case *ssa.UnOp:
				if r.Op == token.MUL {
					if _, isIdx := it.v.(*ssa.IndexAddr); isIdx && !it.box {
						continue // reads a byte
					}
					push(r, it.spare, false)
				}
			case *ssa.Store:
				if r.Addr == it.v && r.Val != it.v {
					if _, isIdx := it.v.(*ssa.IndexAddr); isIdx && !it.box {
						u.write = true
						report(u)
					}
					continue
				}
				switch a := r.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					push(a, it.spare, true)
				case *ssa.IndexAddr:
					if al, ok := a.X.(*ssa.Alloc); ok {
						push(al, it.spare, true)
						continue
					}
					u.keep, u.why = true, "kept in a slice"
					report(u)
				default:
					u.keep, u.why = true, "kept"
					report(u)
				}
			case *ssa.MapUpdate:
				u.keep, u.why = true, "kept in a map"
				report(u)
			case *ssa.Send:
				u.keep, u.why = true, "sent on a channel"
				report(u)
			case *ssa.Return:
				u.ret = true
				report(u)
			case *ssa.Convert:
				if b, ok := r.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
					if _, isPtr := it.v.Type().Underlying().(*types.Pointer); isPtr && viewCasts(r) {
						continue
					}
					u.keep, u.why = true, "turned into an unsafe pointer"
					report(u)
				}
			case ssa.CallInstruction:
				cc := r.Common()
				_, u.deferred = r.(*ssa.Defer)
				if _, isGo := r.(*ssa.Go); isGo {
					u.deferred = true
				}
				res, _ := r.(*ssa.Call)
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					for i, a := range cc.Args {
						if a != it.v {
							continue
						}
						switch b.Name() {
						case "append":
							if i == 0 {
								if it.spare && !it.box {
									u.write = true
									report(u)
								}
								push(res, it.spare, it.box)
							} else if it.box {
								push(res, it.spare, true)
							}
						case "copy":
							if i == 0 && !it.box {
								u.write = true
								report(u)
							}
						case "clear":
							u.write = true
							report(u)
						}
					}
					continue
				}
				fn, name := viewCallee(cc)
				for i, a := range cc.Args {
					if a != it.v {
						continue
					}
					if fn != nil && !it.box {
						s := k.sum(fn)
						if s.writes[i] != nil {
							u.write = true
							report(u)
						}
						if s.keeps[i] {
							u.keep, u.why = true, "kept by "+fname(fn)
							report(u)
						}
						if res != nil && (s.alias[i] || s.strOf[i] || s.bytesOf[i]) {
							push(res, it.spare, false)
						}
						continue
					}
					act := vNone
					if fn == nil {
						act = viewExt(name, i)
					}
					switch act {
					case vRead:
					case vAlias:
						if res != nil {
							push(res, it.spare, it.box)
						}
					case vWrite:
						u.write = true
						report(u)
					case vApp:
						if it.spare {
							u.write = true
							report(u)
						}
						if res != nil {
							push(res, it.spare, it.box)
						}
					case vKeep:
						u.keep, u.why = true, "kept by "+name
						report(u)
					default:
						if fn == nil && name == "?" || fn == nil || it.box {
							u.keep, u.why = true, "given to "+name
							report(u)
						}
					}
				}
			}
		}
	}
}

// viewCasts: the unsafe pointer is only one step of a cast that viewOf knows
func viewCasts(c *ssa.Convert) bool {
	for _, r := range *c.Referrers() {
		if _, ok := r.(*ssa.Convert); !ok {
			if _, dbg := r.(*ssa.DebugRef); !dbg {
				return false
			}
		}
	}
	return true
}

// made lists the views that f makes: by itself, or by a function it calls
type viewMade struct {
	v, of ssa.Value
	toStr bool
	in    ssa.Instruction
	own   bool
}

func (k *viewCheck) made(f *ssa.Function) []viewMade {
	var out []viewMade
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if of, toStr, ok := k.viewOf(v); ok {
				out = append(out, viewMade{v, of, toStr, in, true})
			}
			if c, ok := in.(*ssa.Call); ok {
				if g, _ := viewCallee(&c.Call); g != nil {
					s := k.sum(g)
					for i, a := range c.Call.Args {
						if s.strOf[i] {
							out = append(out, viewMade{c, a, true, in, false})
						}
						if s.bytesOf[i] {
							out = append(out, viewMade{c, a, false, in, false})
						}
					}
				}
			}
		}
	}
	return out
}

// sum is the summary of f
func (k *viewCheck) sum(f *ssa.Function) *viewSum {
	if s, ok := k.sums[f]; ok {
		return s
	}
	s := &viewSum{writes: map[int]ssa.Instruction{}, alias: map[int]bool{}, strOf: map[int]bool{}, bytesOf: map[int]bool{}, keeps: map[int]bool{}}
	k.sums[f] = s
	if len(f.Blocks) == 0 {
		return s
	}
	par := map[ssa.Value]int{}
	for i, p := range f.Params {
		par[p] = i
		if !isByteSlice(p.Type()) && !isStr(p.Type()) && !viewHolder(p.Type()) {
			continue
		}
		k.follow(p, false, func(u viewUse) {
			if u.in.Parent() != f && u.ret {
				return // what a closure returns
			}
			switch {
			case u.write:
				s.writes[i] = u.in
			case u.ret:
				s.alias[i] = true
			case u.keep:
				s.keeps[i] = true
			}
		})
	}
	for _, m := range k.made(f) {
		ret := false
		k.follow(m.v, false, func(u viewUse) {
			if u.ret && u.in.Parent() == f {
				ret = true
			}
		})
		if !ret {
			continue
		}
		for _, r := range k.roots(m.of) {
			if i, ok := par[r.v]; ok {
				if m.toStr {
					s.strOf[i] = true
				} else {
					s.bytesOf[i] = true
				}
			}
		}
	}
	return s
}

func viewHolder(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes"
}

type viewRoot struct {
	v    ssa.Value
	kind string // fresh, given, field, pool, ?
	why  string
	key  interface{}
}

type viewField struct {
	t types.Type
	i int
}

func fieldKey(a *ssa.FieldAddr) interface{} {
	st := a.X.Type().Underlying().(*types.Pointer).Elem()
	if n, ok := st.(*types.Named); ok {
		return [2]interface{}{n.Origin().Obj(), a.Field}
	}
	return [2]interface{}{st, a.Field}
}

// roots finds where the bytes of v come from
func (k *viewCheck) roots(v ssa.Value) []viewRoot {
	var out []viewRoot
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if of, _, ok := k.viewOf(v); ok {
			walk(of)
			return
		}
		switch x := v.(type) {
		case *ssa.Slice:
			walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.Extract:
			walk(x.Tuple)
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.TypeAssert:
			walk(x.X)
		case *ssa.Const:
			if isStr(x.Type()) {
				out = append(out, viewRoot{v: v, kind: "given", why: "a constant"})
			}
		case *ssa.MakeSlice:
			out = append(out, viewRoot{v: v, kind: "fresh"})
		case *ssa.Convert:
			out = append(out, viewRoot{v: v, kind: "fresh"})
		case *ssa.Alloc:
			out = append(out, viewRoot{v: v, kind: "fresh"})
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) && !isConst(s.Val) {
					if isByteSlice(s.Val.Type()) || isStr(s.Val.Type()) || viewHolder(s.Val.Type()) {
						walk(s.Val)
					}
				}
			}
		case *ssa.Parameter:
			out = append(out, viewRoot{v: v, kind: "given", why: "what the caller gave"})
		case *ssa.Global:
			out = append(out, viewRoot{v: v, kind: "field", why: "the variable " + x.Name(), key: x})
		case *ssa.FieldAddr:
			if al, ok := x.X.(*ssa.Alloc); ok && !al.Heap {
				out = append(out, viewRoot{v: v, kind: "?", why: "a local struct"})
				return
			}
			out = append(out, viewRoot{v: v, kind: "field", why: "a field", key: fieldKey(x)})
		case *ssa.UnOp:
			if x.Op == token.MUL {
				walk(x.X)
				return
			}
			out = append(out, viewRoot{v: v, kind: "?", why: "an operation"})
		case *ssa.BinOp:
			out = append(out, viewRoot{v: v, kind: "fresh"})
		case *ssa.Lookup:
			if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
				out = append(out, viewRoot{v: v, kind: "store", why: "a map"})
				return
			}
			out = append(out, viewRoot{v: v, kind: "?", why: "a character"})
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					walk(x.Call.Args[0])
					if isConst(x.Call.Args[0]) {
						out = append(out, viewRoot{v: v, kind: "fresh"})
					}
					return
				}
				out = append(out, viewRoot{v: v, kind: "?", why: "the builtin " + b.Name()})
				return
			}
			fn, name := viewCallee(&x.Call)
			switch {
			case fn != nil:
				s := k.sum(fn)
				n := len(out)
				for i, a := range x.Call.Args {
					if s.alias[i] || s.strOf[i] || s.bytesOf[i] {
						walk(a)
					}
				}
				if len(out) == n {
					if k.ownResult(fn) {
						out = append(out, viewRoot{v: v, kind: "fresh"})
					} else {
						out = append(out, viewRoot{v: v, kind: "?", why: "the result of " + fname(fn)})
					}
				}
			case name == "(*sync.Pool).Get":
				out = append(out, viewRoot{v: v, kind: "pool", why: "memory from a pool"})
			case strings.HasPrefix(name, "(*sync.Map).") || strings.HasPrefix(name, "(*sync/atomic."):
				out = append(out, viewRoot{v: v, kind: "store", why: "what " + name + " gives"})
			case name == "(*bytes.Buffer).Bytes" || name == "(*bytes.Buffer).AvailableBuffer":
				walk(x.Call.Args[0])
			case name == "bytes.NewBuffer":
				out = append(out, viewRoot{v: v, kind: "fresh"})
				walk(x.Call.Args[0])
			case name == "os.ReadFile" || name == "io.ReadAll" || name == "bytes.NewBufferString" || strings.HasPrefix(name, "encoding/json.Marshal") || strings.HasPrefix(name, "encoding/hex.Decode"):
				out = append(out, viewRoot{v: v, kind: "fresh"})
			default:
				al := false
				for i, a := range x.Call.Args {
					if t := viewExt(name, i); (t == vAlias || t == vApp) && (isByteSlice(a.Type()) || isStr(a.Type())) {
						al = true
						walk(a)
					} else if strings.HasPrefix(name, "bytes.") && t == vRead && viewFreshBytes[name[len("bytes."):]] {
						al = true
						out = append(out, viewRoot{v: v, kind: "fresh"})
						break
					}
				}
				if !al {
					out = append(out, viewRoot{v: v, kind: "?", why: "the result of " + name})
				}
			}
		default:
			out = append(out, viewRoot{v: v, kind: "?", why: "a value of unknown origin"})
		}
	}
	walk(v)
	return out
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// ownResult: every result of f is memory that f made itself
func (k *viewCheck) ownResult(f *ssa.Function) bool {
	s := k.sum(f)
	if s.fresh {
		return true
	}
	if len(f.Blocks) == 0 {
		return false
	}
	s.fresh = true // for recursion
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, v := range ret.Results {
			if !isByteSlice(v.Type()) && !isStr(v.Type()) && !viewHolder(v.Type()) {
				continue
			}
			for _, r := range k.roots(v) {
				if r.kind != "fresh" && !isConst(r.v) {
					s.fresh = false
					return false
				}
			}
		}
	}
	return true
}

// after: the instruction to is reached from from, without the one that makes
// the memory anew
func viewAfter(from, to, anew ssa.Instruction) bool {
	fb, tb := from.Block(), to.Block()
	if fb == nil || tb == nil || fb.Parent() != tb.Parent() {
		return true
	}
	idx := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	scan := func(b *ssa.BasicBlock, i int) (hit, stop bool) {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == to {
				return true, true
			}
			if b.Instrs[i] == anew {
				return false, true
			}
		}
		return false, false
	}
	hit, stop := scan(fb, idx(from)+1)
	if hit || stop {
		return hit
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, fb.Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		hit, stop := scan(b, 0)
		if hit {
			return true
		}
		if !stop {
			work = append(work, b.Succs...)
		}
	}
	return false
}

// after is viewAfter for a write in f or in a closure of f
func (k *viewCheck) after(f *ssa.Function, from, to, anew ssa.Instruction) bool {
	g := to.Parent()
	if g == f {
		return viewAfter(from, to, anew)
	}
	for g != nil && g.Parent() != f {
		g = g.Parent()
	}
	if g == nil {
		return false // in another function: its own summary says so
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(g) {
				continue
			}
			for _, r := range *mc.Referrers() {
				if _, d := r.(*ssa.Defer); d {
					return true
				}
				if _, ok := r.(ssa.CallInstruction); ok {
					if viewAfter(from, r, anew) {
						return true
					}
					continue
				}
				if _, ok := r.(*ssa.DebugRef); !ok {
					k.c.Undecided(fname(f), "a closure that writes the bytes under a string cannot be followed")
				}
			}
		}
	}
	return false
}

// lenIs: n is the length of v
func lenIs(n, v ssa.Value) (is, known bool) {
	n = stripConv(n)
	if name, a := builtinName(n); name == "len" {
		return a[0] == v, a[0] == v
	} else if name == "cap" && a[0] == v {
		return false, true
	}
	if b, ok := n.(*ssa.BinOp); ok {
		_, c := b.Y.(*ssa.Const)
		if is, _ := lenIs(b.X, v); is && c && b.Y.(*ssa.Const).Value.String() != "0" {
			return false, true
		}
	}
	return false, false
}

func (k *viewCheck) helper(f *ssa.Function, m viewMade) {
	c := k.c
	if !m.own {
		return
	}
	c.Ob("exact", fname(f))
	c.N("conversions without a copy")
	if _, args := builtinName(m.v); args != nil {
		is, known := lenIs(args[1], m.of)
		if !is && known {
			c.Bad(nil, "exact", fname(f), m.in.Pos(), "the conversion does not cover exactly the bytes of its argument")
		} else if !is {
			c.Undecided(fname(f), "the length of the conversion is not recognised")
		}
		return
	}
	if !m.toStr {
		c.Bad(nil, "exact", fname(f), m.in.Pos(), "the header of a string is read as that of a slice: the capacity is whatever lies behind it, and append writes there")
	}
}

func (k *viewCheck) function(f *ssa.Function) {
	c := k.c
	c.fns[fname(f)] = true
	api := f.Object() != nil && f.Object().Exported() && f.Parent() == nil
	raw := f.Pkg != nil && f.Pkg == c.P.SPkg["hack/unsafex"]
	for _, m := range k.made(f) {
		m := m
		k.helper(f, m)
		if raw {
			continue
		}
		c.N("views")
		at := fname(f)
		if !m.toStr {
			c.Ob("read-only", at)
			given := ""
			for _, r := range k.roots(m.of) {
				if r.kind == "given" || r.kind == "field" {
					given = r.why
				}
			}
			k.follow(m.v, false, func(u viewUse) {
				switch {
				case u.write:
					c.Bad(nil, "read-only", at, u.in.Pos(), "the bytes of a string are written")
				case u.ret && u.in.Parent() != f:
				case u.ret && isByteSlice(resType(u.in)) && api && given != "":
					c.Bad(nil, "read-only", at, u.in.Pos(), "the bytes of a string ("+given+") are handed out, for the caller to write to")
				case u.ret && isByteSlice(resType(u.in)) && api:
					c.Undecided(at, "the bytes of a string are handed out")
				case u.keep:
					c.Undecided(at, "the bytes of a string are "+u.why)
				}
			})
			continue
		}
		// a string over bytes
		c.Ob("unshared", at)
		out, kept := false, ""
		k.follow(m.v, false, func(u viewUse) {
			switch {
			case u.ret && u.in.Parent() == f:
				out = true
			case u.keep && strings.HasPrefix(u.why, "given to"):
				kept = u.why
			case u.keep:
				out = true
			}
		})
		if !out && kept == "" {
			continue
		}
		say := func(pos token.Pos, msg string) {
			if !out {
				c.Undecided(at, "a string over bytes is "+kept)
				return
			}
			c.Bad(nil, "unshared", at, pos, msg)
		}
		for _, r := range k.roots(m.of) {
			r := r
			switch r.kind {
			case "given":
				if isStr(r.v.Type()) {
					continue
				}
				if api {
					say(m.in.Pos(), "a string shares the bytes of a slice that the caller gave, and changes with it")
				}
			case "field":
				if w := k.written[r.key]; w != nil {
					say(m.in.Pos(), "a string shares bytes that stay in "+r.why+", which is written at "+c.P.pos(w.Pos()))
				} else {
					c.Undecided(at, "a string shares bytes that stay in "+r.why)
				}
			case "pool":
				if k.put {
					say(m.in.Pos(), "a string shares memory that comes from a pool and goes back to it")
				} else {
					c.Undecided(at, "a string shares memory from a pool")
				}
			case "store":
				var w ssa.Instruction
				k.follow(r.v, true, func(u viewUse) {
					if u.write {
						w = u.in
					}
				})
				if w != nil {
					say(m.in.Pos(), "a string shares bytes that stay in "+r.why+", which are written at "+c.P.pos(w.Pos()))
				} else {
					c.Undecided(at, "a string shares the bytes of "+r.why)
				}
			case "?":
				c.Undecided(at, "a string shares the bytes of "+r.why)
			case "fresh":
				anew, _ := r.v.(ssa.Instruction)
				check := func(u viewUse) {
					if u.in == m.in {
						return
					}
					if u.write {
						if call, ok := u.in.(*ssa.Call); ok && len(call.Call.Args) > 0 && call.Call.Args[0] == m.of {
							if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
								return
							}
						}
						if u.deferred || k.after(f, m.in, u.in, anew) {
							say(u.in.Pos(), "the bytes of a string that is returned or kept are written afterwards")
						}
					}
				}
				k.follow(r.v, false, check)
				k.buffer(r.v, func(in ssa.Instruction, deferred bool) {
					if deferred || viewAfter(m.in, in, anew) {
						say(in.Pos(), "the buffer under a string that is returned or kept is written afterwards")
					}
				})
			}
		}
	}
}

// buffer finds the calls that change the bytes of a buffer at v
func (k *viewCheck) buffer(v ssa.Value, report func(ssa.Instruction, bool)) {
	if v.Referrers() == nil {
		return
	}
	for _, r := range *v.Referrers() {
		ci, ok := r.(ssa.CallInstruction)
		if !ok {
			continue
		}
		_, name := viewCallee(ci.Common())
		if len(ci.Common().Args) == 0 || ci.Common().Args[0] != v || !strings.HasPrefix(name, "(*bytes.Buffer).") {
			continue
		}
		switch base := name[len("(*bytes.Buffer)."):]; {
		case strings.HasPrefix(base, "Write") && base != "WriteTo", base == "ReadFrom", base == "Grow":
			// only behind what is there, unless it was emptied or moved down
			for _, q := range *v.Referrers() {
				if cq, ok := q.(ssa.CallInstruction); ok {
					if _, n := viewCallee(cq.Common()); n == "(*bytes.Buffer).Reset" || n == "(*bytes.Buffer).Truncate" || strings.HasPrefix(n, "(*bytes.Buffer).Read") {
						_, d := r.(*ssa.Defer)
						report(r, d)
						break
					}
				}
			}
		}
	}
}

func resType(in ssa.Instruction) types.Type {
	r := in.(*ssa.Return)
	for _, v := range r.Results {
		if isByteSlice(v.Type()) {
			return v.Type()
		}
	}
	return types.Typ[types.Int]
}

func viewsRun(c *Ctx) {
	k := &viewCheck{c: c, sums: map[*ssa.Function]*viewSum{}, written: map[interface{}]ssa.Instruction{}}
	for _, f := range c.P.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if _, n := viewCallee(ci.Common()); n == "(*sync.Pool).Put" {
						k.put = true
					}
				}
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL || !isByteSlice(ld.Type()) {
					continue
				}
				var key interface{}
				switch a := ld.X.(type) {
				case *ssa.FieldAddr:
					key = fieldKey(a)
				case *ssa.Global:
					key = a
				default:
					continue
				}
				k.follow(ld, true, func(u viewUse) {
					if u.write && k.written[key] == nil {
						k.written[key] = u.in
					}
				})
			}
		}
	}
	for _, f := range c.P.Fns {
		if f.Origin() == nil || f.Origin() == f {
			c.calls++
			k.function(f)
		}
	}
	c.entries = append(c.entries, "every function of the module")
	c.N("modules")
}

func init() {
	register(&Property{ID: "C44", Run: func(c *Ctx) {
		c.rules["exact"] = "a conversion without a copy covers exactly the bytes of its argument, with no capacity behind them"
		c.rules["read-only"] = "no write reaches a []byte that was made over a string, and it is not handed out over a string of the caller's"
		c.rules["unshared"] = "the bytes under a string that is returned or kept are the function's own and are not written on any path after the conversion"
		c.Ob("module", "every function")
		viewsRun(c)
		c.Min("modules", 1)
	}})
}
