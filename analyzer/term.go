package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are the abstract values: hash-consed expressions over symbols.
// A symbol (TSym) stands for any one concrete value.
type TKind uint8

const (
	TConst   TKind = iota
	TSym           // unknown value, or an allocation when alloc is set
	TGlobal        // address of a package variable
	TFunc          // function
	TClosure       // function literal with bindings
	TFA            // address of a field: base pointer, fld
	TIA            // address of an element: base, index
	TME            // a map's entry for a key: map, key
	TField         // field of a struct value
	TStruct        // struct value, args per field
	TOp            // pure operation
	TTuple
)

type Term struct {
	id   int
	k    TKind
	op   string
	args []*Term
	typ  types.Type
	cv   constant.Value // TConst; nil is the typed nil / zero
	fld  *types.Var
	fn   *ssa.Function
	gl   *ssa.Global
	// symbols
	label   string
	named   bool // a root symbol: the same in every state
	alloc   bool
	nonnil  bool
	defDead bool
	prov    []*Term
	instr   ssa.Instruction
	site    string // call string + instruction, for reports
}

type Terms struct {
	tab  map[string]*Term
	n    int
	nsym int
}

func newTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (T *Terms) cons(key string, mk func() *Term) *Term {
	if t, ok := T.tab[key]; ok {
		return t
	}
	t := mk()
	T.n++
	t.id = T.n
	T.tab[key] = t
	return t
}

func ids(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		if a == nil {
			b.WriteString("_,")
		} else {
			fmt.Fprintf(&b, "%d,", a.id)
		}
	}
	return b.String()
}

func (T *Terms) constant(v constant.Value, typ types.Type) *Term {
	switch {
	case v == nil:
		return T.zero(typ)
	default:
		// integers are identified by value alone
		k := ""
		if b, ok := typ.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				k = "i"
				if iv := constant.ToInt(v); iv.Kind() == constant.Int {
					v = iv
				}
			case b.Info()&types.IsString != 0:
				k = "s"
			case b.Info()&types.IsBoolean != 0:
				k = "b"
			default:
				k = b.Name()
			}
		} else {
			k = typeKey(typ)
		}
		return T.cons("c|"+k+"|"+v.ExactString(), func() *Term { return &Term{k: TConst, cv: v, typ: typ} })
	}
}

func (T *Terms) Int(i int64) *Term { return T.constant(constant.MakeInt64(i), types.Typ[types.Int]) }
func (T *Terms) Bool(b bool) *Term { return T.constant(constant.MakeBool(b), types.Typ[types.Bool]) }
func (T *Terms) Str(s string) *Term {
	return T.constant(constant.MakeString(s), types.Typ[types.String])
}
func (T *Terms) Nil() *Term {
	return T.cons("nil", func() *Term { return &Term{k: TConst, op: "nil"} })
}
func (t *Term) isNil() bool { return t.k == TConst && t.op == "nil" }
func (t *Term) isBool(b bool) bool {
	return t.k == TConst && t.cv != nil && t.cv.Kind() == constant.Bool && constant.BoolVal(t.cv) == b
}
func (t *Term) intVal() (int64, bool) {
	if t.k == TConst && t.cv != nil && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t != nil && t.k == TConst && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

func (T *Terms) zero(typ types.Type) *Term {
	if typ == nil {
		return T.Nil()
	}
	if tp, ok := types.Unalias(typ).(*types.TypeParam); ok {
		return T.cons("zero|"+tp.String(), func() *Term { return &Term{k: TConst, op: "zero", typ: typ} })
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return T.constant(constant.MakeBool(false), typ)
		case u.Info()&types.IsInteger != 0:
			return T.constant(constant.MakeInt64(0), typ)
		case u.Info()&types.IsString != 0:
			return T.constant(constant.MakeString(""), typ)
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return T.constant(constant.MakeFloat64(0), typ)
		}
		return T.Nil()
	case *types.Struct:
		if expandable(typ) {
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = T.zero(u.Field(i).Type())
			}
			return T.strukt(args, typ)
		}
		return T.cons("zero|"+typeKey(typ), func() *Term { return &Term{k: TConst, op: "zero", typ: typ} })
	case *types.Array:
		return T.cons("zero|"+typeKey(typ), func() *Term { return &Term{k: TConst, op: "zero", typ: typ} })
	}
	return T.Nil()
}

// expandable structs are tracked field by field.
func expandable(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
	}
	return true
}

func (T *Terms) strukt(args []*Term, typ types.Type) *Term {
	// {v.0, v.1, ...} is v
	if len(args) > 0 && args[0].k == TField {
		v := args[0].args[0]
		same := true
		for i, a := range args {
			if a.k != TField || a.args[0] != v || a.op != fmt.Sprint(i) {
				same = false
				break
			}
		}
		if same {
			return v
		}
	}
	return T.cons("st|"+ids(args)+"|"+fmt.Sprint(len(args))+structKey(typ), func() *Term { return &Term{k: TStruct, args: args, typ: typ} })
}

func structKey(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return typeKey(t)
}

func (T *Terms) field(v *Term, i int, typ types.Type) *Term {
	if v.k == TStruct && i < len(v.args) {
		return v.args[i]
	}
	if v.k == TConst && v.op == "zero" {
		return T.zero(typ)
	}
	return T.cons(fmt.Sprintf("f|%d|%d", v.id, i), func() *Term { return &Term{k: TField, op: fmt.Sprint(i), args: []*Term{v}, typ: typ} })
}

func (T *Terms) sym(label string, typ types.Type) *Term {
	T.nsym++
	return T.cons(fmt.Sprintf("s|%d", T.nsym), func() *Term { return &Term{k: TSym, label: label, typ: typ} })
}

func (T *Terms) root(label string, typ types.Type) *Term {
	return T.cons("root|"+label, func() *Term { return &Term{k: TSym, label: label, typ: typ, named: true} })
}

func fieldOf(base types.Type, i int) *types.Var {
	if p, ok := base.Underlying().(*types.Pointer); ok {
		base = p.Elem()
	}
	st := coreStruct(base)
	if st == nil || i >= st.NumFields() {
		return nil
	}
	return st.Field(i).Origin()
}

func coreStruct(t types.Type) *types.Struct {
	st, _ := t.Underlying().(*types.Struct)
	return st
}

// origin type of an instantiated named type
func originType(t types.Type) types.Type {
	switch n := types.Unalias(t).(type) {
	case *types.Named:
		return n.Origin()
	case *types.Pointer:
		return types.NewPointer(originType(n.Elem()))
	}
	return t
}

func (T *Terms) fa(base *Term, f *types.Var, typ types.Type) *Term {
	return T.cons(fmt.Sprintf("fa|%d|%p", base.id, f), func() *Term {
		return &Term{k: TFA, args: []*Term{base}, fld: f, typ: typ, nonnil: true}
	})
}
func (T *Terms) ia(base, idx *Term, typ types.Type) *Term {
	return T.cons(fmt.Sprintf("ia|%d|%d", base.id, idx.id), func() *Term {
		return &Term{k: TIA, args: []*Term{base, idx}, typ: typ, nonnil: true}
	})
}
func (T *Terms) me(m, k *Term) *Term {
	return T.cons(fmt.Sprintf("me|%d|%d", m.id, k.id), func() *Term { return &Term{k: TME, args: []*Term{m, k}} })
}
func (T *Terms) has(m, k *Term) *Term {
	return T.cons(fmt.Sprintf("mh|%d|%d", m.id, k.id), func() *Term { return &Term{k: TME, op: "has", args: []*Term{m, k}} })
}
func (T *Terms) op(op string, typ types.Type, args ...*Term) *Term {
	return T.cons("o|"+op+"|"+ids(args), func() *Term { return &Term{k: TOp, op: op, args: args, typ: typ} })
}
func (T *Terms) tuple(args ...*Term) *Term {
	return T.cons("t|"+ids(args), func() *Term { return &Term{k: TTuple, args: args} })
}
func (T *Terms) global(g *ssa.Global) *Term {
	return T.cons(fmt.Sprintf("g|%p", g), func() *Term { return &Term{k: TGlobal, gl: g, typ: g.Type(), nonnil: true} })
}
func (T *Terms) function(f *ssa.Function) *Term {
	if o := f.Origin(); o != nil && f.Blocks == nil {
		f = o
	}
	return T.cons(fmt.Sprintf("fn|%p", f), func() *Term { return &Term{k: TFunc, fn: f, typ: f.Signature, nonnil: true} })
}
func (T *Terms) closure(f *ssa.Function, b []*Term) *Term {
	return T.cons(fmt.Sprintf("cl|%p|%s", f, ids(b)), func() *Term {
		return &Term{k: TClosure, fn: f, args: b, typ: f.Signature, nonnil: true}
	})
}

// rebuild makes the same kind of term over other arguments.
func (T *Terms) rebuild(t *Term, args []*Term) *Term {
	switch t.k {
	case TFA:
		return T.fa(args[0], t.fld, t.typ)
	case TIA:
		return T.ia(args[0], args[1], t.typ)
	case TME:
		if t.op == "has" {
			return T.has(args[0], args[1])
		}
		return T.me(args[0], args[1])
	case TField:
		i := 0
		fmt.Sscan(t.op, &i)
		return T.field(args[0], i, t.typ)
	case TStruct:
		return T.strukt(args, t.typ)
	case TOp:
		return T.op(t.op, t.typ, args...)
	case TTuple:
		return T.tuple(args...)
	case TClosure:
		return T.closure(t.fn, args)
	}
	return t
}

// subst replaces from by to in t.
func (T *Terms) subst(t, from, to *Term, memo map[*Term]*Term) *Term {
	if t == from {
		return to
	}
	if t == nil || len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := t.args
	changed := false
	for i, a := range t.args {
		if a == nil {
			continue
		}
		b := T.subst(a, from, to, memo)
		if b != a {
			if !changed {
				args = append([]*Term(nil), t.args...)
				changed = true
			}
			args[i] = b
		}
	}
	r := t
	if changed {
		r = T.rebuild(t, args)
	}
	memo[t] = r
	return r
}

func (t *Term) contains(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if a != nil && a.contains(x) {
			return true
		}
	}
	return false
}

// root of an address: the pointer it is derived from
func (t *Term) base() *Term {
	for t.k == TFA || t.k == TIA || (t.k == TOp && (t.op == "slice")) || t.k == TME {
		t = t.args[0]
	}
	return t
}

func (t *Term) String() string {
	if t == nil {
		return "_"
	}
	switch t.k {
	case TConst:
		if t.op != "" {
			return t.op
		}
		return t.cv.ExactString()
	case TSym:
		if t.named {
			return t.label
		}
		return fmt.Sprintf("%s#%d", t.label, t.id)
	case TGlobal:
		return "&" + t.gl.Name()
	case TFunc:
		return fname(t.fn)
	case TClosure:
		return fname(t.fn) + "{...}"
	case TFA:
		return "&" + t.args[0].String() + "." + t.fld.Name()
	case TIA:
		return "&" + t.args[0].String() + "[" + t.args[1].String() + "]"
	case TME:
		s := ""
		if t.op != "" {
			s = "?"
		}
		return t.args[0].String() + "[" + t.args[1].String() + "]" + s
	case TField:
		return t.args[0].String() + "." + t.op
	case TStruct, TTuple:
		var b []string
		for _, a := range t.args {
			b = append(b, a.String())
		}
		return "{" + strings.Join(b, ", ") + "}"
	case TOp:
		var b []string
		for _, a := range t.args {
			b = append(b, a.String())
		}
		return t.op + "(" + strings.Join(b, ", ") + ")"
	}
	return "?"
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// mayUnordered: values of the type may be NaN
func mayUnordered(t types.Type) bool {
	if t == nil {
		return true
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&(types.IsFloat|types.IsComplex) != 0
	}
	return false
}

var _ = token.NoPos
