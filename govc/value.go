package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value: *Term, *StructV, *SliceV, *PtrV, *CloV, *IfaceV, TupleV.
type Val interface{}

type StructV struct{ f []Val }
type SliceV struct{ arr, off, len, cap *Term }
type TupleV []Val

type ptrKind int

const (
	pkObj  ptrKind = iota // heap object: ref + path inside objType
	pkElem                // slice/array element: arr, idx + path inside objType (the element type)
	pkCell                // local variable cell
	pkArr                 // whole backing array (pointer to array)
	pkGlobal
)

type PtrV struct {
	kind    ptrKind
	ref     *Term // pkObj: object; pkElem/pkArr: array id
	idx     *Term // pkElem
	objType types.Type
	path    []int // field path
	cell    int
	glob    *ssa.Global
}

type CloV struct {
	fn    *ssa.Function
	binds []Val
	env   tenv
	// special: intrinsic uninterpreted closure
}

type IfaceV struct {
	typ types.Type
	val Val
}

type tenv map[*types.TypeParam]types.Type

// ---- types ----

func (e *Engine) subst(t types.Type, env tenv) types.Type {
	if len(env) == 0 {
		return t
	}
	switch t := t.(type) {
	case *types.TypeParam:
		if r, ok := env[t]; ok {
			return r
		}
		return t
	case *types.Pointer:
		return types.NewPointer(e.subst(t.Elem(), env))
	case *types.Slice:
		return types.NewSlice(e.subst(t.Elem(), env))
	case *types.Array:
		return types.NewArray(e.subst(t.Elem(), env), t.Len())
	case *types.Map:
		return types.NewMap(e.subst(t.Key(), env), e.subst(t.Elem(), env))
	case *types.Chan:
		return types.NewChan(t.Dir(), e.subst(t.Elem(), env))
	case *types.Tuple:
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, t.At(i).Name(), e.subst(t.At(i).Type(), env)))
		}
		return types.NewTuple(vs...)
	case *types.Signature:
		ps := e.subst(t.Params(), env).(*types.Tuple)
		rs := e.subst(t.Results(), env).(*types.Tuple)
		return types.NewSignatureType(nil, nil, nil, ps, rs, t.Variadic())
	case *types.Named:
		ta := t.TypeArgs()
		if ta == nil || ta.Len() == 0 {
			return t
		}
		args := make([]types.Type, ta.Len())
		ch := false
		for i := 0; i < ta.Len(); i++ {
			args[i] = e.subst(ta.At(i), env)
			if args[i] != ta.At(i) {
				ch = true
			}
		}
		if !ch {
			return t
		}
		r, err := types.Instantiate(e.tctx, t.Origin(), args, false)
		if err != nil {
			panic(unsupported("instantiate %v: %v", t, err))
		}
		return r
	case *types.Alias:
		return e.subst(types.Unalias(t), env)
	case *types.Struct:
		var fs []*types.Var
		ch := false
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			ft := e.subst(f.Type(), env)
			if ft != f.Type() {
				ch = true
			}
			fs = append(fs, types.NewField(f.Pos(), f.Pkg(), f.Name(), ft, f.Embedded()))
		}
		if !ch {
			return t
		}
		return types.NewStruct(fs, nil)
	}
	return t
}

func shortPkg(p *types.Package) string {
	return strings.TrimPrefix(p.Path(), "github.com/go-bond/")
}

func typeKey(t types.Type) string {
	s := types.TypeString(types.Unalias(t), shortPkg)
	if strings.Contains(s, "uint8") || strings.Contains(s, "rune") || strings.Contains(s, "interface{}") {
		s = uint8Re.ReplaceAllString(s, "byte")
		s = runeRe.ReplaceAllString(s, "int32")
		s = strings.ReplaceAll(s, "interface{}", "any")
	}
	return s
}

var uint8Re = regexp.MustCompile(`\buint8\b`)
var runeRe = regexp.MustCompile(`\brune\b`)

var bracketRe = regexp.MustCompile(`\[[^\[\]]*\]`)

// stripArgs removes type argument lists (but keeps [] and [N]).
func stripArgs(s string) string {
	for {
		n := regexp.MustCompile(`\[[^\[\]]*[A-Za-z*.][^\[\]]*\]`).ReplaceAllString(s, "")
		if n == s {
			return s
		}
		s = n
	}
}

// fnName gives the canonical name of a function.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/go-bond/", "")
	return stripArgs(s)
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

type leaf struct {
	path string
	sort Sort
	typ  types.Type
}

func opaqueSort(t types.Type) Sort { return Sort("U_" + sanitize(typeKey(t))) }

// leaves flattens a type into scalar leaves.
func (e *Engine) leaves(t types.Type) []leaf {
	k := typeKey(t)
	if l, ok := e.leafCache[k]; ok {
		return l
	}
	l := e.leaves0(t)
	e.leafCache[k] = l
	return l
}

func (e *Engine) leaves0(t types.Type) []leaf {
	t = types.Unalias(t)
	if isTypeParam(t) {
		return []leaf{{"", opaqueSort(t), t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0 || u.Kind() == types.UnsafePointer:
			return []leaf{{"", SInt, t}}
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", SBool, t}}
		case u.Info()&types.IsString != 0:
			return []leaf{{"", SBytes, t}}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return []leaf{{"", SFlt, t}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return []leaf{{"", SInt, t}}
	case *types.Slice:
		it := types.Typ[types.Uint]
		return []leaf{{".arr", SInt, it}, {".off", SInt, it}, {".len", SInt, it}, {".cap", SInt, it}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range e.leaves(u.Field(i).Type()) {
				out = append(out, leaf{"." + u.Field(i).Name() + l.path, l.sort, l.typ})
			}
		}
		return out
	case *types.Array:
		el := e.leaves(u.Elem())
		var out []leaf
		for _, l := range el {
			out = append(out, leaf{"[]" + l.path, arrSort(SInt, l.sort), types.NewArray(l.typ, u.Len())})
		}
		return out
	}
	panic(unsupported("leaves of type %s", t))
}

func (e *Engine) flatten(v Val, t types.Type) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case *SliceV:
		return []*Term{v.arr, v.off, v.len, v.cap}
	case *StructV:
		u := under(t)
		var out []*Term
		switch u := u.(type) {
		case *types.Struct:
			for i := range v.f {
				out = append(out, e.flatten(v.f[i], u.Field(i).Type())...)
			}
		default:
			panic(unsupported("flatten struct value of type %s", t))
		}
		return out
	case *PtrV:
		if v.kind == pkObj && len(v.path) == 0 {
			return []*Term{v.ref}
		}
		return []*Term{e.encodeVal(v, fmt.Sprintf("p%d|%v|%v|%d|%v|%v", v.kind, tid(v.ref), tid(v.idx), v.cell, v.path, v.glob))}
	case *CloV:
		k := fmt.Sprintf("clo%p", v)
		return []*Term{e.encodeVal(v, k)}
	case *IfaceV:
		if p, ok := v.val.(*PtrV); ok && p.kind == pkObj && len(p.path) == 0 {
			if p.ref.fresh {
				e.decodeI[p.ref] = v
			}
			return []*Term{p.ref}
		}
		key := fmt.Sprintf("iface%p", v)
		switch v.val.(type) {
		case *Term, *SliceV, *StructV:
			// equal parts give the same boxed value
			key = "iface|" + typeKey(v.typ)
			for _, x := range e.flatten(v.val, v.typ) {
				key += fmt.Sprintf("|%d", x.id)
				e.keepAliveT = append(e.keepAliveT, x)
			}
		}
		return []*Term{e.encodeVal(v, key)}
	}
	panic(unsupported("flatten %T", v))
}

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}

func (e *Engine) encodeVal(v Val, key string) *Term {
	if t, ok := e.enc[key]; ok {
		return t
	}
	t := freshAlloc("val")
	e.enc[key] = t
	e.decode[t] = v
	e.keepAlive = append(e.keepAlive, v)
	return t
}

func (e *Engine) unflatten(t types.Type, ts []*Term) Val {
	v, rest := e.unflat(t, ts)
	if len(rest) != 0 {
		panic("unflatten: leftover")
	}
	return v
}

func (e *Engine) unflat(t types.Type, ts []*Term) (Val, []*Term) {
	t = types.Unalias(t)
	if isTypeParam(t) {
		return ts[0], ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = e.unflat(u.Field(i).Type(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Pointer:
		if d, ok := e.decode[ts[0]]; ok {
			if p, ok := d.(*PtrV); ok {
				return p, ts[1:]
			}
		}
		return &PtrV{kind: pkObj, ref: ts[0], objType: u.Elem()}, ts[1:]
	case *types.Signature:
		if d, ok := e.decode[ts[0]]; ok {
			return d, ts[1:]
		}
		return ts[0], ts[1:]
	case *types.Interface:
		if d, ok := e.decode[ts[0]]; ok {
			if _, ok := d.(*IfaceV); ok {
				return d, ts[1:]
			}
		}
		if d, ok := e.decodeI[ts[0]]; ok {
			return d, ts[1:]
		}
		return ts[0], ts[1:]
	case *types.Array:
		n := len(e.leaves(t))
		if n == 1 {
			return ts[0], ts[1:]
		}
		return TupleV(toVals(ts[:n])), ts[n:]
	}
	return ts[0], ts[1:]
}

func toVals(ts []*Term) []Val {
	out := make([]Val, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

// ---- integers ----

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64:
		return 64, true, true
	case types.Int, types.UntypedInt:
		return 0, true, true // mathematical
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, true, true
}

func typeRange(t types.Type) (lo, hi *big.Int, ok bool) {
	bits, signed, ok := intInfo(t)
	if !ok {
		return nil, nil, false
	}
	if bits == 0 {
		bits = 64
	}
	if signed {
		h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)), true
	}
	h := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	return big.NewInt(0), h.Sub(h, big.NewInt(1)), true
}

// wrapInt reduces a mathematical integer into the range of t.
func wrapInt(t types.Type, x *Term, conv bool) *Term {
	bits, signed, ok := intInfo(t)
	if !ok {
		return x
	}
	if bits == 0 {
		if !conv {
			return x
		}
		bits = 64
	}
	lo, hi, _ := typeRange(t)
	mod := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if xl, xh, ok := rangeOf(x); ok {
		if xl.Cmp(lo) >= 0 && xh.Cmp(hi) <= 0 {
			return x
		}
		l2 := new(big.Int).Sub(lo, mod)
		h2 := new(big.Int).Add(hi, mod)
		if xl.Cmp(l2) >= 0 && xh.Cmp(h2) <= 0 {
			r := x
			if xh.Cmp(hi) > 0 {
				r = mkIte(mkLt(mkBig(hi), x), mkSub(x, mkBig(mod)), r)
			}
			if xl.Cmp(lo) < 0 {
				r = mkIte(mkLt(x, mkBig(lo)), mkAdd(x, mkBig(mod)), r)
			}
			return r
		}
	}
	if signed {
		half := new(big.Int).Rsh(mod, 1)
		return mkSub(mkMod(mkAdd(x, mkBig(half)), mkBig(mod)), mkBig(half))
	}
	return mkMod(x, mkBig(mod))
}

// zero value of a type
func (e *Engine) zero(t types.Type) Val {
	var ts []*Term
	for _, l := range e.leaves(t) {
		ts = append(ts, e.zeroLeaf(l))
	}
	return e.unflatten(t, ts)
}

func (e *Engine) zeroLeaf(l leaf) *Term {
	switch l.sort {
	case SInt:
		return mkInt(0)
	case SBool:
		return tFalse
	case SBytes:
		return mkStr("")
	}
	if a, ok := under(l.typ).(*types.Array); ok && strings.HasPrefix(string(l.sort), "(Array") {
		return mkConstArr(l.sort, e.zeroLeaf(leaf{"", elemSort(l.sort), a.Elem()}))
	}
	return namedVar("zero_"+string(l.sort), l.sort)
}

func zeroSort(s Sort) *Term {
	switch s {
	case SInt:
		return mkInt(0)
	case SBool:
		return tFalse
	case SBytes:
		return mkStr("")
	}
	if strings.HasPrefix(string(s), "(Array") {
		return mkConstArr(s, zeroSort(elemSort(s)))
	}
	return namedVar("zero_"+string(s), s)
}
