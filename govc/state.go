package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// PC is a persistent list of path facts. branch marks control-flow conditions.
type PC struct {
	parent *PC
	t      *Term
	branch bool
	depth  int
	pos    string
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	site ssa.Instruction
}

type State struct {
	pc     *PC
	lits   map[*Term]bool // facts for syntactic pruning (shared, copy on write via clone)
	comps  map[string]*Term
	cells  map[int]Val
	regs   map[ssa.Value]Val
	defers []*deferred
	wm     *Term         // allocation watermark
	binds  map[*Term]Val // function-valued terms bound to a spec closure
	dead   bool
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, wm: s.wm, dead: s.dead}
	n.lits = make(map[*Term]bool, len(s.lits)+4)
	for k := range s.lits {
		n.lits[k] = true
	}
	n.comps = make(map[string]*Term, len(s.comps)+4)
	for k, v := range s.comps {
		n.comps[k] = v
	}
	n.cells = make(map[int]Val, len(s.cells)+4)
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.regs = make(map[ssa.Value]Val, len(s.regs)+8)
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.binds = make(map[*Term]Val, len(s.binds))
	for k, v := range s.binds {
		n.binds[k] = v
	}
	n.defers = append([]*deferred{}, s.defers...)
	return n
}

func (s *State) add(t *Term, branch bool, pos string) {
	if t == tTrue {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.add(a, branch, pos)
		}
		return
	}
	if t == tFalse || s.lits[mkNot(t)] {
		s.dead = true
	}
	if s.lits[t] {
		return
	}
	s.lits[t] = true
	d := 1
	if s.pc != nil {
		d = s.pc.depth + 1
	}
	s.pc = &PC{parent: s.pc, t: t, branch: branch, depth: d, pos: pos}
	if t.op == "=" && t.args[0].sort == SBytes && (isUF(t.args[0], "bcat") || isUF(t.args[1], "bcat")) {
		if f := cancelFact(t, 0); f != nil {
			s.assume(f)
		}
	}
}

// cancelFact: equal concatenations whose heads have equal lengths have equal
// heads and equal remainders (cancellation in the free monoid).
func cancelFact(t *Term, d int) *Term {
	if t.op == "and" {
		var fs []*Term
		for _, a := range t.args {
			if f := cancelFact(a, d); f != nil {
				fs = append(fs, f)
			}
		}
		if len(fs) == 0 {
			return nil
		}
		return mkAnd(fs...)
	}
	if d > 8 || t.op != "=" || t.args[0].sort != SBytes {
		return nil
	}
	sa, sb := segsOf(t.args[0]), segsOf(t.args[1])
	if len(sa) < 1 || len(sb) < 1 || len(sa)+len(sb) < 3 {
		return nil
	}
	l := mkEq(mkUF("blen", SInt, sa[0]), mkUF("blen", SInt, sb[0]))
	rest := mkEq(catAll(sa[1:]), catAll(sb[1:]))
	c := mkAnd(mkEq(sa[0], sb[0]), rest)
	if f := cancelFact(rest, d+1); f != nil {
		c = mkAnd(c, f)
	}
	return mkImp(l, c)
}

func (s *State) assume(t *Term) { s.add(t, false, "") }

func (s *State) facts() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.parent {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) trail() string {
	var out []string
	for p := s.pc; p != nil; p = p.parent {
		if p.branch && p.pos != "" {
			out = append(out, p.pos)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > 40 {
		out = out[len(out)-40:]
	}
	return strings.Join(out, " ")
}

// comp reads a state component, creating its initial symbol on first use.
func (e *Engine) comp(st *State, name string, sort Sort) *Term {
	if t, ok := st.comps[name]; ok {
		return t
	}
	t := namedVar(name+"@init", sort)
	if t.sort != sort {
		panic(unsupported("component %s used with sorts %s and %s", name, t.sort, sort))
	}
	e.noteComp(name)
	e.compSorts[name] = sort
	st.comps[name] = t
	if e.wm0 != nil {
		refBelow(name, t, e.wm0)
	}
	return t
}

// refWM bounds the array references stored in a memory component: arrays stored
// in memory were allocated before.
var refWM = map[*Term]*Term{}

func refBelow(comp string, x, wm *Term) *Term {
	if strings.HasSuffix(comp, ".arr") {
		refWM[x] = wm
	}
	return x
}

// refBelowElem: the same for the contents of a single object.
func refBelowElem(comp string, x, wm *Term) *Term {
	refElem[x] = true
	return refBelow(comp, x, wm)
}

var refElem = map[*Term]bool{}

// refBound returns the bound of a reference read from memory, which holds if it
// is read from an object allocated before (what memory holds at references not
// yet allocated is open).
func refBound(t *Term) (bound, cond *Term) {
	if t.op != "select" || t.sort != SInt || t.hasBV {
		return nil, nil
	}
	var at *Term
	for t.op == "select" {
		at = t.args[1]
		t = t.args[0]
	}
	w := refWM[t]
	if w == nil {
		return nil, nil
	}
	if refElem[t] {
		return w, tTrue
	}
	return w, mkLt(at, w)
}

func (e *Engine) noteComp(name string) {
	if _, ok := e.compSorts[name]; ok {
		return
	}
	for m := range e.earlyMem {
		if memMatch(name, m) {
			e.again = true
		}
	}
	if !strings.HasPrefix(name, "G:") {
		return
	}
	b := name[2:]
	if i := strings.Index(b, "#"); i >= 0 {
		b = b[:i]
	}
	if e.earlyHavoc[b] {
		e.again = true
	}
}

func (e *Engine) setComp(st *State, name string, v *Term) {
	e.noteComp(name)
	e.compSorts[name] = v.sort
	st.comps[name] = v
}

func (e *Engine) newCell(t types.Type, v Val) int {
	e.cellSeq++
	e.cellTypes[e.cellSeq] = t
	_ = v
	return e.cellSeq
}

// alloc makes a fresh reference.
func (e *Engine) alloc(st *State, hint string) *Term {
	f := freshAlloc(hint)
	st.assume(mkLe(st.wm, f))
	st.wm = mkAdd(f, mkInt(1))
	return f
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- memory access ----

func memName(t types.Type, l leaf) string { return "M:" + typeKey(memKind(t)) + "#" + l.path }
func objName(t types.Type, l leaf) string { return "H:" + typeKey(t) + "#" + l.path }

// pathInfo returns the type at a field path and the index range of its leaves.
func (e *Engine) pathInfo(t types.Type, path []int) (types.Type, int, int) {
	lo := 0
	for _, p := range path {
		st, ok := under(t).(*types.Struct)
		if !ok {
			panic(unsupported("path into %s", t))
		}
		for i := 0; i < p; i++ {
			lo += len(e.leaves(st.Field(i).Type()))
		}
		t = st.Field(p).Type()
	}
	return t, lo, lo + len(e.leaves(t))
}

func (e *Engine) globName(g *ssa.Global) string {
	return "GV:" + strings.ReplaceAll(g.RelString(nil), "github.com/go-bond/", "")
}

func (e *Engine) load(st *State, p *PtrV) Val {
	switch p.kind {
	case pkCell:
		v, ok := st.cells[p.cell]
		if !ok {
			panic(unsupported("load of unknown cell %d of %d cells", p.cell, len(st.cells)))
		}
		return navigate(v, p.path)
	case pkObj:
		ft, lo, hi := e.pathInfo(p.objType, p.path)
		ls := e.leaves(p.objType)[lo:hi]
		ts := make([]*Term, len(ls))
		for i, l := range ls {
			c := e.comp(st, objName(p.objType, l), arrSort(SInt, l.sort))
			ts[i] = mkSelect(c, p.ref)
			e.noteLoad(st, ts[i], l)
		}
		return e.loaded(st, ft, ts)
	case pkElem:
		ft, lo, hi := e.pathInfo(p.objType, p.path)
		ls := e.leaves(p.objType)[lo:hi]
		ts := make([]*Term, len(ls))
		for i, l := range ls {
			c := e.comp(st, memName(p.objType, l), arrSort(SInt, arrSort(SInt, l.sort)))
			ts[i] = mkSelect(mkSelect(c, p.ref), p.idx)
			e.noteLoad(st, ts[i], l)
		}
		return e.loaded(st, ft, ts)
	case pkGlobal:
		ft, lo, hi := e.pathInfo(p.objType, p.path)
		ls := e.leaves(p.objType)[lo:hi]
		ts := make([]*Term, len(ls))
		for i, l := range ls {
			ts[i] = e.globalLeaf(st, p.glob, l)
			e.noteLoad(st, ts[i], l)
		}
		return e.loaded(st, ft, ts)
	case pkArr:
		a := under(p.objType).(*types.Array)
		ls := e.leaves(a.Elem())
		ts := make([]*Term, len(ls))
		for i, l := range ls {
			c := e.comp(st, memName(a.Elem(), l), arrSort(SInt, arrSort(SInt, l.sort)))
			ts[i] = mkSelect(c, p.ref)
		}
		return e.unflatten(p.objType, ts)
	}
	panic("load")
}

// loaded builds the value and records well-formedness facts of slices.
func (e *Engine) loaded(st *State, t types.Type, ts []*Term) Val {
	v := e.unflatten(t, ts)
	e.wellFormed(st, v, t, st.wm)
	return v
}

func (e *Engine) noteLoad(st *State, t *Term, l leaf) {
	if t.sort == SInt && !t.hasBV {
		if lo, hi, ok := typeRange(l.typ); ok && t.op != "int" {
			if _, has := varRange[t]; has {
				return
			}
			if t.op == "var" || t.op == "select" || t.op == "uf" {
				varRange[t] = [2]*bigInt{lo, hi}
			} else if a, b, ok := rangeOf(t); (!ok || a.Cmp(lo) < 0 || b.Cmp(hi) > 0) && lo.BitLen() < 64 {
				// a computed value which was stored: in range where it was stored, on this path
				st.assume(mkAnd(mkLe(mkBig(lo), t), mkLe(t, mkBig(hi))))
			}
		}
	}
}

// wellFormed adds the type invariants of a value read from memory or supplied
// by the environment: slice header sanity, references below the watermark.
func (e *Engine) wellFormed(st *State, v Val, t types.Type, wm *Term) {
	switch v := v.(type) {
	case *SliceV:
		if v.arr.hasBV || v.len.hasBV || v.off.hasBV || v.cap.hasBV {
			return
		}
		zero := mkInt(0)
		st.assume(mkLe(zero, v.arr))
		if !v.arr.fresh {
			st.assume(mkLt(v.arr, wm))
		}
		st.assume(mkLe(zero, v.off))
		st.assume(mkLe(zero, v.len))
		st.assume(mkLe(v.len, v.cap))
		if !v.arr.fresh {
			nil_ := mkEq(v.arr, zero)
			st.assume(mkImp(nil_, mkAnd(mkEq(v.cap, zero), mkEq(v.off, zero))))
		}
	case *StructV:
		u := under(t).(*types.Struct)
		for i := range v.f {
			e.wellFormed(st, v.f[i], u.Field(i).Type(), wm)
		}
	case *PtrV:
		if v.kind == pkObj && v.ref.op != "int" && !v.ref.fresh && !v.ref.hasBV {
			st.assume(mkLe(mkInt(0), v.ref))
			st.assume(mkLt(v.ref, wm))
		}
	case *Term:
		if v.hasBV || v.op == "int" || v.fresh {
			return
		}
		switch under(t).(type) {
		case *types.Interface, *types.Map, *types.Signature, *types.Chan:
			if v.sort == SInt && !isTypeParam(t) {
				st.assume(mkLe(mkInt(0), v))
				st.assume(mkLt(v, wm))
			}
		}
	}
}

func navigate(v Val, path []int) Val {
	for _, p := range path {
		s, ok := v.(*StructV)
		if !ok {
			panic(unsupported("field of %T", v))
		}
		v = s.f[p]
	}
	return v
}

func update(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s, ok := v.(*StructV)
	if !ok {
		panic(unsupported("field update of %T", v))
	}
	n := &StructV{f: append([]Val{}, s.f...)}
	n.f[path[0]] = update(n.f[path[0]], path[1:], nv)
	return n
}

func (e *Engine) store(st *State, p *PtrV, v Val) {
	switch p.kind {
	case pkCell:
		st.cells[p.cell] = update(st.cells[p.cell], p.path, v)
		return
	case pkObj:
		ft, lo, hi := e.pathInfo(p.objType, p.path)
		ls := e.leaves(p.objType)[lo:hi]
		ts := e.flatten(v, ft)
		for i, l := range ls {
			n := objName(p.objType, l)
			c := e.comp(st, n, arrSort(SInt, l.sort))
			e.setComp(st, n, mkStore(c, p.ref, ts[i]))
		}
		return
	case pkElem:
		ft, lo, hi := e.pathInfo(p.objType, p.path)
		ls := e.leaves(p.objType)[lo:hi]
		ts := e.flatten(v, ft)
		for i, l := range ls {
			n := memName(p.objType, l)
			c := e.comp(st, n, arrSort(SInt, arrSort(SInt, l.sort)))
			row := mkSelect(c, p.ref)
			e.setComp(st, n, mkStore(c, p.ref, mkStore(row, p.idx, ts[i])))
		}
		return
	case pkGlobal:
		ft, lo, hi := e.pathInfo(p.objType, p.path)
		ls := e.leaves(p.objType)[lo:hi]
		ts := e.flatten(v, ft)
		for i, l := range ls {
			e.setComp(st, e.globName(p.glob)+"#"+l.path, ts[i])
		}
		return
	case pkArr:
		a := under(p.objType).(*types.Array)
		ls := e.leaves(a.Elem())
		ts := e.flatten(v, p.objType)
		for i, l := range ls {
			n := memName(a.Elem(), l)
			c := e.comp(st, n, arrSort(SInt, arrSort(SInt, l.sort)))
			e.setComp(st, n, mkStore(c, p.ref, ts[i]))
		}
		return
	}
	panic("store")
}

func (e *Engine) globalLeaf(st *State, g *ssa.Global, l leaf) *Term {
	n := e.globName(g) + "#" + l.path
	if t, ok := st.comps[n]; ok {
		return t
	}
	if ini, ok := e.globalInit(g); ok {
		if t, ok := ini[l.path]; ok {
			return t
		}
	}
	t := e.comp(st, n, l.sort)
	if _, isI := under(l.typ).(*types.Interface); isI && strings.HasPrefix(g.Name(), "Err") {
		st.assume(mkLt(mkInt(0), t))
	}
	return t
}

// globalInit finds constant initial values of package-level variables that are
// written only by constant stores in the package initialiser.
func (e *Engine) globalInit(g *ssa.Global) (map[string]*Term, bool) {
	if r, ok := e.globInit[g]; ok {
		return r, r != nil
	}
	e.globInit[g] = nil
	res := map[string]*Term{}
	pkg := g.Pkg
	if pkg == nil || !e.inRepo(pkg.Pkg) {
		return nil, false
	}
	ini := pkg.Func("init")
	bad := false
	for _, m := range e.allFuncs(pkg) {
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				path := ""
				addr := s.Addr
				if fa, ok := addr.(*ssa.FieldAddr); ok {
					path = "." + under(fa.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Struct).Field(fa.Field).Name()
					addr = fa.X
				}
				if addr != ssa.Value(g) {
					continue
				}
				c, isC := s.Val.(*ssa.Const)
				if u, ok := s.Val.(*ssa.UnOp); ok && m == ini && u.Op == token.MUL {
					// a composite literal of constants, built in a local and copied
					if al, ok := u.X.(*ssa.Alloc); ok && path == "" && e.constLiteral(al, res) {
						continue
					}
				}
				if m != ini || !isC {
					bad = true
					continue
				}
				ts := e.flatten(e.constVal(c, nil), c.Type())
				if len(ts) == 1 {
					res[path] = ts[0]
				} else {
					for i, l := range e.leaves(c.Type()) {
						res[path+l.path] = ts[i]
					}
				}
			}
		}
	}
	if bad {
		return nil, false
	}
	// leaves never stored are zero
	for _, l := range e.leaves(g.Type().(*types.Pointer).Elem()) {
		if _, ok := res[l.path]; !ok {
			if len(res) > 0 {
				res[l.path] = e.zeroLeaf(l)
			}
		}
	}
	if len(res) == 0 {
		return nil, false
	}
	e.globInit[g] = res
	return res, true
}

// constLiteral: a local of the initialiser whose fields are set to constants only.
func (e *Engine) constLiteral(al *ssa.Alloc, res map[string]*Term) bool {
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, q := range *r.Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(r) {
					return false
				}
				c, ok := s.Val.(*ssa.Const)
				if !ok {
					return false
				}
				ts := e.flatten(e.constVal(c, nil), c.Type())
				if len(ts) != 1 {
					return false
				}
				res["."+under(al.Type().Underlying().(*types.Pointer).Elem()).(*types.Struct).Field(r.Field).Name()] = ts[0]
			}
		default:
			return false
		}
	}
	return true
}

// ---- fresh symbolic values ----

func (e *Engine) freshVal(st *State, t types.Type, hint string) Val {
	var ts []*Term
	for _, l := range e.leaves(t) {
		v := freshVar(hint+l.path, l.sort)
		if l.sort == SInt {
			if lo, hi, ok := typeRange(l.typ); ok {
				varRange[v] = [2]*bigInt{lo, hi}
			}
		}
		ts = append(ts, v)
	}
	v := e.unflatten(t, ts)
	e.wellFormed(st, v, t, st.wm)
	return v
}

// ---- merging ----

func branchCond(p, anc *PC) (br *Term, facts *Term) {
	var bs, fs []*Term
	for x := p; x != anc; x = x.parent {
		if x.branch {
			bs = append(bs, x.t)
		} else {
			fs = append(fs, x.t)
		}
	}
	rev := func(ts []*Term) {
		for i, j := 0, len(ts)-1; i < j; i, j = i+1, j-1 {
			ts[i], ts[j] = ts[j], ts[i]
		}
	}
	rev(bs)
	rev(fs)
	return mkAnd(bs...), mkAnd(fs...)
}

func commonPC(a, b *PC) *PC {
	for a != b {
		if a == nil || b == nil {
			return nil
		}
		if a.depth > b.depth {
			a = a.parent
		} else if b.depth > a.depth {
			b = b.parent
		} else {
			a, b = a.parent, b.parent
		}
	}
	return a
}

func (e *Engine) mergeVal(c *Term, a, b Val, strict bool) (Val, bool) {
	if _, isT := a.(TupleV); !isT {
		if _, isT := b.(TupleV); !isT && a == b {
			return a, true
		}
	}
	switch a := a.(type) {
	case *Term:
		if b, ok := b.(*Term); ok && a.sort == b.sort {
			return mkIte(c, a, b), true
		}
	case *SliceV:
		if b, ok := b.(*SliceV); ok {
			return &SliceV{mkIte(c, a.arr, b.arr), mkIte(c, a.off, b.off), mkIte(c, a.len, b.len), mkIte(c, a.cap, b.cap)}, true
		}
	case *StructV:
		if b, ok := b.(*StructV); ok && len(a.f) == len(b.f) {
			n := &StructV{}
			for i := range a.f {
				v, ok := e.mergeVal(c, a.f[i], b.f[i], strict)
				if !ok {
					return nil, false
				}
				n.f = append(n.f, v)
			}
			return n, true
		}
	case TupleV:
		if b, ok := b.(TupleV); ok && len(a) == len(b) {
			n := TupleV{}
			for i := range a {
				v, ok := e.mergeVal(c, a[i], b[i], strict)
				if !ok {
					return nil, false
				}
				n = append(n, v)
			}
			return n, true
		}
	case *PtrV:
		if b, ok := b.(*PtrV); ok && a.kind == b.kind && a.cell == b.cell && a.glob == b.glob && fmt.Sprint(a.path) == fmt.Sprint(b.path) && (a.kind == pkCell || a.kind == pkGlobal || typeKey(a.objType) == typeKey(b.objType)) {
			n := *a
			if a.ref != nil && b.ref != nil {
				n.ref = mkIte(c, a.ref, b.ref)
			}
			if a.idx != nil && b.idx != nil {
				n.idx = mkIte(c, a.idx, b.idx)
			}
			return &n, true
		}
	case *IfaceV:
		if b, ok := b.(*IfaceV); ok && types.Identical(a.typ, b.typ) {
			v, ok := e.mergeVal(c, a.val, b.val, strict)
			if !ok {
				return nil, false
			}
			return &IfaceV{a.typ, v}, true
		}
	case *CloV:
		if b, ok := b.(*CloV); ok && a.fn == b.fn && len(a.binds) == len(b.binds) {
			n := &CloV{fn: a.fn, env: a.env}
			for i := range a.binds {
				v, ok := e.mergeVal(c, a.binds[i], b.binds[i], strict)
				if !ok {
					return nil, false
				}
				n.binds = append(n.binds, v)
			}
			return n, true
		}
	}
	return nil, false
}

// mergeStates joins two states when every difference can be expressed as an
// ite. heavy=false refuses when heap components differ.
func (e *Engine) mergeStates(a, b *State, liveRegs map[ssa.Value]bool, heavy bool) *State {
	if a.dead {
		return b
	}
	if b.dead {
		return a
	}
	if len(a.defers) != len(b.defers) {
		return nil
	}
	for i := range a.defers {
		if a.defers[i] != b.defers[i] {
			return nil
		}
	}
	anc := commonPC(a.pc, b.pc)
	ba, fa := branchCond(a.pc, anc)
	bb, fb := branchCond(b.pc, anc)
	if ba == tTrue || bb == tTrue || ba == bb {
		return nil // not distinguishable by branch conditions
	}
	c := ba
	n := &State{pc: anc, comps: map[string]*Term{}, cells: map[int]Val{}, regs: map[ssa.Value]Val{}, binds: map[*Term]Val{}, lits: map[*Term]bool{}}
	names := map[string]bool{}
	for k := range a.comps {
		names[k] = true
	}
	for k := range b.comps {
		names[k] = true
	}
	for k := range names {
		x, ok1 := a.comps[k]
		y, ok2 := b.comps[k]
		if !ok1 {
			x = namedVar(k+"@init", y.sort)
		}
		if !ok2 {
			y = namedVar(k+"@init", x.sort)
		}
		if x != y {
			if !heavy && !strings.HasPrefix(k, "G:") {
				return nil
			}
			x = mkIte(c, x, y)
		}
		n.comps[k] = x
	}
	for k, x := range a.cells {
		y, ok := b.cells[k]
		if !ok {
			n.cells[k] = x
			continue
		}
		v, ok := e.mergeVal(c, x, y, false)
		if !ok {
			return nil
		}
		n.cells[k] = v
	}
	for k, y := range b.cells {
		if _, ok := a.cells[k]; !ok {
			n.cells[k] = y
		}
	}
	for k, x := range a.regs {
		y, ok := b.regs[k]
		if !ok {
			continue
		}
		v, ok := e.mergeVal(c, x, y, false)
		if !ok {
			if liveRegs == nil || liveRegs[k] {
				return nil
			}
			continue
		}
		n.regs[k] = v
	}
	for k, v := range a.binds {
		n.binds[k] = v
	}
	for k, v := range b.binds {
		n.binds[k] = v
	}
	n.defers = append([]*deferred{}, a.defers...)
	if a.wm == b.wm {
		n.wm = a.wm
	} else {
		n.wm = mkIte(c, a.wm, b.wm)
	}
	for p := anc; p != nil; p = p.parent {
		n.lits[p.t] = true
	}
	n.add(mkOr(ba, bb), true, "")
	n.assume(mkImp(ba, fa))
	n.assume(mkImp(bb, fb))
	return n
}
