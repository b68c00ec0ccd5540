package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) call(fr *Frame, st *State, c *ssa.CallCommon, instr ssa.Instruction) []*State {
	reg, _ := instr.(ssa.Value)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []Val
		for _, a := range c.Args {
			args = append(args, e.val(fr, st, a))
		}
		r := e.builtin(fr, st, b, c, args)
		if reg != nil && r != nil {
			st.regs[reg] = r
		}
		if st.dead {
			return nil
		}
		return []*State{st}
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	outs := e.invoke(fr, st, c, e.val(fr, st, c.Value), args, instr)
	var res []*State
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		if reg != nil {
			switch len(o.ret) {
			case 0:
			case 1:
				o.st.regs[reg] = o.ret[0]
			default:
				o.st.regs[reg] = TupleV(o.ret)
			}
		}
		res = append(res, o.st)
	}
	return res
}

func one(st *State, rets ...Val) []Outcome { return []Outcome{{st, rets}} }

func (e *Engine) invoke(fr *Frame, st *State, c *ssa.CallCommon, fnv Val, args []Val, site ssa.Instruction) []Outcome {
	if b, ok := fnv.(*ssa.Builtin); ok {
		r := e.builtin(fr, st, b, c, args)
		if r == nil {
			return one(st)
		}
		return one(st, r)
	}
	if c.IsInvoke() {
		return e.dynCall(fr, st, fnv, e.typ(fr, c.Value.Type()), c.Method, args, site)
	}
	return e.callValue(fr, st, fnv, e.typ(fr, c.Value.Type()), c.Signature(), args, site)
}

func (e *Engine) callValue(fr *Frame, st *State, fnv Val, ft types.Type, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	switch f := fnv.(type) {
	case *CloV:
		return e.callClosure(fr, st, f, args, site)
	case *Term:
		if b, ok := st.binds[f]; ok {
			return e.callClosure(fr, st, b.(*CloV), args, site)
		}
		if f.op == "ite" {
			// a choice between two function values
			a, b := e.unflatten(ft, []*Term{f.args[1]}), e.unflatten(ft, []*Term{f.args[2]})
			s2 := st.clone()
			st.add(f.args[0], true, "fn-choice:T")
			s2.add(mkNot(f.args[0]), true, "fn-choice:F")
			var outs []Outcome
			if !st.dead {
				outs = append(outs, e.callValue(fr, st, a, ft, sig, args, site)...)
			}
			if !s2.dead {
				outs = append(outs, e.callValue(fr, s2, b, ft, sig, args, site)...)
			}
			return outs
		}
		if isInt(f) && f.ival.Sign() == 0 {
			e.panicPath(fr, st, "call of nil function", site.Pos())
			return nil
		}
		e.check(fr, st, mkNot(mkEq(f, mkInt(0))), "call of nil function", site.Pos())
		if n, ok := types.Unalias(ft).(*types.Named); ok {
			if m, ok := e.models["func:"+e.typeName(n)]; ok {
				return e.runModel(fr, st, m, n.TypeArgs(), append([]Val{f}, args...), site)
			}
		}
		if key, tps := sigKey(sig); true {
			if m, ok := e.models[key]; ok {
				e.usedModel[m.name]++
				env := tenv{}
				for i, t := range tps {
					if m.fn.TypeParams() != nil && i < m.fn.TypeParams().Len() {
						env[m.fn.TypeParams().At(i)] = t
					}
				}
				return e.callFn(m.fn, env, e.adaptArgs(m.fn, append([]Val{f}, args...)), nil, st, fr, nil, false)
			}
		}
		e.unknown["func value of type "+typeKey(ft)]++
		return e.unknownResult(fr, st, sig, "fnres")
	}
	panic(unsupported("call of %T in %s", fnv, fr.fn))
}

// sigKey names an unnamed function type, without parameter names and with type
// parameters numbered in order of appearance.
func sigKey(sig *types.Signature) (string, []types.Type) {
	var tps []types.Type
	one := func(t types.Type) string {
		k := typeKey(t)
		walkTypeParams(t, func(tp *types.TypeParam) {
			for _, x := range tps {
				if x == types.Type(tp) {
					return
				}
			}
			tps = append(tps, tp)
		})
		for i, x := range tps {
			k = regexp.MustCompile(`\b`+regexp.QuoteMeta(x.(*types.TypeParam).Obj().Name())+`\b`).ReplaceAllString(k, fmt.Sprintf("$$%d", i))
		}
		return k
	}
	var ps, rs []string
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, one(sig.Params().At(i).Type()))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, one(sig.Results().At(i).Type()))
	}
	k := "func(" + strings.Join(ps, ", ") + ")"
	if len(rs) == 1 {
		k += " " + rs[0]
	} else if len(rs) > 1 {
		k += " (" + strings.Join(rs, ", ") + ")"
	}
	return k, tps
}

func walkTypeParams(t types.Type, f func(*types.TypeParam)) {
	switch t := types.Unalias(t).(type) {
	case *types.TypeParam:
		f(t)
	case *types.Pointer:
		walkTypeParams(t.Elem(), f)
	case *types.Slice:
		walkTypeParams(t.Elem(), f)
	case *types.Array:
		walkTypeParams(t.Elem(), f)
	case *types.Map:
		walkTypeParams(t.Key(), f)
		walkTypeParams(t.Elem(), f)
	case *types.Named:
		for i := 0; i < t.TypeArgs().Len(); i++ {
			walkTypeParams(t.TypeArgs().At(i), f)
		}
	case *types.Signature:
		for i := 0; i < t.Params().Len(); i++ {
			walkTypeParams(t.Params().At(i).Type(), f)
		}
		for i := 0; i < t.Results().Len(); i++ {
			walkTypeParams(t.Results().At(i).Type(), f)
		}
	}
}

func (e *Engine) unknownResult(fr *Frame, st *State, sig *types.Signature, hint string) []Outcome {
	e.bumpWM(st)
	var rets []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rets = append(rets, e.freshVal(st, e.typ(fr, sig.Results().At(i).Type()), hint))
	}
	return []Outcome{{st, rets}}
}

func (e *Engine) bumpWM(st *State) {
	n := freshVar("wm", SInt)
	st.assume(mkLe(st.wm, n))
	st.wm = n
}

func (e *Engine) tlistEnv(fn *ssa.Function, tl *types.TypeList) tenv {
	env := tenv{}
	tps := fn.TypeParams()
	if tps == nil || tl == nil {
		return env
	}
	for i := 0; i < tps.Len() && i < tl.Len(); i++ {
		env[tps.At(i)] = tl.At(i)
	}
	return env
}

func (e *Engine) runModel(fr *Frame, st *State, m *Contract, tl *types.TypeList, args []Val, site ssa.Instruction) []Outcome {
	e.usedModel[m.name]++
	return e.callFn(m.fn, e.tlistEnv(m.fn, tl), e.adaptArgs(m.fn, args), nil, st, fr, nil, false)
}

func (e *Engine) adaptArgs(fn *ssa.Function, args []Val) []Val {
	if len(args) > len(fn.Params) {
		return args[:len(fn.Params)]
	}
	return args
}

// dynCall resolves an interface method call.
func (e *Engine) dynCall(fr *Frame, st *State, recv Val, it types.Type, m *types.Func, args []Val, site ssa.Instruction) []Outcome {
	switch r := recv.(type) {
	case *IfaceV:
		return e.methodCall(fr, st, r.typ, r.val, m, args, site)
	case *PtrV, *StructV, *SliceV:
		return e.methodCall(fr, st, it, recv, m, args, site)
	case *Term:
		if r.op == "ite" && r.sort == SInt {
			a, okA := e.decodeIface(r.args[1])
			b, okB := e.decodeIface(r.args[2])
			if okA || okB {
				s2 := st.clone()
				st.add(r.args[0], true, "iface-choice:T")
				s2.add(mkNot(r.args[0]), true, "iface-choice:F")
				var outs []Outcome
				if !st.dead {
					outs = append(outs, e.dynCall(fr, st, a, it, m, args, site)...)
				}
				if !s2.dead {
					outs = append(outs, e.dynCall(fr, s2, b, it, m, args, site)...)
				}
				return outs
			}
		}
		if d, ok := e.decodeIface(r); ok {
			return e.dynCall(fr, st, d, it, m, args, site)
		}
		if isInt(r) && r.ival.Sign() == 0 {
			e.panicPath(fr, st, "nil interface method call", site.Pos())
			return nil
		}
		e.check(fr, st, mkNot(mkEq(r, mkInt(0))), "nil interface method call", site.Pos())
		if st.dead {
			return nil
		}
		if isTypeParam(it) {
			break
		}
		names := []string{}
		var tl *types.TypeList
		if n, ok := types.Unalias(it).(*types.Named); ok {
			names = append(names, "("+e.typeName(n)+")."+m.Name())
			tl = n.TypeArgs()
		}
		if rv := m.Type().(*types.Signature).Recv(); rv != nil {
			if n, ok := types.Unalias(rv.Type()).(*types.Named); ok {
				names = append(names, "("+e.typeName(n)+")."+m.Name())
				if tl == nil || tl.Len() == 0 {
					tl = n.TypeArgs()
				}
			}
		}
		for _, n := range names {
			if md, ok := e.models[n]; ok {
				return e.runModel(fr, st, md, tl, append([]Val{r}, args...), site)
			}
			if nf, ok := natives[n]; ok {
				return nf(e, &nativeCall{fr: fr, st: st, args: append([]Val{r}, args...), site: site, sig: m.Type().(*types.Signature), name: n})
			}
		}
		nm := m.Name()
		if len(names) > 0 {
			nm = names[len(names)-1]
		}
		e.unknown[nm]++
		return e.unknownResult(fr, st, m.Type().(*types.Signature), "ext_"+m.Name())
	}
	panic(unsupported("interface call on %T", recv))
}

func (e *Engine) decodeIface(t *Term) (Val, bool) {
	if d, ok := e.decode[t]; ok {
		if _, ok := d.(*IfaceV); ok {
			return d, true
		}
	}
	if d, ok := e.decodeI[t]; ok {
		return d, true
	}
	return t, false
}

// methodCall calls a method on a value of known concrete type, following promotion.
func (e *Engine) methodCall(fr *Frame, st *State, t types.Type, recv Val, m *types.Func, args []Val, site ssa.Instruction) []Outcome {
	if isTypeParam(t) {
		e.unknown["method "+m.Name()+" on type parameter"]++
		return e.unknownResult(fr, st, m.Type().(*types.Signature), "tp_"+m.Name())
	}
	obj, index, _ := types.LookupFieldOrMethod(t, true, m.Pkg(), m.Name())
	f, ok := obj.(*types.Func)
	if !ok {
		panic(unsupported("no method %s on %s", m.Name(), t))
	}
	cur, ct := recv, t
	for _, ix := range index[:len(index)-1] {
		switch c := cur.(type) {
		case *PtrV:
			pt := under(ct).(*types.Pointer).Elem()
			n := *c
			n.path = append(append([]int{}, c.path...), ix)
			ft := under(pt).(*types.Struct).Field(ix).Type()
			// keep an address when the embedded field is a struct, else load it
			if _, isS := under(ft).(*types.Struct); isS {
				cur, ct = &n, types.NewPointer(ft)
			} else {
				cur, ct = e.load(st, &n), ft
			}
		case *StructV:
			ft := under(ct).(*types.Struct).Field(ix).Type()
			cur, ct = c.f[ix], ft
		default:
			panic(unsupported("promotion through %T", cur))
		}
	}
	rt := f.Type().(*types.Signature).Recv().Type()
	if _, isI := under(rt).(*types.Interface); isI {
		return e.dynCall(fr, st, cur, ct, f, args, site)
	}
	// pointer/value receiver adaptation
	_, wantPtr := under(rt).(*types.Pointer)
	_, havePtr := under(ct).(*types.Pointer)
	if !wantPtr && havePtr {
		cur = e.load(st, cur.(*PtrV))
		ct = under(ct).(*types.Pointer).Elem()
	} else if wantPtr && !havePtr {
		panic(unsupported("pointer method on value %s", t))
	}
	of := f.Origin()
	fn := e.prog.FuncValue(of)
	env := tenv{}
	nt := ct
	if p, ok := under(nt).(*types.Pointer); ok {
		nt = p.Elem()
	}
	if fn == nil {
		// function outside the loaded program
		return e.external(fr, st, e.extMethodName(f), f.Type().(*types.Signature), append([]Val{cur}, args...), site)
	}
	if n, ok := types.Unalias(nt).(*types.Named); ok {
		env = e.tlistEnv(fn, n.TypeArgs())
	}
	return e.callClosure(fr, st, &CloV{fn: fn, env: env}, append([]Val{cur}, args...), site)
}

func (e *Engine) extMethodName(f *types.Func) string {
	rt := f.Type().(*types.Signature).Recv().Type()
	return "(" + stripArgs(typeKey(rt)) + ")." + f.Name()
}

func isIntrinsic(name string) bool {
	i := strings.LastIndex(name, ".")
	n := name[i+1:]
	return len(n) > 1 && n[0] == 'v' && unicode.IsUpper(rune(n[1]))
}

func (e *Engine) callClosure(fr *Frame, st *State, clo *CloV, args []Val, site ssa.Instruction) []Outcome {
	fn := clo.fn
	name := fnName(fn)
	if e.ufs[name] {
		return one(st, e.applyUF(st, fn, clo.env, args))
	}
	spec := e.isSpec(fn)
	if spec && fn.Parent() == nil && isIntrinsic(name) {
		return e.intrinsic(fr, st, fn, clo.env, name[strings.LastIndex(name, ".")+1:], args, site)
	}
	if !spec {
		if c, ok := e.contracts[name]; ok && c.status == "" {
			return e.useContract(fr, st, c, fn, clo.env, args, site)
		}
		if m, ok := e.models[name]; ok {
			e.usedModel[name]++
			env := tenv{}
			mt, ft := m.fn.TypeParams(), fn.TypeParams()
			for i := 0; mt != nil && ft != nil && i < mt.Len() && i < ft.Len(); i++ {
				env[mt.At(i)] = e.subst(ft.At(i), clo.env)
			}
			return e.callFn(m.fn, env, e.adaptArgs(m.fn, args), nil, st, fr, nil, false)
		}
		if nf, ok := natives[name]; ok {
			return nf(e, &nativeCall{fr: fr, st: st, args: args, site: site, sig: fn.Signature, name: name, env: clo.env, fn: fn})
		}
	}
	inline := fn.Blocks != nil && (spec || fn.Parent() != nil || fn.Synthetic != "" || fn.Pkg != nil && e.inRepo(fn.Pkg.Pkg))
	if inline {
		if !spec {
			e.inlined[name]++
		}
		return e.callFn(fn, clo.env, args, clo.binds, st, fr, nil, false)
	}
	return e.external(&Frame{fn: fr.fn, env: clo.env, parent: fr, cc: nil, pure: fr.pure, info: fr.info}, st, name, fn.Signature, args, site)
}

func (e *Engine) external(fr *Frame, st *State, name string, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	if m, ok := e.models[name]; ok {
		e.usedModel[name]++
		return e.callFn(m.fn, tenv{}, e.adaptArgs(m.fn, args), nil, st, fr, nil, false)
	}
	if nf, ok := natives[name]; ok {
		return nf(e, &nativeCall{fr: fr, st: st, args: args, site: site, sig: sig, name: name})
	}
	e.unknown[name]++
	return e.unknownResult(fr, st, sig, "ext")
}

func ufNameOf(name string, env tenv, fn *ssa.Function) string {
	s := strings.ReplaceAll(name, "/", "_")
	if tps := fn.TypeParams(); tps != nil {
		for i := 0; i < tps.Len(); i++ {
			if t, ok := env[tps.At(i)]; ok {
				s += "_" + typeKey(t)
			} else {
				s += "_" + typeKey(tps.At(i))
			}
		}
	}
	return "uf_" + sanitize(s)
}

func (e *Engine) applyUF(st *State, fn *ssa.Function, env tenv, args []Val) Val {
	name := ufNameOf(fnName(fn), env, fn)
	var ts []*Term
	for i, p := range fn.Params {
		pt := e.subst(p.Type(), env)
		if iv, ok := args[i].(*IfaceV); ok {
			// identity of the boxed value
			ts = append(ts, e.flatten(iv, pt)...)
			continue
		}
		ts = append(ts, e.flatten(args[i], pt)...)
	}
	rt := e.subst(fn.Signature.Results().At(0).Type(), env)
	ls := e.leaves(rt)
	var rs []*Term
	for i, l := range ls {
		n := name
		if len(ls) > 1 {
			n = fmt.Sprintf("%s_%d", name, i)
		}
		r := mkUF(n, l.sort, ts...)
		if !r.hasBV {
			e.noteLoad(st, r, l)
		}
		rs = append(rs, r)
	}
	v := e.unflatten(rt, rs)
	e.wellFormed(st, v, rt, st.wm)
	return v
}

// ---- contracts at call sites ----

func (e *Engine) useContract(fr *Frame, st *State, c *Contract, target *ssa.Function, env tenv, args []Val, site ssa.Instruction) []Outcome {
	e.usedCtr[c.name]++
	cenv := tenv{}
	ct, ft := c.fn.TypeParams(), target.TypeParams()
	for i := 0; ct != nil && ft != nil && i < ct.Len() && i < ft.Len(); i++ {
		cenv[ct.At(i)] = e.subst(ft.At(i), env)
	}
	p := ""
	if site != nil {
		p = e.pos(site.Pos())
	}
	cc := &ContractCtx{c: c, target: target, env: env, args: args, use: true, site: p}
	return e.callFn(c.fn, cenv, args, nil, st, fr, cc, false)
}

// body implements vBody.
func (e *Engine) body(fr *Frame, st *State, rts []types.Type, site ssa.Instruction) []Outcome {
	cc := fr.cc
	if cc == nil {
		panic(unsupported("vBody outside a contract function"))
	}
	cc.bodyRun = true
	var args []Val
	for _, p := range fr.fn.Params {
		args = append(args, st.regs[p])
	}
	if !cc.use {
		entry := map[string]*Term{}
		for k, v := range st.comps {
			entry[k] = v
		}
		cc.entryWM = st.wm
		cc.inBody++
		tenvv := tenv{}
		ct, ft := fr.fn.TypeParams(), cc.target.TypeParams()
		for i := 0; ct != nil && ft != nil && i < ct.Len() && i < ft.Len(); i++ {
			tenvv[ft.At(i)] = e.subst(ct.At(i), fr.env)
		}
		outs := e.callFn(cc.target, tenvv, args, nil, st, fr, nil, false)
		cc.inBody--
		for _, o := range outs {
			if !o.st.dead {
				e.frameCheck(fr, cc, entry, cc.entryWM, o.st)
			}
		}
		return outs
	}
	// use mode: havoc what may change, fresh results
	cc.entryWM = st.wm
	e.bumpWM(st)
	e.havocMods(st, cc.mods)
	var rets []Val
	for i, t := range rts {
		rets = append(rets, e.freshVal(st, t, fmt.Sprintf("r%d_%s", i, shortName(cc.c.name))))
	}
	return []Outcome{{st, rets}}
}

func shortName(s string) string {
	i := strings.LastIndex(s, ".")
	return s[i+1:]
}

func (e *Engine) havocMods(st *State, mods []modDecl) {
	for _, m := range mods {
		switch m.kind {
		case "slice":
			s := m.val.(*SliceV)
			et := under(m.typ).(*types.Slice).Elem()
			for _, l := range e.leaves(et) {
				n := memName(et, l)
				c := e.comp(st, n, arrSort(SInt, arrSort(SInt, l.sort)))
				e.setComp(st, n, mkStore(c, s.arr, refBelowElem(n, freshVar("hav", arrSort(SInt, l.sort)), st.wm)))
			}
		case "obj":
			p := m.val.(*PtrV)
			if p.kind == pkCell {
				st.cells[p.cell] = update(st.cells[p.cell], p.path, e.freshVal(st, m.typ, "hav"))
				continue
			}
			v := e.freshVal(st, m.typ, "hav")
			e.store(st, p, v)
		case "map":
			mt, ks, pn, vls := e.mapInfo(m.typ)
			_ = mt
			c := e.comp(st, pn, arrSort(SInt, arrSort(ks, SBool)))
			mm := m.val.(*Term)
			e.setComp(st, pn, mkStore(c, mm, freshVar("havp", arrSort(ks, SBool))))
			for _, l := range vls {
				n := mvName(pn, l)
				c := e.comp(st, n, arrSort(SInt, arrSort(ks, l.sort)))
				e.setComp(st, n, mkStore(c, mm, freshVar("havv", arrSort(ks, l.sort))))
			}
		case "ghost":
			e.earlyHavoc[m.name] = true
			for n, s := range e.compSorts {
				if n == "G:"+m.name || strings.HasPrefix(n, "G:"+m.name+"#") {
					st.comps[n] = freshVar("havg", s)
				}
			}
		case "ghostobj":
			e.earlyHavoc[m.name] = true
			for n, s := range e.compSorts {
				if n == "G:"+m.name || strings.HasPrefix(n, "G:"+m.name+"#") {
					c := e.comp(st, n, s)
					r := e.refOf(m.val)
					e.setComp(st, n, mkStore(c, r, freshVar("havg", elemSort(s))))
				}
			}
		case "mem":
			e.earlyMem[m.name] = true
			// every component of a memory kind at objects allocated before
			for n, s := range e.compSorts {
				if memMatch(n, m.name) {
					st.comps[n] = refBelow(n, freshVar("havm", s), st.wm)
				}
			}
		case "memfrom":
			e.earlyMem[m.name] = true
			// the same at objects allocated from a watermark on
			for _, n := range sortedKeys(e.compSorts) {
				if s := e.compSorts[n]; strings.HasPrefix(n, m.name) {
					old := e.comp(st, n, s)
					x := refBelow(n, freshVar("havm", s), st.wm)
					q := boundVar("r", SInt)
					sel := mk("select", "", elemSort(s), x, q)
					st.assume(mkForall([]*Term{q}, mkImp(mkLt(q, m.val.(*Term)), mkEq(sel, mkSelect(old, q))), []*Term{sel}))
					st.comps[n] = x
				}
			}
		}
	}
}

func (e *Engine) refOf(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *PtrV:
		return e.flatten(v, nil)[0]
	case *IfaceV:
		if p, ok := v.val.(*PtrV); ok {
			return e.flatten(p, nil)[0]
		}
		if t, ok := v.val.(*Term); ok && t.sort == SInt {
			return t // an integer used as index
		}
		return e.flatten(v, nil)[0]
	case *SliceV:
		return v.arr
	}
	panic(unsupported("reference of %T", v))
}

// frameCheck proves that nothing outside the declared frame changed.
func (e *Engine) frameCheck(fr *Frame, cc *ContractCtx, entry map[string]*Term, wm0 *Term, st *State) {
	for _, n := range sortedKeys(st.comps) {
		v := st.comps[n]
		old, ok := entry[n]
		if !ok {
			old = namedVar(n+"@init", v.sort)
		}
		if v == old || strings.HasPrefix(n, "RNG:") {
			continue
		}
		// declared?
		var allowed, from []*Term
		whole := false
		for _, m := range cc.mods {
			switch m.kind {
			case "slice":
				et := under(m.typ).(*types.Slice).Elem()
				for _, l := range e.leaves(et) {
					if memName(et, l) == n {
						allowed = append(allowed, m.val.(*SliceV).arr)
					}
				}
			case "obj":
				p := m.val.(*PtrV)
				if p.kind == pkObj {
					for _, l := range e.leaves(p.objType) {
						if objName(p.objType, l) == n {
							allowed = append(allowed, p.ref)
						}
					}
				} else if p.kind == pkElem {
					for _, l := range e.leaves(p.objType) {
						if memName(p.objType, l) == n {
							allowed = append(allowed, p.ref)
						}
					}
				} else if p.kind == pkGlobal && strings.HasPrefix(n, e.globName(p.glob)+"#") {
					whole = true
				}
			case "map":
				_, _, pn, vls := e.mapInfo(m.typ)
				if pn == n {
					allowed = append(allowed, m.val.(*Term))
				}
				for _, l := range vls {
					if mvName(pn, l) == n {
						allowed = append(allowed, m.val.(*Term))
					}
				}
			case "ghost":
				if n == "G:"+m.name || strings.HasPrefix(n, "G:"+m.name+"#") {
					whole = true
				}
			case "ghostobj":
				if n == "G:"+m.name || strings.HasPrefix(n, "G:"+m.name+"#") {
					allowed = append(allowed, e.refOf(m.val))
				}
			case "mem":
				if memMatch(n, m.name) {
					whole = true
				}
			case "memfrom":
				if strings.HasPrefix(n, m.name) {
					from = append(from, m.val.(*Term))
				}
			}
		}
		if whole {
			continue
		}
		nm := "frame:" + n
		if strings.HasPrefix(n, "G:lk") {
			// locks are as they were
			nm = "lock:every lock is as it was on entry"
			if idx, ok := e.storeIdx(v, old); ok && !whole {
				seen := map[*Term]bool{}
				for _, i := range idx {
					if !seen[i] {
						seen[i] = true
						e.oblige(fr, st, nm, mkEq(mkSelect(v, i), mkSelect(old, i)), token.NoPos)
					}
				}
				continue
			}
		}
		if !strings.HasPrefix(string(v.sort), "(Array Int") {
			e.oblige(fr, st, nm, mkEq(v, old), token.NoPos)
			continue
		}
		// syntactic: walk the stores
		idx, okWalk := e.storeIdx(v, old)
		var goals []*Term
		if okWalk {
			seen := map[*Term]bool{}
			for _, i := range idx {
				if seen[i] {
					continue
				}
				seen[i] = true
				var alts []*Term
				if i.fresh {
					alts = append(alts, mkLe(wm0, i))
				} else {
					for _, a := range allowed {
						alts = append(alts, mkEq(a, i))
					}
					for _, a := range from {
						alts = append(alts, mkLe(a, i))
					}
					alts = append(alts, mkLe(wm0, i))
					if strings.HasPrefix(n, "M:") {
						alts = append(alts, mkEq(i, mkInt(0)))
					}
				}
				g := mkOr(alts...)
				if isInt(i) && i.ival.Sign() == 0 {
					continue // the nil slice or pointer has no memory
				}
				if i.fresh {
					continue // allocated during the body: at or above the entry watermark
				}
				goals = append(goals, g)
			}
			for _, g := range goals {
				e.oblige(fr, st, nm, g, token.NoPos)
			}
			continue
		}
		q := boundVar("r", SInt)
		var excl []*Term
		for _, a := range allowed {
			excl = append(excl, mkNot(mkEq(q, a)))
		}
		for _, a := range from {
			excl = append(excl, mkLt(q, a))
		}
		g := mkForall([]*Term{q}, mkImp(mkAnd(append(excl, mkLt(q, wm0), mkLe(mkInt(0), q))...), mkEq(mkSelect(v, q), mkSelect(old, q))))
		e.oblige(fr, st, nm, g, token.NoPos)
	}
}

// storeIdx lists the indexes written between old and v.
func (e *Engine) storeIdx(v, old *Term) ([]*Term, bool) {
	var idx []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	addIdx := func(i *Term) {
		var ri func(i *Term)
		ri = func(i *Term) {
			if i.op == "ite" {
				ri(i.args[1])
				ri(i.args[2])
				return
			}
			idx = append(idx, i)
		}
		ri(i)
	}
	rec = func(t *Term) bool {
		if t == old {
			return true
		}
		if seen[t] {
			return true
		}
		seen[t] = true
		switch t.op {
		case "store":
			addIdx(t.args[1])
			if old.op == "store" && t.args[0] == old.args[0] && t.args[1] == old.args[1] {
				return true // written over the last write
			}
			return rec(t.args[0])
		case "ite":
			return rec(t.args[1]) && rec(t.args[2])
		}
		if h, ok := e.havocInfo[t]; ok {
			for _, i := range h.idx {
				addIdx(i)
			}
			return rec(h.base)
		}
		return false
	}
	if !rec(v) {
		return nil, false
	}
	return idx, true
}

// ---- pure evaluation ----

func (e *Engine) evalPure(fr *Frame, st *State, clo *CloV, args []Val) *Term {
	s := st.clone()
	pf := &Frame{fn: fr.fn, env: fr.env, info: fr.info, parent: fr, depth: fr.depth, pure: true}
	// deferred calls never run in specifications
	e.dry++
	outs := e.callFn(clo.fn, clo.env, args, clo.binds, s, pf, nil, true)
	e.dry--
	// what evaluation learns about the values it reads (type invariants) holds here too
	for _, o := range outs {
		c, f := branchCond(o.st.pc, st.pc)
		if c.hasBV {
			continue
		}
		fs := []*Term{f}
		if f.op == "and" {
			fs = f.args
		}
		for _, x := range fs {
			if !x.hasBV {
				defer st.assume(mkImp(c, x))
			}
		}
	}
	var alts []*Term
	if len(outs) == 1 {
		return outs[0].ret[0].(*Term)
	}
	for _, o := range outs {
		c, _ := branchCond(o.st.pc, st.pc)
		alts = append(alts, mkAnd(c, o.ret[0].(*Term)))
	}
	return mkOr(alts...)
}

func cloOf(v Val) *CloV {
	switch v := v.(type) {
	case *CloV:
		return v
	case *IfaceV:
		return cloOf(v.val)
	}
	panic(unsupported("closure expected, got %T", v))
}

func strConstOf(v Val) string {
	t, ok := v.(*Term)
	if !ok || t.op != "str" {
		panic(unsupported("constant string expected"))
	}
	return t.name
}

func unboxI(v Val) (Val, types.Type) {
	if i, ok := v.(*IfaceV); ok {
		return i.val, i.typ
	}
	return v, nil
}

func (e *Engine) ghostRead(st *State, name string, t types.Type, ref *Term) Val {
	var ts []*Term
	ls := e.leaves(t)
	for _, l := range ls {
		n := "G:" + name
		if len(ls) > 1 {
			n += "#" + l.path
		}
		if ref == nil {
			x := e.comp(st, n, l.sort)
			e.noteLoad(st, x, l)
			ts = append(ts, x)
		} else {
			x := mkSelect(e.comp(st, n, arrSort(SInt, l.sort)), ref)
			if !x.hasBV {
				e.noteLoad(st, x, l)
			}
			ts = append(ts, x)
		}
	}
	v := e.unflatten(t, ts)
	e.wellFormed(st, v, t, st.wm)
	return v
}

func (e *Engine) ghostWrite(st *State, name string, t types.Type, ref *Term, v Val) {
	ls := e.leaves(t)
	if os.Getenv("GOVC_PANIC") == "2" {
		fmt.Fprintf(os.Stderr, "ghostWrite %s %T %v\n", name, v, t)
	}
	for i, x := range e.flatten(v, t) {
		n := "G:" + name
		if len(ls) > 1 {
			n += "#" + ls[i].path
		}
		if ref == nil {
			e.setComp(st, n, x)
		} else {
			c := e.comp(st, n, arrSort(SInt, ls[i].sort))
			e.setComp(st, n, mkStore(c, ref, x))
		}
	}
}

func (e *Engine) intrinsic(fr *Frame, st *State, fn *ssa.Function, env tenv, name string, args []Val, site ssa.Instruction) []Outcome {
	cc := curCC(fr)
	targ := func(i int) types.Type { return e.subst(fn.TypeParams().At(i), env) }
	b := func(i int) *Term { return args[i].(*Term) }
	pos := token.NoPos
	if site != nil {
		pos = site.Pos()
	}
	switch name {
	case "vRequires":
		if cc != nil && cc.use {
			e.oblige(fr, st, "requires:"+shortName(cc.c.name)+"/"+strConstOf(args[0])+"@"+e.siteFn(fr), b(1), pos)
		}
		st.assume(b(1))
		return one(st)
	case "vEnsures":
		if cc != nil && cc.use {
			st.assume(b(1))
			return one(st)
		}
		e.oblige(fr, st, strConstOf(args[0]), b(1), pos)
		return one(st)
	case "vAssert":
		e.oblige(fr, st, "assert:"+strConstOf(args[0]), b(1), pos)
		st.assume(b(1))
		return one(st)
	case "vCanary":
		if cc != nil && !cc.use && e.dry == 0 {
			e.obls = append(e.obls, &Obligation{contract: e.ctrName(e.cur), name: "canary:" + strConstOf(args[0]), facts: st.facts(), goal: tFalse, pos: e.pos(pos), canary: true})
		}
		return one(st)
	case "vAssume":
		if c := b(0); c.op == "false" || c == mkBool(false) {
			panic(unsupported("an assumption is literally false: every path through it would be silently dropped"))
		}
		st.assume(b(0))
		return one(st)
	case "vUnreachable":
		st.dead = true
		return nil
	case "vBody":
		return e.body(fr, st, nil, site)
	case "vBody1":
		return e.body(fr, st, []types.Type{targ(0)}, site)
	case "vBody2":
		return e.body(fr, st, []types.Type{targ(0), targ(1)}, site)
	case "vBody3":
		return e.body(fr, st, []types.Type{targ(0), targ(1), targ(2)}, site)
	case "vNoPanic":
		cc.nopanic = true
		return one(st)
	case "vPrune":
		if cc != nil && !cc.use {
			e.prune = true
		}
		return one(st)
	case "vUse":
		return one(st, mkBool(cc != nil && cc.use))
	case "vFresh":
		// an arbitrary value, possibly of memory allocated just now
		e.bumpWM(st)
		return one(st, e.freshVal(st, targ(0), "fresh"))
	case "vMapCopy":
		d, dt := unboxI(args[0])
		s, _ := unboxI(args[1])
		dm, sm := d.(*Term), s.(*Term)
		e.guardAccess(fr, st, dm, true, pos)
		e.guardAccess(fr, st, sm, false, pos)
		_, ks, pn, vls := e.mapInfo(dt)
		cp := e.comp(st, pn, arrSort(SInt, arrSort(ks, SBool)))
		dp, sp := mkSelect(cp, dm), mkSelect(cp, sm)
		q := boundVar("k", ks)
		np := freshVar("copied", arrSort(ks, SBool))
		st.assume(mkForall([]*Term{q}, mkEq(mkSelect(np, q), mkOr(mkSelect(dp, q), mkSelect(sp, q))), []*Term{mkSelect(np, q)}))
		for _, l := range vls {
			n := mvName(pn, l)
			cv := e.comp(st, n, arrSort(SInt, arrSort(ks, l.sort)))
			nv := freshVar("copiedv", arrSort(ks, l.sort))
			st.assume(mkForall([]*Term{q}, mkEq(mkSelect(nv, q), mkIte(mkSelect(sp, q), mkSelect(mkSelect(cv, sm), q), mkSelect(mkSelect(cv, dm), q))), []*Term{mkSelect(nv, q)}))
			e.setComp(st, n, mkStore(cv, dm, nv))
		}
		e.setComp(st, pn, mkStore(cp, dm, np))
		return one(st)
	case "vAny":
		return one(st, e.freshVal(st, targ(0), "any"))
	case "vForall", "vForall2", "vForall3":
		clo := cloOf(args[0])
		var bvs []*Term
		var vals []Val
		for _, p := range clo.fn.Params {
			pt := e.subst(p.Type(), clo.env)
			var ts []*Term
			for _, l := range e.leaves(pt) {
				v := boundVar(p.Name(), l.sort)
				if lo, hi, ok := typeRange(l.typ); ok && l.sort == SInt {
					_ = lo
					_ = hi
				}
				ts = append(ts, v)
				bvs = append(bvs, v)
			}
			vals = append(vals, e.unflatten(pt, ts))
		}
		body := e.evalPure(fr, st, clo, vals)
		var rng []*Term
		k := 0
		for _, p := range clo.fn.Params {
			for _, l := range e.leaves(e.subst(p.Type(), clo.env)) {
				if bits, _, ok := intInfo(l.typ); ok && l.sort == SInt && bits > 0 {
					lo, hi, _ := typeRange(l.typ)
					rng = append(rng, mkLe(mkBig(lo), bvs[k]), mkLe(bvs[k], mkBig(hi)))
				}
				k++
			}
		}
		return one(st, mkForall(bvs, mkImp(mkAnd(rng...), body)))
	case "vPure":
		return one(st, e.evalPure(fr, st, cloOf(args[0]), nil))
	case "vInv":
		if cc != nil && !cc.use {
			cc.invs = append(cc.invs, &invTemplate{name: strConstOf(args[0]), clo: cloOf(args[1])})
		}
		return one(st)
	case "vModSlice":
		v, t := unboxI(args[0])
		cc.mods = append(cc.mods, modDecl{kind: "slice", val: v, typ: t})
		return one(st)
	case "vModObj":
		v, t := unboxI(args[0])
		p, ok := v.(*PtrV)
		if !ok {
			panic(unsupported("vModObj of %T", v))
		}
		cc.mods = append(cc.mods, modDecl{kind: "obj", val: p, typ: under(t).(*types.Pointer).Elem()})
		return one(st)
	case "vModMap":
		v, t := unboxI(args[0])
		cc.mods = append(cc.mods, modDecl{kind: "map", val: v, typ: t})
		return one(st)
	case "vModGhost":
		cc.mods = append(cc.mods, modDecl{kind: "ghost", name: strConstOf(args[0])})
		return one(st)
	case "vModMem":
		cc.mods = append(cc.mods, modDecl{kind: "mem", name: strConstOf(args[0])})
		return one(st)
	case "vForget":
		cc.mods = append(cc.mods, modDecl{kind: "mem", name: strConstOf(args[0])})
		cc.forget = append(cc.forget, strConstOf(args[0]))
		return one(st)
	case "vModMemFrom":
		cc.mods = append(cc.mods, modDecl{kind: "memfrom", name: strConstOf(args[0]), val: args[1]})
		return one(st)
	case "vModGhostObj":
		cc.mods = append(cc.mods, modDecl{kind: "ghostobj", name: strConstOf(args[0]), val: args[1]})
		return one(st)
	case "vGet":
		return one(st, e.ghostRead(st, strConstOf(args[0]), targ(0), nil))
	case "vSet":
		e.ghostWrite(st, strConstOf(args[0]), targ(0), nil, args[1])
		return one(st)
	case "vObjGet":
		return one(st, e.ghostRead(st, strConstOf(args[0]), targ(0), e.refOf(args[1])))
	case "vObjSet":
		e.ghostWrite(st, strConstOf(args[0]), targ(0), e.refOf(args[1]), args[2])
		return one(st)
	case "vNew":
		t := targ(0)
		ls := e.leaves(t)
		if len(ls) == 0 || ls[0].sort != SInt {
			panic(unsupported("vNew of %v", t))
		}
		ts := []*Term{e.alloc(st, "obj")}
		for _, l := range ls[1:] {
			ts = append(ts, freshVar("obj"+l.path, l.sort))
		}
		st.assume(mkNot(mkEq(ts[0], mkInt(0))))
		return one(st, e.unflatten(t, ts))
	case "vRef":
		return one(st, e.refOf(args[0]))
	case "vArr":
		v, _ := unboxI(args[0])
		return one(st, v.(*SliceV).arr)
	case "vOff":
		v, _ := unboxI(args[0])
		return one(st, v.(*SliceV).off)
	case "vWM":
		return one(st, st.wm)
	case "vEntryWM":
		if cc.entryWM == nil {
			return one(st, st.wm)
		}
		return one(st, cc.entryWM)
	case "vAppend":
		return one(st, e.appendString(st, args[0].(*SliceV), b(1)))
	case "vBytesOf":
		return one(st, e.newBytes(st, b(0)))
	case "vStoreInto":
		// copy string into the slice window (lengths equal)
		s := args[0].(*SliceV)
		n := memName(types.Typ[types.Byte], leaf{})
		m := e.comp(st, n, arrSort(SInt, arrSort(SInt, SInt)))
		e.setComp(st, n, mkStore(m, s.arr, mkUF("copyB", arrSort(SInt, SInt), mkSelect(m, s.arr), s.off, b(1))))
		return one(st)
	case "vHold":
		// the slice parameter holds the given bytes on entry
		v, _ := unboxI(args[0])
		s := v.(*SliceV)
		if cc != nil && cc.use {
			g := mkEq(e.content(st, s), b(1))
			e.oblige(fr, st, "requires:"+shortName(cc.c.name)+"/content of an argument@"+e.siteFn(fr), g, pos)
			st.assume(g)
			return one(st)
		}
		if cc == nil || cc.bodyRun || cc.inBody > 0 {
			panic(unsupported("vHold after the body"))
		}
		n := mkUF("blen", SInt, b(1))
		ns := &SliceV{s.arr, s.off, n, s.cap}
		st.assume(mkEq(s.len, n))
		st.assume(mkLe(n, s.cap))
		st.assume(mkOr(mkLt(mkInt(0), s.arr), mkEq(n, mkInt(0))))
		nm := memName(types.Typ[types.Byte], leaf{})
		m := e.comp(st, nm, arrSort(SInt, arrSort(SInt, SInt)))
		e.setComp(st, nm, mkStore(m, s.arr, mkUF("copyB", arrSort(SInt, SInt), mkSelect(m, s.arr), s.off, b(1))))
		hit := false
		for k, r := range st.regs {
			if r == Val(s) {
				if _, ok := k.(*ssa.Parameter); ok {
					st.regs[k] = ns
					hit = true
				}
			}
		}
		if !hit {
			panic(unsupported("vHold of something that is no parameter"))
		}
		return one(st)
	case "vBind":
		f, _ := unboxI(args[0])
		if t, ok := f.(*Term); ok {
			st.binds[t] = cloOf(args[1])
		}
		return one(st)
	case "vVisited":
		m, mt := unboxI(args[0])
		_, ks, pn, _ := e.mapInfo(mt)
		k, _ := unboxI(args[1])
		return one(st, mkSelect(mkSelect(e.comp(st, "RNG:"+pn[3:], arrSort(SInt, arrSort(ks, SBool))), m.(*Term)), k.(*Term)))
	case "vHas":
		m, mt := unboxI(args[0])
		k, _ := unboxI(args[1])
		return one(st, mkSelect(e.mapPresent(st, mt, m.(*Term)), k.(*Term)))
	case "vIsNilMap":
		m, _ := unboxI(args[0])
		return one(st, mkEq(m.(*Term), mkInt(0)))
	case "vLockState":
		return one(st, e.lockRead(st, args[0]))
	case "vLockSet":
		e.lockWrite(st, args[0], b(1))
		return one(st)
	case "vLockDiscipline":
		if cc != nil && cc.use {
			return one(st)
		}
		st.comps["G:lockdisc"] = tTrue
		e.compSorts["G:lockdisc"] = SBool
		return one(st)
	case "vOnLock", "vOnUnlock":
		if cc != nil && !cc.use {
			e.lockHooks = append(e.lockHooks, lockHook{kind: strings.ToLower(name[3:]), lock: args[0], clo: cloOf(args[1]), fr: fr})
		}
		return one(st)
	case "vGuardMap":
		m, _ := unboxI(args[0])
		e.guards = append(e.guards, guardDecl{m: m.(*Term), lock: args[1]})
		return one(st)
	case "vSwap":
		v, t := unboxI(args[0])
		s := v.(*SliceV)
		et := under(t).(*types.Slice).Elem()
		p1 := &PtrV{kind: pkElem, ref: s.arr, idx: mkAdd(s.off, b(1)), objType: et}
		p2 := &PtrV{kind: pkElem, ref: s.arr, idx: mkAdd(s.off, b(2)), objType: et}
		a, c := e.load(st, p1), e.load(st, p2)
		e.store(st, p1, c)
		e.store(st, p2, a)
		return one(st)
	case "vSliceLen":
		v, _ := unboxI(args[0])
		return one(st, v.(*SliceV).len)
	case "vDecodeInto":
		// *p = rowOf(data, *p)
		v, t := unboxI(args[0])
		if iv, ok := v.(*IfaceV); ok {
			v, t = iv.val, iv.typ
		}
		p, ok := v.(*PtrV)
		if !ok {
			panic(unsupported("vDecodeInto %T", v))
		}
		et := under(t).(*types.Pointer).Elem()
		old := e.load(st, p)
		ls := e.leaves(et)
		var rs []*Term
		ots := e.flatten(old, et)
		for i, l := range ls {
			n := "rowOf_" + sanitize(typeKey(et))
			if len(ls) > 1 {
				n = fmt.Sprintf("%s_%d", n, i)
			}
			rs = append(rs, mkUF(n, l.sort, append([]*Term{b(1)}, ots...)...))
		}
		e.store(st, p, e.unflatten(et, rs))
		return one(st)
	case "vRowOf":
		et := targ(0)
		ls := e.leaves(et)
		var rs []*Term
		var ots []*Term
		for _, l := range ls {
			ots = append(ots, e.zeroLeaf(l))
		}
		for i, l := range ls {
			n := "rowOf_" + sanitize(typeKey(et))
			if len(ls) > 1 {
				n = fmt.Sprintf("%s_%d", n, i)
			}
			rs = append(rs, mkUF(n, l.sort, append([]*Term{b(0)}, ots...)...))
		}
		return one(st, e.unflatten(et, rs))
	case "vDerefRow":
		// load the pointee of an any holding *E, as the opaque row of type targ(0)
		v, t := unboxI(args[0])
		if iv, ok := v.(*IfaceV); ok {
			v, t = iv.val, iv.typ
		}
		p, ok := v.(*PtrV)
		if !ok {
			panic(unsupported("vSerOf %T", v))
		}
		et := under(t).(*types.Pointer).Elem()
		old := e.load(st, p)
		return one(st, mkUF("serOf_"+sanitize(typeKey(et)), SBytes, e.flatten(old, et)...))
	case "vSerOf":
		et := targ(0)
		return one(st, mkUF("serOf_"+sanitize(typeKey(et)), SBytes, e.flatten(args[0], et)...))
	case "vBigVal":
		return one(st, e.bigVal(st, e.refOf(args[0])))
	case "vBigSet":
		e.bigSet(st, e.refOf(args[0]), b(1))
		return one(st)
	case "vBigBytes":
		return one(st, mkUF("bebig", SBytes, b(0), b(1)))
	case "vComplement":
		return one(st, mkUF("bcmpl", SBytes, b(0)))
	case "vPow256":
		return one(st, mkUF("pow256", SInt, b(0)))
	case "vEq":
		x, xt := unboxI(args[0])
		y, yt := unboxI(args[1])
		if (xt == nil) != (yt == nil) {
			return one(st, e.eqVals(args[0], args[1], xt))
		}
		if sx, ok := x.(*SliceV); ok {
			if sy, ok := y.(*SliceV); ok {
				return one(st, mkAnd(mkEq(sx.arr, sy.arr), mkEq(sx.off, sy.off), mkEq(sx.len, sy.len), mkEq(sx.cap, sy.cap)))
			}
		}
		return one(st, e.eqVals(x, y, xt))
	case "vSameRef":
		return one(st, mkEq(e.refOf(args[0]), e.refOf(args[1])))
	case "vIsNil":
		v := args[0]
		if iv, ok := v.(*IfaceV); ok {
			v = iv.val
		}
		switch v := v.(type) {
		case *Term:
			return one(st, mkEq(v, mkInt(0)))
		case *PtrV:
			if v.kind == pkObj {
				return one(st, mkEq(v.ref, mkInt(0)))
			}
			return one(st, tFalse)
		case *CloV:
			return one(st, tFalse)
		case *SliceV:
			return one(st, mkEq(v.arr, mkInt(0)))
		}
		panic(unsupported("vIsNil %T", v))
	case "vBe16":
		return one(st, beString(2, b(0)))
	case "vBe32":
		return one(st, beString(4, b(0)))
	case "vBe64":
		return one(st, beString(8, b(0)))
	case "vImp":
		return one(st, mkImp(b(0), b(1)))
	case "vIte":
		v, ok := e.mergeVal(b(0), args[1], args[2], false)
		if !ok {
			panic(unsupported("vIte"))
		}
		return one(st, v)
	case "vStrAt":
		return one(st, mkUF("bat", SInt, b(0), b(1)))
	case "vFreshErr":
		return one(st, e.freshErr(st))
	case "vSkolem":
		// an arbitrary but fixed value
		var ts []*Term
		for _, l := range e.leaves(targ(0)) {
			v := namedVar("sk_"+strConstOf(args[0])+l.path, l.sort)
			e.noteLoad(st, v, l)
			ts = append(ts, v)
		}
		v := e.unflatten(targ(0), ts)
		e.wellFormed(st, v, targ(0), st.wm)
		return one(st, v)
	case "vMapGet":
		m, mt := unboxI(args[0])
		k, _ := unboxI(args[1])
		ts := e.mapValTerms(st, mt, m.(*Term), k.(*Term))
		return one(st, e.unflatten(under(mt).(*types.Map).Elem(), ts))
	}
	panic(unsupported("unknown intrinsic %s", name))
}

func (e *Engine) siteFn(fr *Frame) string {
	for f := fr; f != nil; f = f.parent {
		if f.cc != nil && f.cc.use {
			if f.parent != nil {
				return fnName(f.parent.fn) + "(" + f.cc.site + ")"
			}
		}
	}
	return ""
}

// ---- builtins ----

func (e *Engine) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val) Val {
	argT := func(i int) types.Type { return e.typ(fr, c.Args[i].Type()) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *SliceV:
			return x.len
		case *PtrV:
			return mkInt(under(under(argT(0)).(*types.Pointer).Elem()).(*types.Array).Len())
		case *Term:
			if x.sort == SBytes {
				return mkUF("blen", SInt, x)
			}
			if m, ok := under(argT(0)).(*types.Map); ok {
				_ = m
				p := e.mapPresent(st, argT(0), x)
				r := mkUF("maplen_"+sanitize(string(p.sort)), SInt, p)
				st.assume(mkLe(mkInt(0), r))
				return r
			}
			if a, ok := under(argT(0)).(*types.Array); ok {
				return mkInt(a.Len())
			}
			r := freshVar("len", SInt)
			st.assume(mkLe(mkInt(0), r))
			return r
		}
	case "cap":
		if s, ok := args[0].(*SliceV); ok {
			return s.cap
		}
	case "append":
		s := args[0].(*SliceV)
		et := under(argT(0)).(*types.Slice).Elem()
		switch t := args[1].(type) {
		case *SliceV:
			return e.appendVal(st, et, s, t)
		case *Term:
			if t.sort == SBytes {
				return e.appendString(st, s, t)
			}
		}
	case "copy":
		d := args[0].(*SliceV)
		switch s := args[1].(type) {
		case *SliceV:
			return e.copyInto(st, under(argT(0)).(*types.Slice).Elem(), d, s)
		case *Term:
			n := mkUF("blen", SInt, s)
			x := s
			nn := mkIte(mkLe(d.len, n), d.len, n)
			if nn != n {
				x = mkUF("bsub", SBytes, s, mkInt(0), nn)
			}
			nm := memName(types.Typ[types.Byte], leaf{})
			m := e.comp(st, nm, arrSort(SInt, arrSort(SInt, SInt)))
			e.setComp(st, nm, mkStore(m, d.arr, mkUF("copyB", arrSort(SInt, SInt), mkSelect(m, d.arr), d.off, x)))
			return nn
		}
	case "delete":
		m := args[0].(*Term)
		k := e.flatten(args[1], argT(1))[0]
		e.guardCheck(fr, st, m, true, c.Pos())
		e.mapDelete(st, argT(0), m, k)
		return nil
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			x := a.(*Term)
			if b.Name() == "min" {
				r = mkIte(mkLe(r, x), r, x)
			} else {
				r = mkIte(mkLe(x, r), r, x)
			}
		}
		return r
	case "print", "println", "close":
		return nil
	case "recover":
		return mkInt(0)
	case "ssa:wrapnilchk":
		return args[0]
	}
	panic(unsupported("builtin %s on %T", b.Name(), args[0]))
}

func constInt(c constant.Value) int64 { v, _ := constant.Int64Val(c); return v }

// ---- locks ----

type guardDecl struct {
	m    *Term
	lock Val
}

type lockHook struct {
	kind string
	lock Val
	clo  *CloV
	fr   *Frame
}

// runLockHooks runs the specification attached to acquiring or releasing a lock
// (interference of other holders, invariant of the guarded state).
func (e *Engine) runLockHooks(c *nativeCall, kind string) *State {
	st := c.st
	for _, h := range e.lockHooks {
		if h.kind != kind {
			continue
		}
		n1, r1 := e.lockKey(h.lock)
		n2, r2 := e.lockKey(c.args[0])
		if n1 != n2 || r1 != r2 {
			continue
		}
		outs := e.callFn(h.clo.fn, h.clo.env, nil, h.clo.binds, st, h.fr, nil, false)
		if len(outs) != 1 {
			panic(unsupported("lock hook forks"))
		}
		st = outs[0].st
	}
	return st
}

func (e *Engine) lockKey(p Val) (string, *Term) {
	q, ok := p.(*PtrV)
	if iv, isI := p.(*IfaceV); isI {
		q, ok = iv.val.(*PtrV)
	}
	if !ok {
		panic(unsupported("lock %T", p))
	}
	switch q.kind {
	case pkObj:
		return fmt.Sprintf("lk:%s.%v", e.typeName(q.objType), q.path), q.ref
	case pkElem:
		return fmt.Sprintf("lkE:%s.%v", e.typeName(q.objType), q.path), mkUF("lkelem", SInt, q.ref, q.idx)
	case pkCell:
		return fmt.Sprintf("lkc:%d.%v", q.cell, q.path), mkInt(0)
	case pkGlobal:
		return "lkg:" + e.globName(q.glob), mkInt(0)
	}
	panic(unsupported("lock pointer"))
}

func (e *Engine) lockRead(st *State, p Val) *Term {
	n, r := e.lockKey(p)
	return mkSelect(e.comp(st, "G:"+n, arrSort(SInt, SInt)), r)
}

func (e *Engine) lockWrite(st *State, p Val, v *Term) {
	n, r := e.lockKey(p)
	c := e.comp(st, "G:"+n, arrSort(SInt, SInt))
	e.setComp(st, "G:"+n, mkStore(c, r, v))
}

func (e *Engine) lockOp(fr *Frame, st *State, p Val, op string, pos token.Pos) {
	v := e.lockRead(st, p)
	disc := st.comps["G:lockdisc"] == tTrue
	ob := func(what string, g *Term) {
		if disc {
			e.oblige(fr, st, "lock:"+what, g, pos)
		}
		st.assume(g)
	}
	switch op {
	case "Lock":
		ob("no self-deadlock on Lock", mkEq(v, mkInt(0)))
		e.lockWrite(st, p, mkInt(1))
	case "Unlock":
		ob("Unlock of a lock held for writing", mkEq(v, mkInt(1)))
		e.lockWrite(st, p, mkInt(0))
	case "RLock":
		ob("no self-deadlock on RLock", mkEq(v, mkInt(0)))
		e.lockWrite(st, p, mkInt(2))
	case "RUnlock":
		ob("RUnlock of a lock held for reading", mkEq(v, mkInt(2)))
		e.lockWrite(st, p, mkInt(0))
	}
}

func (e *Engine) guardCheck(fr *Frame, st *State, m *Term, write bool, pos token.Pos) {
	if fr.pure || fr.spec {
		return
	}
	e.guardAccess(fr, st, m, write, pos)
}

func (e *Engine) guardAccess(fr *Frame, st *State, m *Term, write bool, pos token.Pos) {
	for _, g := range e.guards {
		same := mkEq(m, g.m)
		if same == tFalse {
			continue
		}
		l := e.lockRead(st, g.lock)
		ok := mkNot(mkEq(l, mkInt(0)))
		if write {
			ok = mkEq(l, mkInt(1))
		}
		e.oblige(fr, st, "guarded-by:map access under lock", mkImp(same, ok), pos)
	}
}
