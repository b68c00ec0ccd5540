package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bigInt = big.Int

type Outcome struct {
	st  *State
	ret []Val
}

type edgeState struct {
	pred *ssa.BasicBlock
	blk  *ssa.BasicBlock
	st   *State
}

// Frame is the static context of one function activation.
type Frame struct {
	fn     *ssa.Function
	env    tenv
	info   *fnInfo
	parent *Frame
	depth  int
	cc     *ContractCtx // set when fn is a contract function
	pure   bool         // evaluating a specification
	site   string
	spec   bool
	cur    ssa.Instruction // the instruction being executed
}

type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

func (e *Engine) fnInfoOf(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	i := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	// RPO
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for k := range post {
		i.rpo[post[len(post)-1-k]] = k
	}
	for _, b := range fn.Blocks {
		if !seen[b] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				body := i.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					i.loops[s] = body
				}
				var st []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if seen[p] && !body[p] {
							body[p] = true
							st = append(st, p)
						}
					}
				}
			} else if i.rpo[s] <= i.rpo[b] {
				panic(unsupported("irreducible control flow in %s", fn))
			}
		}
	}
	e.infos[fn] = i
	return i
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, e.repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// callFn runs a function body from st with the given arguments.
func (e *Engine) callFn(fn *ssa.Function, env tenv, args []Val, binds []Val, st *State, parent *Frame, cc *ContractCtx, pure bool) []Outcome {
	if fn.Blocks == nil {
		panic(unsupported("no body for %s", fn))
	}
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
	}
	if depth > 60 {
		panic(unsupported("call depth exceeded at %s", fn))
	}
	for p, n := parent, 0; p != nil; p = p.parent {
		if p.fn == fn {
			n++
			if n > 2 {
				panic(unsupported("recursive function %s needs a contract", fnName(fn)))
			}
		}
	}
	e.funcsSeen[fn]++
	fr := &Frame{fn: fn, env: env, info: e.fnInfoOf(fn), parent: parent, depth: depth, cc: cc, pure: pure, spec: e.isSpec(fn)}
	if parent != nil && parent.pure {
		fr.pure = true
	}
	savedRegs, savedDefers := st.regs, st.defers
	s := st.clone()
	s.regs = map[ssa.Value]Val{}
	s.defers = nil
	if len(args) != len(fn.Params) {
		panic(unsupported("arity mismatch calling %s: %d args for %d params", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		s.regs[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		s.regs[fv] = binds[i]
	}
	_, _, outs := e.runRegion(fr, nil, fn.Blocks[0], []edgeState{{nil, fn.Blocks[0], s}}, false)
	for i := range outs {
		// restore the caller's activation
		outs[i].st.regs = make(map[ssa.Value]Val, len(savedRegs)+1)
		for k, v := range savedRegs {
			outs[i].st.regs[k] = v
		}
		outs[i].st.defers = append([]*deferred{}, savedDefers...)
	}
	if len(outs) > 1 {
		outs = e.mergeOutcomes(outs, len(outs) > e.maxOuts || fr.pure)
	}
	return outs
}

func (e *Engine) mergeOutcomes(outs []Outcome, heavy bool) []Outcome {
	var res []Outcome
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		merged := false
		for i := range res {
			r := res[i]
			anc := commonPC(r.st.pc, o.st.pc)
			c, _ := branchCond(r.st.pc, anc)
			ret, ok := e.mergeVal(c, TupleV(r.ret), TupleV(o.ret), false)
			if !ok {
				continue
			}
			if !heavy && !e.mergeableRet(r.ret, o.ret) {
				continue
			}
			m := e.mergeStates(r.st, o.st, nil, heavy)
			if m == nil {
				continue
			}
			res[i] = Outcome{m, []Val(ret.(TupleV))}
			merged = true
			break
		}
		if !merged {
			res = append(res, o)
		}
	}
	return res
}

// mergeableRet avoids merging error with non-error results (callers branch on them).
func (e *Engine) mergeableRet(a, b []Val) bool {
	for i := range a {
		x, okx := a[i].(*Term)
		y, oky := b[i].(*Term)
		if okx != oky {
			return false
		}
		if okx && x != y && (isInt(x) || isInt(y)) && x.sort == SInt {
			// constants on one side: nil error or literal
			if (isInt(x) && x.ival.Sign() == 0) != (isInt(y) && y.ival.Sign() == 0) {
				return false
			}
		}
		if okx && x != y && x.sort == SBool && (x == tTrue || x == tFalse || y == tTrue || y == tFalse) {
			return false
		}
	}
	return true
}

// runRegion executes the blocks of a region in reverse post order.
func (e *Engine) runRegion(fr *Frame, region map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, init []edgeState, isLoop bool) (exits, back []edgeState, outs []Outcome) {
	pending := map[*ssa.BasicBlock][]edgeState{entry: init}
	first := true
	for len(pending) > 0 {
		var blk *ssa.BasicBlock
		for b := range pending {
			if blk == nil || fr.info.rpo[b] < fr.info.rpo[blk] {
				blk = b
			}
		}
		ins := pending[blk]
		delete(pending, blk)
		route := func(es edgeState) {
			if es.st.dead {
				return
			}
			switch {
			case isLoop && es.blk == entry:
				back = append(back, es)
			case region != nil && !region[es.blk]:
				exits = append(exits, es)
			default:
				pending[es.blk] = append(pending[es.blk], es)
			}
		}
		if body, ok := fr.info.loops[blk]; ok && !(isLoop && blk == entry && first) {
			ins = e.mergeEdges(fr, blk, ins, true)
			for _, in := range ins {
				ex, os := e.runLoop(fr, blk, body, in)
				outs = append(outs, os...)
				for _, x := range ex {
					route(x)
				}
			}
			continue
		}
		if isLoop && blk == entry {
			first = false
		}
		if len(ins) > 1 {
			ins = e.mergeEdges(fr, blk, ins, len(ins) > e.maxStates || fr.pure)
		}
		for _, in := range ins {
			succs, os := e.runBlock(fr, in)
			outs = append(outs, os...)
			for _, s := range succs {
				route(s)
			}
		}
	}
	return
}

// applyPhis evaluates the phis of blk for one incoming edge.
func (e *Engine) applyPhis(fr *Frame, es edgeState) *State {
	st := es.st
	if es.pred == nil {
		return st
	}
	idx := -1
	for i, p := range es.blk.Preds {
		if p == es.pred {
			idx = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range es.blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.val(fr, st, phi.Edges[idx]))
	}
	for i, p := range phis {
		st.regs[p] = vals[i]
	}
	return st
}

// mergeEdges applies phis and merges states arriving at a block.
func (e *Engine) mergeEdges(fr *Frame, blk *ssa.BasicBlock, ins []edgeState, heavy bool) []edgeState {
	var res []edgeState
	for _, in := range ins {
		if in.st.dead {
			continue
		}
		st := in.st
		if in.pred != nil {
			st = e.applyPhis(fr, in)
		}
		merged := false
		for i := range res {
			if e.noMerge && !heavy {
				break
			}
			if m := e.mergeStates(res[i].st, st, e.liveAt(fr, blk), heavy); m != nil {
				res[i].st = m
				merged = true
				break
			}
		}
		if !merged {
			res = append(res, edgeState{nil, blk, st})
		}
	}
	return res
}

// liveAt over-approximates the registers needed from blk on.
func (e *Engine) liveAt(fr *Frame, blk *ssa.BasicBlock) map[ssa.Value]bool {
	if m, ok := e.liveCache[blk]; ok {
		return m
	}
	m := map[ssa.Value]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					m[*op] = true
				}
			}
		}
		for _, s := range b.Succs {
			rec(s)
		}
	}
	rec(blk)
	for _, in := range blk.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			m[p] = true
		}
	}
	e.liveCache[blk] = m
	return m
}

// runBlock executes one block for one incoming edge.
func (e *Engine) runBlock(fr *Frame, in edgeState) (succs []edgeState, outs []Outcome) {
	st := in.st
	if in.pred != nil {
		st = e.applyPhis(fr, in)
	}
	states := []*State{st}
	blk := in.blk
	for _, instr := range blk.Instrs {
		if _, ok := instr.(*ssa.Phi); ok {
			continue
		}
		var next []*State
		for _, s := range states {
			if s.dead {
				continue
			}
			fr.cur = instr
			switch i := instr.(type) {
			case *ssa.If:
				c := e.val(fr, s, i.Cond).(*Term)
				e.fork(fr, s, c, blk, i, &succs)
			case *ssa.Jump:
				succs = append(succs, edgeState{blk, blk.Succs[0], s})
			case *ssa.Return:
				var rs []Val
				for _, r := range i.Results {
					rs = append(rs, e.val(fr, s, r))
				}
				outs = append(outs, Outcome{s, rs})
			case *ssa.Panic:
				e.panicPath(fr, s, "explicit panic", i.Pos())
			default:
				next = append(next, e.step(fr, s, instr)...)
			}
		}
		states = next
		if len(states) == 0 {
			break
		}
		if len(states) > 1 && (fr.pure || len(states) > e.maxStates) {
			states = e.mergeList(fr, blk, states)
		}
		e.steps++
		if e.steps > e.maxSteps {
			panic(unsupported("step budget exceeded in %s", fr.fn))
		}
	}
	return
}

func (e *Engine) mergeList(fr *Frame, blk *ssa.BasicBlock, states []*State) []*State {
	var res []*State
	for _, s := range states {
		if s.dead {
			continue
		}
		done := false
		for i := range res {
			if m := e.mergeStates(res[i], s, nil, true); m != nil {
				res[i] = m
				done = true
				break
			}
		}
		if !done {
			res = append(res, s)
		}
	}
	return res
}

func (e *Engine) fork(fr *Frame, s *State, c *Term, blk *ssa.BasicBlock, i *ssa.If, succs *[]edgeState) {
	pos := ""
	for k := len(blk.Instrs) - 1; k >= 0; k-- {
		if p := blk.Instrs[k].Pos(); p.IsValid() {
			pos = e.pos(p)
			break
		}
	}
	if c == tTrue || s.lits[c] {
		*succs = append(*succs, edgeState{blk, blk.Succs[0], s})
		return
	}
	if c == tFalse || s.lits[mkNot(c)] {
		*succs = append(*succs, edgeState{blk, blk.Succs[1], s})
		return
	}
	f := s.clone()
	s.add(c, true, pos+":T")
	f.add(mkNot(c), true, pos+":F")
	if !fr.pure && !c.hasBV && e.prune && (s.pc != nil && s.pc.depth > 3) {
		// cheap semantic pruning
		if e.infeasible(s) {
			s.dead = true
		} else if e.infeasible(f) {
			f.dead = true
		}
	}
	if !s.dead {
		*succs = append(*succs, edgeState{blk, blk.Succs[0], s})
	}
	if !f.dead {
		*succs = append(*succs, edgeState{blk, blk.Succs[1], f})
	}
}

// infeasible asks the solver (briefly) whether the quantifier-free path facts contradict.
func (e *Engine) infeasible(s *State) bool {
	var qf []*Term
	for _, t := range s.facts() {
		if !hasQuant(t, map[*Term]bool{}) {
			qf = append(qf, t)
		}
	}
	r := solve(buildProblem(qf, false), 1, 0)
	return r.status == "unsat"
}

func hasQuant(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == "forall" {
		return true
	}
	for _, a := range t.args {
		if hasQuant(a, seen) {
			return true
		}
	}
	return false
}

func (e *Engine) panicPath(fr *Frame, s *State, what string, pos token.Pos) {
	if !fr.spec && e.nopanic(fr) {
		e.oblige(fr, s, "no-panic:"+what, tFalse, pos)
	}
	s.dead = true
}

// check handles a run-time check: an obligation in no-panic mode, otherwise
// a path assumption (a panicking execution does not return).
func (e *Engine) check(fr *Frame, s *State, cond *Term, what string, pos token.Pos) {
	if cond == tTrue || fr.pure || fr.spec {
		return
	}
	if e.nopanic(fr) {
		e.oblige(fr, s, "no-panic:"+what, cond, pos)
	}
	s.assume(cond)
}

func (e *Engine) nopanic(fr *Frame) bool {
	for f := fr; f != nil; f = f.parent {
		if f.pure {
			return false
		}
		if f.cc != nil {
			if f.cc.use {
				return false
			}
			return f.cc.nopanic && f.cc.inBody > 0
		}
	}
	return false
}

// ---- values ----

func (e *Engine) typ(fr *Frame, t types.Type) types.Type { return e.subst(t, fr.env) }

func (e *Engine) constVal(c *ssa.Const, fr *Frame) Val {
	t := c.Type()
	if fr != nil {
		t = e.typ(fr, t)
	}
	if c.Value == nil {
		return e.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return namedVar("flt_"+c.Value.ExactString(), SFlt)
		}
		v, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			panic(unsupported("const %s", c))
		}
		return mkBig(v)
	case constant.Float:
		return namedVar("flt_"+c.Value.ExactString(), SFlt)
	}
	panic(unsupported("const %s", c))
}

func (e *Engine) val(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v, fr)
	case *ssa.Function:
		env := tenv(nil)
		fn := v
		if o := v.Origin(); o != nil {
			env = e.calleeEnv(fr, v)
			fn = o
		}
		k := fmt.Sprintf("%p", fn) + envKey(env)
		if c, ok := e.fnVals[k]; ok {
			return c
		}
		c := &CloV{fn: fn, env: env}
		e.fnVals[k] = c
		return c
	case *ssa.Global:
		return &PtrV{kind: pkGlobal, glob: v, objType: v.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return v
	}
	r, ok := st.regs[v]
	if !ok {
		panic(unsupported("undefined register %s in %s", v.Name(), fr.fn))
	}
	return r
}

func envKey(env tenv) string {
	var out []string
	for k, v := range env {
		out = append(out, fmt.Sprintf("%p=%s", k, typeKey(v)))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// calleeEnv maps the type parameters of a generic function's origin to the
// (substituted) type arguments of the instance.
func (e *Engine) calleeEnv(fr *Frame, inst *ssa.Function) tenv {
	o := inst.Origin()
	env := tenv{}
	tps := o.TypeParams()
	tas := inst.TypeArgs()
	for i := 0; i < tps.Len() && i < len(tas); i++ {
		env[tps.At(i)] = e.typ(fr, tas[i])
	}
	return env
}

func (e *Engine) term(fr *Frame, st *State, v ssa.Value) *Term {
	x := e.val(fr, st, v)
	if t, ok := x.(*Term); ok {
		return t
	}
	ts := e.flatten(x, e.typ(fr, v.Type()))
	if len(ts) != 1 {
		panic(unsupported("scalar expected for %s", v))
	}
	return ts[0]
}

// ---- one instruction ----

func (e *Engine) step(fr *Frame, st *State, instr ssa.Instruction) []*State {
	if os.Getenv("GOVC_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s: %s\n", fnName(fr.fn), instr)
	}
	one := []*State{st}
	switch i := instr.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		t := e.typ(fr, i.Type().Underlying().(*types.Pointer).Elem())
		st.regs[i] = e.doAlloc(st, t, i.Heap, i.Comment)
		return one
	case *ssa.BinOp:
		st.regs[i] = e.binop(fr, st, i)
		return one
	case *ssa.UnOp:
		return e.unop(fr, st, i)
	case *ssa.Call:
		return e.call(fr, st, i.Common(), i)
	case *ssa.Defer:
		d := &deferred{call: i.Common(), site: i}
		for _, a := range i.Call.Args {
			d.args = append(d.args, e.val(fr, st, a))
		}
		d.fn = e.val(fr, st, i.Call.Value)
		st.defers = append(st.defers, d)
		return one
	case *ssa.RunDefers:
		states := one
		for {
			var next []*State
			progress := false
			for _, s := range states {
				if len(s.defers) == 0 {
					next = append(next, s)
					continue
				}
				progress = true
				d := s.defers[len(s.defers)-1]
				s.defers = s.defers[:len(s.defers)-1]
				for _, o := range e.invoke(fr, s, d.call, d.fn, d.args, d.site) {
					next = append(next, o.st)
				}
			}
			states = next
			if !progress {
				return states
			}
		}
	case *ssa.ChangeInterface:
		st.regs[i] = e.val(fr, st, i.X)
		return one
	case *ssa.ChangeType:
		v := e.val(fr, st, i.X)
		// pointers keep their representation; retag the pointee type
		// a type parameter's value converted to an interface is boxed
		if xt := e.typ(fr, i.X.Type()); isTypeParam(i.X.Type()) && !isTypeParam(i.Type()) {
			if _, toI := under(e.typ(fr, i.Type())).(*types.Interface); toI {
				if _, isI := under(xt).(*types.Interface); !isI || isTypeParam(xt) {
					v = &IfaceV{xt, v}
				}
			}
		}
		st.regs[i] = v
		return one
	case *ssa.Convert:
		st.regs[i] = e.convert(fr, st, e.val(fr, st, i.X), e.typ(fr, i.X.Type()), e.typ(fr, i.Type()))
		return one
	case *ssa.MultiConvert:
		st.regs[i] = e.convert(fr, st, e.val(fr, st, i.X), e.typ(fr, i.X.Type()), e.typ(fr, i.Type()))
		return one
	case *ssa.Extract:
		v := e.val(fr, st, i.Tuple)
		st.regs[i] = v.(TupleV)[i.Index]
		return one
	case *ssa.Field:
		v := e.val(fr, st, i.X)
		st.regs[i] = navigate(v, []int{i.Field})
		return one
	case *ssa.FieldAddr:
		p, ok := e.val(fr, st, i.X).(*PtrV)
		if !ok {
			panic(unsupported("field address of %T", e.val(fr, st, i.X)))
		}
		if p.kind == pkObj && len(p.path) == 0 {
			e.check(fr, st, mkNot(mkEq(p.ref, mkInt(0))), "nil pointer dereference", i.Pos())
		}
		n := *p
		n.path = append(append([]int{}, p.path...), i.Field)
		st.regs[i] = &n
		return one
	case *ssa.IndexAddr:
		idx := e.term(fr, st, i.Index)
		switch b := e.val(fr, st, i.X).(type) {
		case *SliceV:
			et := under(e.typ(fr, i.X.Type())).(*types.Slice).Elem()
			e.check(fr, st, mkAnd(mkLe(mkInt(0), idx), mkLt(idx, b.len)), "index out of range", i.Pos())
			st.regs[i] = &PtrV{kind: pkElem, ref: b.arr, idx: mkAdd(b.off, idx), objType: et}
		case *PtrV:
			at := under(under(e.typ(fr, i.X.Type())).(*types.Pointer).Elem()).(*types.Array)
			e.check(fr, st, mkAnd(mkLe(mkInt(0), idx), mkLt(idx, mkInt(at.Len()))), "index out of range", i.Pos())
			if b.kind != pkArr {
				panic(unsupported("index into array inside another object (%s)", fr.fn))
			}
			st.regs[i] = &PtrV{kind: pkElem, ref: b.ref, idx: idx, objType: at.Elem()}
		default:
			panic(unsupported("IndexAddr of %T", b))
		}
		return one
	case *ssa.Index:
		idx := e.term(fr, st, i.Index)
		switch b := e.val(fr, st, i.X).(type) {
		case *Term:
			if b.sort == SBytes {
				e.check(fr, st, mkAnd(mkLe(mkInt(0), idx), mkLt(idx, mkUF("blen", SInt, b))), "index out of range", i.Pos())
				st.regs[i] = mkUF("bat", SInt, b, idx)
			} else {
				st.regs[i] = mkSelect(b, idx)
			}
		default:
			panic(unsupported("Index of %T", b))
		}
		return one
	case *ssa.Lookup:
		return e.lookup(fr, st, i)
	case *ssa.MakeClosure:
		c := &CloV{fn: i.Fn.(*ssa.Function), env: fr.env}
		if o := c.fn.Origin(); o != nil && o != c.fn {
			c.env = e.calleeEnv(fr, c.fn)
			c.fn = o
		}
		for _, b := range i.Bindings {
			c.binds = append(c.binds, e.val(fr, st, b))
		}
		st.regs[i] = c
		return one
	case *ssa.MakeInterface:
		t := e.typ(fr, i.X.Type())
		v := e.val(fr, st, i.X)
		if _, isI := under(t).(*types.Interface); isI && !isTypeParam(t) {
			st.regs[i] = v
		} else {
			st.regs[i] = &IfaceV{t, v}
		}
		return one
	case *ssa.MakeMap:
		st.regs[i] = e.makeMap(st, e.typ(fr, i.Type()))
		return one
	case *ssa.MakeSlice:
		n := e.term(fr, st, i.Len)
		c := e.term(fr, st, i.Cap)
		e.check(fr, st, mkAnd(mkLe(mkInt(0), n), mkLe(n, c)), "makeslice: len out of range", i.Pos())
		et := under(e.typ(fr, i.Type())).(*types.Slice).Elem()
		st.regs[i] = e.makeSlice(st, et, n, c)
		return one
	case *ssa.MapUpdate:
		m := e.term(fr, st, i.Map)
		e.guardCheck(fr, st, m, true, i.Pos())
		e.mapUpdate(st, e.typ(fr, i.Map.Type()), m, e.term(fr, st, i.Key), e.val(fr, st, i.Value))
		return one
	case *ssa.Range:
		return e.rangeStart(fr, st, i)
	case *ssa.Next:
		return e.rangeNext(fr, st, i)
	case *ssa.Select:
		return e.doSelect(fr, st, i)
	case *ssa.Slice:
		st.regs[i] = e.slice(fr, st, i)
		return one
	case *ssa.Store:
		p, ok := e.val(fr, st, i.Addr).(*PtrV)
		if !ok {
			panic(unsupported("store through %T", e.val(fr, st, i.Addr)))
		}
		e.store(st, p, e.val(fr, st, i.Val))
		return one
	case *ssa.TypeAssert:
		return e.typeAssert(fr, st, i)
	case *ssa.SliceToArrayPointer:
		s := e.val(fr, st, i.X).(*SliceV)
		st.regs[i] = &PtrV{kind: pkArr, ref: s.arr, objType: under(e.typ(fr, i.Type())).(*types.Pointer).Elem()}
		return one
	case *ssa.MakeChan:
		st.regs[i] = e.alloc(st, "chan")
		return one
	}
	panic(unsupported("instruction %T (%s) in %s", instr, instr, fr.fn))
}

func (e *Engine) doAlloc(st *State, t types.Type, heap bool, hint string) Val {
	if a, ok := under(t).(*types.Array); ok && !isTypeParam(t) {
		f := e.alloc(st, "arr_"+hint)
		for _, l := range e.leaves(a.Elem()) {
			n := memName(a.Elem(), l)
			c := e.comp(st, n, arrSort(SInt, arrSort(SInt, l.sort)))
			e.setComp(st, n, mkStore(c, f, mkConstArr(arrSort(SInt, l.sort), e.zeroLeaf(l))))
		}
		return &PtrV{kind: pkArr, ref: f, objType: t}
	}
	if _, ok := under(t).(*types.Struct); ok && heap && !isTypeParam(t) {
		f := e.alloc(st, "obj_"+hint)
		p := &PtrV{kind: pkObj, ref: f, objType: t}
		e.store(st, p, e.zero(t))
		return p
	}
	id := e.newCell(t, nil)
	e.cellNames[id] = hint
	st.cells[id] = e.zero(t)
	return &PtrV{kind: pkCell, cell: id, objType: t}
}

func (e *Engine) makeSlice(st *State, et types.Type, n, c *Term) *SliceV {
	f := e.alloc(st, "mk")
	for _, l := range e.leaves(et) {
		nm := memName(et, l)
		m := e.comp(st, nm, arrSort(SInt, arrSort(SInt, l.sort)))
		e.setComp(st, nm, mkStore(m, f, mkConstArr(arrSort(SInt, l.sort), e.zeroLeaf(l))))
	}
	st.assume(mkLe(mkInt(0), n))
	st.assume(mkLe(n, c))
	return &SliceV{f, mkInt(0), n, c}
}

func (e *Engine) slice(fr *Frame, st *State, i *ssa.Slice) Val {
	var lo, hi, mx *Term
	if i.Low != nil {
		lo = e.term(fr, st, i.Low)
	} else {
		lo = mkInt(0)
	}
	if i.High != nil {
		hi = e.term(fr, st, i.High)
	}
	if i.Max != nil {
		mx = e.term(fr, st, i.Max)
	}
	x := e.val(fr, st, i.X)
	switch b := x.(type) {
	case *SliceV:
		if hi == nil {
			hi = b.len
		}
		bound := b.cap
		if mx != nil {
			e.check(fr, st, mkLe(mx, b.cap), "slice bounds", i.Pos())
			bound = mx
		}
		e.check(fr, st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, bound)), "slice bounds out of range", i.Pos())
		return &SliceV{b.arr, mkAdd(b.off, lo), mkSub(hi, lo), mkSub(bound, lo)}
	case *PtrV:
		at, ok := under(b.objType).(*types.Array)
		if !ok || b.kind != pkArr {
			panic(unsupported("slice of %s in %s", b.objType, fr.fn))
		}
		n := mkInt(at.Len())
		if hi == nil {
			hi = n
		}
		bound := n
		if mx != nil {
			bound = mx
		}
		e.check(fr, st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, bound)), "slice bounds out of range", i.Pos())
		return &SliceV{b.ref, lo, mkSub(hi, lo), mkSub(bound, lo)}
	case *Term:
		if b.sort == SBytes {
			if hi == nil {
				hi = mkUF("blen", SInt, b)
			}
			e.check(fr, st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mkUF("blen", SInt, b))), "slice bounds out of range", i.Pos())
			return mkUF("bsub", SBytes, b, lo, hi)
		}
	}
	panic(unsupported("slice of %T", x))
}

// content gives the byte string held by a byte slice.
func (e *Engine) content(st *State, s *SliceV) *Term {
	bt := types.Typ[types.Byte]
	if isInt(s.len) && s.len.ival.Sign() == 0 {
		return mkStr("")
	}
	m := e.comp(st, memName(bt, leaf{}), arrSort(SInt, arrSort(SInt, SInt)))
	row := mkSelect(m, s.arr)
	if row.op == "uf" && row.name == "copyB" && row.args[1] == s.off && mkUF("blen", SInt, row.args[2]) == s.len {
		return row.args[2]
	}
	return mkUF("bytes", SBytes, row, s.off, s.len)
}

func memKind(t types.Type) types.Type {
	// []byte and named byte types share one memory
	if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Byte {
		return types.Typ[types.Byte]
	}
	return t
}

// newBytes allocates a byte slice holding string s.
func (e *Engine) newBytes(st *State, s *Term) *SliceV {
	f := e.alloc(st, "bytes")
	n := memName(types.Typ[types.Byte], leaf{})
	m := e.comp(st, n, arrSort(SInt, arrSort(SInt, SInt)))
	ln := mkUF("blen", SInt, s)
	var row *Term = mkConstArr(arrSort(SInt, SInt), mkInt(0))
	if s.op == "str" && len(s.name) <= 64 {
		for k := 0; k < len(s.name); k++ {
			row = mkStore(row, mkInt(int64(k)), mkInt(int64(s.name[k])))
		}
	} else {
		row = mkUF("copyB", arrSort(SInt, SInt), row, mkInt(0), s)
	}
	e.setComp(st, n, mkStore(m, f, row))
	cp := freshVar("cap", SInt)
	st.assume(mkLe(ln, cp))
	st.assume(mkLe(mkInt(0), ln))
	return &SliceV{f, mkInt(0), ln, cp}
}

// appendVal models the append builtin.
func (e *Engine) appendVal(st *State, et types.Type, s *SliceV, t *SliceV) *SliceV {
	n := t.len
	if isInt(n) && n.ival.Sign() == 0 {
		return s
	}
	ls := e.leaves(et)
	small := isInt(n) && n.ival.IsInt64() && n.ival.Int64() <= 16
	fits := mkLe(mkAdd(s.len, n), s.cap)
	// an append of zero elements never reallocates; covered since len<=cap
	f := e.alloc(st, "app")
	newArr := mkIte(fits, s.arr, f)
	for _, l := range ls {
		nm := memName(et, l)
		m := e.comp(st, nm, arrSort(SInt, arrSort(SInt, l.sort)))
		row := mkSelect(m, s.arr)
		src := mkSelect(m, t.arr)
		at := mkAdd(s.off, s.len)
		if small {
			vals := []*Term{}
			for k := int64(0); k < n.ival.Int64(); k++ {
				vals = append(vals, mkSelect(src, mkAdd(t.off, mkInt(k))))
			}
			for k := range vals {
				row = mkStore(row, mkAdd(at, mkInt(int64(k))), vals[k])
			}
		} else if l.sort == SInt && len(ls) == 1 && isByte(et) {
			row = mkUF("copyB", row.sort, row, at, mkUF("bytes", SBytes, src, t.off, n))
		} else {
			row = e.copyRange(row, at, src, t.off, n)
		}
		e.setComp(st, nm, mkStore(m, newArr, row))
	}
	nl := mkAdd(s.len, n)
	var nc *Term
	c2 := freshVar("cap", SInt)
	nc = mkIte(fits, s.cap, c2)
	st.assume(mkLe(nl, nc))
	return &SliceV{newArr, s.off, nl, nc}
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// copyRange a d src so n: a with src[so..so+n) written at d.
func (e *Engine) copyRange(a, d, src, so, n *Term) *Term {
	es := elemSort(a.sort)
	name := "copyA_" + sanitize(string(es))
	if _, ok := userAxioms[name]; !ok {
		A := boundVar("a", a.sort)
		D := boundVar("d", SInt)
		S := boundVar("s", a.sort)
		O := boundVar("o", SInt)
		N := boundVar("n", SInt)
		K := boundVar("k", SInt)
		ap := mkUF(name, a.sort, A, D, S, O, N)
		sel := mkSelect(ap, K)
		body := mkEq(sel, mkIte(mkAnd(mkLe(D, K), mkLt(K, mkAdd(D, N))), mkSelect(S, mkAdd(K, O, mkNeg(D))), mkSelect(A, K)))
		userAxioms[name] = []*Term{mkForall([]*Term{A, D, S, O, N, K}, body, []*Term{sel})}
	}
	return mkUF(name, a.sort, a, d, src, so, n)
}

func (e *Engine) appendString(st *State, s *SliceV, x *Term) *SliceV {
	n := mkUF("blen", SInt, x)
	if isInt(n) && n.ival.Sign() == 0 {
		return s
	}
	fits := mkLe(mkAdd(s.len, n), s.cap)
	f := e.alloc(st, "app")
	newArr := mkIte(fits, s.arr, f)
	nm := memName(types.Typ[types.Byte], leaf{})
	m := e.comp(st, nm, arrSort(SInt, arrSort(SInt, SInt)))
	row := mkUF("copyB", arrSort(SInt, SInt), mkSelect(m, s.arr), mkAdd(s.off, s.len), x)
	e.setComp(st, nm, mkStore(m, newArr, row))
	nl := mkAdd(s.len, n)
	c2 := freshVar("cap", SInt)
	nc := mkIte(fits, s.cap, c2)
	st.assume(mkLe(nl, nc))
	st.assume(mkLe(mkInt(0), n))
	return &SliceV{newArr, s.off, nl, nc}
}

func (e *Engine) copyInto(st *State, et types.Type, d, s *SliceV) *Term {
	n := mkIte(mkLe(d.len, s.len), d.len, s.len)
	for _, l := range e.leaves(et) {
		nm := memName(et, l)
		m := e.comp(st, nm, arrSort(SInt, arrSort(SInt, l.sort)))
		row := mkSelect(m, d.arr)
		src := mkSelect(m, s.arr)
		if isByte(et) {
			row = mkUF("copyB", row.sort, row, d.off, mkUF("bytes", SBytes, src, s.off, n))
		} else {
			row = e.copyRange(row, d.off, src, s.off, n)
		}
		e.setComp(st, nm, mkStore(m, d.arr, row))
	}
	return n
}

// ---- operators ----

func (e *Engine) eqVals(a, b Val, t types.Type) *Term {
	switch x := a.(type) {
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			break
		}
		// only comparison with nil is legal
		if isInt(y.arr) && y.arr.ival.Sign() == 0 {
			return mkEq(x.arr, mkInt(0))
		}
		return mkEq(y.arr, mkInt(0))
	case *StructV:
		if y, ok := b.(*StructV); ok {
			u := under(t).(*types.Struct)
			var cs []*Term
			for i := range x.f {
				cs = append(cs, e.eqVals(x.f[i], y.f[i], u.Field(i).Type()))
			}
			return mkAnd(cs...)
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if !types.Identical(x.typ, y.typ) {
				return tFalse
			}
			return e.eqVals(x.val, y.val, x.typ)
		}
		if y, ok := b.(*Term); ok {
			if isInt(y) && y.ival.Sign() == 0 {
				return tFalse
			}
			if d, ok := e.decodeIface(y); ok {
				return e.eqVals(x, d, t)
			}
			if y.sort == SInt && x.typ != nil {
				if p, ok := x.val.(*PtrV); ok && p.kind == pkObj && len(p.path) == 0 {
					return mkEq(p.ref, y)
				}
				if _, clo := x.val.(*CloV); !clo {
					// y holds the same dynamic type and the same value
					cs := []*Term{mkNot(mkEq(y, mkInt(0))), mkUF("typeis_"+sanitize(typeKey(x.typ)), SBool, y)}
					xs := e.flatten(x.val, x.typ)
					for k, l := range e.leaves(x.typ) {
						cs = append(cs, mkEq(mkUF(fmt.Sprintf("payload_%s_%d", sanitize(typeKey(x.typ)), k), l.sort, y), xs[k]))
					}
					return mkAnd(cs...)
				}
			}
		}
	case *Term:
		if _, ok := b.(*IfaceV); ok {
			return e.eqVals(b, a, t)
		}
	case *CloV:
		if y, ok := b.(*Term); ok && isInt(y) {
			return tFalse
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.kind == pkObj && y.kind == pkObj && len(x.path) == 0 && len(y.path) == 0 {
			return mkEq(x.ref, y.ref)
		}
		if y, ok := b.(*PtrV); ok && y.kind == pkObj && isInt(y.ref) {
			return tFalse
		}
	}
	if _, ok := a.(*Term); ok {
		if _, ok := b.(*CloV); ok {
			return e.eqVals(b, a, t)
		}
	}
	fa, fb := e.flatten(a, t), e.flatten(b, t)
	var cs []*Term
	for i := range fa {
		cs = append(cs, mkEq(fa[i], fb[i]))
	}
	return mkAnd(cs...)
}

func (e *Engine) binop(fr *Frame, st *State, i *ssa.BinOp) Val {
	xt := e.typ(fr, i.X.Type())
	if i.Op == token.EQL || i.Op == token.NEQ {
		t := xt
		if c, ok := i.X.(*ssa.Const); ok && c.Value == nil {
			t = e.typ(fr, i.Y.Type())
		}
		eq := e.eqVals(e.val(fr, st, i.X), e.val(fr, st, i.Y), t)
		if i.Op == token.NEQ {
			return mkNot(eq)
		}
		return eq
	}
	x, y := e.term(fr, st, i.X), e.term(fr, st, i.Y)
	return e.arith(fr, st, i.Op, x, y, e.typ(fr, i.Type()), xt, i.Pos())
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func (e *Engine) arith(fr *Frame, st *State, op token.Token, x, y *Term, rt, xt types.Type, pos token.Pos) *Term {
	if x.sort == SBytes {
		switch op {
		case token.ADD:
			return bcat(x, y)
		case token.LSS:
			return mkUF("blt", SBool, x, y)
		case token.GTR:
			return mkUF("blt", SBool, y, x)
		case token.LEQ:
			return mkNot(mkUF("blt", SBool, y, x))
		case token.GEQ:
			return mkNot(mkUF("blt", SBool, x, y))
		}
	}
	if x.sort != SInt {
		// opaque ordered types / floats
		switch op {
		case token.LSS:
			return mkUF("lt_"+sanitize(string(x.sort)), SBool, x, y)
		case token.GTR:
			return mkUF("lt_"+sanitize(string(x.sort)), SBool, y, x)
		case token.LEQ:
			return mkUF("le_"+sanitize(string(x.sort)), SBool, x, y)
		case token.GEQ:
			return mkUF("le_"+sanitize(string(x.sort)), SBool, y, x)
		}
		if x.sort == SBool {
			switch op {
			case token.AND, token.LAND:
				return mkAnd(x, y)
			case token.OR, token.LOR:
				return mkOr(x, y)
			}
		}
		return mkUF("flt_"+sanitize(op.String())+fmt.Sprint(int(op)), x.sort, x, y)
	}
	bits, signed, _ := intInfo(rt)
	switch op {
	case token.LSS:
		return mkLt(x, y)
	case token.LEQ:
		return mkLe(x, y)
	case token.GTR:
		return mkLt(y, x)
	case token.GEQ:
		return mkLe(y, x)
	case token.ADD:
		return wrapInt(rt, mkAdd(x, y), false)
	case token.SUB:
		return wrapInt(rt, mkSub(x, y), false)
	case token.MUL:
		return wrapInt(rt, mkMul(x, y), false)
	case token.QUO:
		if isInt(y) && y.ival.Sign() > 0 {
			// truncated division
			d := mkDiv(x, y)
			if st != nil && st.lits[mkLe(mkInt(0), x)] {
				return d
			}
			if lo, _, ok := rangeOf(x); ok && lo.Sign() >= 0 {
				return d
			}
			return mkIte(mkLe(mkInt(0), x), d, mkNeg(mkDiv(mkNeg(x), y)))
		}
		e.check(fr, st, mkNot(mkEq(y, mkInt(0))), "division by zero", pos)
		if !signed {
			return mkDiv(x, y)
		}
	case token.REM:
		if isInt(y) && y.ival.Sign() > 0 {
			if lo, _, ok := rangeOf(x); ok && lo.Sign() >= 0 {
				return mkMod(x, y)
			}
			if st != nil && st.lits[mkLe(mkInt(0), x)] {
				return mkMod(x, y)
			}
			return mkIte(mkLe(mkInt(0), x), mkMod(x, y), mkNeg(mkMod(mkNeg(x), y)))
		}
		e.check(fr, st, mkNot(mkEq(y, mkInt(0))), "division by zero", pos)
		// x % y for y > 0 and x >= 0
		// (what else is true of a remainder is not linear)
		r := mkUF("go_rem", SInt, x, y)
		st.assume(mkImp(mkAnd(mkLe(mkInt(0), x), mkLt(mkInt(0), y)), mkAnd(mkLe(mkInt(0), r), mkLt(r, y), mkLe(r, x),
			mkImp(mkLt(x, y), mkEq(r, x)), mkImp(mkEq(x, y), mkEq(r, mkInt(0))))))
		return r
	case token.SHL:
		if isInt(y) {
			return wrapInt(rt, mkMul(mkBig(pow2(uint(y.ival.Int64()))), x), false)
		}
	case token.SHR:
		if isInt(y) {
			return mkDiv(x, mkBig(pow2(uint(y.ival.Int64()))))
		}
	case token.AND:
		if isInt(x) {
			x, y = y, x
		}
		if isInt(y) {
			m := new(big.Int).Set(y.ival)
			if m.Sign() < 0 {
				b := bits
				if b == 0 {
					b = 64
				}
				m.Add(m, pow2(uint(b)))
			}
			// mask = 2^hi - 2^lo
			lo := m.TrailingZeroBits()
			if m.Sign() == 0 {
				return mkInt(0)
			}
			t := new(big.Int).Add(m, pow2(lo))
			hi := uint(t.BitLen() - 1)
			if t.Cmp(pow2(hi)) == 0 {
				r := mkMod(x, mkBig(pow2(hi)))
				if lo > 0 {
					r = mkMul(mkBig(pow2(lo)), mkDiv(r, mkBig(pow2(lo))))
				}
				if signed && y.ival.Sign() < 0 {
					// keep the sign bits: x - x mod 2^lo
					return mkSub(x, mkMod(x, mkBig(pow2(lo))))
				}
				return r
			}
		}
		r := mkUF("bvand", SInt, x, y)
		e.noteLoad(st, r, leaf{typ: rt})
		return r
	case token.OR:
		r := mkUF("bvor", SInt, x, y)
		e.noteLoad(st, r, leaf{typ: rt})
		return r
	case token.XOR:
		if isInt(y) && isInt(x) {
			break
		}
		if bits == 8 && !signed && isInt(y) && y.ival.Cmp(big.NewInt(255)) == 0 {
			return mkSub(mkInt(255), x)
		}
		r := mkUF("bvxor", SInt, x, y)
		e.noteLoad(st, r, leaf{typ: rt})
		return r
	}
	panic(unsupported("operator %s on %s", op, rt))
}

func bcat(x, y *Term) *Term {
	if x.op == "str" && x.name == "" {
		return y
	}
	if y.op == "str" && y.name == "" {
		return x
	}
	if x.op == "str" && y.op == "str" {
		return mkStr(x.name + y.name)
	}
	if x.op == "str" && isUF(y, "bcat") && y.args[0].op == "str" {
		return bcat(mkStr(x.name+y.args[0].name), y.args[1])
	}
	// adjacent windows of one array / one string
	h := y
	if isUF(y, "bcat") {
		h = y.args[0]
	}
	join := (*Term)(nil)
	if isUF(x, "bytes") && isUF(h, "bytes") && x.args[0] == h.args[0] && mkAdd(x.args[1], x.args[2]) == h.args[1] && provLe(mkInt(0), x.args[2]) && provLe(mkInt(0), h.args[2]) {
		join = simpBytes(x.args[0], x.args[1], mkAdd(x.args[2], h.args[2]))
	}
	if isUF(x, "bsub") && isUF(h, "bsub") && x.args[0] == h.args[0] && x.args[2] == h.args[1] && provLe(mkInt(0), x.args[1]) && provLe(x.args[1], x.args[2]) && provLe(h.args[1], h.args[2]) && provLe(h.args[2], mkUF("blen", SInt, x.args[0])) {
		join = simpSub(x.args[0], x.args[1], h.args[2])
	}
	if join != nil && !isUF(join, "bcat") {
		if h == y {
			return join
		}
		return bcat(join, y.args[1])
	}
	// right-associate
	if x.op == "uf" && x.name == "bcat" {
		return bcat(x.args[0], bcat(x.args[1], y))
	}
	return mkUFraw("bcat", SBytes, x, y)
}

func (e *Engine) unop(fr *Frame, st *State, i *ssa.UnOp) []*State {
	switch i.Op {
	case token.MUL:
		p, ok := e.val(fr, st, i.X).(*PtrV)
		if !ok {
			panic(unsupported("load through %T in %s", e.val(fr, st, i.X), fr.fn))
		}
		if p.kind == pkObj && len(p.path) == 0 {
			e.check(fr, st, mkNot(mkEq(p.ref, mkInt(0))), "nil pointer dereference", i.Pos())
		}
		if os.Getenv("GOVC_PANIC") == "2" {
			fmt.Fprintln(os.Stderr, "load", i, i.X, fr.fn)
		}
		v := e.load(st, p)
		// function values stored in fields: resolve bindings
		if t, ok := v.(*Term); ok {
			if b, ok := st.binds[t]; ok {
				v = b
			}
		}
		st.regs[i] = v
		return []*State{st}
	case token.NOT:
		st.regs[i] = mkNot(e.term(fr, st, i.X))
		return []*State{st}
	case token.SUB:
		x := e.term(fr, st, i.X)
		if x.sort != SInt {
			st.regs[i] = mkUF("flt_neg", x.sort, x)
		} else {
			st.regs[i] = wrapInt(e.typ(fr, i.Type()), mkNeg(x), false)
		}
		return []*State{st}
	case token.XOR:
		t := e.typ(fr, i.Type())
		x := e.term(fr, st, i.X)
		bits, signed, _ := intInfo(t)
		if signed {
			st.regs[i] = mkSub(mkInt(-1), x)
		} else {
			st.regs[i] = mkSub(mkBig(new(big.Int).Sub(pow2(uint(bits)), big.NewInt(1))), x)
		}
		return []*State{st}
	}
	panic(unsupported("unary %s", i))
}

func (e *Engine) convert(fr *Frame, st *State, v Val, from, to types.Type) Val {
	fb, fok := under(from).(*types.Basic)
	tb, tok := under(to).(*types.Basic)
	if isTypeParam(from) || isTypeParam(to) {
		if typeKey(from) == typeKey(to) {
			return v
		}
		panic(unsupported("conversion %s -> %s", from, to))
	}
	if tok && tb.Info()&types.IsInteger != 0 && fok && fb.Info()&types.IsInteger != 0 {
		return wrapInt(to, v.(*Term), true)
	}
	if tok && tb.Info()&types.IsString != 0 {
		if s, ok := v.(*SliceV); ok && isByte(under(from).(*types.Slice).Elem()) {
			return e.content(st, s)
		}
		if fok && fb.Info()&types.IsString != 0 {
			return v
		}
		return freshVar("strconv", SBytes)
	}
	if sl, ok := under(to).(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 && isByte(sl.Elem()) {
		return e.newBytes(st, v.(*Term))
	}
	if tok && tb.Kind() == types.UnsafePointer || fok && fb.Kind() == types.UnsafePointer {
		panic(unsupported("unsafe.Pointer conversion in %s", fr.fn))
	}
	if tok && fok && (tb.Info()&types.IsFloat != 0 || fb.Info()&types.IsFloat != 0) {
		ts := mkUF("conv_"+sanitize(typeKey(from))+"_"+sanitize(typeKey(to)), e.leaves(to)[0].sort, v.(*Term))
		e.noteLoad(st, ts, leaf{typ: to})
		return ts
	}
	return v
}

// ---- type assertions ----

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (e *Engine) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert) []*State {
	at := e.typ(fr, i.AssertedType)
	v := e.val(fr, st, i.X)
	var ok *Term
	var res Val
	_, toI := under(at).(*types.Interface)
	toI = toI && !isTypeParam(at)
	switch x := v.(type) {
	case *IfaceV:
		if toI {
			if isTypeParam(x.typ) {
				ok = mkUF("timpl_"+sanitize(typeKey(x.typ))+"_"+sanitize(typeKey(at)), SBool)
			} else {
				ok = mkBool(e.implements(x.typ, under(at).(*types.Interface)))
			}
			res = x
		} else {
			ok = mkBool(typeKey(x.typ) == typeKey(at))
			if ok == tTrue {
				res = x.val
			} else {
				res = e.zero(at)
			}
		}
	case *Term:
		ok = mkUF("typeis_"+sanitize(typeKey(at)), SBool, x)
		nn := mkNot(mkEq(x, mkInt(0)))
		if xt := e.typ(fr, i.X.Type()); toI && !isTypeParam(xt) && types.Implements(xt, under(at).(*types.Interface)) {
			st.assume(mkImp(nn, ok)) // whatever is in it has the methods asked for
			ok = nn
		} else {
			ok = mkAnd(nn, ok)
		}
		if toI {
			res = x
		} else if _, isP := under(at).(*types.Pointer); isP && !isTypeParam(at) {
			res = e.unflatten(at, []*Term{x})
		} else {
			var ts []*Term
			for k, l := range e.leaves(at) {
				pl := mkUF(fmt.Sprintf("payload_%s_%d", sanitize(typeKey(at)), k), l.sort, x)
				e.noteLoad(st, pl, l)
				ts = append(ts, pl)
			}
			res = e.unflatten(at, ts)
			e.wellFormed(st, res, at, st.wm)
		}
	default:
		panic(unsupported("type assertion on %T", v))
	}
	if i.CommaOk {
		if ok == tTrue || ok == tFalse {
			if ok == tFalse {
				res = e.zero(at)
			}
			st.regs[i] = TupleV{res, ok}
			return []*State{st}
		}
		f := st.clone()
		st.add(ok, true, e.pos(i.Pos())+":assert-ok")
		st.regs[i] = TupleV{res, tTrue}
		f.add(mkNot(ok), true, e.pos(i.Pos())+":assert-no")
		f.regs[i] = TupleV{e.zero(at), tFalse}
		return []*State{st, f}
	}
	if ok == tFalse {
		e.panicPath(fr, st, "type assertion", i.Pos())
		return nil
	}
	e.check(fr, st, ok, "type assertion", i.Pos())
	st.regs[i] = res
	return []*State{st}
}

// ---- maps ----

func (e *Engine) mapInfo(t types.Type) (m *types.Map, ks Sort, pname string, vls []leaf) {
	m = under(t).(*types.Map)
	kl := e.leaves(m.Key())
	if len(kl) != 1 {
		panic(unsupported("map key type %s", m.Key()))
	}
	k := typeKey(types.NewMap(m.Key(), m.Elem()))
	return m, kl[0].sort, "MP:" + k, e.leaves(m.Elem())
}

func (e *Engine) mapPresent(st *State, t types.Type, m *Term) *Term {
	_, ks, pn, _ := e.mapInfo(t)
	return mkSelect(e.comp(st, pn, arrSort(SInt, arrSort(ks, SBool))), m)
}

func mvName(pn string, l leaf) string { return "MV:" + pn[3:] + "#" + l.path }

func (e *Engine) mapValTerms(st *State, t types.Type, m, k *Term) []*Term {
	_, ks, pn, vls := e.mapInfo(t)
	var ts []*Term
	for _, l := range vls {
		c := e.comp(st, mvName(pn, l), arrSort(SInt, arrSort(ks, l.sort)))
		x := mkSelect(mkSelect(c, m), k)
		e.noteLoad(st, x, l)
		ts = append(ts, x)
	}
	return ts
}

func (e *Engine) makeMap(st *State, t types.Type) Val {
	f := e.alloc(st, "map")
	_, ks, pn, _ := e.mapInfo(t)
	c := e.comp(st, pn, arrSort(SInt, arrSort(ks, SBool)))
	e.setComp(st, pn, mkStore(c, f, mkConstArr(arrSort(ks, SBool), tFalse)))
	return f
}

func (e *Engine) mapUpdate(st *State, t types.Type, m, k *Term, v Val) {
	mt, ks, pn, vls := e.mapInfo(t)
	c := e.comp(st, pn, arrSort(SInt, arrSort(ks, SBool)))
	e.setComp(st, pn, mkStore(c, m, mkStore(mkSelect(c, m), k, tTrue)))
	ts := e.flatten(v, mt.Elem())
	for i, l := range vls {
		n := mvName(pn, l)
		c := e.comp(st, n, arrSort(SInt, arrSort(ks, l.sort)))
		e.setComp(st, n, mkStore(c, m, mkStore(mkSelect(c, m), k, ts[i])))
	}
}

func (e *Engine) mapDelete(st *State, t types.Type, m, k *Term) {
	_, ks, pn, _ := e.mapInfo(t)
	c := e.comp(st, pn, arrSort(SInt, arrSort(ks, SBool)))
	e.setComp(st, pn, mkStore(c, m, mkStore(mkSelect(c, m), k, tFalse)))
}

func (e *Engine) lookup(fr *Frame, st *State, i *ssa.Lookup) []*State {
	xt := e.typ(fr, i.X.Type())
	if b, ok := under(xt).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := e.term(fr, st, i.X)
		idx := e.term(fr, st, i.Index)
		e.check(fr, st, mkAnd(mkLe(mkInt(0), idx), mkLt(idx, mkUF("blen", SInt, s))), "index out of range", i.Pos())
		st.regs[i] = mkUF("bat", SInt, s, idx)
		return []*State{st}
	}
	m := e.term(fr, st, i.X)
	e.guardCheck(fr, st, m, false, i.Pos())
	k := e.term(fr, st, i.Index)
	mt, _, _, vls := e.mapInfo(xt)
	pr := mkSelect(e.mapPresent(st, xt, m), k)
	ts := e.mapValTerms(st, xt, m, k)
	for j := range ts {
		if ts[j] != nil {
			ts[j] = mkIte(pr, ts[j], e.zeroLeaf(vls[j]))
			if !ts[j].hasBV {
				e.noteLoad(st, ts[j], vls[j])
			}
		}
	}
	v := e.loaded(st, mt.Elem(), ts)
	if i.CommaOk {
		st.regs[i] = TupleV{v, pr}
	} else {
		st.regs[i] = v
	}
	return []*State{st}
}

// rangeVal is the iterator register of a map/string range.
type rangeVal struct {
	t    types.Type
	m    *Term
	name string
}

func (e *Engine) rangeStart(fr *Frame, st *State, i *ssa.Range) []*State {
	t := e.typ(fr, i.X.Type())
	if _, ok := under(t).(*types.Map); !ok {
		panic(unsupported("range over %s", t))
	}
	m := e.term(fr, st, i.X)
	_, ks, pn, _ := e.mapInfo(t)
	n := "RNG:" + pn[3:]
	c := e.comp(st, n, arrSort(SInt, arrSort(ks, SBool)))
	e.setComp(st, n, mkStore(c, m, mkConstArr(arrSort(ks, SBool), tFalse)))
	st.regs[i] = &rangeVal{t, m, n}
	return []*State{st}
}

func (e *Engine) rangeNext(fr *Frame, st *State, i *ssa.Next) []*State {
	r, ok := e.val(fr, st, i.Iter).(*rangeVal)
	if !ok {
		panic(unsupported("next over %T", e.val(fr, st, i.Iter)))
	}
	mt, ks, _, _ := e.mapInfo(r.t)
	e.guardCheck(fr, st, r.m, false, i.Pos())
	vis := mkSelect(e.comp(st, r.name, arrSort(SInt, arrSort(ks, SBool))), r.m)
	pres := e.mapPresent(st, r.t, r.m)
	okc := freshVar("more", SBool)
	f := st.clone()
	// another entry
	k := freshVar("key", ks)
	if ks == SInt {
		if lo, hi, ok := typeRange(mt.Key()); ok {
			varRange[k] = [2]*bigInt{lo, hi}
		}
	}
	st.add(okc, true, e.pos(i.Pos())+":range-next")
	st.assume(mkSelect(pres, k))
	st.assume(mkNot(mkSelect(vis, k)))
	v := e.loaded(st, mt.Elem(), e.mapValTerms(st, r.t, r.m, k))
	c := e.comp(st, r.name, arrSort(SInt, arrSort(ks, SBool)))
	e.setComp(st, r.name, mkStore(c, r.m, mkStore(vis, k, tTrue)))
	st.regs[i] = TupleV{tTrue, k, v}
	// exhausted
	f.add(mkNot(okc), true, e.pos(i.Pos())+":range-done")
	q := boundVar("k", ks)
	f.assume(mkForall([]*Term{q}, mkImp(mkSelect(pres, q), mkSelect(vis, q)), []*Term{mkSelect(vis, q)}))
	tt := i.Type().(*types.Tuple)
	var zk, zv Val = freshVar("key", ks), e.zero(mt.Elem())
	_ = tt
	f.regs[i] = TupleV{tFalse, zk, zv}
	return []*State{st, f}
}

func (e *Engine) doSelect(fr *Frame, st *State, i *ssa.Select) []*State {
	// nondeterministic choice among the ready cases (and default)
	idx := freshVar("sel", SInt)
	lo := int64(0)
	if !i.Blocking {
		lo = -1
	}
	st.assume(mkAnd(mkLe(mkInt(lo), idx), mkLt(idx, mkInt(int64(len(i.States))))))
	res := TupleV{idx, freshVar("selok", SBool)}
	for k, s := range i.States {
		if s.Dir == types.RecvOnly {
			// contracts which look at it learn what was received from
			if _, ok := st.comps["G:chan.recv"]; ok {
				if c, ok := e.val(fr, st, s.Chan).(*Term); ok {
					bt := types.Typ[types.Bool]
					was := e.ghostRead(st, "chan.recv", bt, c).(*Term)
					e.ghostWrite(st, "chan.recv", bt, c, mkOr(was, mkEq(idx, mkInt(int64(k)))))
				}
			}
			et := under(e.typ(fr, s.Chan.Type())).(*types.Chan).Elem()
			res = append(res, e.freshVal(st, et, "recv"))
		}
	}
	st.regs[i] = res
	return []*State{st}
}
