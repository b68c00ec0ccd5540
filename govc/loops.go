package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 14

type loopMemo struct {
	phis  map[*ssa.Phi]*mask
	comps map[string]bool
}

// mask says which parts of a value a loop may change.
type mask struct {
	all  bool
	kids map[int]*mask
}

func (m *mask) any() bool { return m != nil && (m.all || len(m.kids) > 0) }

// diffMask grows m by the differences between a and b.
func (e *Engine) diffMask(a, b Val, m *mask) (*mask, bool) {
	if m != nil && m.all {
		return m, false
	}
	if sa, ok := a.(*StructV); ok {
		if sb, ok := b.(*StructV); ok && len(sa.f) == len(sb.f) {
			ch := false
			for i := range sa.f {
				var k *mask
				if m != nil {
					k = m.kids[i]
				}
				nk, c := e.diffMask(sa.f[i], sb.f[i], k)
				if c {
					ch = true
					if m == nil {
						m = &mask{kids: map[int]*mask{}}
					}
					m.kids[i] = nk
				}
			}
			return m, ch
		}
	}
	if e.sameVal(a, b) {
		return m, false
	}
	return &mask{all: true}, true
}

func (e *Engine) sameVal(a, b Val) bool {
	if _, isT := a.(TupleV); !isT {
		if _, isT := b.(TupleV); !isT && a == b {
			return true
		}
	}
	switch x := a.(type) {
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && *x == *y
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !e.sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !e.sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.kind == y.kind && x.ref == y.ref && x.idx == y.idx && x.cell == y.cell && x.glob == y.glob && fmt.Sprint(x.path) == fmt.Sprint(y.path)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.typ, y.typ) && e.sameVal(x.val, y.val)
	case *CloV:
		y, ok := b.(*CloV)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !e.sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// havocVal replaces the masked parts of v.
func (e *Engine) havocVal(st *State, v Val, t types.Type, m *mask, hint string) Val {
	if !m.any() {
		return v
	}
	if m.all {
		if p, ok := v.(*PtrV); ok && p.kind != pkObj {
			if p.kind == pkElem {
				n := *p
				n.ref, n.idx = freshVar(hint+".arr", SInt), freshVar(hint+".idx", SInt)
				return &n
			}
			panic(unsupported("loop changes a pointer to a local variable"))
		}
		return e.freshVal(st, t, hint)
	}
	s := v.(*StructV)
	n := &StructV{f: append([]Val{}, s.f...)}
	u := under(t).(*types.Struct)
	for i, k := range m.kids {
		n.f[i] = e.havocVal(st, s.f[i], u.Field(i).Type(), k, hint)
	}
	return n
}

// loop modification set
type modSet struct {
	phis  map[*ssa.Phi]*mask
	cells map[int]*mask
	comps map[string]*compMod
	wm    bool
}

type compMod struct {
	full  bool
	idx   []*Term // loop-invariant indexes written
	alloc bool    // freshly allocated objects are written
}

func newModSet() *modSet {
	return &modSet{phis: map[*ssa.Phi]*mask{}, cells: map[int]*mask{}, comps: map[string]*compMod{}}
}

var oldMemo = map[int]map[*Term]bool{}

// isOld tells that a term only mentions variables created up to mark.
func isOld(t *Term, mark int) bool {
	m := oldMemo[mark]
	if m == nil {
		m = map[*Term]bool{}
		oldMemo[mark] = m
	}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if r, ok := m[t]; ok {
			return r
		}
		r := true
		if t.op == "var" && t.seq > mark {
			r = false
		}
		for _, a := range t.args {
			if !r {
				break
			}
			r = rec(a)
		}
		m[t] = r
		return r
	}
	return rec(t)
}

func (e *Engine) headerPhis(hdr *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range hdr.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (e *Engine) loopName(fr *Frame, hdr *ssa.BasicBlock) string {
	k := 0
	var hs []*ssa.BasicBlock
	for h := range fr.info.loops {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return fr.info.rpo[hs[i]] < fr.info.rpo[hs[j]] })
	for i, h := range hs {
		if h == hdr {
			k = i + 1
		}
	}
	return fmt.Sprintf("%s/loop%d", fnName(fr.fn), k)
}

// headerDecided tells whether the loop condition is decided in this state.
func (e *Engine) headerDecided(fr *Frame, hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, in edgeState) bool {
	last := hdr.Instrs[len(hdr.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	_ = iff
	if body[hdr.Succs[0]] == body[hdr.Succs[1]] {
		return false
	}
	e.dry++
	defer func() { e.dry-- }()
	succs, _ := e.runBlock(fr, edgeState{nil, hdr, in.st.clone()})
	n := 0
	for _, s := range succs {
		if !s.st.dead {
			n++
		}
	}
	return n <= 1
}

func (e *Engine) runLoop(fr *Frame, hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, in edgeState) ([]edgeState, []Outcome) {
	// (1) concrete unrolling
	if e.headerDecided(fr, hdr, body, in) {
		savedObls := len(e.obls)
		var exits []edgeState
		var outs []Outcome
		cur := []edgeState{{nil, hdr, in.st.clone()}}
		ok := true
		for it := 0; len(cur) > 0; it++ {
			if it > maxUnroll {
				ok = false
				break
			}
			for _, c := range cur {
				if !e.headerDecided(fr, hdr, body, c) {
					ok = false
				}
			}
			if !ok {
				break
			}
			ex, bk, os := e.runRegion(fr, body, hdr, cur, true)
			exits = append(exits, ex...)
			outs = append(outs, os...)
			cur = e.mergeEdges(fr, hdr, bk, fr.pure || len(bk) > 4)
		}
		if ok {
			return exits, outs
		}
		e.obls = e.obls[:savedObls]
	}
	if fr.pure {
		panic(unsupported("unbounded loop in a specification (%s)", fr.fn))
	}
	// a loop that leaves on every path of its header is handled above; (2) modification set
	mark := varSeq
	ms := newModSet()
	mkey := fmt.Sprintf("%p|%d", hdr, fr.depth)
	if m, ok := e.loopCache[mkey]; ok {
		for p, k := range m.phis {
			ms.phis[p] = k
		}
		for c := range m.comps {
			if _, ok := in.st.comps[c]; ok {
				ms.comps[c] = &compMod{}
			}
		}
	}
	var sampleBacks []*State
	e.loopsRun++
	loopsBefore := e.loopsRun
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop modification set does not converge in %s", fr.fn))
		}
		h := e.havocHeader(fr, hdr, in.st, ms, mark)
		e.dry++
		e.cheap++
		_, bk, _ := e.runRegion(fr, body, hdr, []edgeState{{nil, hdr, h.clone()}}, true)
		e.cheap--
		e.dry--
		changed := false
		sampleBacks = nil
		for _, b := range bk {
			st := e.applyPhis(fr, b)
			sampleBacks = append(sampleBacks, st)
			if e.growMods(fr, hdr, ms, h, st, mark) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	memo := &loopMemo{phis: map[*ssa.Phi]*mask{}, comps: map[string]bool{}}
	for p, k := range ms.phis {
		memo.phis[p] = k
	}
	for c := range ms.comps {
		memo.comps[c] = true
	}
	e.loopCache[mkey] = memo

	if e.cheap > 0 {
		h := e.havocHeader(fr, hdr, in.st, ms, mark)
		ex, _, os := e.runRegion(fr, body, hdr, []edgeState{{nil, hdr, h}}, true)
		return ex, os
	}

	nested := e.loopsRun != loopsBefore
	// (3) candidate invariants
	cands := e.loopCands(fr, hdr, body, in.st, ms, sampleBacks, mark)
	// what an earlier analysis of this loop on this path, under the same or more
	// assumptions about the loops around it, has given up is not tried again
	hkey := mkey + "|" + in.st.trail()
	for f := fr.parent; f != nil; f = f.parent {
		hkey += fmt.Sprintf("|%p", f.cur)
	}
	e.houSeen[hkey]++
	hkey += fmt.Sprintf("#%d", e.houSeen[hkey])
	memoH := e.houCache[hkey]
	var live []*cand
	if memoH != nil {
		for _, c := range cands {
			n := candKey(c)
			if memoH.dropped[n] || e.dry == 0 && !memoH.kept[n] {
				continue
			}
			live = append(live, c)
		}
		cands = live
	}
	if memoH == nil || e.dry > 0 {
		live = e.initiation(fr, hdr, in, cands)
		if nested {
			live = e.houdiniNested(fr, hdr, body, in, ms, mark, live)
		} else {
			live = e.houdiniFlat(fr, hdr, body, in, ms, mark, live)
		}
		if e.dry > 0 {
			if memoH == nil {
				memoH = &houMemo{dropped: map[string]bool{}}
				e.houCache[hkey] = memoH
			}
			memoH.kept = map[string]bool{}
			for _, c := range live {
				memoH.kept[candKey(c)] = true
			}
			for _, c := range cands {
				if n := candKey(c); !memoH.kept[n] {
					memoH.dropped[n] = true
				}
			}
		}
	}
	if os.Getenv("GOVC_LOOP") != "" {
		fmt.Fprintf(os.Stderr, "loop %s: mods phis=%d cells=%d comps=%v\n", e.loopName(fr, hdr), len(ms.phis), len(ms.cells), compList(ms))
		for _, c := range live {
			fmt.Fprintf(os.Stderr, "   keep %s\n", c.name)
		}
	}
	// (4) the real run
	ln := e.loopName(fr, hdr)
	e.loopInv[ln] += len(live)
	for _, c := range live {
		e.oblige(fr, in.st, "inv-init:"+ln+":"+c.name, c.f(in.st), hdrPos(hdr))
	}
	h := e.havocHeader(fr, hdr, in.st, ms, mark)
	for _, c := range live {
		if f := c.f(h); f != nil {
			h.assume(f)
		}
	}
	seen := e.houSeen
	if nested {
		e.houSeen = map[string]int{}
	}
	ex, bk, os2 := e.runRegion(fr, body, hdr, []edgeState{{nil, hdr, h}}, true)
	e.houSeen = seen
	for _, b := range bk {
		st := e.applyPhis(fr, b)
		for _, c := range live {
			g := c.f(st)
			if g == nil {
				g = tFalse
			}
			e.oblige(fr, st, "inv-step:"+ln+":"+c.name, g, hdrPos(hdr))
		}
	}
	return ex, os2
}

// initiation keeps the candidates which hold on entry.
func (e *Engine) initiation(fr *Frame, hdr *ssa.BasicBlock, in edgeState, cands []*cand) []*cand {
	var live []*cand
	ok := make([]bool, len(cands))
	var wg sync.WaitGroup
	goals := make([]*Term, len(cands))
	for i, c := range cands {
		goals[i] = c.f(in.st)
	}
	base := in.st.facts() // after evaluating goals
	for i, c := range cands {
		g := goals[i]
		if g == nil {
			continue
		}
		if g == tTrue {
			ok[i] = true
			continue
		}
		if g == tFalse {
			continue
		}
		txt := buildQuery(base, g, false)
		qf := ""
		if !c.user {
			qf = qfText(base, g)
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if qf != "" && solve(qf, 1, 0).status == "sat" {
				return
			}
			ok[i] = solve(txt, 3, 0).status == "unsat"
		}(i)
	}
	wg.Wait()
	for i, c := range cands {
		if ok[i] {
			live = append(live, c)
		} else if os.Getenv("GOVC_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "loop %s: drop (init) %s\n", e.loopName(fr, hdr), c.name)
		}
	}
	return live
}

type backSt struct {
	facts []*Term
	goals []*Term
}

func (e *Engine) backStates(fr *Frame, bk []edgeState, live []*cand) []backSt {
	var backs []backSt
	for _, b := range bk {
		st := e.applyPhis(fr, b)
		if st.dead {
			continue
		}
		bs := backSt{}
		for _, c := range live {
			g := c.f(st)
			if g == nil {
				g = tFalse
			}
			bs.goals = append(bs.goals, g)
		}
		bs.facts = st.facts() // after evaluating goals
		backs = append(backs, bs)
	}
	return backs
}

// stepCheck reports which of the alive candidates fail at a back edge.
func (e *Engine) stepCheck(fr *Frame, hdr *ssa.BasicBlock, b backSt, extra []*Term, live []*cand, alive []bool, conjFirst bool) bool {
	facts := append(append([]*Term{}, b.facts...), extra...)
	var conj []*Term
	for i := range live {
		if alive[i] {
			conj = append(conj, b.goals[i])
		}
	}
	g := mkAnd(conj...)
	if g == tTrue {
		return false
	}
	if conjFirst && g != tFalse && solve(buildQuery(facts, g, false), 4, 0).status == "unsat" {
		return false
	}
	var wg sync.WaitGroup
	okv := make([]bool, len(live))
	for i := range live {
		if !alive[i] {
			continue
		}
		if b.goals[i] == tTrue {
			okv[i] = true
			continue
		}
		if b.goals[i] == tFalse {
			continue
		}
		g := b.goals[i]
		txt := buildQuery(facts, g, false)
		qf := ""
		if !live[i].user {
			qf = qfText(facts, g)
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if qf != "" && solve(qf, 1, 0).status == "sat" {
				return
			}
			full := 0
			if live[i].user {
				full = 8
			}
			r := solve(txt, 6, full)
			okv[i] = r.status == "unsat"
			if !okv[i] && (live[i].user || dbgCand(live[i].name)) && os.Getenv("GOVC_KEEP") != "" {
				fmt.Fprintf(os.Stderr, "user invariant %s: %s in %s\n", live[i].name, r.status, r.file)
			}
		}(i)
	}
	wg.Wait()
	changed := false
	for i := range live {
		if alive[i] && !okv[i] {
			alive[i] = false
			changed = true
			if os.Getenv("GOVC_LOOP") != "" {
				fmt.Fprintf(os.Stderr, "loop %s: drop (step) %s\n", e.loopName(fr, hdr), live[i].name)
			}
		}
	}
	return changed
}

func aliveOf(live []*cand, alive []bool) []*cand {
	var l2 []*cand
	for i, c := range live {
		if alive[i] {
			l2 = append(l2, c)
		}
	}
	return l2
}

// houdiniFlat finds the largest inductive subset with one symbolic run of the
// body: each candidate is assumed behind a literal.
func (e *Engine) houdiniFlat(fr *Frame, hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, in edgeState, ms *modSet, mark int, live []*cand) []*cand {
	if len(live) == 0 {
		return live
	}
	h := e.havocHeader(fr, hdr, in.st, ms, mark)
	lits := make([]*Term, len(live))
	for i, c := range live {
		lits[i] = freshVar("inv", SBool)
		if f := c.f(h); f != nil {
			h.assume(mkImp(lits[i], f))
		}
	}
	e.dry++
	_, bk, _ := e.runRegion(fr, body, hdr, []edgeState{{nil, hdr, h}}, true)
	e.dry--
	backs := e.backStates(fr, bk, live)
	alive := make([]bool, len(live))
	for i := range alive {
		alive[i] = true
	}
	for round := 0; ; round++ {
		var as []*Term
		for i := range live {
			if alive[i] {
				as = append(as, lits[i])
			}
		}
		changed := false
		for _, b := range backs {
			if e.stepCheck(fr, hdr, b, as, live, alive, round > 0) {
				changed = true
				break
			}
		}
		if !changed {
			return aliveOf(live, alive)
		}
	}
}

// houdiniNested does the same for a loop around other loops: the inner loops are
// analysed anew under each set of outer assumptions.
func (e *Engine) houdiniNested(fr *Frame, hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, in edgeState, ms *modSet, mark int, live []*cand) []*cand {
	for round := 0; ; round++ {
		h := e.havocHeader(fr, hdr, in.st, ms, mark)
		for _, c := range live {
			if f := c.f(h); f != nil {
				h.assume(f)
			}
		}
		seen := e.houSeen
		e.houSeen = map[string]int{}
		e.dry++
		_, bk, _ := e.runRegion(fr, body, hdr, []edgeState{{nil, hdr, h}}, true)
		e.dry--
		e.houSeen = seen
		backs := e.backStates(fr, bk, live)
		alive := make([]bool, len(live))
		for i := range alive {
			alive[i] = true
		}
		changed := false
		for _, b := range backs {
			if e.stepCheck(fr, hdr, b, nil, live, alive, round > 0) {
				changed = true
			}
		}
		if !changed {
			return live
		}
		live = aliveOf(live, alive)
	}
}

type houMemo struct{ kept, dropped map[string]bool }

var candNum = regexp.MustCompile(`!\d+`)

func candKey(c *cand) string { return candNum.ReplaceAllString(c.name, "") }

func compList(ms *modSet) []string {
	var out []string
	for _, k := range sortedKeys(ms.comps) {
		m := ms.comps[k]
		if m.full {
			out = append(out, k+"*")
		} else {
			out = append(out, fmt.Sprintf("%s%v", k, m.idx))
		}
	}
	return out
}

func hdrPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

// havocHeader builds the generic loop-header state.
func (e *Engine) havocHeader(fr *Frame, hdr *ssa.BasicBlock, in *State, ms *modSet, mark int) *State {
	h := in.clone()
	wm0 := in.wm
	if ms.wm {
		e.bumpWM(h)
	}
	for _, n := range sortedKeys(ms.comps) {
		cm := ms.comps[n]
		sortN, ok := e.compSorts[n]
		if !ok {
			continue
		}
		base, ok := in.comps[n]
		if !ok {
			base = namedVar(n+"@init", sortN)
		}
		if cm.full || !strings.HasPrefix(string(base.sort), "(Array Int") {
			h.comps[n] = refBelow(n, freshVar("lh_"+n, base.sort), h.wm)
			continue
		}
		x := base
		if cm.alloc {
			x = refBelow(n, freshVar("lh_"+n, base.sort), h.wm)
			e.havocInfo[x] = &havocRec{base: base, wm: wm0}
			havocBase[x] = &havocSel{base: base, mark: mark}
			q := boundVar("r", SInt)
			h.assume(mkForall([]*Term{q}, mkImp(mkLt(q, wm0), mkEq(mk("select", "", elemSort(x.sort), x, q), mkSelect(base, q))), []*Term{mk("select", "", elemSort(x.sort), x, q)}))
		}
		for _, i := range cm.idx {
			v := refBelowElem(n, freshVar("lhv_"+n, elemSort(base.sort)), h.wm)
			x = mk("store", "", x.sort, x, i, v)
		}
		h.comps[n] = x
	}
	for id, m := range ms.cells {
		if v, ok := in.cells[id]; ok && m.any() {
			h.cells[id] = e.havocVal(h, v, e.cellTypes[id], m, "lc")
		}
	}
	for _, p := range e.headerPhis(hdr) {
		if m := ms.phis[p]; m.any() {
			nm := p.Comment
			if nm == "" {
				nm = "phi"
			}
			h.regs[p] = e.havocVal(h, in.regs[p], e.typ(fr, p.Type()), m, "l_"+nm)
		}
	}
	return h
}

// growMods compares a back-edge state against the header state.
func (e *Engine) growMods(fr *Frame, hdr *ssa.BasicBlock, ms *modSet, h, b *State, mark int) bool {
	ch := false
	for _, p := range e.headerPhis(hdr) {
		m, c := e.diffMask(h.regs[p], b.regs[p], ms.phis[p])
		if c {
			ms.phis[p] = m
			ch = true
		}
	}
	for id, v := range h.cells {
		bv, ok := b.cells[id]
		if !ok {
			continue
		}
		m, c := e.diffMask(v, bv, ms.cells[id])
		if c {
			ms.cells[id] = m
			ch = true
		}
	}
	if len(h.defers) != len(b.defers) {
		panic(unsupported("defer inside a loop in %s", fr.fn))
	}
	if !ms.wm && h.wm != b.wm {
		ms.wm = true
		ch = true
	}
	for _, n := range sortedKeys(b.comps) {
		bv := b.comps[n]
		hv, ok := h.comps[n]
		if !ok {
			hv = namedVar(n+"@init", bv.sort)
		}
		if hv == bv {
			continue
		}
		cm := ms.comps[n]
		if cm == nil {
			cm = &compMod{}
			ms.comps[n] = cm
		}
		if cm.full {
			continue
		}
		idx, okW := []*Term(nil), false
		if strings.HasPrefix(string(bv.sort), "(Array Int") {
			idx, okW = e.storeIdx(bv, hv)
		}
		if !okW {
			if os.Getenv("GOVC_FULL") != "" {
				fmt.Fprintln(os.Stderr, "FULL", fnName(fr.fn), n, bv, "OVER", hv)
			}
			cm.full = true
			ch = true
			continue
		}
		for _, i := range idx {
			if i.fresh && i.seq > mark {
				if !cm.alloc {
					cm.alloc = true
					ch = true
				}
				continue
			}
			if !isOld(i, mark) {
				if os.Getenv("GOVC_FULL") != "" {
					fmt.Fprintln(os.Stderr, "FULLIDX", fnName(fr.fn), n, i)
				}
				cm.full = true
				ch = true
				break
			}
			dup := false
			for _, j := range cm.idx {
				if i == j {
					dup = true
				}
			}
			if !dup {
				cm.idx = append(cm.idx, i)
				ch = true
			}
		}
	}
	return ch
}

// ---- candidates ----

type cand struct {
	name string
	f    func(st *State) *Term
	user bool // written in a contract
}

func (e *Engine) loopCands(fr *Frame, hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, in *State, ms *modSet, backs []*State, mark int) []*cand {
	var out []*cand
	add := func(name string, f func(st *State) *Term) { out = append(out, &cand{name: name, f: f}) }
	wm0 := in.wm
	var startArrs []*Term // arrays the loop-carried slices start from
	addArr := func(t *Term) {
		if isInt(t) && t.ival.Sign() == 0 {
			return
		}
		for _, x := range startArrs {
			if x == t {
				return
			}
		}
		startArrs = append(startArrs, t)
	}
	// loop bounds
	type bound struct{ t *Term }
	bounds := map[*Term]bool{}
	var blist []*Term
	for b := range body {
		for _, instr := range b.Instrs {
			bo, ok := instr.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, op := range []ssa.Value{bo.X, bo.Y} {
				if _, _, ok := intInfo(e.typ(fr, op.Type())); !ok {
					continue
				}
				var t *Term
				if c, ok := op.(*ssa.Const); ok {
					if c.Value == nil {
						continue
					}
					t, _ = e.constVal(c, fr).(*Term)
				} else if v, ok := in.regs[op]; ok {
					t, _ = v.(*Term)
					if p, ok := op.(*ssa.Phi); ok && ms.phis[p].any() {
						t = nil
					}
				} else {
					for _, bs := range backs {
						if v, ok := bs.regs[op]; ok {
							if x, ok := v.(*Term); ok && isOld(x, mark) {
								t = x
							}
							break
						}
					}
				}
				if t != nil && t.sort == SInt && !bounds[t] && isOld(t, mark) {
					bounds[t] = true
					blist = append(blist, t)
				}
			}
		}
	}
	if len(blist) > 6 {
		blist = blist[:6]
	}
	var scalar func(name string, get func(st *State) Val, init Val, t types.Type, m *mask)
	scalar = func(name string, get func(st *State) Val, init Val, t types.Type, m *mask) {
		if !m.any() {
			return
		}
		switch iv := init.(type) {
		case *Term:
			tget := func(st *State) *Term {
				x, _ := get(st).(*Term)
				return x
			}
			wrap := func(f func(x *Term) *Term) func(st *State) *Term {
				return func(st *State) *Term {
					x := tget(st)
					if x == nil || x.sort != iv.sort {
						return nil
					}
					return f(x)
				}
			}
			if iv.sort == SBool && e.forgotten(fr, "bool") {
				return
			}
			if iv.sort == SBool {
				add(name+"=init", wrap(func(x *Term) *Term { return mkEq(x, iv) }))
				return
			}
			if iv.sort != SInt {
				return
			}
			if _, _, ok := intInfo(t); !ok {
				add(name+"=init", wrap(func(x *Term) *Term { return mkEq(x, iv) }))
				return
			}
			if e.forgotten(fr, "int") {
				return
			}
			add(name+">=init", wrap(func(x *Term) *Term { return mkLe(iv, x) }))
			add(name+"<=init", wrap(func(x *Term) *Term { return mkLe(x, iv) }))
			for _, b := range blist {
				b := b
				if b == iv {
					continue
				}
				add(fmt.Sprintf("%s<=%v", name, b), wrap(func(x *Term) *Term { return mkLe(x, b) }))
				add(fmt.Sprintf("%s<%v", name, b), wrap(func(x *Term) *Term { return mkLt(x, b) }))
				add(fmt.Sprintf("%s>=%v", name, b), wrap(func(x *Term) *Term { return mkLe(b, x) }))
				add(fmt.Sprintf("%s<=%v or init", name, b), wrap(func(x *Term) *Term { return mkOr(mkLe(x, b), mkEq(x, iv)) }))
			}
		case *SliceV:
			addArr(iv.arr)
			if e.forgotten(fr, "slice") {
				return
			}
			sget := func(f func(s *SliceV) *Term) func(st *State) *Term {
				return func(st *State) *Term {
					s, ok := get(st).(*SliceV)
					if !ok {
						return nil
					}
					return f(s)
				}
			}
			add(name+".off=init", sget(func(s *SliceV) *Term { return mkEq(s.off, iv.off) }))
			add(name+".arr=init", sget(func(s *SliceV) *Term { return mkEq(s.arr, iv.arr) }))
			add(name+".arr=init or new", sget(func(s *SliceV) *Term { return mkOr(mkEq(s.arr, iv.arr), mkLe(wm0, s.arr)) }))
			add(name+".arr,off,cap=init or new", sget(func(s *SliceV) *Term {
				return mkOr(mkAnd(mkEq(s.arr, iv.arr), mkEq(s.off, iv.off), mkEq(s.cap, iv.cap)), mkLe(wm0, s.arr))
			}))
			add(name+".arr new", sget(func(s *SliceV) *Term { return mkLe(wm0, s.arr) }))
			add(name+".cap=init", sget(func(s *SliceV) *Term { return mkEq(s.cap, iv.cap) }))
			add(name+".len=init", sget(func(s *SliceV) *Term { return mkEq(s.len, iv.len) }))
			add(name+".len>=init", sget(func(s *SliceV) *Term { return mkLe(iv.len, s.len) }))
			add(name+".len<=init", sget(func(s *SliceV) *Term { return mkLe(s.len, iv.len) }))
		case *PtrV:
			if iv.kind == pkObj && iv.ref != nil {
				add(name+"=init", func(st *State) *Term {
					p, ok := get(st).(*PtrV)
					if !ok || p.ref == nil {
						return nil
					}
					return mkEq(p.ref, iv.ref)
				})
			}
		case *StructV:
			u, ok := under(t).(*types.Struct)
			if !ok {
				return
			}
			for i := range iv.f {
				i := i
				var km *mask
				if m.all {
					km = m
				} else {
					km = m.kids[i]
				}
				scalar(name+"."+u.Field(i).Name(), func(st *State) Val {
					s, ok := get(st).(*StructV)
					if !ok {
						return nil
					}
					return s.f[i]
				}, iv.f[i], u.Field(i).Type(), km)
			}
		}
	}
	type slot struct {
		name string
		typ  types.Type
		get  func(st *State) Val
		mod  bool
	}
	var slots []slot
	for k, p := range e.headerPhis(hdr) {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = fmt.Sprintf("phi%d", k)
		}
		get := func(st *State) Val { return st.regs[p] }
		pt := e.typ(fr, p.Type())
		if _, ok := in.regs[p].(*rangeVal); ok {
			continue
		}
		scalar(nm, get, in.regs[p], pt, ms.phis[p])
		mod := ms.phis[p].any()
		if p.Comment == "rangeindex" {
			slots = append(slots, slot{nm + "+1", pt, func(st *State) Val {
				t, _ := st.regs[p].(*Term)
				if t == nil {
					return nil
				}
				return mkAdd(t, mkInt(1))
			}, mod})
		} else {
			slots = append(slots, slot{nm, pt, get, mod})
		}
	}
	var ids []int
	for id := range in.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		get := func(st *State) Val { return st.cells[id] }
		scalar(fmt.Sprintf("cell%d", id), get, in.cells[id], e.cellTypes[id], ms.cells[id])
		if ms.cells[id].any() {
			nm := e.cellNames[id]
			if nm == "" {
				nm = fmt.Sprintf("cell%d", id)
			}
			slots = append(slots, slot{nm, e.cellTypes[id], get, true})
		}
	}
	// loop-invariant registers used in the body
	used := map[ssa.Value]bool{}
	var usedList []ssa.Value
	var blks []*ssa.BasicBlock
	for b := range body {
		blks = append(blks, b)
	}
	sort.Slice(blks, func(i, j int) bool { return blks[i].Index < blks[j].Index })
	for _, b := range blks {
		for _, instr := range b.Instrs {
			for _, op := range instr.Operands(nil) {
				if *op == nil || used[*op] {
					continue
				}
				if _, isPhi := (*op).(*ssa.Phi); isPhi && (*op).(*ssa.Phi).Block() == hdr {
					continue
				}
				if _, ok := in.regs[*op]; ok {
					used[*op] = true
					usedList = append(usedList, *op)
				}
			}
		}
	}
	for _, v := range usedList {
		v := v
		val := in.regs[v]
		if _, ok := val.(*rangeVal); ok {
			continue
		}
		t := e.typ(fr, v.Type())
		dup := false
		for _, o := range slots {
			if !o.mod && typeKey(o.typ) == typeKey(t) && sameVal(o.get(in), val) {
				dup = true
			}
		}
		if dup {
			continue
		}
		slots = append(slots, slot{v.Name(), t, func(st *State) Val { return val }, false})
		if p, ok := val.(*PtrV); ok && p.kind == pkCell && len(p.path) == 0 && !ms.cells[p.cell].any() {
			id := p.cell
			slots = append(slots, slot{v.Name() + "*", e.cellTypes[id], func(st *State) Val { return st.cells[id] }, false})
		}
	}
	// frame of full havocs
	for _, n := range sortedKeys(ms.comps) {
		n := n
		cm := ms.comps[n]
		srt := e.compSorts[n]
		base, ok := in.comps[n]
		if !ok {
			base = namedVar(n+"@init", srt)
		}
		if !cm.full {
			es := elemSort(srt)
			if !strings.HasPrefix(string(es), "(Array") {
				for _, i := range cm.idx {
					i := i
					add("same:"+n, func(st *State) *Term {
						return mkEq(mkSelect(e.comp(st, n, srt), i), mkSelect(base, i))
					})
				}
			}
			continue
		}
		if strings.HasPrefix(string(srt), "(Array Int") {
			mkfw := func(wm0 *Term, excl []*Term) func(st *State) *Term {
				return func(st *State) *Term {
					c := e.comp(st, n, srt)
					if c == base {
						return tTrue
					}
					q := boundVar("r", SInt)
					conds := []*Term{mkLt(q, wm0)}
					for _, a := range excl {
						conds = append(conds, mkNot(mkEq(q, a)))
					}
					sel := mk("select", "", elemSort(srt), c, q)
					return mkForall([]*Term{q}, mkImp(mkAnd(conds...), mkEq(sel, mkSelect(base, q))), []*Term{sel})
				}
			}
			if e.forgotten(fr, n) {
				continue
			}
			mkf := func(excl []*Term) func(st *State) *Term { return mkfw(wm0, excl) }
			add("frame0:"+n, mkf(nil))
			var ex []*Term
			for _, a := range startArrs {
				ex = append(ex, a)
			}
			ex = append(ex, cm.idx...)
			if len(ex) > 0 {
				add("frame:"+n, mkf(ex))
			}
			if cc := e.verifyCtx(fr); cc != nil && cc.entryWM != nil {
				var exm []*Term
				for _, md := range cc.mods {
					if strings.HasPrefix(n, "G:") {
						if md.kind == "ghostobj" && (n == "G:"+md.name || strings.HasPrefix(n, "G:"+md.name+"#")) {
							exm = append(exm, e.refOf(md.val))
						}
						continue
					}
					switch v := md.val.(type) {
					case *SliceV:
						exm = append(exm, v.arr)
					case *PtrV:
						if v.kind == pkObj {
							exm = append(exm, v.ref)
						}
					}
				}
				f := mkfw(cc.entryWM, exm)
				add("framec:"+n, f)
				for _, md := range cc.mods {
					if md.kind == "memfrom" && strings.HasPrefix(n, md.name) {
						add("framef:"+n, mkfw(md.val.(*Term), nil))
					}
				}
			}
		} else if !strings.HasPrefix(string(srt), "(Array") {
			add("same:"+n, func(st *State) *Term { return mkEq(e.comp(st, n, srt), base) })
		}
	}
	// templates
	cc := e.verifyCtx(fr)
	if cc != nil {
		n0 := len(out)
		defer func() {
			for _, c := range out[n0:] {
				c.user = true
			}
		}()
		for _, tp := range cc.invs {
			if i := strings.Index(tp.name, "@"); i >= 0 {
				if !strings.Contains(fnName(fr.fn), tp.name[i+1:]) {
					continue
				}
			}
			if !cellsLive(in, tp.clo) {
				continue // declared on another path of the contract
			}
			ps := tp.clo.fn.Params
			combos := [][]slot{{}}
			for _, p := range ps {
				pt := e.subst(p.Type(), tp.clo.env)
				var next [][]slot
				// variables of the code named like the parameter, if there are any
				named := false
				for _, s := range slots {
					if typeKey(s.typ) == typeKey(pt) && strings.TrimRight(s.name, "*") == p.Name() {
						named = true
					}
				}
				for _, c := range combos {
				slot:
					for _, s := range slots {
						if typeKey(s.typ) != typeKey(pt) || named && strings.TrimRight(s.name, "*") != p.Name() {
							continue
						}
						for _, o := range c {
							if o.name == s.name {
								continue slot
							}
						}
						next = append(next, append(append([]slot{}, c...), s))
					}
				}
				combos = next
				if len(combos) > 400 {
					combos = combos[:400]
				}
			}
			n := 0
			for _, c := range combos {
				anyMod := len(ps) == 0
				var nm []string
				for _, s := range c {
					if s.mod {
						anyMod = true
					}
					nm = append(nm, s.name)
				}
				if !anyMod && len(ps) > 0 {
					// still useful: a template over ghost state and fixed values
					if n > 40 {
						continue
					}
				}
				n++
				if n > 120 {
					break
				}
				c := c
				clo := tp.clo
				tcc := cc
				add(tp.name+"("+strings.Join(nm, ",")+")", func(st *State) (r *Term) {
					var args []Val
					for i, s := range c {
						v := s.get(st)
						if v == nil {
							return nil
						}
						// an interface-typed or pointer slot must flatten to the declared type
						_ = i
						args = append(args, v)
					}
					_ = tcc
					return e.evalPure(fr, st, clo, args)
				})
			}
		}
	}
	return out
}

// cellsLive reports whether the variables a contract's closure captures exist in the state.
func cellsLive(st *State, c *CloV) bool {
	for _, b := range c.binds {
		if p, ok := b.(*PtrV); ok && p.kind == pkCell {
			v, ok := st.cells[p.cell]
			if !ok {
				return false
			}
			if cl, ok := v.(*CloV); ok && !cellsLive(st, cl) {
				return false
			}
		}
	}
	return true
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && *x == *y
	}
	return false
}

// verifyCtx finds the contract being verified.
func (e *Engine) verifyCtx(fr *Frame) *ContractCtx {
	for f := fr; f != nil; f = f.parent {
		if f.cc != nil && !f.cc.use {
			return f.cc
		}
	}
	return nil
}

// scalarGoal: a goal over integers only, without bytes, rows or quantifiers.
func scalarGoal(g *Term) bool {
	return scalarTerm(g, map[*Term]bool{})
}

func scalarTerm(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if t.op == "forall" || (t.sort != SInt && t.sort != SBool) {
		return false
	}
	if t.op == "uf" || t.op == "select" {
		return true // opaque leaf
	}
	for _, a := range t.args {
		if !scalarTerm(a, seen) {
			return false
		}
	}
	return true
}

// qfText: a problem whose satisfiability means the goal fails already when only
// the quantifier-free facts are considered (a candidate invariant is then given
// up without a long search).
func qfText(facts []*Term, g *Term) string {
	if !scalarGoal(g) {
		return ""
	}
	var qf []*Term
	for _, t := range facts {
		if !hasQuant(t, map[*Term]bool{}) {
			qf = append(qf, t)
		}
	}
	return buildProblemOpt(append(qf, mkNot(g)), false, true)
}

func dbgCand(n string) bool {
	p := os.Getenv("GOVC_KEEPC")
	return p != "" && strings.Contains(n, p)
}

// forgotten: the contract under verification has no use for what memory n holds,
// and may change all of it; nothing is then carried across loops about it.
func (e *Engine) forgotten(fr *Frame, n string) bool {
	cc := e.verifyCtx(fr)
	if cc == nil {
		return false
	}
	for _, p := range cc.forget {
		if memMatch(n, p) {
			return true
		}
	}
	return false
}

// memMatch: memory n starts with the prefix; "p-q" is all of p but q.
func memMatch(n, pre string) bool {
	p, q, not := strings.Cut(pre, "-")
	return strings.HasPrefix(n, p) && !(not && strings.HasPrefix(n, q))
}
