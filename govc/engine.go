package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine holds the symbolic executor.
type Engine struct {
	tctx       *types.Context
	leafCache  map[string][]leaf
	decode     map[*Term]Val
	decodeI    map[*Term]Val
	enc        map[string]*Term
	keepAlive  []Val
	keepAliveT []*Term
	compSorts  map[string]Sort
	cellSeq    int
	cellTypes  map[int]types.Type
	cellNames  map[int]string
	wm0        *Term
	globInit   map[*ssa.Global]map[string]*Term
	infos      map[*ssa.Function]*fnInfo
	funcsSeen  map[*ssa.Function]int
	fnVals     map[string]*CloV
	liveCache  map[*ssa.BasicBlock]map[ssa.Value]bool
	fset       *token.FileSet
	prog       *ssa.Program
	repo       string
	maxOuts    int
	maxStates  int
	steps      int
	maxSteps   int
	noMerge    bool
	prune      bool

	contracts map[string]*Contract
	models    map[string]*Contract // Go-code models of external / interface functions
	ufs       map[string]bool

	cur        *Contract
	dry        int
	obls       []*Obligation
	unknown    map[string]int // unmodelled externals hit
	usedCtr    map[string]int
	usedModel  map[string]int
	inlined    map[string]int
	canaries   int
	pkgs       map[string]*ssa.Package
	allFn      map[*ssa.Package][]*ssa.Function
	loopSeq    int
	loopCache  map[string]*loopMemo
	loopInv    map[string]int
	deadline   int64
	havocInfo  map[*Term]*havocRec
	houCache   map[string]*houMemo // loop analyses so far
	houSeen    map[string]int
	loopsRun   int
	earlyMem   map[string]bool // memory kinds havocked by a call so far
	earlyHavoc map[string]bool // ghosts havocked by a call so far
	again      bool            // a ghost became known after such a call
	noRetry    bool
	cheap      int
	guards     []guardDecl
	lockHooks  []lockHook
	byName     map[string]*ssa.Function
}

type havocRec struct {
	base *Term
	idx  []*Term
	wm   *Term
}

// Obligation is one proof goal on one path.
type Obligation struct {
	contract string
	name     string
	facts    []*Term
	goal     *Term
	pos      string
	trail    string
	res      solveResult
	text     string
	lemma    string
	canary   bool
}

// ContractCtx is the activation of a contract function.
type ContractCtx struct {
	c       *Contract
	target  *ssa.Function
	env     tenv
	args    []Val
	use     bool
	nopanic bool
	prune   bool
	inBody  int
	invs    []*invTemplate
	mods    []modDecl
	forget  []string // memory kinds nothing is carried about
	entry   map[string]*Term
	entryWM *Term
	site    string
	retTmpl []Val
	bodyRun bool
}

type invTemplate struct {
	name string
	clo  *CloV
	in   string
}

type modDecl struct {
	kind string // buf, obj, map, ghost, any
	val  Val
	typ  types.Type
	name string
}

// Contract is a specification function found in an overlay file.
type Contract struct {
	name   string // target
	fn     *ssa.Function
	props  []string
	kind   string // contract, model, lemma
	file   string
	status string
}

func newEngine() *Engine {
	return &Engine{
		tctx: types.NewContext(), leafCache: map[string][]leaf{}, decode: map[*Term]Val{}, decodeI: map[*Term]Val{},
		enc: map[string]*Term{}, compSorts: map[string]Sort{}, cellTypes: map[int]types.Type{}, cellNames: map[int]string{},
		globInit: map[*ssa.Global]map[string]*Term{}, infos: map[*ssa.Function]*fnInfo{}, funcsSeen: map[*ssa.Function]int{},
		fnVals: map[string]*CloV{}, liveCache: map[*ssa.BasicBlock]map[ssa.Value]bool{},
		maxOuts: 12, maxStates: 24, maxSteps: 4000000, prune: false,
		contracts: map[string]*Contract{}, models: map[string]*Contract{}, ufs: map[string]bool{},
		unknown: map[string]int{}, usedCtr: map[string]int{}, usedModel: map[string]int{}, inlined: map[string]int{},
		pkgs: map[string]*ssa.Package{}, allFn: map[*ssa.Package][]*ssa.Function{}, loopCache: map[string]*loopMemo{}, loopInv: map[string]int{},
		havocInfo: map[*Term]*havocRec{},
	}
}

func (e *Engine) inRepo(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), "github.com/go-bond/bond")
}

func (e *Engine) allFuncs(pkg *ssa.Package) []*ssa.Function {
	if r, ok := e.allFn[pkg]; ok {
		return r
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if n, ok := m.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					add(e.prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	e.allFn[pkg] = out
	return out
}

// isSpec tells whether a function is specification text (overlay file).
func (e *Engine) isSpec(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := fn.Pos()
	if !p.IsValid() {
		return false
	}
	return strings.HasPrefix(filepath.Base(e.fset.Position(p).Filename), "zz_govc_")
}

func (e *Engine) ctrName(c *Contract) string {
	if c == nil {
		return "?"
	}
	return c.name
}

// curCC finds the enclosing contract activation.
func curCC(fr *Frame) *ContractCtx {
	for f := fr; f != nil; f = f.parent {
		if f.cc != nil {
			return f.cc
		}
	}
	return nil
}

// oblige records a proof obligation.
func (e *Engine) oblige(fr *Frame, st *State, name string, goal *Term, pos token.Pos) {
	if e.dry > 0 || st.dead {
		return
	}
	if goal == tTrue {
		e.obls = append(e.obls, &Obligation{contract: e.ctrName(e.cur), name: name, goal: goal, pos: e.pos(pos), res: solveResult{status: "unsat", solver: "simplifier"}})
		return
	}
	e.obls = append(e.obls, &Obligation{contract: e.ctrName(e.cur), name: name, facts: st.facts(), goal: goal, pos: e.pos(pos), trail: st.trail()})
}

func (e *Engine) typeName(t types.Type) string {
	return stripArgs(typeKey(t))
}

var _ = fmt.Sprint
