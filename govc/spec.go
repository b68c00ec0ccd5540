package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const intrinsicsSrc = `
func vRequires(name string, cond bool)          {}
func vEnsures(name string, cond bool)           {}
func vAssert(name string, cond bool)            {}
func vCanary(name string)                       {}
func vAssume(cond bool)                         {}
func vUnreachable()                             {}
func vBody()                                    {}
func vBody1[A any]() (a A)                      { return }
func vBody2[A, B any]() (a A, b B)              { return }
func vBody3[A, B, C any]() (a A, b B, c C)      { return }
func vNoPanic()                                 {}
func vPrune()                                   {}
func vUse() bool                                { return false }
func vAny[T any]() (t T)                        { return }
func vForall[A any](f func(A) bool) bool        { return false }
func vForall2[A, B any](f func(A, B) bool) bool { return false }
func vForall3[A, B, C any](f func(A, B, C) bool) bool { return false }
func vPure(f func() bool) bool                  { return false }
func vInv(name string, f any)                   {}
func vModSlice(s any)                           {}
func vModObj(p any)                             {}
func vModMap(m any)                             {}
func vModGhost(name string)                     {}
func vForget(prefix string)                     {}
func vModMem(prefix string)                     {}
func vModMemFrom(prefix string, wm int)         {}
func vModGhostObj(name string, ref any)         {}
func vGet[T any](name string) (t T)             { return }
func vSet[T any](name string, v T)              {}
func vObjGet[T any](name string, ref any) (t T) { return }
func vObjSet[T any](name string, ref any, v T)  {}
func vNew[T any]() (t T)                        { return }
func vRef(x any) int                            { return 0 }
func vArr(s any) int                            { return 0 }
func vOff(s any) int                            { return 0 }
func vWM() int                                  { return 0 }
func vEntryWM() int                             { return 0 }
func vAppend(b []byte, s string) []byte         { return nil }
func vBytesOf(s string) []byte                  { return nil }
func vStoreInto(b []byte, s string)             {}
func vBind(f any, clo any)                      {}
func vHold(b any, s string)                     {}
func vVisited(m any, k any) bool                { return false }
func vHas(m any, k any) bool                    { return false }
func vMapGet[V any](m any, k any) (v V)         { return }
func vIsNilMap(m any) bool                      { return false }
func vLockState(l any) int                      { return 0 }
func vLockSet(l any, v int)                     {}
func vLockDiscipline()                          {}
func vOnLock(l any, f func())                   {}
func vOnUnlock(l any, f func())                 {}
func vGuardMap(m any, l any)                    {}
func vSwap(s any, i, j int)                     {}
func vSliceLen(s any) int                       { return 0 }
func vDecodeInto(p any, data string)            {}
func vRowOf[T any](data string) (t T)           { return }
func vDerefRow(p any) string                    { return "" }
func vSerOf[T any](t T) string                  { return "" }
func vBigVal(p any) int                         { return 0 }
func vBigSet(p any, v int)                      {}
func vBigBytes(v int, n int) string             { return "" }
func vComplement(s string) string               { return "" }
func vPow256(n int) int                         { return 0 }
func vEq(a, b any) bool                         { return false }
func vSameRef(a, b any) bool                    { return false }
func vIsNil(a any) bool                         { return false }
func vBe16(v uint16) string                     { return "" }
func vSkolem[T any](name string) (t T)          { return }
func vBe32(v uint32) string                     { return "" }
func vBe64(v uint64) string                     { return "" }
func vImp(a, b bool) bool                       { return false }
func vIte[T any](c bool, a, b T) (t T)          { return }
func vStrAt(s string, i int) int                { return 0 }
func vFresh[T any]() (t T)                      { return }
func vMapCopy(dst, src any)                     {}
func vFreshErr() error                          { return nil }
`

type loaded struct {
	prog  *ssa.Program
	pkgs  []*packages.Package
	spkgs []*ssa.Package
	errs  []string
}

// loadRepo loads the packages of the repository with the given overlay spec files
// (contract path relative to the contracts directory, e.g. "keys.go" or "bloom/x.go").
func loadRepo(repo, contractsDir string, files []string) (*loaded, error) {
	os.Setenv("PATH", "/usr/lib/go-1.21/bin:"+os.Getenv("PATH"))
	overlay := map[string][]byte{}
	dirs := map[string]string{}
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(contractsDir, f))
		if err != nil {
			return nil, err
		}
		d := filepath.Dir(f)
		pn := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b)
		if pn == nil {
			return nil, fmt.Errorf("%s: no package clause", f)
		}
		dirs[d] = string(pn[1])
		overlay[filepath.Join(repo, d, "zz_govc_"+filepath.Base(f))] = b
	}
	for d, pn := range dirs {
		overlay[filepath.Join(repo, d, "zz_govc_00intrinsics.go")] = []byte("package " + pn + "\n" + intrinsicsSrc)
	}
	patterns := []string{"."}
	for d := range dirs {
		if d != "." {
			patterns = append(patterns, "./"+d)
		}
	}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir:     repo,
		Env:     append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off"),
		Overlay: overlay,
	}
	// in-repo dependencies also in source form
	pats := map[string]bool{}
	for _, p := range patterns {
		pats[p] = true
	}
	for _, p := range []string{"./bloom", "./filters", "./cond", "./utils", "./serializers"} {
		if st, err := os.Stat(filepath.Join(repo, p[2:])); err == nil && st.IsDir() {
			m, _ := filepath.Glob(filepath.Join(repo, p[2:], "*.go"))
			if len(m) > 0 && !pats[p] {
				patterns = append(patterns, p)
			}
		}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	l := &loaded{pkgs: pkgs}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			l.errs = append(l.errs, e.Error())
		}
	}
	if len(l.errs) > 0 {
		return l, fmt.Errorf("load errors: %s", strings.Join(l.errs, "; "))
	}
	l.prog, l.spkgs = ssautil.Packages(pkgs, ssa.BuilderMode(0))
	l.prog.Build()
	return l, nil
}

// collect reads the contract directives of the overlay files.
func (e *Engine) collect(l *loaded) []*Contract {
	var out []*Contract
	e.prog = l.prog
	e.fset = l.pkgs[0].Fset
	byName := map[string]*ssa.Function{}
	for _, sp := range l.spkgs {
		if sp == nil {
			continue
		}
		for _, f := range e.allFuncs(sp) {
			if f.Parent() == nil {
				byName[fnName(f)] = f
			}
		}
	}
	e.byName = byName
	for i, p := range l.pkgs {
		sp := l.spkgs[i]
		for k, f := range p.Syntax {
			fname := p.CompiledGoFiles[k]
			fname = e.fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fname), "zz_govc_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				var cs []*Contract
				var props []string
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if !strings.HasPrefix(t, "govc:") {
						continue
					}
					fl := strings.Fields(t)
					arg := strings.TrimSpace(strings.TrimPrefix(t, fl[0]))
					switch fl[0] {
					case "govc:contract", "govc:model", "govc:lemma":
						cs = append(cs, &Contract{name: arg, kind: strings.TrimPrefix(fl[0], "govc:"), file: filepath.Base(fname)})
					case "govc:uf":
						o := p.TypesInfo.Defs[fd.Name].(*types.Func)
						e.ufs[fnName(l.prog.FuncValue(o))] = true
					case "govc:props":
						props = append(props, fl[1:]...)
					case "govc:split":
					default:
						panic("unknown directive " + t)
					}
				}
				if len(cs) == 0 {
					continue
				}
				o := p.TypesInfo.Defs[fd.Name].(*types.Func)
				fn := sp.Prog.FuncValue(o)
				for _, c := range cs {
					c.fn = fn
					c.props = props
					out = append(out, c)
				}
			}
		}
	}
	for _, c := range out {
		switch c.kind {
		case "model":
			e.models[c.name] = c
		case "contract":
			if byName[c.name] == nil {
				c.status = "missing target"
			} else if why := sigMismatch(byName[c.name], c.fn); why != "" {
				c.status = why
			}
			e.contracts[c.name] = c
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func sigMismatch(target, spec *ssa.Function) string {
	if len(target.Params) != len(spec.Params) {
		return fmt.Sprintf("signature mismatch: target has %d parameters, contract %d", len(target.Params), len(spec.Params))
	}
	return ""
}

// verify runs one contract, again when ghost state turned out to exist only after
// a call had already been assumed to leave what is known of it unchanged.
func (e *Engine) verify(c *Contract) (err error) {
	for i := 0; ; i++ {
		n := len(e.obls)
		e.again = false
		e.earlyMem = map[string]bool{}
		e.earlyHavoc = map[string]bool{}
		err = e.verify1(c)
		if !e.again || i > 8 {
			if e.again {
				return fmt.Errorf("ghost state keeps growing")
			}
			return err
		}
		e.obls = e.obls[:n]
	}
}

// verify1 runs one contract (or lemma) and appends its obligations.
func (e *Engine) verify1(c *Contract) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok && os.Getenv("GOVC_PANIC") != "2" {
				err = u
				return
			}
			if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
			err = fmt.Errorf("internal: %v", r)
		}
	}()
	e.cur = c
	e.prune = false
	e.guards = nil
	e.lockHooks = nil
	e.dry, e.cheap = 0, 0
	e.steps = 0
	e.loopCache = map[string]*loopMemo{}
	e.houCache, e.houSeen = map[string]*houMemo{}, map[string]int{}
	start := len(e.obls)
	if c.status != "" {
		return fmt.Errorf("%s", c.status)
	}
	st := &State{comps: map[string]*Term{}, cells: map[int]Val{}, regs: map[ssa.Value]Val{}, binds: map[*Term]Val{}, lits: map[*Term]bool{}}
	st.wm = freshVar("wm0", SInt)
	e.wm0 = st.wm
	st.assume(mkLe(mkInt(1), st.wm))
	cc := &ContractCtx{c: c}
	if c.kind == "contract" {
		cc.target = e.byName[c.name]
	}
	env := tenv{}
	var args []Val
	for i, p := range c.fn.Params {
		hint := p.Name()
		if cc.target != nil {
			hint = cc.target.Params[i].Name()
		}
		args = append(args, e.freshVal(st, p.Type(), hint))
	}
	cc.args = args
	outs := e.callFn(c.fn, env, args, nil, st, nil, cc, false)
	e.prune = false
	live := 0
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		live++
	}
	if live == 0 && c.kind != "lemma" {
		return fmt.Errorf("no feasible path reaches the end of the contract")
	}
	if c.kind == "contract" && !cc.bodyRun {
		return fmt.Errorf("contract never runs the body")
	}
	// vacuity canaries: one of the outcomes must be satisfiable
	n := 0
	for _, o := range outs {
		if o.st.dead || n >= 40 {
			continue
		}
		n++
		e.obls = append(e.obls, &Obligation{contract: c.name, name: "canary:end", facts: o.st.facts(), goal: tFalse, canary: true})
	}
	if len(e.obls) == start {
		return fmt.Errorf("contract generated no obligations")
	}
	return nil
}

// discharge solves all pending obligations.
func (e *Engine) discharge(quick, full int) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	// canaries: per contract, stop at the first satisfiable one
	canaryOK := map[string]bool{}
	var mu sync.Mutex
	for _, o := range e.obls {
		if o.res.status != "" {
			continue
		}
		if o.canary {
			continue
		}
		if o.text == "" {
			o.text = buildQuery(o.facts, o.goal, false)
		}
	}
	for _, o := range e.obls {
		if o.res.status != "" || o.canary {
			continue
		}
		o := o
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			o.res = solve(o.text, quick, full)
			if d := os.Getenv("GOVC_KEEPFAIL"); d != "" && o.res.status != "unsat" {
				nm := regexp.MustCompile(`[^A-Za-z0-9]+`).ReplaceAllString(o.contract+"-"+o.name+o.pos, "_")
				_ = os.WriteFile(filepath.Join(d, nm+".smt2"), []byte(o.text), 0o644)
			}
		}()
	}
	wg.Wait()
	groups := map[string][]*Obligation{}
	for _, o := range e.obls {
		if o.canary && o.res.status == "" {
			k := o.contract + "|" + o.name
			groups[k] = append(groups[k], o)
		}
	}
	for _, k := range sortedKeys(groups) {
		os := groups[k]
		// a path is vacuous only if the solver proves its facts contradictory
		for _, o := range os {
			txt := buildQuery(o.facts, tFalse, false)
			r := solve(txt, 2, 0)
			if r.status != "unsat" {
				mu.Lock()
				canaryOK[k] = true
				mu.Unlock()
				break
			}
		}
		st := "unsat"
		if !canaryOK[k] {
			st = "vacuous"
		}
		for i, o := range os {
			o.res = solveResult{status: st, solver: "canary"}
			if i > 0 {
				o.res.status = "skip"
			}
		}
	}
	_ = time.Now
}
