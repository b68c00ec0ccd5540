package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// propCfg is one entry of contracts/props.json.
type propCfg struct {
	Files      []string `json:"files"`       // overlay specification files
	Replay     string   `json:"replay"`      // name of the replay harness (replay/<name>_test.go)
	ReplayWith []string `json:"replay_with"` // further files of the replay harness
	Pkg        string   `json:"pkg"`         // package of the replay harness
	Bounded    []string `json:"bounded"`     // bounded stand-ins run by the replay harness on every run
	Lemmas     []string `json:"lemmas"`      // bit-vector lemmas
	Assume     []string `json:"assume"`      // extra assumptions to report
	Always     bool     `json:"always"`      // run the replay harness on every run (bounded part)
	Quick      int      `json:"quick"`
	Full       int      `json:"full"`
}

type knownFinding struct {
	Property   string `json:"property"`
	ID         string `json:"id"`
	What       string `json:"what"`
	Input      string `json:"input"`
	Status     string `json:"status"`     // known, fixed
	Obligation string `json:"obligation"` // regexp of contract/obligation names that fail because of it (optional)
}

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("only", "", "regexp of contracts to verify (debugging)")
	dump := flag.String("dump", "", "dump SSA of a function")
	noReplay := flag.Bool("noreplay", false, "no replay")
	verbose := flag.Bool("v", false, "verbose")
	seed := flag.Int("seed", 1, "seed")
	one := flag.String("one", "", "verify one contract (child process)")
	outFile := flag.String("out", "", "result of -one")
	locks := flag.String("locks", "", "directory of solver slots")
	until := flag.Int64("until", 0, "unix time after which no long proof attempt starts")
	flag.Parse()
	t0 := time.Now()
	limit := 420 * time.Second
	if *tier == "thorough" {
		limit = 3000 * time.Second
	}
	deadline = t0.Add(limit)
	if *until != 0 {
		deadline = time.Unix(*until, 0)
	}
	var err error
	workDir, err = os.MkdirTemp("", "govc")
	if err != nil {
		die(2, "%v", err)
	}
	defer cleanWork()

	var props map[string]*propCfg
	b, err := os.ReadFile(filepath.Join(*verif, "contracts", "props.json"))
	if err != nil {
		die(2, "%v", err)
	}
	if err := json.Unmarshal(b, &props); err != nil {
		die(2, "props.json: %v", err)
	}
	if *dump != "" {
		l, err := loadRepo(*repo, filepath.Join(*verif, "contracts"), nil)
		if err != nil {
			die(2, "%v", err)
		}
		e := newEngine()
		e.prog = l.prog
		e.fset = l.pkgs[0].Fset
		for _, sp := range l.spkgs {
			for _, f := range e.allFuncs(sp) {
				if strings.Contains(fnName(f), *dump) || f.Parent() != nil && strings.Contains(f.RelString(nil), *dump) {
					fmt.Println("#", fnName(f))
					f.WriteTo(os.Stdout)
				}
			}
		}
		cleanWork()
		return
	}
	cfg := props[*prop]
	if cfg == nil {
		die(2, "unknown property %s", *prop)
	}
	quick, full := 5, 25
	if *tier == "thorough" {
		quick, full = 10, 120
	}
	if cfg.Quick > 0 {
		quick = cfg.Quick
	}
	if cfg.Full > 0 && *tier != "thorough" {
		full = cfg.Full
	}

	e := newEngine()
	e.repo = *repo
	type failure struct{ contract, obl, detail string }
	var fails []failure
	var verified []string
	l, lerr := loadRepo(*repo, filepath.Join(*verif, "contracts"), cfg.Files)
	var all []*Contract
	if lerr != nil {
		fails = append(fails, failure{"(load)", "specification type-checks against the current source", lerr.Error()})
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					fails = append(fails, failure{"(load)", "collect", fmt.Sprint(r)})
				}
			}()
			all = e.collect(l)
		}()
	}
	fmt.Fprintf(os.Stderr, "[%.1fs] loaded\n", time.Since(t0).Seconds())
	if *one != "" {
		lockDir = *locks
		for _, c := range all {
			if c.kind+c.name == *one {
				r := e.verifyOne(c, quick, full)
				b, _ := json.Marshal(r)
				if err := os.WriteFile(*outFile, b, 0o644); err != nil {
					die(2, "%v", err)
				}
				cleanWork()
				return
			}
		}
		die(2, "no contract %s", *one)
	}
	var onlyRe *regexp.Regexp
	if *only != "" {
		onlyRe = regexp.MustCompile(*only)
	}
	var work []*Contract
	for _, c := range all {
		if c.kind == "model" || onlyRe != nil && !onlyRe.MatchString(c.name) {
			continue
		}
		for _, p := range c.props {
			if p == *prop {
				work = append(work, c)
			}
		}
	}
	lockDir = workDir
	reach := e.contracts
	if onlyRe != nil {
		reach = nil
	}
	var obls []shardObl
	lemmaDone := make(chan []shardObl, 1)
	go func() {
		var out []shardObl
		if onlyRe == nil {
			for _, lm := range cfg.Lemmas {
				name, res := bvLemma(lm)
				out = append(out, shardObl{Contract: "lemma:" + lm, Name: name, Status: res.status, Solver: res.solver, Dur: res.dur.Seconds(), Out: res.out})
			}
		}
		lemmaDone <- out
	}()
	merge := func(d, s map[string]int) {
		for k, v := range s {
			d[k] += v
		}
	}
	var shards []*shardResult
	runShards([]string{"-prop", *prop, "-tier", *tier, "-repo", *repo, "-verif", *verif, "-until", fmt.Sprint(deadline.Unix())}, work, reach, func(r *shardResult) {
		shards = append(shards, r)
		if *verbose {
			fmt.Fprintf(os.Stderr, "  %-50s %4d obligations, %.1fs symbolic, %.1fs\n", r.Name, len(r.Obls), r.Symbolic, r.Wall)
		}
	})
	sort.Slice(shards, func(i, j int) bool { return shards[i].Key < shards[j].Key })
	for _, r := range shards {
		if r.Err != "" {
			fails = append(fails, failure{r.Name, "contract is within the verifier's reach", r.Err})
			fmt.Fprintf(os.Stderr, "  %s: UNDECIDED %v\n", r.Name, r.Err)
		} else {
			verified = append(verified, r.Name)
		}
		obls = append(obls, r.Obls...)
		merge(e.usedCtr, r.UsedCtr)
		merge(e.usedModel, r.UsedModel)
		merge(e.unknown, r.Unknown)
		merge(e.inlined, r.Inlined)
		merge(e.loopInv, r.LoopInv)
		solverTime += r.SolverTime
		solverCalls += r.Calls
	}
	obls = append(obls, <-lemmaDone...)
	nObl, nDis := 0, 0
	bySolver := map[string]int{}
	for _, o := range obls {
		if o.Canary {
			if o.Status == "skip" {
				continue
			}
			if o.Status == "vacuous" {
				fails = append(fails, failure{o.Contract, o.Name, "every path to this point is contradictory: the contract proves nothing"})
			}
			continue
		}
		nObl++
		if o.Status == "unsat" {
			nDis++
			bySolver[o.Solver]++
			continue
		}
		fails = append(fails, failure{o.Contract, o.Name, fmt.Sprintf("at %s; path %s; solver %s says %s\n  goal: %s", o.Pos, o.Trail, o.Solver, o.Status, o.Goal)})
	}
	fmt.Fprintf(os.Stderr, "[%.1fs] %d/%d discharged %v; solver %.1fs in %d calls\n", time.Since(t0).Seconds(), nDis, nObl, bySolver, float64(atomic.LoadInt64(&solverTime))/1e9, atomic.LoadInt64(&solverCalls))
	if *verbose {
		ts := append([]shardObl{}, obls...)
		sort.Slice(ts, func(i, j int) bool { return ts[i].Dur > ts[j].Dur })
		for i := 0; i < 12 && i < len(ts); i++ {
			if ts[i].Dur > 0.5 {
				fmt.Fprintf(os.Stderr, "    %.1fs %s %s [%s]\n", ts[i].Dur, ts[i].Contract, ts[i].Name, ts[i].Solver)
			}
		}
		for _, n := range sortedKeys(e.unknown) {
			fmt.Fprintf(os.Stderr, "    unmodelled: %s x%d\n", n, e.unknown[n])
		}
	}
	if onlyRe == nil && len(fails) == 0 && len(verified) == 0 {
		fails = append(fails, failure{"(none)", "at least one contract is verified", "no contract carries this property"})
	}
	seenF := map[string]bool{}
	nShown := 0
	for _, f := range fails {
		k := f.contract + "|" + f.obl
		if seenF[k] && !*verbose {
			continue
		}
		seenF[k] = true
		nShown++
		if nShown < 40 {
			d := f.detail
			if len(d) > 420 && !*verbose {
				d = d[:420] + "…"
			}
			fmt.Fprintf(os.Stderr, "FAILED %s :: %s\n  %s\n", f.contract, f.obl, d)
		}
	}

	// known findings
	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(*verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			die(2, "known-findings.json: %v", err)
		}
	}

	violations := 0
	var replayInfo map[string]any
	exit := 0
	runReplay := (len(fails) > 0 || cfg.Always) && !*noReplay && cfg.Replay != ""
	var rr replayResult
	if runReplay {
		rr = replay(*repo, *verif, cfg, *seed, *tier, *prop)
		replayInfo = map[string]any{"harness": cfg.Replay, "result": rr.status, "cases": rr.cases, "label": "bounded"}
	}
	for _, k := range known {
		if k.Property == *prop && k.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", *prop, k.What, k.Input)
		}
	}
	if len(fails) > 0 || rr.status == "failing-input" {
		violations = 1
		exit = 1
		rdir := filepath.Join(*verif, "replays")
		_ = os.MkdirAll(rdir, 0o755)
		rp := filepath.Join(rdir, *prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n", *prop)
		for _, f := range fails {
			fmt.Fprintf(&sb, "\nfailed obligation: %s :: %s\n  %s\n", f.contract, f.obl, f.detail)
		}
		for _, o := range obls {
			if !o.Canary && o.Status != "unsat" && o.Out != "" {
				fmt.Fprintf(&sb, "\nverifier output for %s :: %s\n%s\n", o.Contract, o.Name, o.Out)
				break
			}
		}
		fmt.Fprintf(&sb, "\nreplay on the real code (%s): %s\n%s\n", cfg.Replay, rr.status, rr.out)
		_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
		if len(fails) == 0 {
			fmt.Fprintf(os.Stderr, "bounded stand-in found a failing input although every obligation discharged\n")
		}
		if rr.status == "failing-input" {
			fmt.Fprintln(os.Stderr, rr.input)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
		} else {
			if len(fails) > 0 {
				fmt.Printf("failed obligation: %s :: %s\n", fails[0].contract, fails[0].obl)
			}
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, rp)
		}
	}
	// evidence
	inl := sortedKeys(e.inlined)
	var trusted []string
	for _, n := range sortedKeys(e.usedModel) {
		trusted = append(trusted, "assumed contract (model): "+n)
	}
	for _, n := range sortedKeys(e.unknown) {
		trusted = append(trusted, "external treated as arbitrary result, no effect on modelled state: "+n)
	}
	trusted = append(trusted, "govc: verification-condition generator over go/ssa (x/tools v0.52.0)", "SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "axiomatisation of byte strings, slices and maps in /verif/govc/smt.go")
	assume := append([]string{
		"int and uint arithmetic on lengths and counters is mathematical (no 64-bit overflow); fixed-width integers wrap exactly",
		"slices, maps and interfaces supplied by callers are well-formed Go values",
	}, cfg.Assume...)
	used := []string{}
	for _, n := range sortedKeys(e.usedCtr) {
		used = append(used, n)
	}
	var invs []string
	for _, n := range sortedKeys(e.loopInv) {
		invs = append(invs, fmt.Sprintf("%s: %d", n, e.loopInv[n]))
	}
	cov := map[string]any{
		"obligations": nObl, "discharged": nDis,
		"checker_cmd":                fmt.Sprintf("/verif/check.sh %s %s", *prop, *tier),
		"trusted_base":               trusted,
		"functions_under_contract":   verified,
		"contracts_used_at_calls":    used,
		"functions_inlined_verified": inl,
		"loop_invariants":            invs,
		"discharged_by":              bySolver,
		"solver_seconds":             float64(atomic.LoadInt64(&solverTime)) / 1e9,
		"solver_calls":               atomic.LoadInt64(&solverCalls),
	}
	if replayInfo != nil {
		cov["bounded_replay"] = replayInfo
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "proof", "coverage": cov,
		"assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if *only == "" {
		if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), eb, 0o644); err != nil {
			die(2, "%v", err)
		}
	}
	if exit == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d wall=%.1fs\n", *prop, nObl, nDis, time.Since(t0).Seconds())
	}
	cleanWork()
	os.Exit(exit)
}

type replayResult struct {
	status string // failing-input, no-failing-input, error, ""
	input  string
	out    string
	cases  int
}

// replay runs the concrete harness against the real code (overlay test).
func replay(repo, verif string, cfg *propCfg, seed int, tier, prop string) replayResult {
	dir := cfg.Pkg
	if dir == "" {
		dir = "."
	}
	ov := map[string]map[string]string{"Replace": {}}
	add := func(name string) {
		ov["Replace"][filepath.Join(repo, dir, "zz_replay_"+name+"_test.go")] = filepath.Join(verif, "replay", dir, name+"_test.go")
	}
	add(cfg.Replay)
	if _, err := os.Stat(filepath.Join(verif, "replay", dir, "common_test.go")); err == nil && cfg.Replay != "common" {
		add("common")
	}
	for _, m := range cfg.ReplayWith {
		add(m)
	}
	ob, _ := json.Marshal(ov)
	of := filepath.Join(workDir, "overlay.json")
	if err := os.WriteFile(of, ob, 0o644); err != nil {
		return replayResult{status: "error", out: err.Error()}
	}
	scratch := filepath.Join(workDir, "scratch")
	_ = os.MkdirAll(scratch, 0o755)
	cmd := exec.Command("/usr/lib/go-1.21/bin/go", "test", "-overlay", of, "-count=1", "-vet=off", "-timeout", "240s", "-run", "^TestReplay"+strings.ToUpper(cfg.Replay[:1])+cfg.Replay[1:]+"$", "-v", "./"+dir)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "PATH=/usr/lib/go-1.21/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off",
		fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "VERIF_SCRATCH="+scratch, "TMPDIR="+scratch, "VERIF_PROP="+prop)
	out, err := cmd.CombinedOutput()
	s := string(out)
	r := replayResult{out: s}
	if len(r.out) > 6000 {
		r.out = r.out[:3000] + "\n...\n" + r.out[len(r.out)-3000:]
	}
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "FAILING-INPUT:"); i >= 0 {
			r.status = "failing-input"
			r.input = l[i:]
			break
		}
		if i := strings.Index(l, "REPLAY-CASES:"); i >= 0 {
			fmt.Sscanf(l[i+len("REPLAY-CASES:"):], "%d", &r.cases)
		}
	}
	if r.status == "" {
		if err != nil {
			r.status = "error"
		} else {
			r.status = "no-failing-input"
		}
	}
	return r
}

func cleanWork() {
	if os.Getenv("GOVC_KEEP") == "" {
		os.RemoveAll(workDir)
	}
}
