package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Each contract is verified in a process of its own (the term store is global),
// several at a time; solver processes are limited across all of them by lock files.

type shardObl struct {
	Contract, Name, Pos, Trail, Goal string
	Status, Solver, Out              string
	Dur                              float64
	Canary                           bool
}

type shardResult struct {
	Key, Name  string
	Err        string
	Obls       []shardObl
	UsedCtr    map[string]int
	UsedModel  map[string]int
	Unknown    map[string]int
	Inlined    map[string]int
	LoopInv    map[string]int
	SolverTime int64
	Calls      int64
	Symbolic   float64
	Wall       float64
}

var lockDir string

// acquireSlot takes one of the machine-wide solver slots.
func acquireSlot() func() {
	solverSem <- struct{}{}
	if lockDir == "" {
		return func() { <-solverSem }
	}
	for {
		for i := 0; i < cap(solverSem); i++ {
			f, err := os.OpenFile(filepath.Join(lockDir, fmt.Sprintf("slot%d", i)), os.O_CREATE|os.O_RDWR, 0o644)
			if err != nil {
				return func() { <-solverSem }
			}
			if syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
				return func() { f.Close(); <-solverSem }
			}
			f.Close()
		}
		time.Sleep(3 * time.Millisecond)
	}
}

// verifyOne verifies one contract and discharges its obligations.
func (e *Engine) verifyOne(c *Contract, quick, full int) *shardResult {
	t0 := time.Now()
	r := &shardResult{Key: c.kind + c.name, Name: c.name}
	if err := e.verify(c); err != nil {
		r.Err = err.Error()
		e.obls = nil
	}
	r.Symbolic = time.Since(t0).Seconds()
	e.discharge(quick, full)
	for _, o := range e.obls {
		so := shardObl{Contract: o.contract, Name: o.name, Pos: o.pos, Trail: o.trail, Status: o.res.status, Solver: o.res.solver, Dur: o.res.dur.Seconds(), Canary: o.canary}
		if o.res.status != "unsat" && !o.canary {
			so.Goal = fmt.Sprint(o.goal)
			if so.Out = o.res.out; len(so.Out) > 2000 {
				so.Out = so.Out[:2000]
			}
		}
		r.Obls = append(r.Obls, so)
	}
	r.UsedCtr, r.UsedModel, r.Unknown, r.Inlined, r.LoopInv = e.usedCtr, e.usedModel, e.unknown, e.inlined, e.loopInv
	r.SolverTime, r.Calls = atomic.LoadInt64(&solverTime), atomic.LoadInt64(&solverCalls)
	r.Wall = time.Since(t0).Seconds()
	return r
}

// runShards verifies the given contracts, and those they rely on, in child processes.
func runShards(args []string, work []*Contract, contracts map[string]*Contract, report func(*shardResult)) {
	self, err := os.Executable()
	if err != nil {
		die(2, "%v", err)
	}
	done := map[string]bool{}
	results := make(chan *shardResult)
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	pending := 0
	start := func(c *Contract) {
		key := c.kind + c.name
		if done[key] {
			return
		}
		done[key] = true
		pending++
		wg.Add(1)
		n := len(done)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			out := filepath.Join(workDir, fmt.Sprintf("shard%d.json", n))
			cmd := exec.Command(self, append(append([]string{}, args...), "-one", key, "-out", out, "-locks", lockDir)...)
			cmd.Stderr = os.Stderr
			err := cmd.Run()
			r := &shardResult{Key: key, Name: c.name}
			b, rerr := os.ReadFile(out)
			if rerr != nil || json.Unmarshal(b, r) != nil {
				r.Err = fmt.Sprintf("verifier process failed: %v %v", err, rerr)
			}
			results <- r
		}()
	}
	for _, c := range work {
		start(c)
	}
	for pending > 0 {
		r := <-results
		pending--
		for _, n := range sortedKeys(r.UsedCtr) {
			if d := contracts[n]; d != nil {
				start(d)
			}
		}
		report(r)
	}
	wg.Wait()
}
