package main

// Exploration: a pool of workers, each with its own machine and solver, runs the harness
// functions; idle workers are given decision prefixes of unexplored branches.

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Explorer struct{ coverAll bool }

type PathSample struct {
	Job    *Job
	Values map[string]uint64
	Obs    []Obs
	Covers []string
	hash   uint64
}

type Obs struct{ Name, Val string }

type Job struct {
	Name    string
	Harness string
	Params  map[string]int64
	fn      *ssa.Function

	mu          sync.Mutex
	forks       int
	decisions   int
	repaired    int
	recalled    int
	conc        int
	asserts     int
	trivial     int
	discharged  int
	steps       uint64
	paths       int
	infeasible  int
	inconcl     int
	notes       map[string]int
	covers      map[string]int
	viols       []*Violation
	violN       map[string]int
	samples     []PathSample
	sampleSeen  int
	maxSamples  int
	stopped     atomic.Bool
	unexplored  atomic.Int64
	outstanding atomic.Int64
	started     time.Time
	elapsed     time.Duration
	budget      time.Duration
	maxViol     int
	deadline    time.Time
	reached     map[string]bool
}

// jobDelta collects a worker's counters without locking.
func (j *Job) note(s string) {
	j.mu.Lock()
	j.notes[s]++
	j.mu.Unlock()
}

func (j *Job) violation(vm *VM, label string, m []uint64) {
	v := &Violation{Label: label, Values: vm.values(m)}
	root := vm.root
	root.mu.Lock()
	defer root.mu.Unlock()
	root.violN[label]++
	if root.violN[label] <= 2 {
		root.viols = append(root.viols, v)
	}
	// what is known to fail need not be explored to the end
	cutoff.CompareAndSwap(0, time.Now().Add(20*time.Second).UnixNano())
	n := 0
	for _, k := range root.violN {
		n += k
	}
	if n >= root.maxViol {
		root.stopped.Store(true)
	}
}

type task struct {
	job    *Job
	prefix []Decision
}

// cutoff is when exploration ends because of a violation, in ns; 0 if there is none.
var cutoff atomic.Int64

type Pool struct {
	p       *Program
	workers int
	argv    []string
	qto     time.Duration
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []task
	idle    atomic.Int32
	active  int
	vms     []*VM
	ex      *Explorer
	end     time.Time // no job runs beyond this, if set
}

func newPool(p *Program, workers int, argv []string, qto time.Duration) *Pool {
	pl := &Pool{p: p, workers: workers, argv: argv, qto: qto, ex: &Explorer{}}
	cutoff.Store(0)
	pl.cond = sync.NewCond(&pl.mu)
	return pl
}

func (pl *Pool) add(t task) {
	t.job.outstanding.Add(1)
	pl.mu.Lock()
	pl.queue = append(pl.queue, t)
	pl.mu.Unlock()
	pl.cond.Signal()
}

// run executes all queued jobs and returns when nothing is left to explore.
func (pl *Pool) run() {
	var wg sync.WaitGroup
	for len(pl.vms) < pl.workers {
		pl.vms = append(pl.vms, nil)
	}
	pl.active = pl.workers
	for w := 0; w < pl.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			pl.worker(w)
		}(w)
	}
	wg.Wait()
}

func (pl *Pool) next() (task, bool) {
	pl.mu.Lock()
	defer pl.mu.Unlock()
	pl.active--
	for len(pl.queue) == 0 {
		if pl.active == 0 {
			pl.cond.Broadcast()
			return task{}, false
		}
		pl.idle.Add(1)
		pl.cond.Wait()
		pl.idle.Add(-1)
	}
	t := pl.queue[0]
	pl.queue = pl.queue[1:]
	pl.active++
	return t, true
}

func (pl *Pool) worker(w int) {
	for {
		t, ok := pl.next()
		if !ok {
			return
		}
		vm := pl.vms[w]
		if vm == nil {
			vm = newVM(pl.p, pl.argv, pl.qto)
			vm.ex = pl.ex
			if err := vm.baseInit(); err != nil {
				fmt.Fprintln(os.Stderr, "base init:", err)
				t.job.note("engine: base init: " + err.Error())
				t.job.inconcl++
				pl.mu.Lock()
				pl.mu.Unlock()
				continue
			}
			pl.vms[w] = vm
		}
		pl.runTask(vm, t)
	}
}

// baseInit runs the package initialisers once; the resulting heap is every run's start.
func (vm *VM) baseInit() error {
	vm.base = true
	defer func() { vm.base = false }()
	vm.job = newJob("init", "", nil)
	vm.root = vm.job
	for _, path := range []string{"verif/harness/h", "verif/harness/api"} {
		pkg := vm.p.prog.ImportedPackage(path)
		if pkg == nil {
			if path == "verif/harness/api" {
				continue
			}
			return fmt.Errorf("package %s not loaded", path)
		}
		vm.frames = vm.frames[:0]
		vm.pushFunc(vm.p.compiled(pkg.Func("init")), nil, nil, -1)
		ab := vm.runPath()
		if ab.kind != abDone {
			return fmt.Errorf("%s", ab.reason)
		}
		if len(vm.dec) > 0 {
			return fmt.Errorf("symbolic decision during initialisation")
		}
	}
	vm.trail = nil
	vm.snaps = nil
	vm.epochC++
	vm.epoch = vm.epochC
	vm.st = vmState{}
	vm.blocks = map[*CFunc][]bool{}
	return nil
}

func newJob(name, harness string, params map[string]int64) *Job {
	return &Job{Name: name, Harness: harness, Params: params, notes: map[string]int{}, covers: map[string]int{},
		violN: map[string]int{}, reached: map[string]bool{}, maxViol: 12, maxSamples: 4}
}

func (vm *VM) resetCtx() {
	vm.ctx = newCtx()
	vm.sol.reset(vm.ctx)
	vm.ctxJob = nil
}

func (pl *Pool) runTask(vm *VM, t task) {
	root := t.job
	defer func() {
		if root.outstanding.Add(-1) == 0 {
			root.mu.Lock()
			root.elapsed = time.Since(root.started)
			root.mu.Unlock()
		}
	}()
	root.mu.Lock()
	if root.started.IsZero() {
		root.started = time.Now()
		if root.budget > 0 && root.deadline.IsZero() {
			root.deadline = root.started.Add(root.budget)
			if !pl.end.IsZero() && root.deadline.After(pl.end) {
				root.deadline = pl.end
			}
		}
	}
	deadline := root.deadline
	root.mu.Unlock()
	over := func() bool {
		if root.stopped.Load() || !deadline.IsZero() && time.Now().After(deadline) {
			return true
		}
		c := cutoff.Load()
		return c != 0 && time.Now().UnixNano() > c
	}
	if over() {
		root.unexplored.Add(1)
		return
	}
	if vm.ctxJob != root || vm.ctx.n > 2000000 {
		vm.resetCtx()
		vm.ctxJob = root
	}
	local := newJob(root.Name, root.Harness, root.Params)
	vm.job, vm.root, vm.params = local, root, root.Params
	vm.undo(0)
	vm.epochC++
	vm.epoch = vm.epochC
	vm.snaps = vm.snaps[:0]
	vm.path, vm.dec = nil, nil
	vm.dom, vm.known = nil, nil
	vm.model = nil
	vm.queue, vm.qi = t.prefix, 0
	vm.st = vmState{}
	vm.frames = vm.frames[:0]
	vm.iDec, vm.iPath, vm.iTrail = 0, 0, 0
	stopNow := false
	vm.stop = func() bool {
		if over() {
			stopNow = true
			return true
		}
		if pl.idle.Load() > 0 {
			pl.mu.Lock()
			n := len(pl.queue)
			pl.mu.Unlock()
			if n == 0 {
				if d := vm.donate(); d != nil {
					pl.add(task{root, d})
				}
			}
		}
		return false
	}
	vm.pushFunc(vm.p.compiled(root.fn), nil, nil, -1)
	defer func() {
		root.mu.Lock()
		defer root.mu.Unlock()
		root.forks += local.forks
		root.decisions += local.decisions
		root.repaired += local.repaired
		root.recalled += local.recalled
		root.conc += local.conc
		root.asserts += local.asserts
		root.trivial += local.trivial
		root.discharged += local.discharged
		root.steps += local.steps
		root.paths += local.paths
		root.infeasible += local.infeasible
		root.inconcl += local.inconcl
		for k, n := range local.notes {
			root.notes[k] += n
		}
		for k, n := range local.covers {
			root.covers[k] += n
		}
		for cf, b := range vm.blocks {
			for i, x := range b {
				if x {
					root.reached[fmt.Sprintf("%s#%d", cf.name, i)] = true
				}
			}
		}
		vm.blocks = map[*CFunc][]bool{}
	}()
	last := uint64(0)
	for {
		ab := vm.runPath()
		if vm.st.steps > last {
			local.steps += vm.st.steps - last
		}
		switch ab.kind {
		case abDone:
			if ab.reason == "" {
				vm.endPath(root, local)
			} else {
				local.paths++
			}
		case abInfeasible:
			local.infeasible++
		default:
			if stopNow {
				root.unexplored.Add(int64(1 + len(vm.snaps)))
				return
			}
			local.inconcl++
			local.note(ab.reason)
		}
		if vm.stop() {
			root.unexplored.Add(int64(len(vm.snaps)))
			return
		}
		if !vm.backtrack() {
			return
		}
		last = vm.st.steps
	}
}

func (vm *VM) endPath(root, local *Job) {
	local.paths++
	for _, c := range vm.st.covers {
		local.covers[c]++
	}
	h := uint64(14695981039346656037)
	for _, d := range vm.dec {
		h = (h ^ (d.val + uint64(d.kind)*131)) * 1099511628211
	}
	h ^= h >> 29
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 32
	// keep the paths with the smallest hashes: independent of scheduling
	root.mu.Lock()
	n := len(root.samples)
	keep := n < root.maxSamples || h < root.samples[n-1].hash
	root.mu.Unlock()
	if !keep {
		return
	}
	r, m := vm.sol.Check(vm.path, nil, true)
	if r == Unsat {
		local.note("engine: completed path is unsatisfiable")
		local.inconcl++
		return
	}
	if r == Unknown {
		if vm.model == nil {
			return
		}
		m = vm.model
	}
	s := PathSample{Job: root, Values: vm.values(m), Covers: vm.st.covers, hash: h}
	for _, o := range vm.st.observes {
		s.Obs = append(s.Obs, Obs{o.name, vm.evalString(o.v, m)})
	}
	root.mu.Lock()
	root.samples = append(root.samples, s)
	sort.Slice(root.samples, func(i, j int) bool { return root.samples[i].hash < root.samples[j].hash })
	if len(root.samples) > root.maxSamples {
		root.samples = root.samples[:root.maxSamples]
	}
	root.mu.Unlock()
}

func (vm *VM) evalString(v Value, m []uint64) string {
	b := strBytes(v)
	out := make([]byte, len(b))
	for i := range b {
		if b[i].t != nil {
			out[i] = byte(vm.ctx.Eval(b[i].t, m))
		} else {
			out[i] = b[i].c
		}
	}
	return string(out)
}

func (j *Job) exhausted() bool { return j.unexplored.Load() == 0 && !j.stopped.Load() }

func (j *Job) summary() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s: paths=%d infeasible=%d inconclusive=%d forks=%d asserts=%d trivial=%d discharged=%d steps=%d unexplored=%d time=%.1fs", j.Name,
		j.paths, j.infeasible, j.inconcl, j.forks, j.asserts, j.trivial, j.discharged, j.steps, j.unexplored.Load(), j.elapsed.Seconds())
	for k, n := range j.covers {
		fmt.Fprintf(&sb, "\n    cover %s: %d", k, n)
	}
	for k, n := range j.notes {
		fmt.Fprintf(&sb, "\n    note x%d: %s", n, k)
	}
	for _, v := range j.viols {
		fmt.Fprintf(&sb, "\n    VIOL %s %v", v.Label, v.Values)
	}
	return sb.String()
}
