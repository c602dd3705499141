package main

// The check runner: engine check ID TIER | engine try HARNESS [k=v...] | engine replay FILE

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
	solverZ3 = []string{"z3-new", "-in"}
	solver2  = []string{"cvc5", "--incremental", "--produce-models", "--global-declarations", "--lang=smt2", "--tlimit-per=60000"}
)

type JobSpec struct {
	Harness string
	Params  map[string]int64
	Budget  int // seconds
	Samples int
}

type Check struct {
	ID         string
	Clock      bool
	API        bool // needs the harnesses of package api
	Quick      []JobSpec
	Deep       []JobSpec
	Bounds     string
	DeepBounds string
	Outside    string
	Covers     []string // witnesses that must be reached

	Fallback       []JobSpec // if the harnesses of package api do not fit the packages
	FallbackBounds string
}

func P(kv ...any) map[string]int64 {
	m := map[string]int64{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = int64(kv[i+1].(int))
	}
	return m
}

type native struct {
	dir     string
	bin     string
	clocked string
	replay  string
	err     error
	once    sync.WaitGroup
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
}

func run(dir string, argv ...string) error {
	c := exec.Command(argv[0], argv[1:]...)
	c.Dir = dir
	c.Env = goEnv()
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%s: %v\n%s", strings.Join(argv, " "), err, out)
	}
	return nil
}

// modfile writes the harness module file, pointing at the repository under test.
func modfile(dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness/go.mod"))
	if err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return "", err
	}
	b = bytes.Replace(b, []byte("=> /repo"), []byte("=> "+repoDir), 1)
	f := filepath.Join(dir, "harness.mod")
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return "", err
	}
	return f, os.WriteFile(filepath.Join(dir, "harness.sum"), sum, 0o644)
}

// buildNative builds the program under test and the replayer.
func buildNative(dir, mod string, clock, api bool) *native {
	n := &native{dir: dir, bin: filepath.Join(dir, "gledger"), replay: filepath.Join(dir, "replay")}
	n.once.Add(1)
	go func() {
		defer n.once.Done()
		var wg sync.WaitGroup
		var mu sync.Mutex
		do := func(f func() error) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := f(); err != nil {
					mu.Lock()
					n.err = err
					mu.Unlock()
				}
			}()
		}
		do(func() error { return run(repoDir, "go", "build", "-o", n.bin, ".") })
		do(func() error {
			return run(filepath.Join(verifDir, "harness"), "go", "build", "-tags="+apiTag(api), "-modfile="+mod, "-o", n.replay, "./cmd/replay")
		})
		if clock {
			n.clocked = filepath.Join(dir, "gledger-clock")
			do(func() error { return buildClocked(dir, n.clocked) })
		}
		wg.Wait()
	}()
	return n
}

// buildClocked builds the program with a clock that can be set from the environment.
func buildClocked(dir, out string) error {
	rootb, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	src := filepath.Join(strings.TrimSpace(string(rootb)), "src/time/time.go")
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	i := bytes.Index(b, []byte("func Now() Time {"))
	if i < 0 {
		return fmt.Errorf("no time.Now in %s", src)
	}
	hook := "func Now() Time {\n\tif t, ok := verifNow(); ok {\n\t\treturn t\n\t}\n"
	nb := append([]byte{}, b[:i]...)
	nb = append(nb, hook...)
	nb = append(nb, b[i+len("func Now() Time {"):]...)
	nb = append(nb, `
func verifNow() (Time, bool) {
	s, ok := verifGetenv("VERIF_NOW")
	if !ok {
		return Time{}, false
	}
	var n int64
	neg := false
	for i := 0; i < len(s); i++ {
		if s[i] == '-' {
			neg = true
			continue
		}
		n = n*10 + int64(s[i]-'0')
	}
	if neg {
		n = -n
	}
	return Unix(n, 0), true
}
`...)
	extra := "package time\n\nimport \"syscall\"\n\nfunc verifGetenv(k string) (string, bool) { return syscall.Getenv(k) }\n"
	f1, f2 := filepath.Join(dir, "time_go.txt"), filepath.Join(dir, "verif_go.txt")
	if err := os.WriteFile(f1, nb, 0o644); err != nil {
		return err
	}
	if err := os.WriteFile(f2, []byte(extra), 0o644); err != nil {
		return err
	}
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{src: f1, filepath.Join(filepath.Dir(src), "verif_now.go"): f2}})
	f3 := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(f3, ov, 0o644); err != nil {
		return err
	}
	return run(repoDir, "go", "build", "-overlay", f3, "-o", out, ".")
}

type ReplayReq struct {
	Harness string
	Params  map[string]int64
	Values  map[string]uint64
}

type ReplayRes struct {
	Failures []string
	Crash    string
	Covers   []string
	Observed []string
}

func (n *native) run(reqs []ReplayReq) ([]ReplayRes, error) {
	n.once.Wait()
	if n.err != nil {
		return nil, n.err
	}
	scratch, err := os.MkdirTemp(n.dir, "scratch")
	if err != nil {
		return nil, err
	}
	in, _ := json.Marshal(reqs)
	c := exec.Command(n.replay, "-bin", n.bin, "-clocked", n.clocked, "-scratch", scratch)
	c.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Run(); err != nil {
		return nil, fmt.Errorf("replay: %v %s", err, errb.String())
	}
	var res []ReplayRes
	if err := json.Unmarshal(out.Bytes(), &res); err != nil {
		return nil, err
	}
	return res, nil
}

func main() {
	if v := os.Getenv("VERIF_REPO"); v != "" { // development only: another checkout
		repoDir = v
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: engine check ID TIER | try HARNESS k=v... | replay FILE | list")
		os.Exit(3)
	}
	code := 3
	func() {
		dir, err := os.MkdirTemp("", "verif-check-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
		defer os.RemoveAll(dir)
		switch os.Args[1] {
		case "check":
			tier := "quick"
			if len(os.Args) > 3 {
				tier = os.Args[3]
			}
			code = runCheck(dir, os.Args[2], tier)
		case "try":
			code = try(dir, os.Args[2], os.Args[3:])
		case "replay":
			code = replayFile(dir, os.Args[2])
		}
	}()
	os.Exit(code)
}

// apiTag is the build tag of the harnesses that call the packages of the repository.
func apiTag(api bool) string {
	if api {
		return "verifapi"
	}
	return ""
}

func apiHarness(name string) bool { return strings.HasPrefix(name, "Tree") || name == "Display" }

func harnessFn(p *Program, name string) *ssa.Function {
	for _, path := range []string{"verif/harness/h", "verif/harness/api"} {
		if pkg := p.prog.ImportedPackage(path); pkg != nil && pkg.Func(name) != nil {
			return pkg.Func(name)
		}
	}
	return nil
}

func try(dir, name string, args []string) int {
	mod, err := modfile(dir)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	params := map[string]int64{}
	workers, budget, samples, argv := 8, 60, 4, solverZ3
	clock := false
	for _, a := range args {
		k, v, _ := strings.Cut(a, "=")
		n, _ := strconv.ParseInt(v, 10, 64)
		switch k {
		case "workers":
			workers = int(n)
		case "budget":
			budget = int(n)
		case "samples":
			samples = int(n)
		case "clock":
			clock = true
		case "solver":
			if v == "cvc5" {
				argv = solver2
			} else {
				argv = []string{v, "-in"}
			}
		default:
			params[k] = n
		}
	}
	api := apiHarness(name)
	nat := buildNative(dir, mod, clock, api)
	p, err := loadProgram(filepath.Join(verifDir, "harness"), mod, api)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	pool := newPool(p, workers, argv, 20*time.Second)
	j := newJob(name, name, params)
	j.fn = harnessFn(p, name)
	if j.fn == nil {
		fmt.Println("no harness", name)
		return 3
	}
	j.maxSamples = samples
	j.budget = time.Duration(budget) * time.Second
	pool.add(task{j, nil})
	pool.run()
	fmt.Println(j.summary())
	var reqs []ReplayReq
	for _, v := range j.viols {
		reqs = append(reqs, ReplayReq{name, params, v.Values})
	}
	nv := len(reqs)
	for _, s := range j.samples {
		reqs = append(reqs, ReplayReq{name, params, s.Values})
	}
	res, err := nat.run(reqs)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	for i, r := range res {
		if i < nv {
			fmt.Printf("NATIVE %s -> %v %s\n", j.viols[i].Label, r.Failures, r.Crash)
			for k := 0; k+1 < len(r.Observed); k += 2 {
				fmt.Printf("   %s=%q\n", r.Observed[k], r.Observed[k+1])
			}
			continue
		}
		s := j.samples[i-nv]
		fmt.Println("SAMPLE", s.Values, "native:", conform(s, r))
		if os.Getenv("V") != "" {
			for _, o := range s.Obs {
				fmt.Printf("  %s=%q\n", o.Name, o.Val)
			}
		}
	}
	q, t := 0, time.Duration(0)
	var mx time.Duration
	for _, vm := range pool.vms {
		if vm != nil {
			q += vm.sol.Queries
			t += vm.sol.Time
			if vm.sol.MaxTime > mx {
				mx = vm.sol.MaxTime
			}
			for _, e := range vm.sol.ErrLines {
				fmt.Println("solver error:", e)
			}
			vm.sol.close()
		}
	}
	fmt.Println("queries", q, t, "max", mx)
	return 0
}

// conform compares a path's predicted observations with a native run of one of its inputs.
func conform(s PathSample, r ReplayRes) string {
	if len(r.Failures) > 0 {
		return "ASSERTION FAILS NATIVELY: " + strings.Join(r.Failures, "; ")
	}
	if r.Crash != "" {
		return "NATIVE CRASH: " + r.Crash
	}
	inexact := false
	for _, c := range s.Covers {
		if strings.HasPrefix(c, "inexact") {
			inexact = true
		}
	}
	for _, c := range r.Covers {
		if strings.HasPrefix(c, "native:") {
			return "MISMATCH: " + c
		}
	}
	if inexact {
		return "ok (inexact text)"
	}
	if len(r.Observed) != 2*len(s.Obs) {
		return fmt.Sprintf("MISMATCH: %d observations, natively %d", len(s.Obs), len(r.Observed)/2)
	}
	for i, o := range s.Obs {
		if r.Observed[2*i] != o.Name || r.Observed[2*i+1] != string([]rune(o.Val)) { // in JSON invalid bytes become U+FFFD
			return fmt.Sprintf("MISMATCH: %s machine %q native %q", o.Name, o.Val, r.Observed[2*i+1])
		}
	}
	return "ok"
}

func replayFile(dir, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var r struct {
		Request ReplayReq
		Clock   bool
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 3
	}
	mod, err := modfile(dir)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	res, err := buildNative(dir, mod, r.Clock, apiHarness(r.Request.Harness)).run([]ReplayReq{r.Request})
	if err != nil {
		fmt.Println(err)
		return 3
	}
	out, _ := json.MarshalIndent(res[0], "", " ")
	fmt.Println(string(out))
	if len(res[0].Failures) > 0 || res[0].Crash != "" {
		return 1
	}
	return 0
}

// known reads the findings that are recorded and not repaired.
func known() map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=ID key=HARNESS/LABEL/VALUES text
		if f, ok := strings.CutPrefix(l, "finding: "); ok {
			parts := strings.SplitN(f, " ", 3)
			if len(parts) == 3 {
				m[parts[0]+" "+parts[1]] = parts[2]
			}
		}
	}
	return m
}

func runCheck(dir, id, tier string) int {
	t0 := time.Now()
	var ck *Check
	for i := range checks {
		if checks[i].ID == id {
			ck = &checks[i]
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no check", id)
		return 3
	}
	mod, err := modfile(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	api, bounds := ck.API, ck.Bounds
	specs := ck.Quick
	if tier == "thorough" && len(ck.Deep) > 0 {
		specs = ck.Deep
	}
	if tier == "thorough" && ck.DeepBounds != "" {
		bounds = ck.DeepBounds
	}
	var nat *native
	if !api {
		nat = buildNative(dir, mod, ck.Clock, api)
	}
	p, err := loadProgram(filepath.Join(verifDir, "harness"), mod, api)
	if err != nil && api {
		// The exported functions that the harnesses call are no longer there: what can be seen of
		// the property from outside is still decided.
		fmt.Println("NOTE reduced to the harnesses of the whole program:", strings.SplitN(err.Error(), "\n", 2)[0])
		api, specs = false, ck.Fallback
		bounds = "REDUCED: " + ck.FallbackBounds
		p, err = loadProgram(filepath.Join(verifDir, "harness"), mod, api)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if nat == nil {
		nat = buildNative(dir, mod, ck.Clock, api)
	}
	loadT := time.Since(t0)
	limit := 480 * time.Second
	if tier == "thorough" {
		limit = 600 * time.Second
	}
	explore := func(specs []JobSpec, argv []string, qto time.Duration) (*Pool, []*Job, error) {
		pool := newPool(p, 8, argv, qto)
		pool.end = time.Now().Add(limit)
		var jobs []*Job
		for _, s := range specs {
			name := s.Harness
			var ks []string
			for k := range s.Params {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				name += fmt.Sprintf(" %s=%d", k, s.Params[k])
			}
			j := newJob(name, s.Harness, s.Params)
			j.fn = harnessFn(p, s.Harness)
			if j.fn == nil {
				return nil, nil, fmt.Errorf("no harness %s", s.Harness)
			}
			if s.Samples > 0 {
				j.maxSamples = s.Samples
			}
			b := s.Budget
			if b == 0 {
				b = 300
				if tier == "thorough" {
					b = 600
				}
			}
			j.budget = time.Duration(b) * time.Second
			jobs = append(jobs, j)
			pool.add(task{j, nil})
		}
		pool.run()
		return pool, jobs, nil
	}
	pool, jobs, err := explore(specs, solverZ3, 20*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	exploreT := time.Since(t0) - loadT
	// native replay of counterexamples and samples
	type item struct {
		job  *Job
		viol *Violation
		samp *PathSample
	}
	var items []item
	var reqs []ReplayReq
	for _, j := range jobs {
		for _, v := range j.viols {
			items = append(items, item{job: j, viol: v})
			reqs = append(reqs, ReplayReq{j.Harness, j.Params, v.Values})
		}
		for i := range j.samples {
			items = append(items, item{job: j, samp: &j.samples[i]})
			reqs = append(reqs, ReplayReq{j.Harness, j.Params, j.samples[i].Values})
		}
	}
	res, err := nat.run(reqs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	kn := known()
	seenKnown := map[string]bool{}
	violations, unconfirmed, validated := 0, 0, 0
	var mism, unconf []string
	var samples []any
	reported := map[string]bool{}
	replays := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(replays, 0o755)
	old, _ := filepath.Glob(filepath.Join(replays, id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	report := func(j *Job, label string, req ReplayReq, r ReplayRes) {
		key := "property=" + id + " key=" + strings.ReplaceAll(j.Harness+"/"+label, " ", "_")
		if txt, ok := kn[key]; ok {
			if !seenKnown[key] {
				seenKnown[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, txt)
			}
			return
		}
		violations++
		if reported[label] {
			return
		}
		reported[label] = true
		f := filepath.Join(replays, fmt.Sprintf("%s-%d.json", id, len(reported)))
		b, _ := json.MarshalIndent(map[string]any{"Property": id, "Label": label, "Job": j.Name, "Clock": ck.Clock, "Request": req, "Native": r}, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		fmt.Printf("  %s: %s\n", j.Name, label)
		for k := 0; k+1 < len(r.Observed) && k < 12; k += 2 {
			v := r.Observed[k+1]
			if len(v) > 400 {
				v = v[:400] + "..."
			}
			fmt.Printf("    %s=%q\n", r.Observed[k], v)
		}
	}
	for i, it := range items {
		r := res[i]
		if it.viol != nil {
			ok := r.Crash != ""
			for _, f := range r.Failures {
				if f == it.viol.Label {
					ok = true
				}
			}
			if !ok && len(r.Failures) > 0 {
				ok = true
			}
			if ok {
				report(it.job, it.viol.Label, reqs[i], r)
			} else {
				unconfirmed++
				unconf = append(unconf, fmt.Sprintf("%s: %s %v", it.job.Name, it.viol.Label, it.viol.Values))
			}
			continue
		}
		c := conform(*it.samp, r)
		switch {
		case strings.HasPrefix(c, "ok"):
			validated++
		case strings.HasPrefix(c, "ASSERTION"):
			report(it.job, r.Failures[0], reqs[i], r)
		case strings.HasPrefix(c, "NATIVE CRASH"):
			report(it.job, "crash: "+r.Crash, reqs[i], r)
		default:
			mism = append(mism, it.job.Name+": "+c)
		}
		if len(samples) < 8 {
			obs := map[string]string{}
			for _, o := range it.samp.Obs {
				v := o.Val
				if len(v) > 300 {
					v = v[:300] + "..."
				}
				obs[o.Name] = v
			}
			samples = append(samples, map[string]any{"job": it.job.Name, "one_input_of_the_path": it.samp.Values, "observed": obs, "native": c})
		}
	}
	// evidence
	st := map[string]int{}
	var solverT, maxQ time.Duration
	var errLines []string
	for _, vm := range pool.vms {
		if vm == nil {
			continue
		}
		st["queries"] += vm.sol.Queries
		st["sat"] += vm.sol.SatN
		st["unsat"] += vm.sol.UnsatN
		st["unknown"] += vm.sol.UnknownN
		solverT += vm.sol.Time
		if vm.sol.MaxTime > maxQ {
			maxQ = vm.sol.MaxTime
		}
		errLines = append(errLines, vm.sol.ErrLines...)
		vm.sol.close()
	}
	paths, infeas, inconcl, forks, asserts, trivial, disch := 0, 0, 0, 0, 0, 0, 0
	var steps uint64
	exhausted := true
	notes := map[string]int{}
	covers := map[string]int{}
	reached := map[string]bool{}
	var jobInfo []any
	for _, j := range jobs {
		paths += j.paths
		infeas += j.infeasible
		inconcl += j.inconcl
		forks += j.forks
		asserts += j.asserts
		trivial += j.trivial
		disch += j.discharged
		steps += j.steps
		if !j.exhausted() || j.inconcl > 0 {
			exhausted = false
		}
		for k, n := range j.notes {
			notes[k] += n
			if strings.Contains(k, "solver unknown") {
				exhausted = false
			}
		}
		for k, n := range j.covers {
			covers[k] += n
		}
		for k := range j.reached {
			reached[k] = true
		}
		jobInfo = append(jobInfo, map[string]any{"job": j.Name, "paths": j.paths, "unexplored_branches": j.unexplored.Load(),
			"inconclusive_paths": j.inconcl, "assertions": j.asserts, "discharged_by_solver": j.discharged,
			"seconds": round1(j.elapsed)})
	}
	fnBlocks := map[string]int{}
	for k := range reached {
		f, _, _ := strings.Cut(k, "#")
		fnBlocks[f]++
	}
	var fns []string
	for f, n := range fnBlocks {
		fns = append(fns, fmt.Sprintf("%s (%d/%d blocks)", f, n, p.blocksOf(f)))
	}
	sort.Strings(fns)
	var missing []string
	for _, c := range ck.Covers {
		if api != ck.API {
			break
		}
		if covers[c] == 0 {
			missing = append(missing, c)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states": paths + forks, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
		"paths": paths, "infeasible_branches": infeas, "inconclusive_paths": inconcl, "forks": forks,
		"assertions": asserts, "assertions_decided_by_rewriting": trivial, "assertions_discharged_by_solver": disch,
		"solver": strings.Join(solverZ3, " "), "queries": st, "solver_seconds": round1(solverT), "max_query_seconds": round1(maxQ),
		"functions_encoded": fns, "bounds": bounds, "outside_bounds": ck.Outside,
		"bound_exhausted": exhausted, "reductions": notes, "witnesses": covers, "witnesses_missing": missing,
		"conformance_mismatches": mism, "unconfirmed_counterexamples": unconf, "jobs": jobInfo,
		"load_seconds": round1(loadT), "explore_seconds": round1(exploreT),
	}
	if len(errLines) > 0 {
		cov["solver_errors"] = errLines
	}
	if tier == "thorough" {
		if limit = 120 * time.Second; time.Since(t0) > 640*time.Second {
			limit = 60 * time.Second
		}
		cov["second_solver"] = crossCheck(ck, explore)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"the models of fmt, os, log, sync, time.Now and strconv formatting in /verif/harness/model agree with the real functions (compared on every replayed path)",
			"the Go SSA form of golang.org/x/tools and the machine's instruction semantics agree with the compiler (compared on every replayed path)",
			"the SMT solver's verdicts are right",
			"a single goroutine; no memory exhaustion",
		},
		"wall_s": round1(time.Since(t0)), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, j := range jobs {
		fmt.Printf("# %s: %d paths, %d unexplored, %d inconclusive, %.1fs\n", j.Name, j.paths, j.unexplored.Load(), j.inconcl, j.elapsed.Seconds())
	}
	for k, n := range notes {
		fmt.Printf("# note x%d: %s\n", n, k)
	}
	for _, m := range mism {
		fmt.Println("# " + m)
	}
	for _, m := range unconf {
		fmt.Println("# unconfirmed: " + m)
	}
	for _, m := range missing {
		fmt.Println("# witness not reached: " + m)
	}
	fmt.Printf("# %s %s: %d paths, %d assertions (%d by solver), %d queries, solver %.1fs, validated %d, exhausted=%v, %.1fs\n",
		id, tier, paths, asserts, disch, st["queries"], solverT.Seconds(), validated, exhausted, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	if paths == 0 {
		fmt.Fprintln(os.Stderr, "no path could be completed")
		return 3
	}
	return 0
}

// crossCheck repeats the quick jobs with another solver and compares the verdicts.
func crossCheck(ck *Check, explore func([]JobSpec, []string, time.Duration) (*Pool, []*Job, error)) any {
	specs := append([]JobSpec(nil), ck.Quick...)
	for i := range specs {
		specs[i].Budget = 100
	}
	_, a, err := explore(specs, solverZ3, 20*time.Second)
	if err != nil {
		return err.Error()
	}
	p2, b, err := explore(specs, solver2, 60*time.Second)
	if err != nil {
		return err.Error()
	}
	q := 0
	for _, vm := range p2.vms {
		if vm != nil {
			q += vm.sol.Queries
			vm.sol.close()
		}
	}
	var diff []string
	n := 0
	for i := range a {
		if !a[i].exhausted() || !b[i].exhausted() {
			continue
		}
		n++
		if a[i].paths != b[i].paths || len(a[i].violN) != len(b[i].violN) {
			diff = append(diff, fmt.Sprintf("%s: %d/%d paths, %d/%d violations", a[i].Name, a[i].paths, b[i].paths, len(a[i].violN), len(b[i].violN)))
		}
	}
	return map[string]any{"solver": strings.Join(solver2, " "), "queries": q, "jobs_compared": n, "disagreements": diff}
}

func round1(d time.Duration) float64 { return float64(d.Milliseconds()/10) / 100 }

func (p *Program) blocksOf(name string) int {
	n := 0
	p.cache.Range(func(k, v any) bool {
		c := v.(*CFunc)
		if c.name == name {
			n = len(c.blockPC)
			return false
		}
		return true
	})
	return n
}
