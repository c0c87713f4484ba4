package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const (
	exitHung  = 3 // a run did not end
	exitError = 4 // the simulator itself failed
	runLimit  = 30 * time.Second
)

// workerResult is what a worker has covered, except its sets.
type workerResult struct {
	Acc    *Acc
	Failed int // index of the failing run; -1: none
	Class  string
}

// worker executes the runs first, first+stride, ... below count, until one
// violates the property or the parent lowers the limit.
func worker(prop string, seed, first, stride, count int, out string) {
	var limit, current, began atomic.Int64
	limit.Store(int64(count))
	current.Store(-1)
	go func() {
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			var n int64
			if _, err := fmt.Sscanf(sc.Text(), "LIMIT %d", &n); err == nil {
				limit.Store(n)
			}
		}
		os.Exit(5) // the parent is gone
	}()
	go func() {
		for range time.Tick(time.Second) {
			if i := current.Load(); i >= 0 && time.Now().UnixNano()-began.Load() > int64(runLimit) {
				os.Exit(exitHung)
			}
		}
	}()
	progress, err := os.Create(out + ".index")
	if err != nil {
		die(exitError, "%v", err)
	}
	known := knownFindings(prop)
	acc := newAcc()
	res := workerResult{Acc: acc, Failed: -1}
	var buf [8]byte
	for i := first; int64(i) < limit.Load(); i += stride {
		binary.LittleEndian.PutUint64(buf[:], uint64(i))
		if _, err := progress.WriteAt(buf[:], 0); err != nil {
			die(exitError, "%v", err)
		}
		began.Store(time.Now().UnixNano())
		current.Store(int64(i))
		v, _ := execute(prop, seedSrc(runSeed(prop, seed, i)), false, acc)
		current.Store(-1)
		if v == nil {
			continue
		}
		if _, ok := known[v.class]; ok {
			acc.Known[v.class]++
			continue
		}
		res.Failed, res.Class = i, v.class
		fmt.Printf("FAIL %d\n", i)
		break
	}
	writeSet(out+".sigs", acc.Sigs)
	writeSet(out+".states", acc.States)
	acc.Sigs, acc.States = nil, nil
	j, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(out+".json", j, 0o644)
	}
	if err != nil {
		die(exitError, "%v", err)
	}
	os.Exit(0)
}

func writeSet(name string, set map[uint64]struct{}) {
	f, err := os.Create(name)
	if err != nil {
		die(exitError, "%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<16)
	var b [8]byte
	for x := range set {
		binary.LittleEndian.PutUint64(b[:], x)
		w.Write(b[:])
	}
	if err := w.Flush(); err != nil {
		die(exitError, "%v", err)
	}
	if err := f.Close(); err != nil {
		die(exitError, "%v", err)
	}
}

// countSets counts the distinct members of the workers' sets; capped says that
// a worker stopped counting, so that the number is a lower bound.
func countSets(names []string) (n int, capped bool) {
	var all []uint64
	for _, name := range names {
		b, err := os.ReadFile(name)
		if err != nil {
			die(2, "%v", err)
		}
		if len(b)/8 >= setCap {
			capped = true
		}
		for i := 0; i+8 <= len(b); i += 8 {
			all = append(all, binary.LittleEndian.Uint64(b[i:]))
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	for i, x := range all {
		if i == 0 || x != all[i-1] {
			n++
		}
	}
	return n, capped
}

// replayFile is everything needed to execute a failing run again.
type replayFile struct {
	Property string   `json:"property"`
	Seed     int      `json:"seed"`
	Index    int      `json:"index"`
	RunSeed  string   `json:"run_seed"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Original int      `json:"choices_before_minimisation"`
	Tried    int      `json:"minimisation_runs"`
	Choices  []uint32 `json:"choices"`             // the minimised schedule and fault plan
	Fatal    bool     `json:"fatal,omitempty"`     // the process dies; executed from the seed
	First    int      `json:"first_run,omitempty"` // with stride: the runs First, First+Stride, ...
	Stride   int      `json:"stride,omitempty"`    // up to Index are executed in one process
	Output   string   `json:"output,omitempty"`    // what the dying process printed
	Trace    []string `json:"trace"`
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		die(2, "%v", err)
	}
	return p
}

func envInt(name string, def int) int {
	if s := os.Getenv(name); s != "" {
		return atoi(s)
	}
	return def
}

func writeJSON(name string, v interface{}) {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	err := enc.Encode(v)
	if err == nil {
		err = os.MkdirAll(filepath.Dir(name), 0o755)
	}
	if err == nil {
		err = os.WriteFile(name+".tmp", b.Bytes(), 0o644)
	}
	if err == nil {
		err = os.Rename(name+".tmp", name)
	}
	if err != nil {
		die(2, "%v", err)
	}
}

type workerProc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	err   *strings.Builder
	out   string
	state error
}

func check(prop string) int {
	start := time.Now()
	sc := scenarios[prop]
	seed := envInt("VERIF_SEED", 1)
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	count, wallCap := sc.quick, 200*time.Second
	switch tier {
	case "quick":
	case "thorough":
		count, wallCap = sc.thorough, 700*time.Second
	default:
		die(2, "VERIF_TIER=%q", tier)
	}
	count = envInt("VERIF_RUNS", count)
	dir, err := os.MkdirTemp(os.Getenv("VERIF_BUILD"), "work-")
	if err != nil {
		die(2, "%v", err)
	}
	defer os.RemoveAll(dir)

	nw := runtime.NumCPU()
	if nw > 16 {
		nw = 16
	}
	nw = envInt("VERIF_WORKERS", nw)
	var mu sync.Mutex
	limit, stopped := count, false
	procs := make([]*workerProc, nw)
	setLimit := func(n int) { // mu is held
		if n >= limit {
			return
		}
		limit = n
		for _, p := range procs {
			if p != nil {
				fmt.Fprintf(p.in, "LIMIT %d\n", n)
			}
		}
	}
	var wg sync.WaitGroup
	mu.Lock()
	for i := range procs {
		p := &workerProc{err: &strings.Builder{}, out: filepath.Join(dir, fmt.Sprintf("w%d", i))}
		p.cmd = exec.Command(self(), "worker", prop, fmt.Sprint(seed), fmt.Sprint(i), fmt.Sprint(nw), fmt.Sprint(count), p.out)
		p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		p.cmd.Stderr = p.err
		p.in, err = p.cmd.StdinPipe()
		if err != nil {
			die(2, "%v", err)
		}
		stdout, err := p.cmd.StdoutPipe()
		if err != nil {
			die(2, "%v", err)
		}
		if err := p.cmd.Start(); err != nil {
			die(2, "%v", err)
		}
		procs[i] = p
		wg.Add(1)
		go func() {
			defer wg.Done()
			lines := bufio.NewScanner(stdout)
			for lines.Scan() {
				var n int
				if _, err := fmt.Sscanf(lines.Text(), "FAIL %d", &n); err == nil {
					mu.Lock()
					setLimit(n)
					mu.Unlock()
				}
			}
			p.state = p.cmd.Wait()
			if p.state != nil {
				if n, ok := readIndex(p.out); ok {
					mu.Lock()
					setLimit(n)
					mu.Unlock()
				}
			}
		}()
	}
	mu.Unlock()
	timer := time.AfterFunc(wallCap, func() {
		mu.Lock()
		stopped = true
		setLimit(0)
		mu.Unlock()
	})
	wg.Wait()
	timer.Stop()

	// merge
	total := newAcc()
	var sigFiles, stateFiles []string
	bestIdx, bestClass := -1, ""
	better := func(i int) bool { return bestIdx < 0 || i < bestIdx }
	var dead *workerProc
	for _, p := range procs {
		if p.state != nil {
			if code := p.cmd.ProcessState.ExitCode(); code == exitError || code == 5 {
				die(2, "worker failed: %v\n%s", p.state, p.err)
			}
			i, ok := readIndex(p.out)
			if !ok {
				die(2, "worker died before its first run: %v\n%s", p.state, p.err)
			}
			if better(i) {
				bestIdx, bestClass, dead = i, "fatal", p
			}
			continue
		}
		b, err := os.ReadFile(p.out + ".json")
		if err != nil {
			die(2, "%v", err)
		}
		var res workerResult
		if err := json.Unmarshal(b, &res); err != nil {
			die(2, "%v", err)
		}
		total.add(res.Acc)
		sigFiles = append(sigFiles, p.out+".sigs")
		stateFiles = append(stateFiles, p.out+".states")
		if res.Failed >= 0 && better(res.Failed) {
			bestIdx, bestClass, dead = res.Failed, res.Class, nil
		}
	}
	search := time.Since(start)

	var replayPath string
	violations := 0
	if bestIdx >= 0 {
		rf := &replayFile{Property: prop, Seed: seed, Index: bestIdx, RunSeed: fmt.Sprintf("%016x", runSeed(prop, seed, bestIdx)), Class: bestClass}
		replayPath = filepath.Join(outDir(), "replays", fmt.Sprintf("%s-s%d-i%d.json", prop, seed, bestIdx))
		if dead != nil {
			confirmFatal(rf, dead)
		} else {
			minimise(rf, dir, shrinkRuns)
		}
		writeJSON(replayPath, rf)
		out, err := exec.Command(self(), "replay", replayPath).CombinedOutput()
		if exitCode(err) != 1 && dead == nil { // as it was found
			rf.Index = bestIdx
			minimise(rf, dir, 0)
			writeJSON(replayPath, rf)
			out, err = exec.Command(self(), "replay", replayPath).CombinedOutput()
		}
		if exitCode(err) != 1 && dead == nil {
			// The failure needs state that the runs before it have left in the
			// process: the execution is the whole sequence.
			rf.Index, rf.RunSeed = bestIdx, fmt.Sprintf("%016x", runSeed(prop, seed, bestIdx))
			rf.Choices, rf.Original, rf.First, rf.Stride = nil, 0, bestIdx%nw, nw
			rf.Class, rf.Message = bestClass, "the run fails in the process that has executed the runs before it"
			rf.Trace = []string{rf.Message}
			writeJSON(replayPath, rf)
			out, err = exec.Command(self(), "replay", replayPath).CombinedOutput()
		}
		if exitCode(err) != 1 {
			die(2, "%s does not reproduce:\n%s", replayPath, out)
		}
		violations = 1
		fmt.Printf("%s: %s\nseed %d, run %d (run seed %s), %d choices minimised to %d\n",
			rf.Class, rf.Message, seed, rf.Index, rf.RunSeed, rf.Original, len(rf.Choices))
		for _, l := range rf.Trace {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
	}

	sigs, sigsCapped := countSets(sigFiles)
	states, statesCapped := countSets(stateFiles)
	var samples []interface{}
	if violations == 0 {
		samples = sampleRuns(prop, seed, count)
	} else {
		samples = []interface{}{map[string]interface{}{"replay": replayPath}}
	}
	hours := search.Hours()
	cov := map[string]interface{}{
		"evaluations":              total.Runs,
		"distinct_nontrivial":      sigs,
		"rule":                     sc.rule,
		"samples":                  samples,
		"nontrivial_runs":          total.Nontrivial,
		"oracle_evaluations":       total.Evals,
		"seeds_per_hour":           int64(float64(total.Runs) / hours),
		"simulated_seconds":        float64(total.SimNanos) / 1e9,
		"simulated_s_per_wall_s":   float64(total.SimNanos) / 1e9 / search.Seconds(),
		"faults_injected":          total.Faults,
		"task_preemptions":         total.Preempts,
		"library_statements":       total.Steps,
		"choices_drawn":            total.Choices,
		"distinct_abstract_states": states,
		"counts_are_lower_bounds":  sigsCapped || statesCapped,
		"stopped_by_time_limit":    stopped,
		"workers":                  nw,
		"components_real":          append([]string{"the library, every package as built from its working tree"}, sc.real...),
		"components_simulated":     append([]string{"clock, task scheduler, random numbers of the runtime", "log15 (discards)"}, sc.stub...),
	}
	if len(total.Known) > 0 {
		cov["known_findings_hit"] = total.Known
	}
	writeJSON(filepath.Join(outDir(), "evidence", prop+".json"), map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": sc.assume,
		"wall_s": time.Since(start).Seconds(), "violations": violations,
	})
	what := knownFindings(prop)
	for class := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what[class])
	}
	if violations > 0 {
		return 1
	}
	if total.Runs == 0 || sigs == 0 {
		die(2, "nothing was explored")
	}
	fmt.Printf("%s held: %d runs, %d distinct non-trivial, %d oracle evaluations, %.1f s\n",
		prop, total.Runs, sigs, total.Evals, time.Since(start).Seconds())
	return 0
}

func (a *Acc) add(b *Acc) {
	a.Runs += b.Runs
	a.Nontrivial += b.Nontrivial
	a.Evals += b.Evals
	a.Steps += b.Steps
	a.Preempts += b.Preempts
	a.Crashes += b.Crashes
	a.SimNanos += b.SimNanos
	a.Choices += b.Choices
	for k, n := range b.Faults {
		a.Faults[k] += n
	}
	for k, n := range b.Known {
		a.Known[k] += n
	}
}

func readIndex(out string) (int, bool) {
	b, err := os.ReadFile(out + ".index")
	if err != nil || len(b) != 8 {
		return 0, false
	}
	return int(binary.LittleEndian.Uint64(b)), true
}

func exitCode(err error) int {
	if err == nil {
		return 0
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode()
	}
	return -1
}

func tail(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// confirmFatal executes the run in which a worker died on its own; a death
// that does not happen again is a failure of the check, not of the property.
func confirmFatal(rf *replayFile, dead *workerProc) {
	code := dead.cmd.ProcessState.ExitCode()
	again, out := runAlone(rf.Property, rf.Seed, rf.Index)
	if again != code {
		die(2, "worker died in run %d (exit %d), but not when it was repeated (exit %d)\n%s", rf.Index, code, again, dead.err)
	}
	rf.Fatal = true
	rf.Class = "fatal"
	rf.Message = "the process dies"
	if code == exitHung {
		rf.Class, rf.Message = "hang", "the library does not return"
	}
	rf.Output = tail(out, 2000)
	rf.Trace = []string{rf.Message}
}

func runAlone(prop string, seed, index int) (int, string) {
	code, out, _ := runSequence(prop, seed, index, 1, index)
	return code, out
}

// runSequence executes the runs first, first+stride, ... up to last in a
// process of their own and returns its result.
func runSequence(prop string, seed, first, stride, last int) (int, string, *workerResult) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_BUILD"), "alone-")
	if err != nil {
		die(2, "%v", err)
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(self(), "worker", prop, fmt.Sprint(seed), fmt.Sprint(first), fmt.Sprint(stride), fmt.Sprint(last+1), filepath.Join(dir, "w"))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	in, err := cmd.StdinPipe()
	if err != nil {
		die(2, "%v", err)
	}
	defer in.Close()
	out, err := cmd.CombinedOutput()
	res := &workerResult{Failed: -1}
	if b, err := os.ReadFile(filepath.Join(dir, "w.json")); err == nil {
		if err := json.Unmarshal(b, res); err != nil {
			die(2, "%v", err)
		}
	}
	return exitCode(err), string(out), res
}

// minimise shrinks the failing run in a process of its own and falls back to
// the run as it was found.
func minimise(rf *replayFile, dir string, runs int) {
	out := filepath.Join(dir, fmt.Sprintf("shrunk%d.json", runs))
	cmd := exec.Command(self(), "shrink", rf.Property, fmt.Sprint(rf.Seed), fmt.Sprint(rf.Index), out, fmt.Sprint(runs))
	msg, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(out)
	if rerr != nil {
		if exitCode(err) != exitError {
			die(2, "minimising run %d: %v\n%s", rf.Index, err, msg)
		}
		return
	}
	if err := json.Unmarshal(b, rf); err != nil {
		die(2, "%v", err)
	}
}

// sampleRuns writes out some of the runs.
func sampleRuns(prop string, seed, count int) []interface{} {
	installHooks()
	var out []interface{}
	for i := 0; i < count && i < 200 && len(out) < 3; i++ {
		_, r := execute(prop, seedSrc(runSeed(prop, seed, i)), true, newAcc())
		if r.nfaults+r.npreempt+r.ncrash == 0 {
			continue
		}
		tr := r.trace
		if len(tr) > 40 {
			tr = append(append([]string(nil), tr[:40]...), fmt.Sprintf("... %d more lines", len(tr)-40))
		}
		for k, l := range tr {
			if len(l) > 300 {
				tr[k] = l[:300] + "..."
			}
		}
		out = append(out, map[string]interface{}{"index": i, "run_seed": fmt.Sprintf("%016x", runSeed(prop, seed, i)), "trace": tr})
	}
	return out
}
